from .inspector import *


def units(tier):
    return [BinSearch(True, True), BinSearch(False, True),
            OpenIndexed(False, range(1, 30)), OpenIndexed(False, range(30, 58)), OpenIndexed(True, range(1, 30)), OpenIndexed(True, range(30, 58))]


harness = dict(src='P03.cpp', repo=['pwned-lib/hash.cpp', 'pwned-lib/util.cpp', 'pwned-lib/passwordinspector.cpp'], libs=['boost_filesystem', 'boost_system'])

assumptions = ['the hash file consists of whole 20-byte records, strictly ascending (the precondition of the property); it does not change while it is read, and reads of bytes it has succeed',
               'file streams by their contracts (irv/lib.py): seekg clears eof, a read of n bytes delivers the n bytes at the position, or what is left and sets eof and fail',
               'the index is the one P04 proves the indexer writes for this hash file (key widths 1 to 57)']
