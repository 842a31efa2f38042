from .inspector import *


def units(tier):
    return [SmartSearch(True), SmartSearch(False), BinSearch(True), BinSearch(False)]


harness = dict(src='P05.cpp', repo=['pwned-lib/hash.cpp', 'pwned-lib/util.cpp', 'pwned-lib/passwordinspector.cpp'], libs=['boost_filesystem', 'boost_system'])

assumptions = ['the hash file consists of whole 20-byte records, strictly ascending (the precondition of the property); it does not change while it is read, and reads of bytes it has succeed',
               'file streams by their contracts (irv/lib.py): seekg clears eof, a read of n bytes delivers the n bytes at the position, or what is left and sets eof and fail',
               'double arithmetic is IEEE 754 rounding to nearest (bounded exactly, irv/fp.py)']
