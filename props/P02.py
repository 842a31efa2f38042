from .inspector import *


def units(tier):
    # every lookup starts in an arbitrary state of the streams and keeps the representation invariant
    return [BinSearch(True), BinSearch(False), BinSearch(True, True), BinSearch(False, True), Lookup(True), Lookup(False),
            SmartSearch(True), SmartSearch(False)]


harness = dict(src='P02.cpp', repo=['pwned-lib/hash.cpp', 'pwned-lib/util.cpp', 'pwned-lib/passwordinspector.cpp'], libs=['boost_filesystem', 'boost_system'])

assumptions = ['the hash file consists of whole 20-byte records, strictly ascending (the precondition of the property); it does not change while it is read, and reads of bytes it has succeed',
               'file streams by their contracts (irv/lib.py): seekg clears eof, a read of n bytes delivers the n bytes at the position, or what is left and sets eof and fail',
               'the reader is in an arbitrary state that its own functions can leave it in (stream opened, arbitrary position and state bits)']
