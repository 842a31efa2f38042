from .inspector import *


def units(tier):
    return [BinSearch(True), BinSearch(False), Lookup(True), Lookup(False), Open(False), Open(True), Size()]


harness = dict(src='P01.cpp', repo=['pwned-lib/hash.cpp', 'pwned-lib/util.cpp', 'pwned-lib/passwordinspector.cpp'], libs=['boost_filesystem', 'boost_system'])

assumptions = ['the hash file consists of whole 20-byte records, strictly ascending (the precondition of the property); it does not change while it is read, and reads of bytes it has succeed',
               'file streams by their contracts (irv/lib.py): seekg clears eof, a read of n bytes delivers the n bytes at the position, or what is left and sets eof and fail',
               'MD5() of OpenSSL is an uninterpreted function of the bytes given to it',
               'boost::filesystem::file_size is the length of the file; the file has fewer than 2^63 bytes']
