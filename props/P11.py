from .reader import *


def units(tier):
    return [Extract(), Next(), Eof()]


harness = dict(src='P11.cpp', repo=['pwned-lib/userpasswordreader.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp'])

assumptions = ['std::string members by their contracts over sequences of bytes (irv/lib.py)',
               'std::getline delivers the next line without its line feed; characters of a line are arbitrary bytes']
