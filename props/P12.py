from .reader import *


def units(tier):
    return [NextHash()]


harness = dict(src='P12.cpp', repo=['pwned-lib/userpasswordreader.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp'])

assumptions = ['std::string members by their contracts over sequences of bytes (irv/lib.py)',
               'MD5() of OpenSSL is an uninterpreted function of the bytes given to it',
               'std::regex_match decides the language of the pattern in the source (ECMAScript grammar, turned into automata)',
               'nextPassword, decodeHex and hexToCharSeq are used by their contracts, which P11 and P14 prove']
