from .reader import *


def units(tier):
    return [GuessSeparator(), Check('checkForMD5Hashes', 'fmd5'), Check('checkForHexEncodedPasswords', 'fhex'), Construct()]


harness = dict(src='P13.cpp', repo=['pwned-lib/userpasswordreader.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp'])

assumptions = ['std::string members by their contracts over sequences of bytes (irv/lib.py)',
               'std::getline delivers the next line without its line feed',
               'std::regex_match decides the language of the pattern in the source; std::unordered_map/std::map by their contracts (irv/umap.py)']
