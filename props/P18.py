from .uri import *


def units(tier):
    return [Parse()]


harness = dict(src='P18.cpp', repo=['pwned-server/uri.cpp'])

assumptions = ['std::string members by their contracts over sequences of bytes (irv/lib.py)',
               'std::regex_match decides the language of the pattern in the source (ECMAScript grammar, turned into automata) and yields the submatches the grammar determines',
               'the URI is short enough for the recursive matcher of libstdc++ (the recorded finding)']
