from .uri import *


def units(tier):
    return [Target()]


harness = dict(src='P17.cpp', repo=['pwned-server/uri.cpp'])

assumptions = ['std::string members by their contracts over sequences of bytes (irv/lib.py)',
               'std::map by its contract: a function from keys to values (irv/cont.py)']
