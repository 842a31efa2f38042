from .markovfile import file_units


def units(tier):
    return file_units()


harness = dict(src='P16.cpp', repo=[], limit=200)

assumptions = ['std::unordered_map/std::vector as in P15; fewer than 2^32 symbols',
               'file streams by their contracts (irv/lib.py): seekg clears eof, a read of n bytes delivers the n bytes at the position, or what is left and sets eof and fail',
               'a double is an 8-byte token: it is stored and loaded bit by bit',
               'the model is not empty, and loading is asked to clear the model first (doClear, the default)']
