from .markovcount import count_units


def units(tier):
    return count_units()


harness = dict(src='P15.cpp', repo=[], limit=200)

assumptions = ['std::unordered_map is a function from keys to values, iterating visits every key exactly once (irv/umap.py); std::vector and std::sort by their contracts',
               'boost::locale::conv::utf_to_utf yields a sequence of symbols that depends on the text only',
               'counts fit 64 bits',
               'floating-point operations are functions of their operands (the property states the operations, and on which counts)',
               'the symbol type is one for which == and std::hash agree']
