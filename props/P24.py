from .markov import DRAWS


def units(tier):
    return DRAWS


assumptions = ['random() yields a number in [0, 1), evenly distributed (std::uniform_real_distribution)',
               'probabilities are not negative and not NaN']
harness = dict(src='P24.cpp', repo=[], limit=200)
