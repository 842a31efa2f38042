from . import markovtools


def units(tier):
    return markovtools.units_()


GEN, LOOK = 'extras/pwned-markov-generator/pwned-markov-generator.cpp', 'extras/pwned-markov-lookup/pwned-markov-lookup.cpp'
LIB = ['pwned-lib/userpasswordreader.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp']
harness = dict(src='P28.cpp', repo=LIB, libs=['boost_locale', 'util'],
               bins=[('markov-generator', [GEN] + LIB, ['boost_program_options', 'boost_filesystem', 'boost_locale', 'boost_system']),
                     ('markov-lookup', [LOOK] + LIB, ['boost_locale', 'boost_system'])])
assumptions = ['UserPasswordReader and Chain are used by their contracts: one entry of the input after the other (P11, P13); training counts (P14), '
               'update computes the probabilities (P15), a model is written and read back (P16), a damaged model is refused (P17), the probability of a text (P20)',
               'utf_to_utf is a function of the text', 'the texts of the progress lines and of the JSON output are not modelled', 'the output is not full']
