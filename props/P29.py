from . import testset


def units(tier):
    return testset.units_()


harness = dict(src='P29.cpp', repo=[], libs=[],
               bins=[('test-set-extractor', ['extras/pwned-test-set-extractor/test-set-extractor.cpp', 'pwned-lib/passwordinspector.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp'],
                      ['boost_program_options', 'boost_filesystem', 'boost_system'])])
assumptions = ['PasswordHashAndCount::read and dump and PasswordInspector are used by their contracts, which P08 and P01 prove',
               'mt19937_64 yields arbitrary numbers', 'the hash file does not change while the tool runs; the output is not full']
