from .extractor import units_


def units(tier):
    return units_()


harness = dict(src='P27.cpp', repo=['pwned-lib/userpasswordreader.cpp', 'pwned-lib/util.cpp', 'pwned-lib/hash.cpp'], libs=['bz2'], limit=200,
               bins=[('pwned-password-extractor', ['extras/pwned-password-extractor/pwned-password-extractor.cpp', 'pwned-lib/userpasswordreader.cpp', 'pwned-lib/util.cpp', 'pwned-lib/hash.cpp'],
                      ['boost_program_options', 'boost_filesystem', 'boost_system', 'bz2'])])
assumptions = ['UserPasswordReader is used by its contract, which P11 and P13 prove: each call of nextPassword yields the next entry of the list or sets bad',
               'boost::program_options, boost::filesystem (the iterator visits every entry below the directory once), std::map and libbz2 by their contracts: what BZ2_bzWrite was given is in the file once BZ2_bzWriteClose succeeded',
               'fwrite and fclose to the output succeed (the tool does not look at their results); the lists and .ready do not change while the tool runs',
               'the names of lists contain no newline']
