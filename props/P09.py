from .converter import convert_units
from .convertermain import main_units


def units(tier):
    return convert_units() + main_units()


LIB = ['pwned-lib/operation.cpp', 'pwned-lib/operationexception.cpp', 'pwned-lib/uuid.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp', 'pwned-lib/userpasswordreader.cpp']
harness = dict(src='P09.cpp', repo=['pwned-converter-cli/convertoperation.cpp'] + LIB,
               libs=['boost_filesystem', 'boost_system', 'util'], limit=200,
               bins=[('pwned-converter-cli', ['pwned-converter-cli/pwned-converter-cli.cpp', 'pwned-converter-cli/convertoperation.cpp'] + LIB,
                      ['boost_program_options', 'boost_filesystem', 'boost_system'])])

assumptions = ['the list has fewer than 2^30 entries and fewer than 2^30 files are in the way, and no hash occurs 2^32 times or more',
               'UserPasswordReader hands out the entries of the list one by one (proved in P11, P12 and P13) and its stream does not fail while it is read',
               'std::map<Hash, uint32_t, HashLess> is a map in ascending order and std::sort yields an ascending permutation under the order proved in P06',
               'the operation is not cancelled and the output directory can be written',
               'the iterator over the source directory visits every entry once, and the queue carries out every operation that was added unless it is cancelled (P25)']
