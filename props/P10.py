from .merger import merge_units
from .mergermain import main_units


def units(tier):
    return merge_units() + main_units()


harness = dict(src='P10.cpp', repo=['pwned-merger-cli/mergeoperation.cpp', 'pwned-lib/operation.cpp', 'pwned-lib/operationexception.cpp', 'pwned-lib/uuid.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp'],
               libs=['boost_filesystem', 'boost_system'], limit=200,
               bins=[('pwned-merger-cli', ['pwned-merger-cli/pwned-merger-cli.cpp', 'pwned-merger-cli/mergeoperation.cpp', 'pwned-lib/operation.cpp', 'pwned-lib/operationexception.cpp', 'pwned-lib/uuid.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp'],
                      ['boost_program_options', 'boost_filesystem', 'boost_system'])])

assumptions = ['every input is ascending and consists of whole records (a hash may occur in several inputs, and several times in one)',
               'file streams by their contracts (irv/lib.py): seekg clears eof, a read of n bytes delivers the n bytes at the position, or what is left and sets eof and fail',
               'sums of counts fit 32 bits',
               'std::vector and std::sort/erase by their contracts (irv/seq.py): sort yields a permutation ordered by the comparison',
               'the output file can be written and is not among the inputs, names made by unique_path are new, the iterator over the source directory visits every entry once, and the queue carries out the operation that was added unless it is cancelled (P25)']
