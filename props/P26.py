from .server import *
from . import server, servermain


def units(tier):
    return server.units(tier) + servermain.units_()

harness = dict(src='P26.cpp', repo=['pwned-server/httpworker.cpp', 'pwned-server/uri.cpp', 'pwned-lib/passwordinspector.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp'], libs=['boost_program_options', 'boost_filesystem', 'boost_system', 'crypto', 'pthread'], limit=300)

assumptions = ['asio calls the handler of each operation once, on the executor bound to it or else that of its socket or timer, and a strand does not run two handlers at once; a started operation may end with any error',
               'asio, beast (parsing and serializing HTTP), boost::optional, property_tree and boost::replace_all behave by their documented contracts; std::to_string of a finite number is a JSON number (C locale)',
               'the hash parameter consists of 32 hex digits (other parameters are answered, with what is not specified)',
               'the log function ends and does not touch the worker; the clock of the timer stays below 2^62 ns',
               'std::thread runs the function given; std::list, std::vector and boost::program_options by their contracts; a negative number of threads ends the server with an error',
           'exceptions are not followed: functions of which asio documents that they throw must not be called; exceptions for lack of memory are left out',
               'the URI parser (P17), the search (P01, P03) and the text of a hash (P07) are used by their contracts; that a search does not throw for a readable file is P01']
