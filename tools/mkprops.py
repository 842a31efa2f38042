#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe: a['observe_at'] = [observe]
    a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

L = 'pwned-lib/'
p('P01', 'Looking up a hash in a sorted hash file is exact',
  'For every well-formed hash:count file sorted by hash and every hash, an (unindexed) lookup returns the stored hash and count if the hash is in the file, and a count of 0 if it is not. '
  'The lookup always terminates and never writes to the file. Looking up a password is looking up its MD5 hash.',
  ['inputs'], 'every sorted file of complete 20-byte records (including the empty one), every 128-bit hash, every password',
  'The tests look up 10000 present and 10000 absent hashes in one fixed 10000-record file; files of other lengths, boundary positions and hashes outside the range of the file are not reached.',
  [L+'passwordinspector.cpp', L+'passwordinspector.hpp', L+'passwordhashandcount.hpp', L+'hash.hpp'],
  [('binary search over byte offsets', 'PasswordInspector::binsearch'), ('password lookup', 'PasswordInspector::lookup'),
   ('positional record read', 'PasswordHashAndCount::read(istream&, streamoff)'), ('hash order', 'operator<, operator> on Hash')],
  [('mFileSize', 'size of the hash file in bytes')], 'result of lookup/binsearch')
p('P02', 'Lookups do not depend on earlier lookups',
  'A reader of a hash file answers every lookup in every sequence of lookups exactly as a freshly opened reader would, whichever hashes (present, absent, smaller or greater than all records) were looked up before and whichever search strategies were mixed. '
  'No earlier lookup can make a later one fail, report a stale count or hang.',
  ['histories', 'inputs'], 'every finite sequence of lookups of any hashes, by any of the lookup functions, on one reader over any sorted file',
  'The tests only iterate over hashes inside the range of the file, so the stream state an out-of-range lookup leaves behind is never met by a following lookup.',
  [L+'passwordinspector.cpp', L+'hash.hpp', L+'passwordhashandcount.hpp'],
  [('stream state reset before a positional read', 'Hash::read(istream&, streamoff), PasswordHashAndCount::read(istream&, streamoff)'),
   ('binary search', 'PasswordInspector::binsearch'), ('smart search', 'PasswordInspector::smart_binsearch')],
  [('mInputFile', 'stream whose position and error flags persist between lookups'), ('mIndexFile', 'same, for the index')], 'results of a sequence of lookups')
p('P03', 'A lookup through an index gives the same answer as one without',
  'For every sorted hash file and the index built from it with any supported key width, a lookup that uses the index returns the same count as one without the index. '
  'It terminates for every hash, including hashes whose key, or all keys below or above it, are missing from the file.',
  ['inputs', 'configurations'], 'every sorted hash file, every index key width from 1 to 63 bits, every hash',
  'The tests never open an index at all.',
  [L+'passwordinspector.cpp', L+'util.cpp'],
  [('walk to the neighbouring populated index entries', 'PasswordInspector::binsearch'),
   ('key width from the size of the index', 'PasswordInspector::open(string, string)'), ('population count', 'popcnt64')],
  [('mIndexFile', 'array of 64-bit offsets, all ones where the key is absent'), ('mShift', '64 minus the key width')], 'result of binsearch on a reader with index')
p('P04', 'The index built for a hash file is exact',
  'For every sorted hash file and key width, the index file has one 64-bit entry for every possible key. '
  'The entry of a key that occurs in the file is the byte offset of the first record with this key, every other entry has all bits set (for an empty file, entry 0 may be 0).',
  ['inputs', 'configurations'], 'every sorted hash file, every key width from 1 to 63 bits (as far as memory allows)',
  'There is no test of the indexer.',
  ['pwned-index/index.cpp', L+'passwordhashandcount.hpp'],
  [('single scan that records offsets of first records', 'main of pwned-index'), ('sequential record read', 'PasswordHashAndCount::read(istream&)')],
  [('indexes', 'offset per key'), ('lastIdx', 'key of the previous record')], 'bytes of the index file')
p('P05', 'The interpolating search gives the same answer as the plain one',
  'For every sorted hash file and every hash, the interpolating ("smart") lookup terminates and returns the same hash and count as the plain binary search. '
  'It reports at least as many file reads as the plain search needed.',
  ['inputs'], 'every sorted hash file (including the empty one and files of very few records), every hash',
  'The tests try the smart search only with the fixed 10000-record file.',
  [L+'passwordinspector.cpp', L+'hash.hpp'],
  [('interpolated start and widening window', 'PasswordInspector::smart_binsearch'), ('final search', 'PasswordInspector::binsearch')],
  None, 'result and read count of smart_binsearch')
p('P06', 'Hashes are ordered and compared as 128-bit numbers',
  'The comparison operators on hashes agree with each other and with the numeric order of the 128-bit value: <, <=, >, >= form one total order, and among hashes of equal validity exactly one of <, ==, > holds and != is the negation of ==. '
  'Copying or assigning a hash yields an equal hash.',
  ['inputs'], 'all pairs of 128-bit hashes, valid or not',
  'The tests compare a handful of pairs that differ in one half only.',
  [L+'hash.hpp', L+'hash.cpp', L+'passwordhashandcount.hpp'],
  [('comparison operators', 'operator==, !=, <, <=, >, >= on Hash'), ('comparison functors', 'HashLess, PasswordHashAndCountLess, operator== on PasswordHashAndCount'), ('copying', 'Hash copy constructor and operator=')],
  [('quad', 'upper and lower 64 bits')], 'results of the operators')
p('P07', 'Text form and binary form of a hash correspond',
  'Parsing a text yields a valid hash exactly when the text consists of 32 hexadecimal digits of either case, and the hash then is the 128-bit number these digits spell. '
  'Printing a hash yields the 32 digits (lower or upper case as asked) that parse back to it, and the hash of a password prints as its MD5 digest.',
  ['inputs'], 'all strings, all 128-bit hashes, all passwords',
  'The tests parse and print a few fixed hashes.',
  [L+'hash.cpp', L+'hash.hpp', L+'util.cpp'],
  [('parser', 'Hash::fromHex'), ('printer', 'Hash::toString and operator<<'), ('digit decoding', 'decodeHex'), ('byte order', 'Hash::toHostByteOrder'), ('MD5', 'Hash::Hash(string)')],
  [('isValid', 'whether the hash holds a value')], 'toString/fromHex results')
p('P08', 'Hash:count records survive writing and reading',
  'A record occupies exactly 20 bytes (upper 8 bytes, lower 8 bytes, 4 bytes of count, each little-endian), and reading what was written, in sequence or at a given position, returns the same hash and count and advances by one record. '
  'Reading reports success exactly if a complete record was available at that position.',
  ['inputs'], 'all hashes and counts, all byte files of any length, all positions, any previous state of the stream',
  'The tests read records from one well-formed file and never hit a truncated record or a position outside the file.',
  [L+'passwordhashandcount.hpp', L+'hash.hpp'],
  [('record reading', 'PasswordHashAndCount::read'), ('record writing', 'PasswordHashAndCount::dump'), ('hash reading', 'Hash::read')],
  None, 'bytes of the file; fields and return value after read')
p('P09', 'Converting a password list keeps every password and its multiplicity',
  'Converting a list of passwords writes files in which the hashes of each file strictly ascend, and in which the counts of a hash, summed over all files written for that list, equal the number of entries of the list that have this hash. '
  'This holds for every memory limit (that is, however the output is split), and no existing file is overwritten. '
  'The converter does this for every list it is given by name or finds in the directory it is given, with the evaluation options it is given, also if many lists, with the same name in different directories, are converted at the same time.',
  ['inputs', 'configurations', 'schedules'], 'all input files, all memory limits, all evaluation options, any number of lists, destination directories with or without colliding file names',
  'There is no test of the converter.',
  ['pwned-converter-cli/convertoperation.cpp', 'pwned-converter-cli/pwned-converter-cli.cpp', L+'userpasswordreader.cpp', L+'passwordhashandcount.hpp'],
  [('counting, sorting, splitting and writing', 'ConvertOperation::execute'), ('choice of a free output file name', 'ConvertOperation::execute'), ('one operation for each list', 'main of pwned-converter-cli'), ('record writing', 'PasswordHashAndCount::dump')],
  [('passwordCountSet', 'occurrences per hash in the current chunk')], 'files in the destination directory')
p('P10', 'Merging hash files adds up the counts and loses nothing',
  'Merging any number of sorted hash files writes a file with strictly ascending hashes in which the count of every hash is the sum of its counts over all inputs, and which contains no hash that is in no input. '
  'This also holds if some inputs are empty, and for every limit on the number of files merged at once. The merger does this for all files it is given by name or finds in the directory it is given, and leaves the inputs as they are.',
  ['inputs', 'configurations'], 'all finite sets of sorted hash files (with or without duplicate hashes inside a file), any limit on the files at once',
  'There is no test of the merger.',
  ['pwned-merger-cli/mergeoperation.cpp', 'pwned-merger-cli/mergerinput.hpp', 'pwned-merger-cli/pwned-merger-cli.cpp', L+'passwordhashandcount.hpp'],
  [('k-way merge', 'MergeOperation::execute'), ('taking the smallest record', 'MergeOperation::next'), ('queue order', 'SmallestHashFirst'), ('input buffering', 'MergerInput::open/read'), ('merging in several passes', 'main of pwned-merger-cli')],
  [('pq', 'inputs that still have a current record'), ('current', 'hash and count being accumulated')], 'bytes of the merged file')
p('P11', 'The password is taken from a line by the first separator',
  'With a separator in use, the password of a line is everything after the first separator, or the whole line if it has none; without one it is the whole line; carriage returns are dropped. '
  'Lines longer than 200 characters and empty lines give no password; every other line gives exactly one, so no line is skipped or returned twice.',
  ['inputs', 'histories'], 'all lines, all separators, all input streams and positions in them',
  'The tests read a few fixed lines.',
  [L+'userpasswordreader.cpp'],
  [('password extraction', 'UserPasswordReader::extractPassword'), ('line iteration', 'UserPasswordReader::nextPassword')],
  [('guessedSeparator', 'separator in use, NUL for none')], 'sequence of passwords returned by a reader')
p('P12', 'Encoded passwords are evaluated to the right hash',
  'If evaluation of MD5 hashes is on and a password consists of 32 hex digits, its hash is the one these digits spell; otherwise, if evaluation of hex-encoded passwords is on and the password is $HEX[...] around an even, positive number of hex digits, its hash is the MD5 of the decoded bytes; in every other case it is the MD5 of the password itself. '
  'Every line with a non-empty password yields a valid hash, every other line an invalid one.',
  ['inputs', 'configurations'], 'all passwords and all combinations of the evaluation options',
  'The tests evaluate a few well-formed samples; malformed encodings and mixtures are not reached.',
  [L+'userpasswordreader.cpp', L+'util.cpp', L+'hash.cpp'],
  [('choice of the evaluation', 'UserPasswordReader::nextPasswordHash'), ('hex decoding', 'hexToCharSeq'), ('MD5 text parsing', 'Hash::fromHex')],
  [('forceEvaluateMD5Hashes', 'MD5 evaluation is on'), ('forceEvaluateHexEncodedPasswords', 'hex evaluation is on')], 'hash returned per line')
p('P13', 'Guessing the format of a list loses nothing and picks the best separator',
  'The separator chosen for a list is the one of colon, semicolon, tab and blank that occurs in the largest number of the first 500 lines (none if none occurs). '
  'Guessing the separator and the encodings leaves the reader at the beginning of the list, so that every line of the list is still delivered, and an evaluation the caller forced stays forced.',
  ['inputs', 'configurations'], 'all lists of any length (shorter or longer than the sample), all options',
  'The tests use small fixed lists with a clear separator.',
  [L+'userpasswordreader.cpp'],
  [('separator guess', 'UserPasswordReader::guessSeparator'), ('encoding checks', 'UserPasswordReader::checkForMD5Hashes, checkForHexEncodedPasswords'), ('rewinding', 'clear and seekg at the end of each check')],
  [('guessedSeparator', 'chosen separator')], 'passwords delivered by a new reader')
p('P14', 'Hex decoding and bit counting are exact',
  'Decoding a hex digit yields its value, and any other character is reported as not a digit; decoding a text of pairs of hex digits yields exactly the bytes they spell, and a text of even length with any other character is reported as undecodable. '
  'The population count of a 64-bit number is the number of its bits that are set.',
  ['inputs'], 'all characters, all strings, all 64-bit numbers',
  'The tests sample some strings and numbers.',
  [L+'util.cpp'],
  [('digit decoding', 'decodeHex'), ('text decoding', 'hexToCharSeq'), ('bit counting', 'popcnt64')], None, 'results of the functions')
p('P15', 'Markov probabilities are the observed relative frequencies',
  'After training and updating, the probability of a first symbol is its number of occurrences divided by the number of trained words, and the probability of a transition is its number of occurrences divided by the number of transitions observed from the same symbol. '
  'The total probability of a word is the product of the probability of its first symbol and of its transitions, 0 if any of them was never seen, and negative for the empty word.',
  ['inputs', 'histories'], 'all sequences of training words and updates, all queried words',
  'The tests train with a few words and query seen transitions only.',
  [L+'markovchain.hpp', L+'markovnode.hpp'],
  [('counting', 'Chain::train, addFirst, addPair, Node::increment'), ('normalising', 'Chain::update, Node::update'), ('word probability', 'Chain::totalProbability, Node::probability')],
  [('mCounts', 'observed transitions'), ('mFirstSymbolCounts', 'observed first symbols')], 'probabilities returned')
p('P16', 'A saved Markov model loads back unchanged and damage is reported',
  'Loading what was saved yields a model with the same first-symbol and transition probabilities. '
  'Loading any strict prefix of a saved model, data with another header or version, or an unreadable stream reports an error, and every error code has its own text.',
  ['inputs', 'fault_sequences'], 'all trained models, all truncation points, all corrupted headers and versions',
  'The tests save and load one model and check with assertions that are compiled out.',
  [L+'markovchain.hpp', L+'markovnode.hpp'],
  [('writer', 'Chain::saveBinary'), ('reader', 'Chain::loadBinary'), ('error texts', 'Chain::errString')],
  None, 'return code of loading and probabilities after loading')
p('P17', 'Request targets are split into path, parameters and fragment correctly',
  'For every request target, the path is the part before the first question mark, the parameters are the name=value pairs separated by ampersands between it and the next question mark or number sign, and the fragment is everything behind the first number sign after that question mark. '
  'Pieces that are not of the form name=value are ignored, of several parameters with the same name the last one counts, nothing of an earlier target remains, and no target makes the parser fail.',
  ['inputs'], 'all strings',
  'The tests only cover full URIs, never request targets.',
  ['pwned-server/uri.cpp', 'pwned-server/uri.hpp'],
  [('target splitting', 'URI::parseTarget'), ('use', 'HttpWorker::sendResponse')], [('mQuery', 'parameters')], 'path, query and fragment')
p('P18', 'URIs are judged and taken apart correctly',
  'A URI is a scheme (lower-case letters, digits, +.-), a colon, then either // with optional credentials and @, a host, an optional port and an optional path that starts with a slash, or a path without host, or nothing; then optionally ? with parameters and # with a fragment, all in the characters that RFC 3986 allows there, others percent-encoded. '
  'A well-formed URI is reported as valid and its scheme, credentials, host, port (or the default port of its scheme), path, parameters and fragment are those written in it; text that is not a URI is reported as invalid. '
  'A URI is also invalid if its credentials are not name:password, one of its parameters is not name=value, or its port does not fit; no text makes the parser throw, and nothing of a URI parsed earlier remains.',
  ['inputs'], 'all strings',
  'The tests parse a dozen valid URIs and never ask whether the result is valid.',
  ['pwned-server/uri.cpp', 'pwned-server/uri.hpp'],
  [('parsing', 'URI::parse')], [('mIsValid', 'verdict')], 'accessors after parsing')
p('P19', 'Terminal modes are switched exactly as asked',
  'Switching terminal echo or break handling on or off changes exactly the flags concerned and leaves every other terminal setting as it was. '
  'The terminal settings found when a terminal guard was created are restored when it goes away.',
  ['inputs'], 'all initial terminal settings, all sequences of switches',
  'There is no test; terminals are absent in the test environment.',
  [L+'util.cpp', L+'util.hpp'],
  [('echo', 'setStdinEcho, TermIO::enableEcho, TermIO::disableEcho'), ('break', 'TermIO::enableBreak, TermIO::disableBreak'), ('restoring', 'TermIO::TermIO, TermIO::~TermIO')],
  [('old_t', 'settings to restore')], 'terminal attributes set')
p('P20', 'Converting an old big-endian file converts every record once',
  'Converting a big-endian hash:count file writes exactly one record for every complete input record, in the same order, with the bytes of each half of the hash reversed and the count unchanged. '
  'Converting the result again gives back the original.',
  ['inputs'], 'all input files of any length',
  'There is no test of this tool.',
  ['deprecated/be2le/be2le.cpp', L+'hash.hpp', L+'passwordhashandcount.hpp'],
  [('conversion loop', 'main of be2le'), ('byte order', 'Hash::toHostByteOrder')], None, 'bytes of the output file')
p('P21', 'The text form of a UUID shows all of its 128 bits',
  'A UUID prints as 8-4-4-4-12 upper-case hex digits which spell its 128 bits in order, so that different UUIDs have different texts. '
  'Two UUIDs are equal exactly if all 128 bits are.',
  ['inputs'], 'all 128-bit values',
  'There is no test of UUIDs.',
  [L+'uuid.cpp', L+'uuid.hpp'],
  [('printing', 'operator<<(ostream&, UUID const&)'), ('comparison', 'UUID::operator==')], None, 'text printed')
p('P22', 'Sizes and durations are displayed correctly',
  'A size is displayed in the largest unit (TB, GB, MB, KB) it exceeds, with one decimal, and in bytes otherwise. '
  'A duration (below 2^31 seconds) of a minute or more, rounded to whole seconds, is displayed as days, hours, minutes and seconds that add up to it, with hours below 24 and minutes and seconds below 60, starting with the largest unit that is not zero; a shorter one in seconds with four decimals.',
  ['inputs'], 'all 64-bit sizes, all non-negative durations below 2^31 days',
  'The tests sample a few sizes and durations and miss the boundaries.',
  [L+'util.cpp'],
  [('size display', 'readableSize'), ('duration display', 'readableTime'), ('formatting', 'string_format')], None, 'text returned')
p('P23', 'Interactive lookup reports the count of the line typed',
  'For every line entered, the lookup tool prints the MD5 hash of the whole line (blanks included) and whether and how often it is in the hash file, in the order of the lines, and it stops at the end of the input. '
  'The echo of the terminal is off while a line is read and on again afterwards.',
  ['inputs', 'histories'], 'all sequences of lines, all sorted hash files, with and without index',
  'There is no test of the tool.',
  ['pwned-lookup-cli/pwned-lookup-cli.cpp', L+'passwordinspector.cpp', L+'util.cpp'],
  [('query loop', 'main of pwned-lookup-cli')], None, 'output of the tool')
p('P24', 'Random Markov symbols are drawn according to their probabilities',
  'For a random number p in [0,1), the symbol drawn is the one whose cumulated probability interval contains p, so that every symbol is drawn with its own probability and symbols of probability 0 never. '
  'If rounding leaves p above the sum of all probabilities, or there are no symbols, the result is the NUL symbol.',
  ['inputs'], 'all models, all random numbers',
  'There is no test of random generation.',
  [L+'markovchain.hpp', L+'markovnode.hpp'],
  [('drawing', 'Chain::randomFirstSymbol, Node::randomSuccessor')], None, 'symbol returned for a given random number')
p('P25', 'Every queued operation runs exactly once and is waited for',
  'Every operation added to a queue before the queue is executed is run exactly once unless the queue is cancelled, and freed exactly once, only after it ran. '
  'Operations are given to threads in the order of their priority, the highest first, and never more of them run at a time than there are processors; no permit to run is lost. '
  'Waiting for the queue, after all operations are scheduled, returns only when all have finished, and then the queue can be used again. '
  'An operation waiting because of a pause goes on when the queue is resumed or cancelled, in whichever order pausing, waiting and resuming happen. '
  'Cancelling ends the wait: operations not yet scheduled are not run but freed, and cancelling a single operation returns only when it does not run any more. '
  'A semaphore never grants more permits than it has and wakes a waiter for each permit that becomes free.',
  ['schedules', 'histories'], 'all interleavings of the scheduling thread, the worker threads and pause, resume and cancel requests, with no bound on the number of operations and threads',
  'There is no test of the queue, and a test could only sample schedules.',
  [L+'operationqueue.hpp', L+'operation.cpp', L+'semaphore.hpp'],
  [('scheduling', 'OperationQueue::execute'), ('limiting', 'Semaphore'), ('waiting', 'OperationQueue::waitForFinished'), ('cancelling', 'Operation::cancel, OperationQueue::cancel')],
  [('unscheduledOps', 'operations not started'), ('runningOps', 'operations running')], 'which operations ran, and when waiting returned')
p('P26', 'The web service answers a hash query with the stored count',
  'A GET request for the lookup path with a hash parameter of 32 hex digits is answered with status 200 and a JSON object with this hash and the count stored for it, a GET request for the info path with the number of records; GET requests for other paths are answered with status 404 and requests of other methods with status 400. '
  'A worker answers one request of each connection. Clients that fail, leave at any moment or take too long do not stop the service: whatever the outcome of an operation, every worker goes on to accept the next connection, to which nothing of the one before (time, input) is counted. '
  'The service listens at the host and port of the address it is given, with as many workers as asked for (or a default number if that is less than one), each of which uses the path of the address, the hash file and the index file given, and runs them in as many threads as asked for besides the first.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'], 'all requests, all sequences of connections, connection failures and timeouts, all numbers of workers and threads, all addresses',
  'The web server is not built and not tested here.',
  ['pwned-server/httpworker.cpp', 'pwned-server/pwned-server.cpp', 'pwned-server/uri.cpp'],
  [('request handling', 'HttpWorker::processRequest, sendResponse, sendBadResponse'), ('connection handling', 'HttpWorker::accept, readRequest, checkTimeout'), ('set-up', 'HttpWorker::HttpWorker'), ('address, workers and threads', 'main of pwned-server')], None, 'HTTP responses, and whether the service goes on')
p('P27', 'Extracting passwords writes every password of every list once',
  'For every list (file ending in .txt) below the directory given that can be read and is not noted in .ready as done (or all, if notes are to be ignored), the password extractor writes each non-empty password that the list holds, as it is in the list, once and on a line of its own, in the order of the list, and nothing else; with and without compression, whatever the length of the passwords. '
  'A list is noted in .ready only after its last password was written, and the notes of earlier runs are kept unless they are ignored. An error of the compressor is not taken for success, and the extractor ends.',
  ['inputs', 'configurations', 'histories'], 'all directories of lists, all lists, all contents of .ready, with and without compression',
  'There is no test of the tool.',
  ['extras/pwned-password-extractor/pwned-password-extractor.cpp', L+'userpasswordreader.cpp'],
  [('extraction', 'main of pwned-password-extractor')], [('alreadyProcessed', 'lists noted in .ready')], 'output of the tool and .ready')
p('P28', 'The Markov tools learn every password and answer every line once',
  'A successful run of the Markov generator has learned every non-empty password that the password reader finds in the input once, computed the probabilities from all of them, and written that model, and nothing else, to the output, whatever the output held before; it fails if the input cannot be read or the output not be opened, and it ends. '
  'The Markov lookup answers each line typed, up to the first empty line or the end of the input, once and in order with the probability of the whole line under the model of the file given; the echo of the terminal is off while a line is read and on when it is answered and at the end. Without an intact model it fails without reading a line.',
  ['inputs', 'configurations'], 'all inputs, options and model files, all sequences of lines',
  'There is no test of the tools.',
  ['extras/pwned-markov-generator/pwned-markov-generator.cpp', 'extras/pwned-markov-lookup/pwned-markov-lookup.cpp'],
  [('training', 'main of pwned-markov-generator'), ('answers', 'main of pwned-markov-lookup')], None, 'output of the tools, the model file, echo of the terminal')
p('P29', 'A test set holds records of the hash file, or hashes not in it, as asked for',
  'For every hash file and every positive number N, the test set extractor writes min(N, number of records) records of the file, none twice, in the order of the file and each with its count; with --non-existent it tries N hashes and writes exactly those of them that the file does not hold, with count 0. With --test-urls a line with the prefix given and the hash is written for each of them instead. '
  'It replaces what the output held, ends, and fails if N is not positive or the hash file or the output cannot be opened.',
  ['inputs', 'configurations'], 'all hash files (including ones with an incomplete last record), all numbers and options',
  'There is no test of the tool.',
  ['extras/pwned-test-set-extractor/test-set-extractor.cpp', L+'passwordinspector.cpp', L+'passwordhashandcount.hpp'],
  [('selection', 'main of pwned-test-set-extractor')], None, 'output of the tool')
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
