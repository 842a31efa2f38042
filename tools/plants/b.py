RD = ['pwned-lib/userpasswordreader.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp']
OPS = ['pwned-lib/operation.cpp', 'pwned-lib/operationexception.cpp', 'pwned-lib/uuid.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp']
plant('p01-lookup-nul', 'P01',
      [('pwned-lib/passwordinspector.cpp', '  return binsearch(pwned::Hash(pwd));', '  return binsearch(pwned::Hash(pwd.c_str()));')],
      'a password that contains a NUL byte',
      'the lookup of a password with a NUL byte looks up the hash of the part before it',
      HDR + r'''
#include "pwned-lib/passwordinspector.hpp"
int main()
{
  const std::string pwd("ab\0cd", 5);
  pwned::Hash h(pwd);
  { std::ofstream a("a", std::ios::binary); rec(a, h.quad.upper, h.quad.lower, 77); }
  pwned::PasswordInspector p(std::string("a"));
  CHECK(p.binsearch(h).count == 77);
  CHECK(p.lookup(pwd).count == 77);
  return 0;
}
''', PI, PIL)
plant('p01-size-32', 'P01',
      [('pwned-lib/passwordinspector.cpp', '    std::streamoff pos = std::streamoff((uint64_t(lo) + uint64_t(hi)) / 2);', '    std::streamoff pos = std::streamoff((uint32_t(lo) + uint32_t(hi)) / 2);')],
      'a hash file of more than 2 GB (lo + hi exceeds 32 bits)',
      'the middle of the interval is computed with 32 bits and wraps around: records in the upper part are not found or the search never ends',
      HDR + r'''
#include "pwned-lib/passwordinspector.hpp"
#include <unistd.h>
#include <fcntl.h>
// the records the search reads on its way to the last record, everything else a hole (zero) except these
int main()
{
  const long long n = 150000000LL;  // records, 3 GB (sparse)
  int f = open("a", O_CREAT | O_RDWR, 0600);
  if (ftruncate(f, n * 20) != 0) return 0;
  long long lo = 0, hi = n * 20;
  while (lo <= hi) {
    long long pos = (lo + hi) / 2; pos -= pos % 20;
    unsigned long long u = pos / 20 + 1, l = 1; unsigned c = 5;
    if (pos / 20 < n) { if (pwrite(f, &u, 8, pos) + pwrite(f, &l, 8, pos + 8) + pwrite(f, &c, 4, pos + 16) != 20) return 0; }
    lo = pos + 20;
  }
  unsigned long long u = n, l = 1; unsigned c = 99;
  if (pwrite(f, &u, 8, (n - 1) * 20) + pwrite(f, &l, 8, (n - 1) * 20 + 8) + pwrite(f, &c, 4, (n - 1) * 20 + 16) != 20) return 0;
  close(f);
  alarm(20);
  pwned::PasswordInspector p(std::string("a"));
  CHECK(p.binsearch(pwned::Hash(n, 1)).count == 99);
  return 0;
}
''', PI, PIL)
plant('p05-walk-down', 'P05',
      [('pwned-lib/passwordinspector.cpp', '  while (hash < h0 && lo >= loOffset)', '  while (hash < h0)')],
      'a hash smaller than every record of the file (interpolating lookup)',
      'the walk towards the beginning never ends',
      HDR + r'''
#include "pwned-lib/passwordinspector.hpp"
#include <unistd.h>
int main()
{
  { std::ofstream a("a", std::ios::binary); for (unsigned long long i = 1; i < 9; ++i) rec(a, i << 59, i, 10 + i); }
  pwned::PasswordInspector p(std::string("a"));
  alarm(20);
  CHECK(p.smart_binsearch(pwned::Hash(1, 1)).count == 0);
  CHECK(p.smart_binsearch(pwned::Hash(3ull << 59, 3)).count == 13);
  return 0;
}
''', PI, PIL)
plant('p05-read-count', 'P05',
      [('pwned-lib/passwordinspector.cpp', '  int nBinSearchReads = 0;\n  const PasswordHashAndCount &phc = binsearch(hash, &nBinSearchReads);',
        '  int nBinSearchReads = 0;\n  PasswordHashAndCount phc;\n  if (h1 == hash && hi < mFileSize)\n    phc.read(mInputFile, hi);\n  else\n    phc = binsearch(hash, &nBinSearchReads);')],
      'a hash that equals the upper bound the interpolation arrives at',
      'the short cut for a direct hit compares validity as well and, where it applies, reports fewer reads than the plain search; the hash it returns is taken from the file unchecked',
      HDR + r'''
#include "pwned-lib/passwordinspector.hpp"
#include <unistd.h>
int main()
{
  { std::ofstream a("a", std::ios::binary); for (unsigned long long i = 1; i < 5000; ++i) rec(a, i << 51, i, 10 + i); }
  pwned::PasswordInspector p(std::string("a"));
  alarm(60);
  for (unsigned long long i = 1; i < 5000; ++i) {
    pwned::Hash h(i << 51, i);
    h.isValid = false;
    int a = 0, b = 0;
    CHECK(p.binsearch(h, &a).count == 10 + i);
    CHECK(p.smart_binsearch(h, &b).count == 10 + i);
    CHECK(b >= a);
  }
  return 0;
}
''', PI, PIL)
plant('p09-empty-chunk', 'P09',
      [('pwned-converter-cli/convertoperation.cpp', '      continue;\n    }\n    std::vector<pwned::PasswordHashAndCount> passwordList;', '      break;\n    }\n    std::vector<pwned::PasswordHashAndCount> passwordList;')],
      'a memory limit so small (or a run of empty or overlong lines so long) that all lines of one part of the list yield no password',
      'everything after a part without passwords is lost',
      HDR + r'''
#include "pwned-lib/userpasswordreader.hpp"
#include "pwned-converter-cli/convertoperation.hpp"
#include "pwned-lib/passwordhashandcount.hpp"
#include <boost/filesystem.hpp>
namespace fs = boost::filesystem;
int main()
{
  { std::ofstream a("list.txt"); a << "one\n"; for (int i = 0; i < 50; ++i) a << "\n"; a << "two\n"; }
  fs::create_directory("out");
  std::cout.setstate(std::ios::failbit);
  ConvertOperation op("list.txt", "out", ".md5", 200, std::vector<pwned::UserPasswordReaderOptions>());
  op.execute();
  unsigned one = 0, two = 0;
  for (auto &&f : fs::directory_iterator("out")) {
    std::ifstream i(f.path().string(), std::ios::binary);
    pwned::PasswordHashAndCount r;
    while (r.read(i)) {
      pwned::Hash a("one"), b("two");
      if (r.hash.quad.upper == a.quad.upper) one += r.count;
      if (r.hash.quad.upper == b.quad.upper) two += r.count;
    }
  }
  CHECK(one == 1 && two == 1);
  return 0;
}
''', ['pwned-converter-cli/convertoperation.cpp', 'pwned-lib/userpasswordreader.cpp'] + OPS, '-lboost_filesystem -lboost_system')
plant('p09-count-16', 'P09',
      [('pwned-converter-cli/convertoperation.cpp', '    std::map<pwned::Hash, uint32_t, pwned::HashLess> passwordCountSet;', '    std::map<pwned::Hash, uint16_t, pwned::HashLess> passwordCountSet;')],
      'a password that occurs more than 65535 times',
      'the count wraps around',
      HDR + r'''
#include "pwned-lib/userpasswordreader.hpp"
#include "pwned-converter-cli/convertoperation.hpp"
#include "pwned-lib/passwordhashandcount.hpp"
#include <boost/filesystem.hpp>
namespace fs = boost::filesystem;
int main()
{
  { std::ofstream a("list.txt"); for (int i = 0; i < 65537; ++i) a << "one\n"; a << "two\n"; }
  fs::create_directory("out");
  std::cout.setstate(std::ios::failbit);
  ConvertOperation op("list.txt", "out", ".md5", 1 << 30, std::vector<pwned::UserPasswordReaderOptions>());
  op.execute();
  unsigned one = 0;
  for (auto &&f : fs::directory_iterator("out")) {
    std::ifstream i(f.path().string(), std::ios::binary);
    pwned::PasswordHashAndCount r;
    pwned::Hash a("one");
    while (r.read(i))
      if (r.hash.quad.upper == a.quad.upper) one += r.count;
  }
  CHECK(one == 65537);
  return 0;
}
''', ['pwned-converter-cli/convertoperation.cpp', 'pwned-lib/userpasswordreader.cpp'] + OPS, '-lboost_filesystem -lboost_system')
MERGE = HDR + r'''
#include "pwned-merger-cli/mergeoperation.hpp"
#include "pwned-lib/passwordhashandcount.hpp"
#include <map>
#include <unistd.h>
typedef std::map<std::pair<unsigned long long, unsigned long long>, unsigned> M;
static int merged(std::vector<M> in, bool rm = false)
{
  M sum;
  std::vector<merger::InputFile> fs;
  for (size_t i = 0; i < in.size(); ++i) {
    std::string n = "in" + std::to_string(i);
    { std::ofstream o(n, std::ios::binary); for (auto &e : in[i]) { rec(o, e.first.first, e.first.second, e.second); sum[e.first] += e.second; } }
    fs.push_back(merger::InputFile(n));
  }
  std::cout.setstate(std::ios::failbit);
  { merger::MergeOperation op(fs, "out", rm, nullptr); op.execute(); }
  std::ifstream o("out", std::ios::binary);
  pwned::PasswordHashAndCount r;
  auto it = sum.begin();
  while (r.read(o)) {
    CHECK(it != sum.end());
    CHECK(r.hash.quad.upper == it->first.first && r.hash.quad.lower == it->first.second && r.count == it->second);
    ++it;
  }
  CHECK(it == sum.end());
  return 0;
}
'''
MSRC = ['pwned-merger-cli/mergeoperation.cpp'] + OPS
plant('p10-upper-only', 'P10',
      [('pwned-merger-cli/mergeoperation.cpp', '    return lhs->phc.hash > rhs->phc.hash;', '    return lhs->phc.hash.quad.upper > rhs->phc.hash.quad.upper;')],
      'two inputs that hold different hashes with the same upper half',
      'such hashes are written out of order, and split into several records',
      MERGE + r'''
int main()
{
  alarm(20);
  for (unsigned seed = 1; seed < 50; ++seed) {
    srand(seed);
    std::vector<M> in(4);
    for (auto &m : in) for (int i = 0; i < 5; ++i) m[{7, rand() % 9}] = 1 + rand() % 5;
    if (merged(in)) return 1;
  }
  return 0;
}
''', MSRC, '-lboost_filesystem -lboost_system')
plant('p10-open-limit', 'P10',
      [('pwned-merger-cli/mergerinput.hpp', '    isValid = phc.read(f);', '    isValid = phc.read(f) && phc.count > 0;')],
      'an input with a record whose count is 0',
      'the rest of the input behind a record with count 0 is lost',
      MERGE + r'''
int main()
{
  alarm(20);
  return merged({{{{1, 5}, 1}, {{2, 9}, 0}, {{3, 3}, 3}}, {{{2, 9}, 4}}});
}
''', MSRC, '-lboost_filesystem -lboost_system')
plant('p11-leading-separator', 'P11',
      [('pwned-lib/userpasswordreader.cpp', '    return (pos == std::string::npos)\n', '    return (pos == std::string::npos || pos == 0)\n')],
      'a line that starts with the separator (empty user name)',
      'the separator becomes part of the password',
      HDR + r'''
#include "pwned-lib/userpasswordreader.hpp"
int main()
{
  std::istringstream i("a:b\nc:d\n:secret\ne:f:g\n");
  pwned::UserPasswordReader r(i, {});
  CHECK(r.nextPassword() == "b");
  CHECK(r.nextPassword() == "d");
  CHECK(r.nextPassword() == "secret");
  CHECK(r.nextPassword() == "f:g");
  return 0;
}
''', RD)
plant('p11-two-crs', 'P11',
      [('pwned-lib/userpasswordreader.cpp', '  std::string line = _line;\n  line.erase(std::remove(line.begin(), line.end(), \'\\r\'), line.end());', '  std::string line = _line;\n  if (!line.empty() && line.back() == \'\\r\')\n    line.pop_back();')],
      'a line with a carriage return that is not the last character, or with two of them',
      'such carriage returns stay in the password',
      HDR + r'''
#include "pwned-lib/userpasswordreader.hpp"
int main()
{
  std::istringstream i("a:b\r\nc:d\r\r\ne:\rf\r\n");
  pwned::UserPasswordReader r(i, {});
  CHECK(r.nextPassword() == "b");
  CHECK(r.nextPassword() == "d");
  CHECK(r.nextPassword() == "f");
  return 0;
}
''', RD)
plant('p12-partial-hash', 'P12',
      [('pwned-lib/userpasswordreader.cpp', '    if (std::regex_match(pwd, match, MD5Regex))', '    if (std::regex_search(pwd, match, MD5Regex))')],
      'evaluation of MD5 hashes is on and a longer password contains 32 hex digits in a row',
      'the digits inside the password are taken for its hash',
      HDR + r'''
#include "pwned-lib/userpasswordreader.hpp"
int main()
{
  const std::string p = "x-0123456789abcdef0123456789ABCDEF";
  std::istringstream i("u:" + p + "\nv:0123456789abcdef0123456789ABCDEF\n");
  pwned::UserPasswordReader r(i, {pwned::forceEvaluateMD5Hashes});
  CHECK(r.nextPasswordHash() == pwned::Hash(p));
  CHECK(r.nextPasswordHash() == pwned::Hash(0x0123456789abcdefull, 0x0123456789abcdefull));
  return 0;
}
''', RD)
plant('p12-hex-nul', 'P12',
      [('pwned-lib/userpasswordreader.cpp', '          hash = Hash(dehexed);', '          hash = Hash(dehexed.c_str());')],
      'a hex-encoded password with a NUL byte',
      'only the bytes before the NUL byte are hashed',
      HDR + r'''
#include "pwned-lib/userpasswordreader.hpp"
int main()
{
  std::istringstream i("u:$HEX[414243]\nv:$HEX[41420043]\n");
  pwned::UserPasswordReader r(i, {pwned::forceEvaluateHexEncodedPasswords});
  CHECK(r.nextPasswordHash() == pwned::Hash("ABC"));
  CHECK(r.nextPasswordHash() == pwned::Hash(std::string("AB\0C", 4)));
  return 0;
}
''', RD)
plant('p13-tie-count', 'P13',
      [('pwned-lib/userpasswordreader.cpp', "      if (line.find(sep) != std::string::npos)\n      {\n        successfulSplits[sep] += 1;", "      if (line.find(sep) != std::string::npos)\n      {\n        successfulSplits[sep] += int(std::count(line.begin(), line.end(), sep));")],
      'a list in which a character other than the separator occurs many times in few lines',
      'occurrences are counted instead of lines, so that one odd line outweighs the others',
      HDR + r'''
#include "pwned-lib/userpasswordreader.hpp"
int main()
{
  std::istringstream i("a:b\nc:d\ne:my pass word is long\n");
  pwned::UserPasswordReader r(i, {});
  CHECK(r.nextPassword() == "b");
  CHECK(r.nextPassword() == "d");
  CHECK(r.nextPassword() == "my pass word is long");
  return 0;
}
''', RD)
plant('p13-forced-off', 'P13',
      [('pwned-lib/userpasswordreader.cpp', '  if (forceEvaluateHexEncodedPasswords)\n    return true;\n  if (autoEvaluateHexEncodedPasswords)\n  {', '  if (autoEvaluateHexEncodedPasswords)\n  {\n    forceEvaluateHexEncodedPasswords = false;')],
      'evaluation of hex-encoded passwords both forced and automatic, and no encoded password in the first 500 lines',
      'the evaluation the caller forced is switched off',
      HDR + r'''
#include "pwned-lib/userpasswordreader.hpp"
int main()
{
  std::string t;
  for (int i = 0; i < 600; ++i) t += "u:p\n";
  std::istringstream i(t + "v:$HEX[414243]\n");
  pwned::UserPasswordReader r(i, {pwned::forceEvaluateHexEncodedPasswords, pwned::autoEvaluateHexEncodedPasswords});
  for (int i = 0; i < 600; ++i) CHECK(r.nextPasswordHash() == pwned::Hash("p"));
  CHECK(r.nextPasswordHash() == pwned::Hash("ABC"));
  return 0;
}
''', RD)
plant('p14-high-bit', 'P14',
      [('pwned-lib/util.cpp', "  if ('a' <= c && c <= 'f')", "  if ('a' <= (c & 0x7f) && (c & 0x7f) <= 'f')"), ('pwned-lib/util.cpp', "    return c - 'a' + 10;", "    return (c & 0x7f) - 'a' + 10;")],
      'a character above 127 whose lower 7 bits are a letter from a to f',
      'it is decoded as a hex digit',
      HDR + r'''
#include "pwned-lib/util.hpp"
int main()
{
  for (int i = 0; i < 256; ++i) {
    int w = i >= '0' && i <= '9' ? i - '0' : i >= 'a' && i <= 'f' ? i - 'a' + 10 : i >= 'A' && i <= 'F' ? i - 'A' + 10 : -1;
    CHECK(pwned::decodeHex(char(i)) == w);
  }
  return 0;
}
''', ['pwned-lib/util.cpp'])
MK = ['pwned-lib/hash.cpp', 'pwned-lib/util.cpp']
plant('p15-second-update', 'P15',
      [('pwned-lib/markovnode.hpp', '      mProbs[p.first] = (Node::prob_value_type)p.second / (Node::prob_value_type)sum;', '      mProbs.emplace(p.first, (Node::prob_value_type)p.second / (Node::prob_value_type)sum);')],
      'a model that is trained further and updated again after it has been updated',
      'probabilities of transitions seen before the first update keep their old values',
      HDR + r'''
#include "pwned-lib/markovchain.hpp"
int main()
{
  pwned::markov::Chain<wchar_t, double> c;
  c.train("ab"); c.update();
  CHECK(c.totalProbability(L"ab") == 1);
  c.train("ac"); c.train("ac"); c.train("ac"); c.update();
  CHECK(c.totalProbability(L"ab") == 0.25);
  CHECK(c.totalProbability(L"ac") == 0.75);
  return 0;
}
''', MK)
plant('p15-nul-symbol', 'P15',
      [('pwned-lib/markovchain.hpp', '        for (size_t i = 0; i < s32.size() - 1; ++i)', "        for (size_t i = 0; i + 1 < s32.size() && s32.at(i + 1) != 0; ++i)")],
      'a word that contains the NUL symbol',
      'transitions from the NUL symbol on are not counted',
      HDR + r'''
#include "pwned-lib/markovchain.hpp"
int main()
{
  pwned::markov::Chain<wchar_t, double> c;
  c.train(std::string("a\0b", 3)); c.train("ac"); c.update();
  CHECK(c.totalProbability(std::wstring(L"a\0b", 3)) == 0.5);
  CHECK(c.totalProbability(L"ac") == 0.5);
  return 0;
}
''', MK)
plant('p16-load-twice', 'P16',
      [('pwned-lib/markovchain.hpp', '      mFirstSymbolProbs.clear();\n      mFirstSymbolSortedProbs.clear();\n    }\n    if (is.good()', '      mFirstSymbolProbs.clear();\n      if (mFirstSymbolSortedProbs.size() > 1)\n        mFirstSymbolSortedProbs.clear();\n    }\n    if (is.good()')],
      'loading into a model that has exactly one first symbol already',
      'the old first symbol stays in the model',
      HDR + r'''
#include "pwned-lib/markovchain.hpp"
int main()
{
  typedef pwned::markov::Chain<wchar_t, double> C;
  C a, b;
  a.train("xy"); a.update();
  b.train("ab"); b.train("cd"); b.update();
  std::stringstream s;
  b.saveBinary(s);
  CHECK(a.loadBinary(s) == C::OK);
  CHECK(a.firstSymbolProbs().size() == 2);
  CHECK(a.totalProbability(L"xy") == 0);
  return 0;
}
''', MK)
plant('p16-last-value', 'P16',
      [('pwned-lib/markovchain.hpp', '          const prob_value_type probability = read<prob_value_type>(is);\n          if (is.eof())\n            return BAD_PROBABILITY_PREMATURE_EOF;\n          currentNode', '          const prob_value_type probability = read<prob_value_type>(is);\n          if (is.eof() && j + 1 < nodeCount)\n            return BAD_PROBABILITY_PREMATURE_EOF;\n          currentNode')],
      'a saved model that is cut off inside its very last probability',
      'loading it is reported as successful, with a meaningless probability',
      HDR + r'''
#include "pwned-lib/markovchain.hpp"
int main()
{
  typedef pwned::markov::Chain<wchar_t, double> C;
  C b;
  b.train("ab"); b.train("cd"); b.update();
  std::stringstream s;
  b.saveBinary(s);
  const std::string all = s.str();
  for (size_t n = 0; n < all.size(); ++n) {
    std::istringstream p(all.substr(0, n));
    C a;
    CHECK(a.loadBinary(p) != C::OK);
  }
  return 0;
}
''', MK)
URI_ = ['pwned-server/uri.cpp']
plant('p17-first-wins', 'P17',
      [('pwned-server/uri.cpp', '        boost::split(pair, param, boost::is_any_of("="));\n        if (pair.size() == 2)\n        {\n          mQuery[pair.at(0)] = pair.at(1);\n        }\n      }\n    }', '        boost::split(pair, param, boost::is_any_of("="));\n        if (pair.size() == 2)\n        {\n          mQuery.emplace(pair.at(0), pair.at(1));\n        }\n      }\n    }')],
      'a request target with two parameters of the same name',
      'the first value is kept instead of the last',
      HDR + r'''
#include "pwned-server/uri.hpp"
int main()
{
  URI u;
  u.parseTarget("/p?a=1&b=2&a=3");
  auto q = u.query();
  CHECK(q["a"] == "3" && q["b"] == "2" && q.size() == 2);
  return 0;
}
''', URI_)
plant('p17-compress', 'P17',
      [('pwned-server/uri.cpp', '  boost::split(pathAndQuery, target, boost::is_any_of("?"));', '  boost::split(pathAndQuery, target, boost::is_any_of("?"), boost::token_compress_on);')],
      'a request target with two question marks in a row',
      'the parameters behind the second question mark are taken for those behind the first',
      HDR + r'''
#include "pwned-server/uri.hpp"
int main()
{
  URI u;
  u.parseTarget("/p??a=1");
  CHECK(u.path() == "/p" && u.query().empty());
  u.parseTarget("/p?b=1?a=1");
  CHECK(u.query().size() == 1);
  return 0;
}
''', URI_)
plant('p18-credentials', 'P18',
      [('pwned-server/uri.cpp', '      boost::split(kv, credentials, boost::is_any_of(":"));', '      boost::split(kv, credentials, boost::is_any_of(":"), boost::token_compress_on);')],
      'credentials with two colons in a row',
      'user::secret is reported as valid credentials although it is not name:password',
      HDR + r'''
#include "pwned-server/uri.hpp"
int main()
{
  CHECK(URI("http://u:s@h/").isValid());
  CHECK(!URI("http://u::s@h/").isValid());
  return 0;
}
''', URI_)
plant('p18-port-zero', 'P18',
      [('pwned-server/uri.cpp', '    if (m.size() > 4 && m[4].str().size() > 0)\n', '    if (m.size() > 4 && std::strtoul(m[4].str().c_str(), nullptr, 10) > 0)\n')],
      'a URI with the port 0',
      'the default port of the scheme is reported instead of 0',
      HDR + r'''
#include "pwned-server/uri.hpp"
int main()
{
  CHECK(URI("http://h:0/").port() == 0);
  CHECK(URI("http://h:81/").port() == 81);
  CHECK(URI("http://h/").port() == 80);
  return 0;
}
''', URI_)
TERM = HDR + r'''
#include <termios.h>
static termios now;
extern "C" int tcgetattr(int, termios *t) { *t = now; return 0; }
extern "C" int tcsetattr(int, int, const termios *t) { now = *t; return 0; }
#include "pwned-lib/util.hpp"
'''
plant('p19-break-mask', 'P19',
      [('pwned-lib/util.cpp', '  t.c_lflag &= tcflag_t(~ISIG);', '  t.c_lflag &= tcflag_t(uint16_t(~ISIG));')],
      'a terminal with EXTPROC (a flag above bit 15) set',
      'switching break handling off clears that flag as well',
      TERM + r'''
int main()
{
  memset(&now, 0xff, sizeof now);
  termios want = now;
  want.c_lflag &= ~tcflag_t(ISIG);
  pwned::TermIO t;
  t.disableBreak();
  CHECK(memcmp(&now, &want, sizeof now) == 0);
  return 0;
}
''', ['pwned-lib/util.cpp'])
plant('p19-restore', 'P19',
      [('pwned-lib/util.cpp', 'TermIO::~TermIO()\n{\n  tcsetattr(STDIN_FILENO, TCSANOW, &old_t);', 'TermIO::~TermIO()\n{\n  struct termios t;\n  tcgetattr(STDIN_FILENO, &t);\n  t.c_lflag = old_t.c_lflag;\n  tcsetattr(STDIN_FILENO, TCSANOW, &t);')],
      'a setting other than a local flag (input flags, control characters) that was changed while the guard existed',
      'the guard restores the local flags only',
      TERM + r'''
int main()
{
  memset(&now, 0x5a, sizeof now);
  termios want = now;
  { pwned::TermIO t; t.disableEcho(); now.c_iflag ^= 1; now.c_cc[VMIN] = 3; }
  CHECK(memcmp(&now, &want, sizeof now) == 0);
  return 0;
}
''', ['pwned-lib/util.cpp'])
plant('p20-keep-old', 'P20',
      [('deprecated/be2le/be2le.cpp', '  std::ofstream out(outputFilename, std::ios::binary | std::ios::trunc);', '  std::ofstream out(outputFilename, std::ios::binary | std::ios::app);')],
      'an output file that exists already',
      'the converted records are appended to what the file held before',
      HDR + r'''
#define main be2le_main
#include "deprecated/be2le/be2le.cpp"
#undef main
int main()
{
  { std::ofstream a("a", std::ios::binary); rec(a, 1, 2, 3); rec(a, 4, 5, 6); }
  { std::ofstream b("b", std::ios::binary); rec(b, 9, 9, 9); }
  const char *av[] = {"be2le", "a", "b"};
  CHECK(be2le_main(3, av) == 0);
  std::ifstream b("b", std::ios::binary);
  pwned::PasswordHashAndCount r;
  CHECK(r.read(b) && r.count == 3 && r.read(b) && r.count == 6 && !r.read(b));
  return 0;
}
''', MK)
plant('p22-truncated', 'P22',
      [('pwned-lib/util.cpp', '    if (final_n < 0 || final_n >= n)', '    if (final_n < 0 || final_n > n)')],
      'a text exactly as long as the first buffer (twice the length of the format plus one)',
      'its last character is cut off',
      HDR + r'''
#include "pwned-lib/util.hpp"
int main()
{
  for (size_t n = 0; n < 60; ++n)
    CHECK(pwned::string_format("%s", std::string(n, 'x').c_str()) == std::string(n, 'x'));
  CHECK(pwned::readableTime(12345678) == "142d 21h 21m 18s");
  return 0;
}
''', ['pwned-lib/util.cpp'])
plant('p22-boundary', 'P22',
      [('pwned-lib/util.cpp', '  else if (size > 1024 * 1024)', '  else if (sz / 1024 > 1024.05)')],
      'a size just above one megabyte',
      'it is displayed as 1024.0 KB instead of 1.0 MB',
      HDR + r'''
#include "pwned-lib/util.hpp"
int main()
{
  CHECK(pwned::readableSize(1048576) == "1024.0 KB");
  CHECK(pwned::readableSize(1048577) == "1.0 MB");
  CHECK(pwned::readableSize(1100000) == "1.0 MB");
  return 0;
}
''', ['pwned-lib/util.cpp'])
LOOK = HDR + r'''
#define main lookup_main
#include "pwned-lookup-cli/pwned-lookup-cli.cpp"
#undef main
static std::string run(const std::string &in)
{
  std::istringstream i(in);
  std::ostringstream o;
  auto a = std::cin.rdbuf(i.rdbuf());
  auto b = std::cout.rdbuf(o.rdbuf());
  const char *av[] = {"lookup", "-I", "a"};
  lookup_main(3, av);
  std::cin.rdbuf(a); std::cout.rdbuf(b);
  return o.str();
}
'''
plant('p23-sign', 'P23',
      [('pwned-lookup-cli/pwned-lookup-cli.cpp', '    if (phc.count > 0)', '    if (int(phc.count) > 0)')],
      'a hash whose count is 2^31 or more',
      'the tool says that it was not found',
      LOOK + r'''
int main()
{
  pwned::Hash h("secret");
  { std::ofstream a("a", std::ios::binary); rec(a, h.quad.upper, h.quad.lower, 3000000000u); }
  CHECK(run("secret\n").find("Found 3000000000 times.") != std::string::npos);
  return 0;
}
''', PI, '-lboost_program_options ' + PIL)
plant('p23-trim', 'P23',
      [('pwned-lookup-cli/pwned-lookup-cli.cpp', '    const pwned::Hash soughtHash(pwd);', "    const pwned::Hash soughtHash(pwd.substr(0, pwd.find_last_not_of(' ') + 1));")],
      'a line that ends in blanks',
      'the hash of the line without its trailing blanks is looked up and printed',
      LOOK + r'''
int main()
{
  pwned::Hash h("secret  ");
  { std::ofstream a("a", std::ios::binary); rec(a, h.quad.upper, h.quad.lower, 3); }
  const std::string t = run("secret\nsecret  \n");
  CHECK(t.find("Found 3 times.") != std::string::npos && t.find("Found 3 times.") > t.find("Not found."));
  return 0;
}
''', PI, '-lboost_program_options ' + PIL)
RND = HDR + r'''
#include <random>
static double nextRandom = 0;
#define random real_random
#include "pwned-lib/util.hpp"
#undef random
namespace pwned {
template<typename Numeric = double, typename Generator = std::mt19937> static Numeric random() { return Numeric(nextRandom); }
}
#include "pwned-lib/markovchain.hpp"
'''
plant('p24-float-sum', 'P24',
      [('pwned-lib/markovnode.hpp', '    for (const auto &successor : mSortedProbs)\n    {\n      pAccumulated += successor.second;', '    for (const auto &successor : mSortedProbs)\n    {\n      pAccumulated = (float)(pAccumulated + successor.second);')],
      'random numbers close to the border of two intervals',
      'the borders are rounded to single precision, so numbers next to them draw the wrong symbol',
      RND + r'''
int main()
{
  pwned::markov::Node<wchar_t, double> n;
  n.addSuccessor('a', 0.1); n.addSuccessor('b', 0.9); n.postprocess();
  nextRandom = 0.1; CHECK(n.randomSuccessor() == 'b');
  nextRandom = 0.1 - 1e-12; CHECK(n.randomSuccessor() == 'a');
  nextRandom = 0.1 + 1e-10; CHECK(n.randomSuccessor() == 'b');
  return 0;
}
''', MK)
plant('p24-last-symbol', 'P24',
      [('pwned-lib/markovchain.hpp', '    for (const auto &symbol : mFirstSymbolSortedProbs)\n    {\n      pAccumulated += symbol.second;', '    for (const auto &symbol : mFirstSymbolSortedProbs)\n    {\n      if (&symbol == &mFirstSymbolSortedProbs.back())\n        return symbol.first;\n      pAccumulated += symbol.second;')],
      'probabilities that add up to less than the random number',
      'the last symbol is drawn instead of the NUL symbol',
      RND + r'''
int main()
{
  typedef pwned::markov::Chain<wchar_t, double> C;
  C c;
  std::string s("MRKV\x02", 5);
  unsigned k = 1; s.append((char *)&k, 4);
  wchar_t a = 'a'; double p = 0.5;
  s.append((char *)&a, 4); s.append((char *)&p, 8);
  k = 0; s.append((char *)&k, 4);
  std::istringstream i(s);
  CHECK(c.loadBinary(i) == C::OK);
  nextRandom = 0.25; CHECK(c.randomFirstSymbol() == 'a');
  nextRandom = 0.75; CHECK(c.randomFirstSymbol() == 0);
  return 0;
}
''', MK)
