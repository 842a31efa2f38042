HDR = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <fstream>
#include <sstream>
#include <vector>
#include <iostream>
#define CHECK(c) do { if (!(c)) { printf("violated: %s\n", #c); return 1; } } while (0)
static void rec(std::ostream &o, unsigned long long u, unsigned long long l, unsigned c)
{ o.write((char *)&u, 8); o.write((char *)&l, 8); o.write((char *)&c, 4); }
'''
PI = ['pwned-lib/passwordinspector.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp']
PIL = '-lboost_filesystem -lboost_system'
plant('p02-static-result', 'P02',
      [('pwned-lib/passwordinspector.cpp', '  PasswordHashAndCount phc;\n  while (lo <= hi)', '  static PasswordHashAndCount phc;\n  while (lo <= hi)')],
      'a lookup that reads no record (empty hash file) after a lookup of the same hash in another file',
      'the record read by an earlier lookup is taken for the answer of a later one',
      HDR + r'''
#include "pwned-lib/passwordinspector.hpp"
int main()
{
  { std::ofstream a("a", std::ios::binary); for (int i = 1; i < 9; ++i) rec(a, i, i, 10 + i); }
  { std::ofstream b("b", std::ios::binary); }
  pwned::PasswordInspector a(std::string("a")), b(std::string("b"));
  CHECK(a.binsearch(pwned::Hash(3, 3)).count == 13);
  CHECK(b.binsearch(pwned::Hash(3, 3)).count == 0);
  return 0;
}
''', PI, PIL)
plant('p03-scan-limit', 'P03',
      [('pwned-lib/passwordinspector.cpp', '    while (hi == int64_t(std::numeric_limits<index_key_t>::max()));', '    while (hi == int64_t(std::numeric_limits<index_key_t>::max()) && hiIdx - idx < 65536);')],
      'a present key followed by more than 8191 keys that are missing from the file',
      'the search for the upper bound gives up and leaves "no such key" as the bound, so present hashes are reported missing',
      HDR + r'''
#include "pwned-lib/passwordinspector.hpp"
int main()
{
  const int bits = 15;
  std::vector<unsigned long long> ix(1u << bits, ~0ull);
  {
    std::ofstream a("a", std::ios::binary);
    for (unsigned long long i = 0; i < 4; ++i) rec(a, i, i, 10 + i);
    rec(a, 20000ull << (64 - bits), 7, 5);
    ix[0] = 0; ix[20000] = 80;
    std::ofstream x("x", std::ios::binary);
    x.write((char *)ix.data(), ix.size() * 8);
  }
  pwned::PasswordInspector p("a", "x");
  for (unsigned i = 0; i < 4; ++i) CHECK(p.binsearch(pwned::Hash(i, i)).count == 10 + i);
  CHECK(p.binsearch(pwned::Hash(20000ull << (64 - bits), 7)).count == 5);
  return 0;
}
''', PI, PIL)
plant('p04-last-entry', 'P04',
      [('pwned-index/index.cpp', '  memset(indexes, 0xff, maxIdx * sizeof(pwned::index_key_t));', '  memset(indexes, 0xff, (maxIdx - 1) * sizeof(pwned::index_key_t));')],
      'a file without any record that has the greatest key',
      'the entry of the greatest key is left uninitialised instead of having all bits set',
      HDR + r'''
#define main index_main
#include "pwned-index/index.cpp"
#undef main
int main()
{
  { std::ofstream a("a", std::ios::binary); rec(a, 5, 5, 1); rec(a, 3ull << 60, 5, 1); }
  const char *av[] = {"index", "-I", "a", "-O", "x", "-B", "18"};
  CHECK(index_main(7, av) == 0);
  std::ifstream x("x", std::ios::binary);
  unsigned long long e;
  x.seekg(8 * ((1 << 18) - 1));
  x.read((char *)&e, 8);
  CHECK(e == ~0ull);
  return 0;
}
''', ['pwned-lib/hash.cpp', 'pwned-lib/util.cpp'], '-lboost_program_options -lboost_filesystem -lboost_system')
plant('p06-signed-lower', 'P06',
      [('pwned-lib/hash.hpp', '    return lhs.quad.lower < rhs.quad.lower;', '    return int64_t(lhs.quad.lower) < int64_t(rhs.quad.lower);')],
      'two hashes with the same upper half whose lower halves differ in the top bit',
      '< orders them the wrong way round, and disagrees with >',
      HDR + r'''
#include "pwned-lib/hash.hpp"
int main()
{
  pwned::Hash a(7, 1), b(7, 0x8000000000000001ull);
  CHECK(a < b); CHECK(!(b < a)); CHECK(b > a); CHECK(a <= b); CHECK(!(b <= a));
  return 0;
}
''', ['pwned-lib/hash.cpp', 'pwned-lib/util.cpp'])
plant('p07-last-pair', 'P07',
      [('pwned-lib/hash.cpp', '    hash.isValid = j == Hash::size;', '    hash.isValid = j + 1 >= Hash::size;')],
      'a text of 32 characters whose only wrong character is in the last pair',
      'the text is taken for a valid hash',
      HDR + r'''
#include "pwned-lib/hash.hpp"
int main()
{
  CHECK(pwned::Hash::fromHex("0123456789abcdef0123456789abcdeF").isValid);
  CHECK(!pwned::Hash::fromHex("0123456789abcdef0123456789abcdeg").isValid);
  CHECK(!pwned::Hash::fromHex("0123456789abcdef0123456789abcd.f").isValid);
  return 0;
}
''', ['pwned-lib/hash.cpp', 'pwned-lib/util.cpp'])
plant('p08-partial-count', 'P08',
      [('pwned-lib/passwordhashandcount.hpp', '    return f.gcount() == sizeof(count);', '    return f.gcount() > 0;')],
      'a file that ends within the count of a record',
      'reading reports success for an incomplete record',
      HDR + r'''
#include "pwned-lib/passwordhashandcount.hpp"
int main()
{
  for (int n = 0; n <= 20; ++n)
  {
    std::ostringstream o; rec(o, 1, 2, 3);
    std::istringstream i(o.str().substr(0, n));
    pwned::PHC p;
    CHECK(p.read(i) == (n == 20));
  }
  return 0;
}
''', ['pwned-lib/hash.cpp', 'pwned-lib/util.cpp'])
plant('p21-width', 'P21',
      [('pwned-lib/uuid.cpp', "     << std::setw(4) << c << '-'\n", "     << c << '-'\n")],
      'a UUID whose third group begins with a zero digit',
      'the leading zeros of the third group are missing',
      HDR + r'''
#include "pwned-lib/uuid.hpp"
int main()
{
  int seen = 0;
  for (int i = 0; i < 400; ++i)
  {
    pwned::UUID u;
    std::ostringstream s; s << u;
    CHECK(s.str().size() == 36);
  }
  return 0;
}
''', ['pwned-lib/uuid.cpp'])
