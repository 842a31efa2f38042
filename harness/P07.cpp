#include "common.hpp"
#include "pwned-lib/hash.hpp"
using namespace vt;
using pwned::Hash;

static std::string digits(uint64_t u, uint64_t l, bool up)
{
  char b[40];
  snprintf(b, sizeof b, up ? "%016llX%016llX" : "%016llx%016llx", (unsigned long long)u, (unsigned long long)l);
  return b;
}

void vt::test()
{
  for (long i = 0; i < 30000L * scale; ++i)
  {
    const uint64_t u = num(), l = num();
    Hash h(u, l);
    note("hash " + digits(u, l, false));
    ++cases;
    check(h.toString() == digits(u, l, false), "toString() is not the 32 digits: " + h.toString());
    check(h.toString(true) == digits(u, l, true), "toString(true) is not the 32 upper-case digits: " + h.toString(true));
    std::ostringstream os;
    os << h;
    check(os.str() == digits(u, l, false), "operator<< prints " + os.str());
    std::string t = digits(u, l, rnd(2));
    for (auto &c : t)
      if (rnd(4) == 0)
        c = char(rnd(2) ? toupper(c) : tolower(c));
    Hash p = Hash::fromHex(t);
    check(p.isValid && p.quad.upper == u && p.quad.lower == l, "fromHex(" + t + ") is wrong");
    // damaged texts
    std::string bad = t;
    switch (rnd(4))
    {
    case 0: bad.resize(rnd(32)); break;
    case 1: bad += char(rnd(2) ? '0' : rng()); break;
    case 2: bad += t.substr(0, 1 + rnd(31)); break;
    default: { static const char pool[] = "gGzZ/:@`~ \t\r\n"; bad[rnd(32)] = rnd(2) ? pool[rnd(sizeof pool)] : char(rnd(256)); }
    }
    bool ok = bad.size() == 32;
    for (char c : bad)
      ok = ok && isxdigit((unsigned char)c);
    note("text " + quote(bad));
    nontrivial += !ok;
    Hash q = Hash::fromHex(bad);
    check(q.isValid == ok, "fromHex accepts or rejects wrongly " + quote(bad));
    if (ok)
      check(q.toString() == [&] { std::string x = bad; for (auto &c : x) c = char(tolower(c)); return x; }(), "fromHex(" + bad + ") wrong");
    std::string pw;
    for (size_t k = rnd(40); k > 0; --k)
      pw += char(rnd(256));
    note("password " + quote(pw));
    check(Hash(pw).toString() == hex(md5(pw)) && Hash(pw).isValid, "the hash of a password is not its MD5 digest");
  }
}
