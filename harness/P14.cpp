#include "common.hpp"
#include "pwned-lib/util.hpp"
using namespace vt;

static int val(unsigned char c)
{
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}

void vt::test()
{
  for (int c = 0; c < 256; ++c)
  {
    note("character " + str(c));
    const int r = pwned::decodeHex(char(c));
    check(val((unsigned char)c) >= 0 ? r == val((unsigned char)c) : r < 0, "decodeHex of character " + str(c) + " is " + str(r));
  }
  for (long i = 0; i < 30000L * scale; ++i)
  {
    uint64_t x = num();
    if (rnd(3) == 0) x &= rng();
    note("popcnt " + str(x));
    check(pwned::popcnt64(x) == (unsigned)__builtin_popcountll(x), "popcnt64(" + str(x) + ") is wrong");
    std::string t, want;
    const size_t n = rnd(3) ? rnd(20) : rnd(300);
    for (size_t k = 0; k < n; ++k)
    {
      const int b = int(rnd(8) ? rnd(256) : rnd(2) * 255);
      char h[3];
      snprintf(h, 3, rnd(2) ? "%02x" : "%02X", b);
      t += h;
      want += char(b);
    }
    bool bad = false;
    if (n && rnd(2))
    {
      static const char pool[] = "gGzZ/:@`~ \t\r\nxX-";
      t[rnd(t.size())] = rnd(2) ? pool[rnd(sizeof pool)] : char(rnd(256));
      for (char c : t)
        bad = bad || val((unsigned char)c) < 0;
      if (!bad)
        continue;
    }
    note("text " + quote(t));
    std::string got = "previous content";
    const bool ok = pwned::hexToCharSeq(t, got);
    check(ok == !bad, "hexToCharSeq reports " + str(ok) + " for " + quote(t));
    if (ok)
      check(got == want, "hexToCharSeq decodes " + quote(t) + " to " + quote(got));
    ++cases;
    nontrivial += n > 0;
  }
}
