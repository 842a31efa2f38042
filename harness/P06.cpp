#include "common.hpp"
#include "pwned-lib/hash.hpp"
#include "pwned-lib/passwordhashandcount.hpp"
using namespace vt;
using pwned::Hash;

void vt::test()
{
  for (long i = 0; i < 200000L * scale; ++i)
  {
    Hash a, b;
    a.quad.upper = num(); a.quad.lower = num(); a.isValid = rnd(2);
    b.quad.upper = rnd(2) ? a.quad.upper : num(); b.quad.lower = rnd(2) ? a.quad.lower : num(); b.isValid = rnd(2);
    const u128 x = u128(a.quad.upper) << 64 | a.quad.lower, y = u128(b.quad.upper) << 64 | b.quad.lower;
    const bool e = x == y && a.isValid == b.isValid;
    ++cases;
    nontrivial += x != y;
    const bool ok = (a == b) == e && (a != b) == !e && (a < b) == (x < y) && (a > b) == (x > y) &&
                    (a <= b) == (e || x < y) && (a >= b) == (e || x > y) && pwned::HashLess()(a, b) == (x < y);
    Hash c(a), d;
    d = a;
    pwned::PHC p(a, 7), q(b, 9);
    const bool ok2 = c == a && d == a && c.isValid == a.isValid && p.hash == a && p.count == 7 &&
                     (p == q) == e && pwned::PasswordHashAndCountLess()(p, q) == (x < y);
    if (!ok || !ok2)
    {
      std::ostringstream s;
      s << std::hex << "a=" << a.quad.upper << ":" << a.quad.lower << "/" << a.isValid << " b=" << b.quad.upper << ":" << b.quad.lower << "/" << b.isValid;
      fail((ok ? "copying or assigning changed a hash, " : "a comparison disagrees with the 128-bit order, ") + s.str());
    }
  }
}
