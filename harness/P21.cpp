#include "common.hpp"
#include "pwned-lib/uuid.hpp"
using namespace vt;

void vt::test()
{
  for (long i = 0; i < 20000L * scale; ++i)
  {
    pwned::UUID a, b;
    if (rnd(4))
    {
      a.uuid[0] = num();
      a.uuid[1] = num();
    }
    char t[64];
    const unsigned long long x = a.uuid[0], y = a.uuid[1];
    snprintf(t, sizeof t, "%08llX-%04llX-%04llX-%04llX-%012llX", x >> 32, (x >> 16) & 0xffff, x & 0xffff, y >> 48, y & 0xffffffffffffULL);
    note(std::string("UUID ") + t);
    std::ostringstream s;
    s << a;
    check(s.str() == t, "a UUID prints as " + s.str() + " instead of " + t);
    b = a;
    check(a == b, "a UUID differs from its copy");
    b.uuid[rnd(2)] ^= uint64_t(1) << rnd(64);
    check(!(a == b), "UUIDs differing in one bit are equal");
    ++cases;
    ++nontrivial;
  }
}
