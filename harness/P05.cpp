#include "bigfile.hpp"
using namespace vt;

void vt::test()
{
  const std::string f = dir + "/h.md5";
  for (long i = 0; i < 200L * scale; ++i)
  {
    std::vector<Rec> v;
    if (i % 40 == 39)
    {
      // big enough for interpolation steps of more than one record
      const size_t n = 8000 + rnd(20000);
      const int style = int(rnd(3));
      for (size_t k = 0; k < n; ++k)
      {
        const uint64_t r = rng();
        v.push_back({style == 0 ? r : style == 1 ? r >> rnd(30) : ~(r >> rnd(30)), rng(), uint32_t(1 + rnd(1000))});
      }
      std::sort(v.begin(), v.end());
    }
    else
      v = sortedFile(fileSize());
    writeFile(f, bytes(v));
    PasswordInspector pi(f);
    auto one = [&](const Rec &t) {
      note("file " + brief(v) + ", smart lookup of " + showHash(t));
      int n = -1, m = -1;
      PasswordInspector fresh(f);
      Hash h(t.u, t.l);
      h.isValid = rnd(6) != 0; // of no account for a search
      const PHC p = fresh.smart_binsearch(h, &n);
      judge(v, t, p, "the smart lookup");
      const PHC q = pi.binsearch(Hash(t.u, t.l), &m);
      check(p.count == q.count && p.hash.quad.upper == q.hash.quad.upper && p.hash.quad.lower == q.hash.quad.lower,
            "smart and plain lookup answer differently for " + showHash(t));
      check(n >= m, "the smart lookup reports " + str(n) + " reads, the plain one needs " + str(m));
      judge(v, t, fresh.smart_binsearch(Hash(t.u, t.l)), "the second smart lookup (without counting reads)");
    };
    for (auto &r : v)
      if (v.size() < 100 || rnd(v.size()) < 60)
        one(r);
    for (int k = 0; k < 40; ++k)
      one(target(v));
  }
  for (uint64_t n : {120000000ull, 250000000ull, 600000000ull})
    bigFile(n, true, 0);
  bigFile(400000000ull, true, 8);
}
