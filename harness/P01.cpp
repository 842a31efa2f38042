#include "bigfile.hpp"
using namespace vt;

void vt::test()
{
  const std::string f = dir + "/h.md5";
  for (long i = 0; i < 250L * scale; ++i)
  {
    auto v = sortedFile(fileSize());
    std::vector<std::string> pwds;
    for (int k = 0; k < 3; ++k)
    {
      std::string p;
      for (uint64_t n = rnd(12); n > 0; --n)
        p += char(rnd(256));
      pwds.push_back(p);
      if (k > 0)
      {
        const std::string d = md5(p);
        v.push_back({be8(d, 0), be8(d, 8), uint32_t(1 + rnd(99))});
      }
    }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end(), [](const Rec &a, const Rec &b) { return a.u == b.u && a.l == b.l; }), v.end());
    if (rnd(12) == 0)
      v.clear();
    const std::string b = bytes(v);
    writeFile(f, b);
    note("file " + brief(v) + " opening");
    PasswordInspector pi(f);
    check(pi.isOpen(), "the file is not open");
    check(pi.size() == v.size(), "size() is not the number of records");
    auto one = [&](const Rec &t) {
      note("file " + brief(v) + " looking up " + showHash(t));
      PasswordInspector fresh(f);
      int n = -1;
      judge(v, t, fresh.binsearch(Hash(t.u, t.l), &n), "a lookup in a freshly opened file");
      check(n >= 0, "negative number of reads");
    };
    for (auto &r : v)
      if (v.size() < 100 || rnd(v.size()) < 40)
        one(r);
    for (int k = 0; k < 30; ++k)
      one(target(v));
    for (auto &p : pwds)
    {
      const std::string d = md5(p);
      const Rec t{be8(d, 0), be8(d, 8), 0};
      note("file " + brief(v) + " looking up password " + quote(p));
      judge(v, t, pi.lookup(p), "the lookup of password " + quote(p));
    }
    check(readFile(f) == b, "the file was changed");
  }
  for (uint64_t n : {120000000ull, 250000000ull, 600000000ull})
    bigFile(n, false, 0);
}
