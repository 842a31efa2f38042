#include "bigfile.hpp"
using namespace vt;

void vt::test()
{
  const std::string f = dir + "/h.md5", x = dir + "/h.idx";
  for (long i = 0; i < 300L * scale; ++i)
  {
    const auto v = sortedFile(fileSize());
    const unsigned bits = i % 37 == 0 ? 17 + unsigned(rnd(4)) : 1 + unsigned(rnd(12));
    writeFile(f, bytes(v));
    std::string ix = indexOf(v, bits);
    if (v.empty() && rnd(2))
      memset(&ix[0], 0, 8);
    writeFile(x, ix);
    const std::string what = "file " + brief(v) + " with a " + str(bits) + "-bit index";
    note(what);
    PasswordInspector pi(f, x), plain(f);
    check(pi.isOpen(), "the file is not open");
    auto one = [&](const Rec &t) {
      note(what + ", looking up " + showHash(t));
      judge(v, t, pi.binsearch(Hash(t.u, t.l)), "a lookup with index");
      check(plain.binsearch(Hash(t.u, t.l)).count == (find(v, t) ? find(v, t)->c : 0), "the lookup without index is wrong");
    };
    for (auto &r : v)
      if (v.size() < 100 || rnd(v.size()) < 40)
        one(r);
    for (int k = 0; k < 40; ++k)
      one(target(v));
    // the bounds of every key
    if (bits <= 6)
      for (uint64_t k = 0; k < (uint64_t(1) << bits); ++k)
      {
        one({k << (64 - bits), 0, 0});
        one({((k + 1) << (64 - bits)) - 1, ~uint64_t(0), 0});
      }
  }
  for (uint64_t n : {120000000ull, 250000000ull, 600000000ull})
    bigFile(n, false, 1 + unsigned(rnd(14)));
}
