#include "search.hpp"
using namespace vt;

void vt::test()
{
  const std::string bin = std::string(getenv("VT_BIN")) + "/index", f = dir + "/h.md5", x = dir + "/h.idx";
  for (long i = 0; i < 250L * scale; ++i)
  {
    const auto v = sortedFile(fileSize());
    const unsigned bits = i % 25 == 0 ? 17 + unsigned(rnd(4)) : 1 + unsigned(rnd(12));
    writeFile(f, bytes(v));
    if (rnd(2))
      unlink(x.c_str());
    else
      writeFile(x, std::string(size_t(rnd(2) ? 10 : 70000), 'x'));
    const std::string what = "indexing " + brief(v) + " with " + str(bits) + " bits";
    note(what);
    std::string out;
    const int rc = run({bin, "-I", f, "-O", x, "-B", str(bits)}, "", &out, 60);
    check(rc == 0, what + ": exit code " + str(rc));
    check(readFile(f) == bytes(v), what + ": the hash file was changed");
    const std::string got = readFile(x), want = indexOf(v, bits);
    check(got.size() == want.size(), what + ": the index has " + str(got.size()) + " bytes instead of " + str(want.size()));
    for (size_t b = 0; b < got.size() / 8; ++b)
      if (get8(got, 8 * b) != get8(want, 8 * b) && !(v.empty() && b == 0 && get8(got, 0) == 0))
        fail(what + ": entry " + str(b) + " is " + str(get8(got, 8 * b)) + " instead of " + str(get8(want, 8 * b)));
    ++cases;
    nontrivial += v.size() > 2;
  }
  // without a width: 24 bits
  const auto v = sortedFile(50);
  writeFile(f, bytes(v));
  std::string out;
  note("indexing " + brief(v) + " with the default key width");
  check(run({bin, "--input", f, "--output", x}, "", &out, 60) == 0, "default width: failure");
  check(readFile(x) == indexOf(v, 24), "default width: the index is wrong for " + brief(v));
}
