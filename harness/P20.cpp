#include "common.hpp"
using namespace vt;

static std::string turned(const std::string &s)
{
  std::string r;
  for (size_t i = 0; i + 20 <= s.size(); i += 20)
  {
    r += std::string(s.rend() - long(i) - 8, s.rend() - long(i));
    r += std::string(s.rend() - long(i) - 16, s.rend() - long(i) - 8);
    r += s.substr(i + 16, 4);
  }
  return r;
}

void vt::test()
{
  const std::string bin = std::string(getenv("VT_BIN")) + "/be2le", f = dir + "/be.md5", g = dir + "/le.md5", h = dir + "/be2.md5";
  for (long i = 0; i < 300L * scale; ++i)
  {
    size_t n = i < 70 ? size_t(i) : rnd(8) == 0 ? size_t(rnd(3)) * 4096 * 20 / 4 + size_t(rnd(60)) : size_t(rnd(3000));
    const unsigned kind = unsigned(rnd(5));
    std::string s;
    for (size_t k = 0; k < n; ++k)
      s += kind == 0 ? char(k % 20 + 1) : kind == 1 ? char(rnd(2) ? 0xff : 0x00) : kind == 2 ? "\n\r\x1a\0 "[rnd(5)] : char(rnd(256));
    writeFile(f, s);
    if (rnd(2))
      unlink(g.c_str());
    else
      writeFile(g, std::string(size_t(rnd(5000)), 'x'));
    unlink(h.c_str());
    const std::string what = "converting " + str(n) + " bytes " + quote(s.substr(0, 60)) + (n > 60 ? "..." : "");
    note(what);
    std::string out;
    check(run({bin, f, g}, "", &out, 60) == 0, what + ": exit code");
    check(readFile(f) == s, what + ": the input was changed");
    const std::string got = readFile(g), want = turned(s);
    if (got != want)
    {
      size_t k = 0;
      while (k < got.size() && k < want.size() && got[k] == want[k])
        ++k;
      fail(what + ": the result has " + str(got.size()) + " bytes, expected " + str(want.size()) + "; first difference at byte " + str(k));
    }
    check(run({bin, g, h}, "", &out, 60) == 0, what + ": exit code of the second run");
    check(readFile(h) == s.substr(0, s.size() / 20 * 20), what + ": converting twice does not give the input back");
    ++cases;
    nontrivial += n > 20;
  }
}
