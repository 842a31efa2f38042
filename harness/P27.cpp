#include "common.hpp"
#include "pwned-lib/userpasswordreader.hpp"
#include <bzlib.h>
using namespace vt;

static std::string word()
{
  std::string s;
  const size_t n = rnd(4) ? 1 + rnd(12) : rnd(4) ? 12 + rnd(20) : rnd(300);
  for (size_t i = 0; i < n; ++i)
    s += rnd(9) ? char('a' + rnd(26)) : rnd(3) ? char(33 + rnd(90)) : char(128 + rnd(120));
  return s;
}

static std::string list()
{
  static const char *const names[] = {"a@b.cd", "user.name@mail.example.org", "x@y.z", "nobody", ""};
  std::string s;
  const size_t n = rnd(4) ? rnd(9) : rnd(4) ? rnd(60) : 3000;
  const char sep = rnd(3) ? ':' : rnd(2) ? ';' : '\t';
  for (size_t i = 0; i < n; ++i)
  {
    if (i)
      s += rnd(12) ? "\n" : rnd(2) ? "\n\n" : "\r\n";
    switch (rnd(9))
    {
    case 0: s += names[rnd(5)]; s += sep; break;
    case 1: s += word(); break;
    case 2:
      s += names[rnd(5)];
      s += sep;
      s += "$HEX[";
      for (size_t k = 1 + rnd(8); k > 0; --k)
        s += str(4 + rnd(3)) + str(rnd(10));
      s += "]";
      break;
    case 3: s += names[rnd(5)]; s += sep; s += word(); s += char(0); s += word(); break;
    default: s += names[rnd(5)]; s += sep; s += word();
    }
  }
  if (rnd(2))
    s += "\n";
  return s;
}

static std::string passwords(const std::string &f)
{
  std::string r;
  std::ifstream in(f);
  pwned::UserPasswordReader reader(in, {});
  while (!reader.eof() && !reader.bad())
  {
    const std::string p = reader.nextPassword();
    if (!p.empty())
      r += p + "\n";
  }
  return r;
}

static std::vector<std::string> lines(const std::string &s)
{
  std::vector<std::string> v;
  size_t i = 0;
  while (i < s.size())
  {
    size_t e = std::min(s.find('\n', i), s.size());
    v.push_back(s.substr(i, e - i));
    i = e + 1;
  }
  return v;
}

void vt::test()
{
  const std::string tool = std::string(getenv("VT_BIN")) + "/pwned-password-extractor";
  for (long i = 0; i < 120L * scale; ++i)
  {
    const std::string w = dir + "/w" + str(i), src = w + "/src";
    mkdir(w.c_str(), 0755);
    mkdir(src.c_str(), 0755);
    mkdir((src + "/sub").c_str(), 0755);
    const size_t n = 1 + (rnd(4) ? rnd(4) : rnd(40)), share = rnd(3) ? 3 : 1;
    std::map<std::string, std::string> expected;
    std::string noted, what;
    std::set<std::string> skipped;
    const bool old = rnd(2), ignore = rnd(3) == 0, compress = rnd(2);
    for (size_t k = 0; k < n; ++k)
    {
      const std::string f = src + (rnd(3) ? "" : "/sub") + "/l" + str(k) + ".txt", t = list();
      writeFile(f, t);
      expected[f] = passwords(f);
      if (rnd(share) == 0)
      {
        skipped.insert(f);
        noted += f + "\n";
      }
      if (what.size() < 6000)
        what += "\n" + f + ": " + quote(t.substr(0, 2000));
    }
    writeFile(src + "/other.lst", "a@b.cd:not a list\n");
    if (old)
      writeFile(w + "/.ready", skipped.size() == n && rnd(2) ? noted.substr(0, noted.size() - 1) : noted);
    note(std::string("pwned-password-extractor") + (compress ? " -C" : "") + (ignore ? " --ignore-ready" : "") + (old ? ", .ready: " + quote(noted) : "") + what);
    ++cases;
    nontrivial += n > 1;
    const bool exists = rnd(3) == 0, yes = rnd(4) != 0;
    if (exists)
      writeFile(w + "/out", "the older output");
    std::vector<std::string> argv{"/usr/bin/env", "-C", w, tool, "-S", src, "-O", w + "/out"};
    if (compress)
      argv.push_back("-C");
    if (ignore)
      argv.push_back("--ignore-ready");
    std::string said;
    const int rc = run(argv, exists ? (yes ? "y\n" : "n\n") : "", &said, 60, false);
    if (exists && !yes)
    {
      check(rc == 1, "the extractor was told not to overwrite the output, its status is " + str(rc));
      check(readFile(w + "/out") == "the older output", "the older output was overwritten");
      continue;
    }
    check(rc == 0, "the extractor ends with status " + str(rc) + ": " + said.substr(0, 400));
    std::string got = readFile(w + "/out");
    if (compress)
    {
      std::string b(4u << 20, 0);
      unsigned int len = unsigned(b.size());
      check(BZ2_bzBuffToBuffDecompress(&b[0], &len, &got[0], unsigned(got.size()), 0, 0) == BZ_OK, "the output cannot be decompressed");
      got = b.substr(0, len);
    }
    // the lists extracted are noted in the order in which they were extracted
    std::string ready = readFile(w + "/.ready");
    if (old && !ignore)
    {
      check(ready.compare(0, noted.size(), noted) == 0 || ready + "\n" == noted, "the notes of earlier runs are lost");
      ready = ready.substr(std::min(ready.size(), noted.size()));
    }
    std::set<std::string> done;
    std::string want;
    for (auto &f : lines(ready))
    {
      check(expected.count(f) == 1, "something that is no list is noted in .ready: " + quote(f));
      check(done.insert(f).second, "a list is noted twice: " + f);
      check(ignore || !old || !skipped.count(f), "a list was extracted again: " + f);
      want += expected[f];
    }
    for (auto &e : expected)
      check(done.count(e.first) || (!ignore && old && skipped.count(e.first)), "a list was not extracted: " + e.first);
    if (got != want)
    {
      const auto g = lines(got), x = lines(want);
      for (size_t k = 0; k < std::max(g.size(), x.size()); ++k)
        if (k >= g.size() || k >= x.size() || g[k] != x[k])
          fail("line " + str(k + 1) + " of the output is " + (k < g.size() ? quote(g[k]) : "missing") + ", expected " + (k < x.size() ? quote(x[k]) : "the end"));
      fail("the output differs in its line ends");
    }
    if (system(("rm -rf '" + w + "'").c_str()))
      fail("rm");
  }
}
