#include "search.hpp"
#include <random>
using namespace vt;

static std::string hex32(const Rec &r, bool upper)
{
  char b[40];
  snprintf(b, sizeof b, upper ? "%016llX%016llX" : "%016llx%016llx", (unsigned long long)r.u, (unsigned long long)r.l);
  return b;
}

// the records of a test set
static std::vector<Rec> records(const std::string &s, bool urls, const std::string &prefix, const std::string &what)
{
  std::vector<Rec> v;
  if (!urls)
  {
    check(s.size() % 20 == 0, what + ": the test set has " + str(s.size()) + " bytes");
    return recs(s);
  }
  std::istringstream is(s);
  std::string l;
  check(s.empty() || s.back() == '\n', what + ": the last line is not complete");
  while (std::getline(is, l))
  {
    check(l.size() == prefix.size() + 32 && l.substr(0, prefix.size()) == prefix, what + ": line " + quote(l));
    Rec r{strtoull(l.substr(prefix.size(), 16).c_str(), nullptr, 16), strtoull(l.substr(prefix.size() + 16).c_str(), nullptr, 16), 0};
    const std::string h = l.substr(prefix.size());
    check(h == hex32(r, false) || h == hex32(r, true), what + ": line " + quote(l));
    v.push_back(r);
  }
  return v;
}

void vt::test()
{
  const std::string tool = std::string(getenv("VT_BIN")) + "/test-set-extractor", f = dir + "/h.md5", o = dir + "/set";
  for (long i = 0; i < 150L * scale; ++i)
  {
    auto v = sortedFile(rnd(12) ? size_t(rnd(4) ? rnd(40) : rnd(1500)) : 0);
    const bool absent = rnd(3) == 0, urls = rnd(2);
    long n = rnd(3) ? 1 + long(rnd(12)) : rnd(3) ? long(v.size()) + long(rnd(5)) - 2 : long(rnd(300)) - 2;
    if (absent)
    {
      std::mt19937_64 gen;
      gen.seed(31337);
      for (long k = 0; k < n; ++k)
      {
        const uint64_t a = gen(), b = gen();
        if (rnd(3) == 0)
        {
          v.push_back({a, b, uint32_t(1 + rnd(9))});
          v.push_back({b, a, uint32_t(1 + rnd(9))});
        }
      }
      std::sort(v.begin(), v.end());
    }
    const std::string rest(rnd(3) ? 0 : size_t(rnd(20)), 'r');
    writeFile(f, bytes(v) + rest);
    if (rnd(3) == 0)
      writeFile(o, "old old old");
    else
      unlink(o.c_str());
    std::vector<std::string> argv{tool, "-I", f, "-O", o, "--num=" + str(n)};
    std::string prefix = "http://127.0.0.1:31337/v1/pwned/api/lookup?hash=";
    if (absent)
      argv.push_back("--non-existent");
    if (urls)
    {
      argv.push_back("--test-urls");
      if (rnd(2))
        argv.push_back("--test-url-prefix=" + (prefix = "https://x/?h="));
    }
    std::string what = "extractor";
    for (size_t k = 5; k < argv.size(); ++k)
      what += " " + argv[k];
    what += ", " + str(rest.size()) + " bytes more, " + brief(v);
    note(what);
    std::string out;
    const int rc = run(argv, "", &out, 30, false);
    if (n < 1)
    {
      check(rc > 0, what + ": exit code " + str(rc));
      continue;
    }
    check(rc == 0, what + ": exit code " + str(rc));
    const auto r = records(readFile(o), urls, prefix, what);
    ++cases;
    nontrivial += r.size() > 1;
    if (absent)
    {
      std::set<std::pair<uint64_t, uint64_t>> seen;
      for (auto &x : r)
      {
        const Rec *y = find(v, x);
        check(!y, what + ": " + showHash(x) + " is in the file");
        check(urls || x.c == 0, what + ": " + showHash(x) + " with count " + str(x.c));
        check(seen.insert({x.u, x.l}).second, what + ": " + showHash(x) + " is written twice");
      }
      check(long(r.size()) <= n, what + ": " + str(r.size()) + " hashes");
      if (v.empty())
        check(long(r.size()) == n, what + ": " + str(r.size()) + " hashes");
      continue;
    }
    const size_t want = std::min(size_t(n), v.size());
    check(r.size() == want, what + ": " + str(r.size()) + " records instead of " + str(want));
    size_t at = 0;
    for (auto &x : r)
    {
      while (at < v.size() && !(v[at].u == x.u && v[at].l == x.l && (urls || v[at].c == x.c)))
        ++at;
      check(at < v.size(), what + ": " + showHash(x) + " is not in the file, or twice, or not with count " + str(x.c));
      ++at;
    }
  }
  std::string out;
  note("a file that is not there");
  check(run({tool, "-I", dir + "/none", "-O", o, "-N", "3"}, "", &out, 30, false) != 0, "no hash file: success");
  writeFile(f, std::string(200, 'x'));
  note("an output that cannot be written");
  check(run({tool, "-I", f, "-O", dir + "/none/set", "-N", "3"}, "", &out, 30, false) > 0, "no output: success");
}
