#include "markov.hpp"
using namespace vt;

static void compare(const Chain &c0, const Counts &k, const std::string &what)
{
  Chain c = c0;
  auto f = firsts(c);
  check(f.size() == k.first.size(), what + ": " + str(f.size()) + " first symbols, expected " + str(k.first.size()));
  for (auto &e : k.first)
  {
    check(f.count(e.first), what + ": the first symbol " + str(long(e.first)) + " is missing");
    check(near(f[e.first], k.pFirst(e.first)), what + ": the first symbol " + str(long(e.first)) + " has probability " + str(f[e.first]) + ", expected " + str(k.pFirst(e.first)));
  }
  auto t = transitions(c);
  for (uint32_t a : alphabet())
    for (uint32_t b : alphabet())
    {
      auto i = c.nodes().find(wchar_t(a));
      const double p = i == c.nodes().end() ? 0 : i->second.probability(wchar_t(b));
      const double q = k.pNext(wchar_t(a), wchar_t(b));
      check(near(p, q), what + ": the transition " + str(a) + " -> " + str(b) + " has probability " + str(p) + ", expected " + str(q));
      const double r = t.count(wchar_t(a)) && t[wchar_t(a)].count(wchar_t(b)) ? t[wchar_t(a)][wchar_t(b)] : 0;
      check(near(r, q), what + ": the listed transition " + str(a) + " -> " + str(b) + " has probability " + str(r) + ", expected " + str(q));
    }
}


// many distinct symbols: 'wide' of them as first symbols and as successors of one symbol
static void wide(size_t n)
{
  Chain c;
  Counts k;
  std::vector<uint32_t> a;
  for (uint32_t x = uint32_t(rnd(2)); a.size() < n; x += 1 + uint32_t(rnd(n < 3000 ? 90 : 3)))
    if (x < 0xd800 || x > 0xdfff)
      a.push_back(x);
  const uint32_t hub = a[size_t(rnd(n))];
  note("training the " + str(n) + " two-symbol words starting with symbol " + str(hub) + " and their reverses");
  for (uint32_t x : a)
    for (int d = 0; d < 2; ++d)
    {
      const std::wstring w{wchar_t(d ? x : hub), wchar_t(d ? hub : x)};
      const int times = 1 + int(rnd(3));
      for (int t = 0; t < times; ++t)
      {
        check(c.train(utf8(w)), "train returned false");
        k.train(w);
      }
    }
  c.update();
  const std::string what = str(n) + " two-symbol words starting with symbol " + str(hub) + ", and their reverses";
  auto f = firsts(c);
  auto t = transitions(c);
  check(f.size() == k.first.size(), what + ": " + str(f.size()) + " first symbols, expected " + str(k.first.size()));
  check(t.size() == k.next.size(), what + ": " + str(t.size()) + " symbols with successors, expected " + str(k.next.size()));
  for (uint32_t x : a)
  {
    check(near(f[wchar_t(x)], k.pFirst(wchar_t(x))), what + ": the first symbol " + str(x) + " has probability " + str(f[wchar_t(x)]) + ", expected " + str(k.pFirst(wchar_t(x))));
    check(near(t[wchar_t(hub)][wchar_t(x)], k.pNext(wchar_t(hub), wchar_t(x))), what + ": the transition to " + str(x) + " has probability " + str(t[wchar_t(hub)][wchar_t(x)]) + ", expected " + str(k.pNext(wchar_t(hub), wchar_t(x))));
    check(near(t[wchar_t(x)][wchar_t(hub)], k.pNext(wchar_t(x), wchar_t(hub))), what + ": the transition from " + str(x) + " has probability " + str(t[wchar_t(x)][wchar_t(hub)]) + ", expected " + str(k.pNext(wchar_t(x), wchar_t(hub))));
    const std::wstring w{wchar_t(hub), wchar_t(x), wchar_t(hub)};
    const double p = c.totalProbability(w), e = k.total(w);
    check(near(p, e), what + ": the total probability of " + quote(utf8(w)) + " is " + str(p) + ", expected " + str(e));
    ++cases;
    ++nontrivial;
  }
}

// one word again and again, with a few others
static void many(size_t n)
{
  Chain c;
  Counts k;
  const std::wstring w = word(4, 5) + L"ab";
  note("training " + quote(utf8(w)) + " " + str(n) + " times");
  for (size_t i = 0; i < n; ++i)
  {
    c.train(utf8(w));
    k.train(w);
    if (i % 20000 == 7)
    {
      const std::wstring x = word(5, 8);
      c.train(utf8(x));
      k.train(x);
    }
  }
  c.update();
  compare(c, k, quote(utf8(w)) + " trained " + str(n) + " times, other words between");
  ++cases;
}

// a long word
static void lengthy(size_t n)
{
  Chain c;
  Counts k;
  std::wstring w;
  for (size_t i = 0; i < n; ++i)
    w += wchar_t(alphabet()[size_t(rnd(rnd(2) ? 3 : 12))]);
  note("training one word of " + str(n) + " symbols");
  c.train(utf8(w));
  k.train(w);
  c.update();
  compare(c, k, "one word of " + str(n) + " symbols");
  const double p = c.totalProbability(w.substr(0, 200)), e = k.total(w.substr(0, 200));
  check(near(p, e), "the total probability of a long word is " + str(p) + ", expected " + str(e));
  ++cases;
}

void vt::test()
{
  for (long i = 0; i < 300L * scale; ++i)
  {
    Chain c;
    Counts k;
    std::string what = "training";
    const size_t letters = 1 + size_t(rnd(rnd(2) ? 4 : 23)), len = 1 + size_t(rnd(8));
    const int rounds = 1 + int(rnd(3));
    std::vector<std::wstring> seen;
    for (int r = 0; r < rounds; ++r)
    {
      const long n = long(rnd(i % 10 == 9 ? 3000 : 12));
      for (long j = 0; j < n; ++j)
      {
        const std::wstring w = rnd(6) == 0 && !seen.empty() ? seen[size_t(rnd(seen.size()))] : word(len, letters);
        if (what.size() < 4000)
          what += " " + quote(utf8(w));
        note(what);
        const bool ok = c.train(utf8(w));
        check(ok == !w.empty(), what + ": train returned " + str(ok));
        k.train(w);
        if (seen.size() < 50)
          seen.push_back(w);
      }
      what += " update";
      note(what);
      c.update();
      if (rnd(3) == 0)
        c.update();
      compare(c, k, what);
      for (int q = 0; q < 60; ++q)
      {
        const std::wstring w = !seen.empty() && rnd(2) ? seen[size_t(rnd(seen.size()))] + word(2, letters) : word(len, std::min<size_t>(23, letters + 1));
        const double p = c.totalProbability(w), e = k.total(w);
        const std::string say = what + ": the total probability of " + quote(utf8(w)) + " is " + str(p) + ", expected " + str(e);
        check(w.empty() ? p < 0 : near(p, e) && !(p < 0), say);
        nontrivial += e > 0;
        ++cases;
      }
      compare(c, k, what + ", after asking for total probabilities");
    }
  }
  for (size_t n : {255, 256, 257, 300, 1000, 1025, 5000, 66000})
    wide(n);
  for (size_t n : {255, 256, 257, 1000, 40000, 66000, 140000})
    many(n);
  for (size_t n : {64, 65, 127, 128, 255, 256, 257, 300, 1000, 5000, 70000})
    lengthy(n);
}
