#define VT_RANDOM
#include "markov.hpp"
using namespace vt;

// a saved model with given probabilities
static std::string model(const std::vector<std::pair<wchar_t, double>> &first, const std::vector<std::pair<wchar_t, double>> &next)
{
  std::string s = "MRKV\x02";
  auto pairs = [&s](const std::vector<std::pair<wchar_t, double>> &v) {
    put4(s, uint32_t(v.size()));
    for (auto &e : v)
    {
      put4(s, uint32_t(e.first));
      uint64_t b;
      memcpy(&b, &e.second, 8);
      put8(s, b);
    }
  };
  pairs(first);
  put4(s, 1);
  put4(s, 'N');
  pairs(next);
  return s;
}

static std::string listed(const std::vector<std::pair<wchar_t, double>> &v)
{
  std::ostringstream s;
  s.precision(17);
  for (auto &e : v)
    s << " " << long(e.first) << ":" << e.second;
  return s.str();
}

static void draw(const std::vector<std::pair<wchar_t, double>> &v, const std::function<wchar_t()> &f, const std::string &what)
{
  std::map<wchar_t, double> prob;
  double sum = 0;
  for (auto &e : v)
  {
    prob[e.first] = e.second;
    sum += e.second;
  }
  // the measure of the numbers that lead to a symbol is its probability
  const long n = 2000;
  std::map<wchar_t, long> hits;
  for (long i = 0; i < n; ++i)
  {
    nextRandom = (double(i) + 0.5) / double(n);
    const long calls = randomCalls;
    note(what + ", random number " + str(nextRandom));
    const wchar_t c = f();
    check(randomCalls == calls + 1, what + ": not exactly one random number is drawn");
    check(c == 0 || (prob.count(c) && prob[c] > 0), what + ": the random number " + str(nextRandom) + " yields " + str(long(c)));
    if (nextRandom > sum + 1e-9 )
      check(c == 0, what + ": the random number " + str(nextRandom) + " above the sum " + str(sum) + " yields " + str(long(c)));
    if (nextRandom < sum - 1e-9 && !prob.count(0))
      check(c != 0, what + ": the random number " + str(nextRandom) + " below the sum " + str(sum) + " yields no symbol");
    ++hits[c];
    ++cases;
  }
  for (auto &e : prob)
    if (e.first != 0)
    {
      const double want = e.second * double(n);
      check(std::fabs(double(hits[e.first]) - want) <= 1.001, what + ": the symbol " + str(long(e.first)) + " with probability " + str(e.second) + " is drawn for " + str(hits[e.first]) + " of " + str(n) + " equidistant random numbers");
      ++nontrivial;
    }
  // the exact measure of the numbers that lead to each symbol: where one symbol follows another is found by bisection
  double least = 1;
  for (auto &e : prob)
    if (e.second > 0)
      least = std::min(least, e.second);
  if (least >= 0.0006)
  {
    std::map<wchar_t, double> measure;
    auto drawn = [&](double p) { nextRandom = p; return f(); };
    double from = 0;
    wchar_t c0 = drawn(0);
    for (long i = 0; i <= n; ++i)
    {
      const double p = i < n ? (double(i) + 0.5) / double(n) : std::nextafter(1.0, 0);
      const wchar_t c = drawn(p);
      if (c == c0)
        continue;
      double a = i ? (double(i) - 0.5) / double(n) : 0, b = p;
      while (std::nextafter(a, 1) < b)
      {
        const double m = a + (b - a) / 2;
        if (m <= a || m >= b)
          break;
        (drawn(m) == c0 ? a : b) = m;
      }
      measure[c0] += b - from;
      from = b;
      c0 = c;
    }
    measure[c0] += 1 - from;
    for (auto &e : prob)
      if (e.first != 0)
      {
        std::ostringstream o;
        o.precision(17);
        o << what << ": the symbol " << long(e.first) << " with probability " << e.second << " is drawn for random numbers of measure " << measure[e.first];
        check(std::fabs(measure[e.first] - e.second) <= 1e-12, o.str());
        ++cases;
      }
  }
  // the ends of the intervals
  std::vector<double> ps{0, std::numeric_limits<double>::denorm_min(), 1 - std::ldexp(1, -53)};
  for (auto &e : v)
  {
    ps.push_back(e.second);
    ps.push_back(std::nextafter(e.second, 0));
    ps.push_back(std::nextafter(e.second, 1));
  }
  for (double p : ps)
    if (p < 1)
    {
      nextRandom = p;
      note(what + ", random number " + str(p));
      const wchar_t c = f();
      check(c == 0 || (prob.count(c) && prob[c] > 0), what + ": the random number " + str(p) + " yields " + str(long(c)));
      if (p < sum - 1e-9 && !prob.count(0))
        check(c != 0, what + ": the random number " + str(p) + " yields no symbol");
      ++cases;
    }
}

void vt::test()
{
  for (long i = 0; i < 60L * scale; ++i)
  {
    std::vector<std::pair<wchar_t, double>> v[2];
    for (auto &w : v)
    {
      const size_t n = i < 4 ? size_t(i) : size_t(rnd(12));
      double sum = 0;
      const auto &a = alphabet();
      std::vector<double> x;
      for (size_t k = 0; k < n; ++k)
      {
        x.push_back(rnd(5) == 0 ? 0.0 : double(1 + rnd(rnd(2) ? 3 : 1000)));
        sum += x.back();
      }
      const double scaleTo = rnd(4) == 0 ? 0.25 * double(1 + rnd(4)) : 1;
      const size_t at = size_t(rnd(a.size()));
      for (size_t k = 0; k < n; ++k)
        w.push_back({wchar_t(a[(at + k) % a.size()]), sum > 0 ? x[k] / sum * scaleTo : 0.0});
    }
    Chain c;
    std::istringstream in(model(v[0], v[1]), std::ios::binary);
    note("loading a model with first symbols" + listed(v[0]) + " and successors" + listed(v[1]));
    check(c.loadBinary(in) == Chain::OK, "loading a model with first symbols" + listed(v[0]) + " and successors" + listed(v[1]));
    draw(v[0], [&] { return c.randomFirstSymbol(); }, "drawing first symbols with the probabilities" + listed(v[0]));
    auto node = c.nodes().find(L'N');
    check(node != c.nodes().end(), "the node is missing");
    draw(v[1], [&] { return node->second.randomSuccessor(); }, "drawing successors with the probabilities" + listed(v[1]));
  }
  // trained models
  for (long i = 0; i < 20L * scale; ++i)
  {
    Chain c;
    std::string what = "drawing from a model trained with";
    Counts k;
    for (long j = 0, n = 1 + long(rnd(20)); j < n; ++j)
    {
      const std::wstring w = word(5, 5);
      what += " " + quote(utf8(w));
      c.train(utf8(w));
      k.train(w);
    }
    c.update();
    std::vector<std::pair<wchar_t, double>> f;
    for (auto &e : k.first)
      f.push_back({e.first, k.pFirst(e.first)});
    draw(f, [&] { return c.randomFirstSymbol(); }, what + " (first symbols)");
    for (auto &e : k.next)
    {
      f.clear();
      for (auto &s : e.second)
        f.push_back({s.first, k.pNext(e.first, s.first)});
      auto node = c.nodes().find(e.first);
      check(node != c.nodes().end(), what + ": the node of " + str(long(e.first)) + " is missing");
      draw(f, [&] { return node->second.randomSuccessor(); }, what + " (successors of " + str(long(e.first)) + ")");
    }
  }
}
