// Markov models: training words, an independent oracle of the counts, and control over the random numbers.
#pragma once
#include "common.hpp"
#include <unordered_map>
#include <numeric>
#include <iterator>
#include <utility>
#include <limits>
#include <cmath>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/json_parser.hpp>
#include <boost/locale/encoding_utf.hpp>
#ifdef VT_RANDOM
#include <termios.h>
#include <boost/filesystem.hpp>
namespace vt
{
inline double nextRandom = 0;
inline long randomCalls = 0;
}
#define random vt_real_random
#include <pwned-lib/util.hpp>
#undef random
namespace pwned
{
template <typename Numeric = double, typename Generator = std::mt19937>
static Numeric random()
{
  ++vt::randomCalls;
  return Numeric(vt::nextRandom);
}
}
#endif
#include <pwned-lib/markovchain.hpp>

namespace vt
{
typedef pwned::markov::Chain<> Chain;

inline std::string utf8(uint32_t c)
{
  std::string r;
  if (c < 0x80)
    r += char(c);
  else if (c < 0x800)
  {
    r += char(0xc0 | c >> 6);
    r += char(0x80 | (c & 63));
  }
  else if (c < 0x10000)
  {
    r += char(0xe0 | c >> 12);
    r += char(0x80 | (c >> 6 & 63));
    r += char(0x80 | (c & 63));
  }
  else
  {
    r += char(0xf0 | c >> 18);
    r += char(0x80 | (c >> 12 & 63));
    r += char(0x80 | (c >> 6 & 63));
    r += char(0x80 | (c & 63));
  }
  return r;
}
inline std::string utf8(const std::wstring &w)
{
  std::string r;
  for (wchar_t c : w)
    r += utf8(uint32_t(c));
  return r;
}

inline const std::vector<uint32_t> &alphabet()
{
  static const std::vector<uint32_t> a{'a', 'b', 'c', 'd', 'e', '1', ' ', 'A', 0x7f, 0x80, 0xe4, 0xff, 0x100, 0x161, 0x7ff, 0x800, 0x6100, 0xffff, 0x10000, 0x1f600, 0x10fffd, 1, 0};
  return a;
}
inline std::wstring word(size_t maxLen, size_t letters)
{
  std::wstring w;
  const size_t n = size_t(rnd(maxLen + 1));
  const auto &a = alphabet();
  for (size_t i = 0; i < n; ++i)
    w += wchar_t(a[size_t(rnd(std::min(letters, a.size())))]);
  return w;
}

// what has been observed
struct Counts
{
  std::map<wchar_t, uint64_t> first;
  std::map<wchar_t, std::map<wchar_t, uint64_t>> next;
  std::map<wchar_t, uint64_t> all;
  uint64_t words = 0;
  void train(const std::wstring &w)
  {
    if (w.empty())
      return;
    ++words;
    ++first[w[0]];
    for (size_t i = 0; i + 1 < w.size(); ++i)
    {
      ++next[w[i]][w[i + 1]];
      ++all[w[i]];
    }
  }
  uint64_t from(wchar_t a) const
  {
    auto i = all.find(a);
    return i == all.end() ? 0 : i->second;
  }
  double pFirst(wchar_t a) const
  {
    auto i = first.find(a);
    return i == first.end() ? 0 : double(i->second) / double(words);
  }
  double pNext(wchar_t a, wchar_t b) const
  {
    auto i = next.find(a);
    if (i == next.end())
      return 0;
    auto j = i->second.find(b);
    return j == i->second.end() ? 0 : double(j->second) / double(from(a));
  }
  double total(const std::wstring &w) const
  {
    if (w.empty())
      return -1;
    double p = pFirst(w[0]);
    for (size_t i = 0; i + 1 < w.size(); ++i)
      p *= pNext(w[i], w[i + 1]);
    return p;
  }
};

inline bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)); }

// the probabilities a chain shows
inline std::map<wchar_t, double> firsts(const Chain &c)
{
  std::map<wchar_t, double> m;
  for (const auto &p : c.firstSymbolProbs())
  {
    check(!m.count(p.first), "the first symbol " + str(long(p.first)) + " is listed twice");
    m[p.first] = p.second;
  }
  return m;
}
inline std::map<wchar_t, std::map<wchar_t, double>> transitions(const Chain &c)
{
  std::map<wchar_t, std::map<wchar_t, double>> m;
  for (const auto &n : c.nodes())
  {
    auto &t = m[n.first];
    for (const auto &s : n.second.successors())
      t[s.first] = s.second;
    std::map<wchar_t, double> u;
    for (const auto &s : n.second.sortedSuccessors())
    {
      check(!u.count(s.first), "the successor " + str(long(s.first)) + " of " + str(long(n.first)) + " is listed twice");
      u[s.first] = s.second;
    }
    check(u == t, "the sorted successors of " + str(long(n.first)) + " differ from its successors");
  }
  return m;
}
}
