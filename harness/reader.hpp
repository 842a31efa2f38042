// Password lists and what a reader has to make of them, worked out independently of the code.
#pragma once
#include "common.hpp"
#include "pwned-lib/userpasswordreader.hpp"
#include <memory>

namespace vt
{
using pwned::UserPasswordReader;
typedef std::vector<pwned::UserPasswordReaderOptions> Options;

inline bool allHex(const std::string &s)
{
  for (unsigned char c : s)
    if (!isxdigit(c))
      return false;
  return true;
}

// the lines a reader delivers; a list ending in a newline (or an empty list) ends with one more, empty read
inline std::vector<std::string> linesOf(const std::string &text)
{
  std::vector<std::string> r(1);
  for (char c : text)
    if (c == '\n')
      r.emplace_back();
    else
      r.back() += c;
  return r;
}

inline std::string passwordOf(const std::string &line, char sep)
{
  if (line.empty() || line.size() > 200)
    return "";
  std::string r;
  for (char c : line)
    if (c != '\r')
      r += c;
  if (sep)
    for (size_t i = 0; i < r.size(); ++i)
      if (r[i] == sep)
        return r.substr(i + 1);
  return r;
}

inline int hv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

inline std::string unhex(const std::string &h)
{
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    r += char(hv(h[i]) * 16 + hv(h[i + 1]));
  return r;
}

inline std::string hashOf(const std::string &pw, bool md5On, bool hexOn)
{
  if (md5On && pw.size() == 32 && allHex(pw))
    return unhex(pw);
  if (hexOn && pw.size() >= 8 && pw.size() % 2 == 0 && pw.compare(0, 5, "$HEX[") == 0 && pw.back() == ']' && allHex(pw.substr(5, pw.size() - 6)))
    return md5(unhex(pw.substr(5, pw.size() - 6)));
  return md5(pw);
}

// the separators that may be chosen
inline std::vector<char> choices(const std::string &text)
{
  const std::vector<std::string> l = linesOf(text);
  std::map<char, int> n;
  for (size_t i = 0; i < l.size() && i < 500; ++i)
    for (char c : std::string(":;\t "))
      n[c] += l[i].find(c) != std::string::npos;
  int best = 0;
  for (auto &p : n)
    best = std::max(best, p.second);
  std::vector<char> r;
  if (best == 0)
    return {'\0'};
  for (auto &p : n)
    if (p.second == best)
      r.push_back(p.first);
  return r;
}

inline std::string word()
{
  static const std::string plain = "abcdefgXYZ0189!_-.$[]%";
  std::string s;
  const size_t n = rnd(40) == 0 ? rnd(230) : rnd(14);
  for (size_t i = 0; i < n; ++i)
    s += rnd(30) == 0 ? char(1 + rnd(255)) : plain[rnd(plain.size())];
  for (auto &c : s)
    if (c == '\n')
      c = '.';
  return s;
}

inline std::string digitsText(size_t n)
{
  static const char *d = "0123456789abcdefABCDEF";
  std::string s;
  for (size_t i = 0; i < n; ++i)
    s += d[rnd(22)];
  return s;
}

// a password, often of one of the encoded kinds or only nearly so
inline std::string secret()
{
  switch (rnd(10))
  {
  case 0: return digitsText(32);
  case 1: return digitsText(31 + rnd(3));
  case 2: { std::string s = digitsText(32); s[rnd(32)] = "gzG.-:;"[rnd(7)]; return s; }
  case 3: return "$HEX[" + digitsText(2 * rnd(20)) + "]";
  case 4: return "$HEX[" + digitsText(rnd(20)) + "]";
  case 5: { std::string s = "$HEX[" + digitsText(2 + 2 * rnd(8)) + "]"; s[rnd(s.size())] = "gZ[]$x;:"[rnd(8)]; return s; }
  case 6: return rnd(2) ? "$hex[" + digitsText(6) + "]" : "$HEX[" + digitsText(6) + "]" + word();
  case 7: return rnd(2) ? "$HEX[" + digitsText(150 + rnd(44)) + "]" : digitsText(190 + rnd(12));
  default: return word();
  }
}

inline std::string line(char mainSep)
{
  std::string s;
  switch (rnd(8))
  {
  case 0: s = secret(); break;
  case 1: s = ""; break;
  case 2: s = word() + mainSep; break;
  case 3: s = word() + mainSep + secret() + ":;\t "[rnd(4)] + word(); break;
  case 4: s = word() + ":;\t "[rnd(4)] + word() + mainSep + secret(); break;
  default: s = word() + mainSep + secret();
  }
  if (rnd(25) == 0)
    s.resize(196 + rnd(10), 'x');
  if (rnd(6) == 0)
    s += '\r';
  if (rnd(20) == 0)
    s.insert(rnd(s.size() + 1), "\r");
  return s;
}

// a list; the separators occur differently often, also behind the part that is looked at
inline std::string list()
{
  std::string t;
  const char *seps = ":;\t ";
  char a = seps[rnd(4)], b = seps[rnd(4)];
  size_t n = rnd(12);
  if (rnd(4) == 0)
    n = 1 + rnd(4);
  if (rnd(12) == 0)
    n = 480 + rnd(300);
  const bool plain = rnd(4) == 0, late = rnd(2);
  for (size_t i = 0; i < n; ++i)
  {
    char sep = rnd(3) ? a : b;
    if (late && i >= 500)
      sep = b;
    std::string l = line(sep);
    if (plain)
      for (auto &c : l)
        if (strchr(":;\t ", c) && c)
          c = '_';
    t += l;
    if (i + 1 < n || rnd(2))
      t += '\n';
  }
  if (rnd(400) == 0)
    t += "\n" + std::string(20000 + rnd(400000), "a0:$"[rnd(4)]) + "\nlast" + seps[rnd(4)] + "pw";
  return t;
}

struct Opened
{
  std::unique_ptr<std::istream> in;
  std::unique_ptr<UserPasswordReader> reader;
  bool ok() const { return bool(reader); }
};

inline Opened openList(const std::string &text, const Options &o)
{
  Opened r;
  if (rnd(8) == 0)
  {
    writeFile(dir + "/list.txt", text);
    r.in.reset(new std::ifstream(dir + "/list.txt", std::ios::binary));
  }
  else
    r.in.reset(new std::istringstream(text));
  r.reader.reset(new UserPasswordReader(*r.in, o));
  return r;
}

inline Options randomOptions(unsigned &mask)
{
  mask = unsigned(rnd(16));
  Options o;
  for (unsigned i = 0; i < 4; ++i)
    if (mask >> i & 1)
      o.push_back(pwned::UserPasswordReaderOptions(i));
  if (o.size() > 1 && rnd(2))
    std::swap(o[0], o[o.size() - 1]);
  return o;
}

inline std::string brief(const std::string &t)
{
  return quote(t.size() > 3000 ? t.substr(0, 3000) : t) + " (" + str(t.size()) + " bytes)";
}
} // namespace vt
