#include "common.hpp"
#include "pwned-server/uri.hpp"
using namespace vt;

static std::string piece()
{
  static const std::string plain = "abcXYZ019._-%2f/:@+";
  std::string s;
  for (size_t n = rnd(6); n > 0; --n)
    s += rnd(40) == 0 ? char(rnd(256)) : plain[rnd(plain.size())];
  return s;
}

static std::string target()
{
  std::string t = rnd(10) ? "/" + piece() : piece();
  for (size_t n = rnd(rnd(3) ? 9 : 25); n > 0; --n)
    switch (rnd(12))
    {
    case 0: t += '#'; break;
    case 1: case 2: t += '?'; break;
    case 3: case 4: case 5: t += '&'; break;
    case 6: case 7: case 8: t += '='; break;
    default: t += piece();
    }
  if (rnd(500) == 0)
    t += std::string(200000, "a=&?#"[rnd(5)]);
  return t;
}

struct Parts
{
  std::string path, fragment;
  std::map<std::string, std::string> query;
};

static Parts take(const std::string &t)
{
  Parts r;
  size_t i = 0;
  while (i < t.size() && t[i] != '?')
    r.path += t[i++];
  if (i == t.size())
    return r;
  size_t h = i;
  while (h < t.size() && t[h] != '#')
    ++h;
  if (h < t.size())
    r.fragment = t.substr(h + 1);
  std::string p;
  for (++i;; ++i)
  {
    const bool end = i >= t.size() || t[i] == '?' || t[i] == '#';
    if (end || t[i] == '&')
    {
      size_t n = 0, at = 0;
      for (size_t k = 0; k < p.size(); ++k)
        if (p[k] == '=')
        {
          ++n;
          at = k;
        }
      if (n == 1)
        r.query[p.substr(0, at)] = p.substr(at + 1);
      p.clear();
      if (end)
        break;
    }
    else
      p += t[i];
  }
  return r;
}

static std::string showMap(const std::map<std::string, std::string> &m)
{
  std::string s;
  for (auto &e : m)
    s += quote(e.first) + "=" + quote(e.second) + " ";
  return "{" + s + "}";
}

void vt::test()
{
  URI again;
  for (long i = 0; i < 60000L * scale; ++i)
  {
    const std::string t = target();
    note("target " + quote(t.size() > 2000 ? t.substr(0, 2000) : t) + " (" + str(t.size()) + " bytes)");
    ++cases;
    const Parts want = take(t);
    nontrivial += want.query.size() > 1 && !want.fragment.empty();
    URI fresh;
    URI &u = rnd(4) ? fresh : again;
    u.parseTarget(t);
    check(u.path() == want.path, "path is " + quote(u.path()) + " instead of " + quote(want.path));
    check(u.query() == want.query, "parameters are " + showMap(u.query()) + " instead of " + showMap(want.query));
    check(u.fragment() == want.fragment, "fragment is " + quote(u.fragment()) + " instead of " + quote(want.fragment));
  }
}
