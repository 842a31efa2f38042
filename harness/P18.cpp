#include "common.hpp"
#include "pwned-server/uri.hpp"
using namespace vt;

struct Parts
{
  bool valid{false};
  std::string scheme, user, pass, host, path, query, fragment;
  bool cred{false};
  unsigned long port{0};
  std::map<std::string, std::string> params;
};

static bool one(const std::string &t, size_t &i, const char *more)
{
  if (i >= t.size())
    return false;
  const unsigned char c = (unsigned char)t[i];
  if (c == '%')
  {
    if (i + 2 < t.size() && isxdigit((unsigned char)t[i + 1]) && isxdigit((unsigned char)t[i + 2]))
    {
      i += 3;
      return true;
    }
    return false;
  }
  if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c && strchr("-._~!$&'()*+,;=", c)) || (c && strchr(more, c)))
  {
    ++i;
    return true;
  }
  return false;
}

static std::string chars(const std::string &t, size_t &i, const char *more)
{
  const size_t from = i;
  while (one(t, i, more))
    ;
  return t.substr(from, i - from);
}

static Parts take(const std::string &t)
{
  Parts r;
  size_t i = 0;
  while (i < t.size() && ((t[i] >= 'a' && t[i] <= 'z') || (t[i] >= '0' && t[i] <= '9') || t[i] == '+' || t[i] == '.' || t[i] == '-'))
    ++i;
  if (i == 0 || i >= t.size() || t[i] != ':')
    return r;
  r.scheme = t.substr(0, i++);
  bool ok = true;
  if (t.compare(i, 2, "//") == 0)
  {
    i += 2;
    size_t k = i;
    const std::string cred = chars(t, k, ":");
    if (k < t.size() && t[k] == '@')
    {
      i = k + 1;
      if (!cred.empty())
      {
        const size_t c = cred.find(':');
        if (c == std::string::npos || cred.find(':', c + 1) != std::string::npos)
          ok = false;
        else
        {
          r.cred = true;
          r.user = cred.substr(0, c);
          r.pass = cred.substr(c + 1);
        }
      }
    }
    r.host = chars(t, i, "");
    r.port = r.scheme == "http" ? 80 : r.scheme == "https" ? 443 : 0;
    if (i < t.size() && t[i] == ':')
    {
      std::string d;
      for (++i; i < t.size() && isdigit((unsigned char)t[i]); ++i)
        d += t[i];
      if (!d.empty())
      {
        r.port = 0;
        for (char c : d)
          r.port = std::min(100000ul, r.port * 10 + (unsigned long)(c - '0'));
        ok = ok && r.port <= 65535;
      }
    }
    if (i < t.size() && t[i] == '/')
      r.path = chars(t, i, ":@/");
  }
  else
  {
    r.port = r.scheme == "http" ? 80 : r.scheme == "https" ? 443 : 0;
    const size_t from = i;
    size_t k = i;
    if (k < t.size() && t[k] == '/')
      ++k;
    if (one(t, k, ":@"))
    {
      chars(t, k, ":@/");
      i = k;
      r.path = t.substr(from, i - from);
    }
  }
  if (i < t.size() && t[i] == '?')
  {
    ++i;
    const std::string q = chars(t, i, ":/?@");
    if (!q.empty())
    {
      std::string p;
      for (size_t k = 0; k <= q.size(); ++k)
        if (k == q.size() || q[k] == '&')
        {
          const size_t e = p.find('=');
          if (e == std::string::npos || p.find('=', e + 1) != std::string::npos)
            ok = false;
          else
            r.params[p.substr(0, e)] = p.substr(e + 1);
          p.clear();
        }
        else
          p += q[k];
    }
  }
  if (i < t.size() && t[i] == '#')
  {
    ++i;
    r.fragment = chars(t, i, ":/?@");
  }
  r.valid = ok && i == t.size();
  return r;
}

static std::string piece(const char *extra, size_t max = 7)
{
  static const std::string plain = "abcxyzXY0129-._~!$'()*+,;";
  std::string s;
  for (size_t n = rnd(max); n > 0; --n)
    switch (rnd(14))
    {
    case 0: { char b[4]; snprintf(b, sizeof b, rnd(2) ? "%%%02X" : "%%%02x", unsigned(rnd(256))); s += b; } break;
    case 1: case 2: s += *extra ? extra[rnd(strlen(extra))] : 'a'; break;
    default: s += plain[rnd(plain.size())];
    }
  return s;
}

static std::string uri()
{
  static const char *schemes[] = {"http", "https", "ftp", "mailto", "urn", "h", "http2", "a+b-c.d", "9x"};
  std::string t = schemes[rnd(9)];
  t += ':';
  if (rnd(5))
  {
    t += "//";
    if (rnd(3) == 0)
      t += (rnd(4) ? piece("") + ":" + piece("") : piece(":")) + "@";
    t += piece("=&", 12);
    if (rnd(3) == 0)
    {
      static const char *ports[] = {"", "0", "80", "65535", "65536", "065535", "99999", "18446744073709551616", "4294967297", "00000000000000000000443"};
      t += ":" + (rnd(2) ? std::string(ports[rnd(10)]) : str(rnd(70000)));
    }
    if (rnd(4))
      t += "/" + piece(":@/=&", 14);
  }
  else
    t += piece(":@/", 14);
  if (rnd(2))
  {
    t += '?';
    for (size_t n = rnd(4); n > 0; --n)
      t += piece("/?:@") + (rnd(15) ? "=" : rnd(2) ? "" : "==") + piece("/?:@") + (n > 1 || rnd(12) == 0 ? "&" : "");
  }
  if (rnd(3) == 0)
    t += "#" + piece("/?:@&=", 10);
  // damage
  for (size_t n = rnd(6) ? 0 : 1 + rnd(2); n > 0; --n)
    switch (rnd(3))
    {
    case 0: t.insert(rnd(t.size() + 1), 1, rnd(3) ? " \"<>[]{}|\\^`%#?:/@&="[rnd(20)] : char(rnd(256))); break;
    case 1: if (!t.empty()) t.erase(rnd(t.size()), 1); break;
    default: if (!t.empty()) t[rnd(t.size())] = rnd(2) ? "%#:/?@ A"[rnd(8)] : char(rnd(256));
    }
  if (rnd(300) == 0)
    t += std::string(1 + rnd(2000), "a/%:"[rnd(4)]);
  return t;
}

void vt::test()
{
  URI again;
  for (long i = 0; i < 8000L * scale; ++i)
  {
    const std::string t = uri();
    if (t.size() > 4000)
      continue;
    note("URI " + quote(t));
    ++cases;
    const Parts w = take(t);
    nontrivial += w.valid;
    URI fresh;
    URI &u = rnd(4) ? fresh : again;
    try
    {
      u.parse(t);
    }
    catch (std::exception &e)
    {
      fail(std::string("parse throws ") + e.what());
    }
    check(u.isValid() == w.valid, w.valid ? "a well-formed URI is said to be invalid" : "an invalid URI is said to be valid");
    if (!w.valid)
      continue;
    check(u.scheme() == w.scheme, "scheme is " + quote(u.scheme()) + " instead of " + quote(w.scheme));
    check(u.username() == w.user && u.password() == w.pass, "credentials are " + quote(u.username()) + ":" + quote(u.password()));
    check(u.host() == w.host, "host is " + quote(u.host()) + " instead of " + quote(w.host));
    check(u.port() == w.port, "port is " + str(u.port()) + " instead of " + str(w.port));
    check(u.path() == w.path, "path is " + quote(u.path()) + " instead of " + quote(w.path));
    check(u.query() == w.params, "the parameters are wrong");
    check(u.fragment() == w.fragment, "fragment is " + quote(u.fragment()) + " instead of " + quote(w.fragment));
  }
}
