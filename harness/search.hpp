// shared by the checks of searches in hash files
#pragma once
#include "common.hpp"
#include "pwned-lib/passwordinspector.hpp"

namespace vt
{
using pwned::Hash;
using pwned::PasswordInspector;
using pwned::PHC;

// the target of a search: present, next to a record, extreme, or random
inline Rec target(const std::vector<Rec> &v)
{
  Rec t{num(), num(), 0};
  if (!v.empty() && rnd(4))
  {
    const uint64_t where = rnd(6);
    const Rec &r = where == 0 ? v.front() : where == 1 ? v.back() : v[rnd(v.size())];
    t.u = r.u;
    t.l = r.l;
    switch (rnd(8))
    {
    case 0: t.l += 1; break;
    case 1: t.l -= 1; break;
    case 2: t.u += 1; break;
    case 3: t.u -= 1; break;
    default: break;
    }
  }
  else if (rnd(3) == 0)
  {
    t.u = rnd(2) ? 0 : ~uint64_t(0);
    t.l = rnd(2) ? 0 : ~uint64_t(0);
  }
  return t;
}

inline const Rec *find(const std::vector<Rec> &v, const Rec &t)
{
  auto i = std::lower_bound(v.begin(), v.end(), t);
  return i != v.end() && i->u == t.u && i->l == t.l ? &*i : nullptr;
}

inline std::string showHash(const Rec &t)
{
  std::ostringstream s;
  s << std::hex << t.u << ":" << t.l;
  return s.str();
}

inline std::string brief(const std::vector<Rec> &v)
{
  return v.size() <= 60 ? show(v) : "[" + str(v.size()) + " records, first " + showHash(v.front()) + ", last " + showHash(v.back()) + "]";
}

inline void judge(const std::vector<Rec> &v, const Rec &t, const PHC &p, const std::string &what)
{
  const Rec *r = find(v, t);
  if (r)
  {
    check(p.count == r->c, what + " reports count " + str(p.count) + " instead of " + str(r->c) + " for hash " + showHash(t));
    check(p.hash.quad.upper == t.u && p.hash.quad.lower == t.l, what + " returns another hash for " + showHash(t));
  }
  else
    check(p.count == 0, what + " reports count " + str(p.count) + " for hash " + showHash(t) + ", which is not in the file");
  ++cases;
  nontrivial += r != nullptr;
}

// every entry of an index by the definition, not by the indexer
inline std::string indexOf(const std::vector<Rec> &v, unsigned bits)
{
  std::vector<uint64_t> e(size_t(1) << bits, ~uint64_t(0));
  for (size_t i = v.size(); i-- > 0;)
    e[size_t(v[i].u >> (64 - bits))] = i * 20;
  return std::string(reinterpret_cast<const char *>(e.data()), e.size() * 8);
}

inline size_t fileSize()
{
  switch (rnd(10))
  {
  case 0: return rnd(3);
  case 1: return 300 + rnd(900);
  case 2: return 64 + rnd(4);
  default: return rnd(24);
  }
}
} // namespace vt
