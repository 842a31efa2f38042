#include "bigfile.hpp"
using namespace vt;

void vt::test()
{
  const std::string f = dir + "/h.md5", x = dir + "/h.idx";
  for (long i = 0; i < 200L * scale; ++i)
  {
    const auto v = sortedFile(fileSize());
    writeFile(f, bytes(v));
    const bool indexed = rnd(3) == 0;
    const unsigned bits = 1 + unsigned(rnd(10));
    if (indexed)
      writeFile(x, indexOf(v, bits));
    PasswordInspector *pi = indexed ? new PasswordInspector(f, x) : new PasswordInspector(f);
    std::string hist = "file " + brief(v) + (indexed ? " with a " + str(bits) + "-bit index" : "") + ", lookups in this order:";
    for (int k = 0; k < 60; ++k)
    {
      const Rec t = target(v);
      const uint64_t how = rnd(5);
      PHC p;
      hist += (how == 0 ? " smart " : " plain ") + showHash(t);
      note(hist);
      int n = 0;
      if (how == 0)
        p = pi->smart_binsearch(Hash(t.u, t.l), &n);
      else if (how == 1)
      {
        const std::string pwd = str(rnd(5));
        pi->lookup(pwd);
        hist += " (and password " + pwd + " before)";
        p = pi->binsearch(Hash(t.u, t.l));
      }
      else
        p = pi->binsearch(Hash(t.u, t.l), &n);
      judge(v, t, p, "lookup " + str(k) + " of a sequence");
      PasswordInspector fresh(f);
      PHC q = fresh.binsearch(Hash(t.u, t.l));
      check(q.count == p.count, "a freshly opened reader answers differently");
    }
    delete pi;
  }
  // several readers at the same time, of different files
  for (long i = 0; i < 60L * scale; ++i)
  {
    std::vector<std::vector<Rec>> v;
    std::vector<PasswordInspector *> pi;
    const size_t n = 2 + size_t(rnd(3));
    std::string hist = "readers of the files";
    const auto base = sortedFile(fileSize());
    for (size_t j = 0; j < n; ++j)
    {
      std::vector<Rec> w;
      switch (rnd(5))
      {
      case 0: break;
      case 1: w = sortedFile(fileSize()); break;
      default:
        for (auto r : base)
          if (rnd(3))
          {
            r.c = uint32_t(1 + rnd(100000));
            w.push_back(r);
          }
      }
      const std::string g = dir + "/m" + str(j);
      writeFile(g, bytes(w));
      hist += " " + str(j) + ": " + brief(w);
      if (rnd(3) == 0)
      {
        writeFile(g + ".idx", indexOf(w, 8));
        hist += " (8-bit index)";
        pi.push_back(new PasswordInspector(g, g + ".idx"));
      }
      else
        pi.push_back(new PasswordInspector(g));
      v.push_back(w);
    }
    hist += ", lookups in this order:";
    Rec t = target(base);
    for (int k = 0; k < 60; ++k)
    {
      const size_t j = size_t(rnd(n));
      if (rnd(2))
        t = target(rnd(2) ? base : v[j]);
      const bool smart = rnd(4) == 0;
      hist += " " + str(j) + (smart ? ": smart " : ": plain ") + showHash(t);
      note(hist);
      judge(v[j], t, smart ? pi[j]->smart_binsearch(Hash(t.u, t.l)) : pi[j]->binsearch(Hash(t.u, t.l)), "lookup " + str(k) + " of a sequence over several readers");
    }
    for (auto p : pi)
      delete p;
  }
  bigFile(250000000ull, false, 0);
  bigFile(250000000ull, false, 10);
}
