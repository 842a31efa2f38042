#include "common.hpp"
#include "pwned-lib/passwordhashandcount.hpp"
using namespace vt;
using pwned::Hash;
using pwned::PHC;

void vt::test()
{
  const std::string f = dir + "/rec.bin";
  for (long i = 0; i < 300L * scale; ++i)
  {
    std::vector<Rec> v;
    size_t n = rnd(6);
    for (size_t k = 0; k < n; ++k)
      v.push_back({num(), num(), uint32_t(num())});
    note("records " + show(v));
    {
      std::ofstream o(f, std::ios::binary | std::ios::trunc);
      for (auto &r : v)
        PHC(Hash(r.u, r.l), r.c).dump(o);
    }
    std::string b = readFile(f);
    check(b == bytes(v), "the bytes written are not upper, lower, count in little-endian order");
    size_t cut = rnd(b.size() + 1);
    if (rnd(3))
      cut = b.size();
    b.resize(cut);
    writeFile(f, b);
    ++cases;
    nontrivial += n > 1;
    std::ifstream in(f, std::ios::binary);
    for (size_t k = 0;; ++k)
    {
      PHC p;
      const bool ok = p.read(in);
      check(ok == ((k + 1) * 20 <= cut), "read() in sequence: success reported wrongly at record " + str(k) + " of a file of " + str(cut) + " bytes");
      if (!ok)
        break;
      check(p.hash.quad.upper == v[k].u && p.hash.quad.lower == v[k].l && p.count == v[k].c, "record " + str(k) + " read differs from the one written");
      check(in.tellg() == std::streamoff(20 * (k + 1)), "read() did not advance by one record");
    }
    for (int j = 0; j < 12; ++j)
    {
      const long pos = long(rnd(cut + 50)) - 5;
      PHC p;
      const bool ok = p.read(in, pos);
      note("read at " + str(pos) + " of " + str(cut) + " bytes " + show(v));
      check(ok == (pos >= 0 && pos + 20 <= long(cut)), "read(pos): success reported wrongly");
      if (ok)
      {
        std::string x = b.substr(size_t(pos), 20);
        check(p.hash.quad.upper == get8(x, 0) && p.hash.quad.lower == get8(x, 8) && p.count == get4(x, 16), "read(pos): wrong record");
        check(in.tellg() == std::streamoff(pos + 20), "read(pos) did not advance by one record");
      }
      Hash h;
      const bool hok = h.read(in, pos);
      check(hok == (pos >= 0 && pos + 16 <= long(cut)), "Hash::read(pos): success reported wrongly");
      if (hok)
        check(h.quad.upper == get8(b, size_t(pos)) && h.quad.lower == get8(b, size_t(pos) + 8), "Hash::read(pos): wrong hash");
    }
  }
}
