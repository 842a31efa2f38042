#include "reader.hpp"
using namespace vt;

void vt::test()
{
  for (long i = 0; i < 5000L * scale; ++i)
  {
    const std::string text = list();
    unsigned mask;
    const Options o = randomOptions(mask);
    note("options " + str(mask) + " list " + brief(text));
    ++cases;
    const std::vector<std::string> lines = linesOf(text);
    Opened r = openList(text, o);
    std::vector<std::pair<bool, std::string>> got;
    while (!r.reader->eof() && !r.reader->bad() && got.size() <= lines.size())
    {
      const pwned::Hash h = r.reader->nextPasswordHash();
      got.emplace_back(h.isValid, h.isValid ? unhex(h.toString()) : "");
    }
    check(got.size() == lines.size(), str(lines.size()) + " lines, but " + str(got.size()) + " are delivered");
    std::string why;
    bool ok = false;
    // forced evaluations are on, those not asked for are off; the automatic ones may be either
    for (char s : choices(text))
      for (int md5On = mask & 1; md5On <= int((mask & 1) | (mask >> 2 & 1)); ++md5On)
        for (int hexOn = mask >> 1 & 1; hexOn <= int((mask >> 1 & 1) | (mask >> 3 & 1)); ++hexOn)
        {
          bool same = true;
          for (size_t k = 0; k < lines.size() && same; ++k)
          {
            const std::string pw = passwordOf(lines[k], s);
            nontrivial += pw.size() > 7;
            const std::string want = pw.empty() ? "" : hashOf(pw, md5On, hexOn);
            if (got[k].first != !pw.empty() || got[k].second != want)
            {
              same = false;
              why = "password " + quote(pw) + " of line " + str(k + 1) + " gives " + (got[k].first ? hex(got[k].second) : "no hash") + " instead of " + hex(want);
            }
          }
          ok = ok || same;
        }
    check(ok, why);
  }
}
