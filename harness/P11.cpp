#include "reader.hpp"
using namespace vt;

void vt::test()
{
  for (long i = 0; i < 5000L * scale; ++i)
  {
    const std::string text = list();
    unsigned mask;
    const Options o = randomOptions(mask);
    note("options " + str(mask) + " list " + brief(text));
    ++cases;
    const std::vector<std::string> lines = linesOf(text);
    Opened r = openList(text, o);
    check(!r.reader->eof() && !r.reader->bad(), "the reader is at the end before the first line");
    std::vector<char> seps = choices(text);
    nontrivial += seps[0] != 0;
    std::vector<std::string> got;
    while (!r.reader->eof() && !r.reader->bad())
    {
      check(got.size() < lines.size(), "more lines are delivered than the list has");
      got.push_back(r.reader->nextPassword());
      // the text of a line alone, too
      if (rnd(4) == 0)
      {
        std::string l = line(":;\t "[rnd(4)]);
        l.resize(std::min<size_t>(l.size(), 200));
        const std::string p = r.reader->extractPassword(l);
        bool ok = false;
        for (char s : seps)
          ok = ok || p == passwordOf(l, s);
        check(ok, "extractPassword(" + quote(l) + ") gives " + quote(p));
      }
    }
    check(got.size() == lines.size(), str(lines.size()) + " lines, but " + str(got.size()) + " are delivered");
    std::string why;
    bool ok = false;
    for (char s : seps)
    {
      bool same = true;
      for (size_t k = 0; k < lines.size() && same; ++k)
        if (got[k] != passwordOf(lines[k], s))
        {
          same = false;
          why = "line " + str(k + 1) + " " + brief(lines[k]) + " gives " + quote(got[k]) + " instead of " + quote(passwordOf(lines[k], s));
        }
      ok = ok || same;
    }
    check(ok, why);
    // nothing more comes after the end
    check(r.reader->nextPassword().empty() && r.reader->eof(), "a password is delivered behind the end of the list");
  }
}
