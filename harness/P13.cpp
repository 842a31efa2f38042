#include "reader.hpp"
using namespace vt;

// lines that show which separator is in use
static std::string probe(char)
{
  return "a:b;c\td e";
}

void vt::test()
{
  for (long i = 0; i < 4000L * scale; ++i)
  {
    // how often each separator occurs, with ties and with lists longer than what is looked at
    const char *seps = ":;\t ";
    const bool big = rnd(20) == 0;
    const size_t n = big ? 490 + rnd(200) : rnd(14);
    size_t w[4];
    for (auto &x : w)
      x = rnd(4) ? rnd(10) : 0;
    std::string text;
    const bool late = rnd(2);
    for (size_t k = 0; k < n; ++k)
    {
      std::string l = rnd(3) ? "x" : secret();
      for (auto &c : l)
        if (strchr(seps, c) && c)
          c = '_';
      for (size_t j = 0; j < 4; ++j)
        if (rnd(10) < (late && k >= 500 ? 9 - w[j] : w[j]))
          for (size_t m = 1 + rnd(3); m > 0; --m)
            l += seps[j] + std::string(rnd(2) ? "p" : "");
      if (rnd(10) == 0)
        l += '\r';
      if (rnd(3) == 0)
        l += rnd(2) ? digitsText(32) : "$HEX[" + digitsText(6) + "]";
      text += l + (k + 1 < n || rnd(2) ? "\n" : "");
    }
    unsigned mask;
    const Options o = randomOptions(mask);
    note("options " + str(mask) + " list " + brief(text));
    ++cases;
    const std::vector<char> cand = choices(text);
    nontrivial += cand.size() == 1 && cand[0];
    Opened r = openList(text, o);
    check(!r.reader->eof() && !r.reader->bad() && r.in->good(), "the guess leaves the reader unable to read");
    check(r.in->tellg() == std::streampos(0), "the guess leaves the reader behind the beginning of the list");
    bool ok = false;
    const std::string got = r.reader->extractPassword(probe(0));
    for (char s : cand)
      ok = ok || got == passwordOf(probe(0), s);
    std::string names;
    for (char s : cand)
      names += s ? quote(std::string(1, s)) : "none";
    check(ok, "the separator in use is not the most frequent one (" + names + "): " + quote(probe(0)) + " gives " + quote(got));
    const std::vector<std::string> lines = linesOf(text);
    size_t k = 0;
    const std::string md5s = digitsText(32), hexs = "$HEX[616263]";
    for (; !r.reader->eof() && k <= lines.size(); ++k)
      r.reader->nextPassword();
    check(k == lines.size(), "the list has " + str(lines.size()) + " lines, but " + str(k) + " are delivered after the guess");
    // an evaluation that was forced stays forced, whatever is in the list
    if (mask & 3)
    {
      const char *enc[2] = {md5s.c_str(), hexs.c_str()};
      Opened q = openList(text, o);
      // the same reader, fed with more lines behind the part the guess has seen
      while (!q.reader->eof())
        q.reader->nextPassword();
      std::istringstream *ss = dynamic_cast<std::istringstream *>(q.in.get());
      if (ss)
        for (int e = 0; e < 2; ++e)
        {
          const std::string body = enc[e];
          ss->clear();
          ss->str(std::string("u") + (cand[0] && cand.size() == 1 ? std::string(1, cand[0]) : std::string()) + body);
          if (cand.size() != 1)
            continue;
          if (!cand[0])
          {
            ss->clear();
            ss->str(body);
          }
          const pwned::Hash h = q.reader->nextPasswordHash();
          const bool on = e == 0 ? mask & 1 : mask & 2;
          if (on)
            check(h.isValid && h.toString() == hex(hashOf(body, true, true)), "an evaluation that was forced is off: " + body + " gives " + h.toString());
          else if (!(mask >> 2 >> e & 1))
            check(h.isValid && h.toString() == hex(md5(body)), "an evaluation nobody asked for is on: " + body + " gives " + h.toString());
        }
    }
  }
}
