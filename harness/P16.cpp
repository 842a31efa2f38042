#include "markov.hpp"
using namespace vt;

typedef Chain::ErrCode Err;

static std::string saved(Chain &c)
{
  std::ostringstream o(std::ios::binary);
  c.saveBinary(o);
  return o.str();
}

static void some(Chain &c, std::string &what, bool &trained)
{
  const size_t letters = 1 + size_t(rnd(rnd(2) ? 4 : 23));
  const long n = 1 + long(rnd(rnd(4) == 0 ? 40 : 8));
  trained = false;
  for (long j = 0; j < n; ++j)
  {
    std::wstring w = word(6, letters);
    if (rnd(5) == 0)
      w.resize(w.size() > 1 ? 1 : w.size());
    what += " " + quote(utf8(w));
    trained |= !w.empty();
    c.train(utf8(w));
  }
  if (!trained)
  {
    c.train("x");
    what += " \"x\"";
    trained = true;
  }
  c.update();
}

// n distinct symbols, one of them with all others as successors
static void wide(size_t n)
{
  Chain c;
  std::vector<uint32_t> a;
  for (uint32_t x = uint32_t(rnd(2)); a.size() < n; x += 1 + uint32_t(rnd(n < 3000 ? 90 : 3)))
    if (x < 0xd800 || x > 0xdfff)
      a.push_back(x);
  const uint32_t hub = a[size_t(rnd(n))];
  const std::string what = "model of " + str(n) + " two-symbol words starting with symbol " + str(hub) + " and their reverses";
  note(what);
  for (uint32_t x : a)
  {
    c.train(utf8(std::wstring{wchar_t(hub), wchar_t(x)}));
    c.train(utf8(std::wstring{wchar_t(x), wchar_t(hub)}));
  }
  c.update();
  const std::string s = saved(c);
  Chain d;
  std::istringstream in(s, std::ios::binary);
  const auto e = d.loadBinary(in);
  check(e == Err::OK, what + ": loading reports " + d.errString(e));
  check(firsts(d) == firsts(c), what + ": the first-symbol probabilities differ after loading");
  check(transitions(d) == transitions(c), what + ": the transition probabilities differ after loading");
  for (int k = 0; k < 20; ++k)
  {
    const size_t m = k < 10 ? s.size() - 1 - size_t(k) : size_t(rnd(s.size()));
    note(what + ", loading the first " + str(m) + " bytes");
    Chain g;
    std::istringstream part(s.substr(0, m), std::ios::binary);
    check(g.loadBinary(part) != Err::OK, what + ": loading the first " + str(m) + " of " + str(s.size()) + " bytes is said to succeed");
    ++cases;
    ++nontrivial;
  }
}

void vt::test()
{
  // a text for every code
  {
    Chain c;
    std::set<std::string> texts;
    for (int e = Err::OK; e <= Err::BAD_NODE_COUNT_PREMATURE_EOF; ++e)
    {
      std::string s;
      try
      {
        s = c.errString(Err(e));
      }
      catch (const std::exception &x)
      {
        fail("the error code " + str(e) + " has no text (" + x.what() + ")");
      }
      check(!s.empty(), "the text of the error code " + str(e) + " is empty");
      check(texts.insert(s).second, "the text of the error code " + str(e) + " is that of another code: " + s);
    }
  }
  for (long i = 0; i < 150L * scale; ++i)
  {
    std::string what = "model trained with";
    bool trained;
    Chain c;
    some(c, what, trained);
    note(what + ", saving");
    const auto f = firsts(c);
    const auto t = transitions(c);
    const std::string s = saved(c);
    check(firsts(c) == f && transitions(c) == t, what + ": saving changes the model");
    note(what + ", loading");
    for (int kind = 0; kind < 3; ++kind)
    {
      Chain d;
      std::string w2 = what;
      if (kind == 1)
      {
        std::string o;
        some(d, o, trained);
        w2 += "; loaded into a model trained with" + o;
      }
      std::istringstream in(s, std::ios::binary);
      const auto e = d.loadBinary(in);
      if (kind == 2)
      {
        std::istringstream again(s, std::ios::binary);
        w2 += "; loaded twice";
        check(d.loadBinary(again) == Err::OK, w2 + ": the second time fails");
      }
      check(e == Err::OK, w2 + ": loading reports " + d.errString(e));
      check(firsts(d) == f, w2 + ": the first-symbol probabilities differ after loading");
      auto u = transitions(d);
      check(u == t, w2 + ": the transition probabilities differ after loading");
      const std::string s2 = saved(d);
      Chain g;
      std::istringstream in2(s2, std::ios::binary);
      check(g.loadBinary(in2) == Err::OK && firsts(g) == f && transitions(g) == t, w2 + ": the loaded model does not survive saving and loading");
      for (int q = 0; q < 20; ++q)
      {
        const std::wstring x = word(6, 23);
        check(near(d.totalProbability(x), c.totalProbability(x)), w2 + ": the total probability of " + quote(utf8(x)) + " differs after loading");
      }
    }
    // truncation
    const bool all = s.size() < 400;
    for (size_t n = 0; n < s.size(); n += all ? 1 : 1 + size_t(rnd(s.size() / 200 + 1)))
    {
      note(what + ", loading the first " + str(n) + " of " + str(s.size()) + " bytes");
      Chain d;
      Err e;
      if (rnd(8) == 0)
      {
        writeFile(dir + "/m.bin", s.substr(0, n));
        std::ifstream in(dir + "/m.bin", std::ios::binary);
        e = d.loadBinary(in);
      }
      else
      {
        std::istringstream in(s.substr(0, n), std::ios::binary);
        e = d.loadBinary(in);
      }
      check(e != Err::OK, what + ": loading the first " + str(n) + " of " + str(s.size()) + " bytes is said to succeed");
      ++cases;
      nontrivial += n > 5;
    }
    // other headers and versions
    for (int b = 0; b < 40; ++b)
    {
      std::string x = s;
      const size_t at = size_t(rnd(5));
      x[at] = b < 20 ? char(x[at] ^ (1 << rnd(8))) : char(x[at] + 1 + int(rnd(255)));
      if (rnd(4) == 0)
        x[size_t(rnd(4))] = char(rnd(256));
      if (x.substr(0, 5) == s.substr(0, 5))
        continue;
      note(what + ", with the first bytes " + quote(x.substr(0, 5)));
      std::istringstream in(x, std::ios::binary);
      Chain d;
      check(d.loadBinary(in) != Err::OK, what + ": with the first bytes " + quote(x.substr(0, 5)) + " loading is said to succeed");
      ++cases;
    }
    // unreadable
    if (i < 20)
    {
      note(what + ", loading from a file that does not exist");
      Chain d;
      std::ifstream in(dir + "/no-such-file", std::ios::binary);
      check(d.loadBinary(in) != Err::OK, "loading from a file that does not exist is said to succeed");
      std::istringstream bad(s, std::ios::binary);
      bad.setstate(i % 3 == 0 ? std::ios::failbit : i % 3 == 1 ? std::ios::badbit : std::ios::eofbit);
      check(d.loadBinary(bad) != Err::OK, "loading from a stream in an error state is said to succeed");
    }
  }
  for (size_t n : {255, 256, 257, 1000, 1025, 4097, 32769, 66000})
    wide(n);
}
