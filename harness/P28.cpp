#include "markov.hpp"
#include "pwned-lib/userpasswordreader.hpp"
#include <boost/locale/encoding_utf.hpp>
#include <pty.h>
#include <poll.h>
#include <termios.h>
#include <csignal>
using namespace vt;

static std::wstring wide(const std::string &s) { return boost::locale::conv::utf_to_utf<wchar_t>(s); }

static size_t letters = 3;
static std::string pw()
{
  std::wstring w;
  do
    w = word(rnd(5) ? 6 : rnd(5) ? 40 : 700, letters);
  while (w.find(L'\0') != std::wstring::npos || w.empty());
  return utf8(w);
}

static std::string list()
{
  letters = rnd(6) ? 2 + size_t(rnd(22)) : 1;
  std::string s;
  const size_t n = rnd(4) ? rnd(9) : rnd(4) ? rnd(60) : 2000;
  for (size_t i = 0; i < n; ++i)
  {
    if (i)
      s += rnd(12) ? "\n" : rnd(2) ? "\n\n" : "\r\n";
    if (rnd(3))
      s += "a@b.cd:";
    if (rnd(8))
      s += pw();
  }
  if (rnd(2))
    s += "\n";
  return s;
}

static std::vector<std::string> passwords(const std::string &f)
{
  std::vector<std::string> r;
  std::ifstream in(f);
  pwned::UserPasswordReader reader(in, {pwned::UserPasswordReaderOptions::autoEvaluateHexEncodedPasswords});
  while (!reader.eof() && !reader.bad())
    r.push_back(reader.nextPassword());
  return r;
}

static std::string shown(double p)
{
  std::ostringstream o;
  o << p;
  return o.str();
}

// the numbers shown
static std::vector<std::string> numbers(const std::string &out)
{
  std::vector<std::string> v;
  for (size_t at = out.find("p = "); at != std::string::npos; at = out.find("p = ", at + 1))
  {
    size_t e = at + 4;
    while (e < out.size() && !isspace((unsigned char)out[e]))
      ++e;
    v.push_back(out.substr(at + 4, e - at - 4));
  }
  return v;
}

// at a terminal: the echo is off while a password is typed, and on again afterwards
static void terminal(const std::string &look, const std::string &model)
{
  const std::vector<std::string> lines{"first secret", "zweites", "x y z"};
  note("lookup at a terminal");
  int m, s;
  check(openpty(&m, &s, nullptr, nullptr, nullptr) == 0, "openpty");
  const pid_t pid = fork();
  if (pid == 0)
  {
    dup2(s, 0);
    dup2(s, 1);
    dup2(open("/dev/null", O_WRONLY), 2);
    close(m);
    execl(look.c_str(), look.c_str(), model.c_str(), (char *)nullptr);
    _exit(127);
  }
  std::string out;
  auto pump = [&](int ms) {
    pollfd p{m, POLLIN, 0};
    if (poll(&p, 1, ms) > 0)
    {
      char b[4096];
      const ssize_t n = read(m, b, sizeof b);
      if (n > 0)
        out.append(b, size_t(n));
    }
  };
  termios t;
  for (size_t k = 0; k <= lines.size(); ++k)
  {
    bool off = false, asked = false;
    for (int i = 0; i < 1500 && !(off && asked); ++i)
    {
      pump(10);
      // what comes after the answer to the line before
      asked = numbers(out).size() >= k;
      tcgetattr(s, &t);
      off = !(t.c_lflag & ECHO);
    }
    if (!asked || !off)
      kill(pid, SIGKILL);
    check(asked, "at a terminal: no answer to line " + str(k));
    check(off, "at a terminal: the echo is on while line " + str(k + 1) + " is read");
    const std::string in = k < lines.size() ? lines[k] + "\n" : "\n";
    check(write(m, in.data(), in.size()) == ssize_t(in.size()), "write to the terminal");
  }
  int st = 0;
  bool done = false;
  for (int i = 0; i < 1000 && !done; ++i)
  {
    pump(10);
    done = waitpid(pid, &st, WNOHANG) == pid;
  }
  if (!done)
    kill(pid, SIGKILL);
  check(done, "at a terminal: the tool does not stop at an empty line");
  tcgetattr(s, &t);
  check((t.c_lflag & ECHO) != 0, "at a terminal: the echo is off afterwards");
  for (auto &l : lines)
    check(out.find(l) == std::string::npos, "at a terminal: the line typed was shown");
  close(m);
  close(s);
}

void vt::test()
{
  bool terminalDone = false;
  const std::string bin = getenv("VT_BIN"), gen = bin + "/markov-generator", look = bin + "/markov-lookup", f = dir + "/in.txt", o = dir + "/model";
  for (long i = 0; i < 90L * scale; ++i)
  {
    const std::string text = list();
    writeFile(f, text);
    const bool old = rnd(3) == 0;
    unlink(o.c_str());
    if (old)
      writeFile(o, std::string(size_t(rnd(5000)), 'x'));
    std::vector<std::string> argv{gen, "-I", f, "-O", o};
    if (rnd(3) == 0)
    {
      argv.push_back("-v");
      if (rnd(2))
        argv.insert(argv.end(), {"-N", str(rnd(4))});
    }
    std::string what = "generator";
    for (size_t k = 5; k < argv.size(); ++k)
      what += " " + argv[k];
    what += std::string(old ? ", over an older file" : "") + ", passwords " + quote(text.substr(0, 300));
    note(what);
    std::string out;
    const int rc = run(argv, "", &out, 60, false);
    check(rc == 0, what + ": exit code " + str(rc));
    Counts c;
    std::vector<std::string> words;
    for (auto &p : passwords(f))
    {
      c.train(wide(p));
      if (!p.empty() && words.size() < 20)
        words.push_back(p);
    }
    ++cases;
    if (c.words == 0)
    {
      // a model of nothing is not written
      check(readFile(o).empty(), what + ": written without a password");
      continue;
    }
    Chain m;
    std::ifstream is(o, std::ios::binary);
    check(m.loadBinary(is) == Chain::OK, what + ": the model written cannot be read");
    check(is.peek() == EOF, what + ": more than the model is written");
    const auto fs = firsts(m);
    check(fs.size() == c.first.size(), what + ": " + str(fs.size()) + " first symbols instead of " + str(c.first.size()));
    for (auto &x : c.first)
      check(fs.count(x.first) && near(fs.at(x.first), c.pFirst(x.first)), what + ": probability of the first symbol " + str(uint32_t(x.first)));
    for (int k = 0; k < 5; ++k)
      words.push_back(pw());
    for (auto &w : words)
      check(near(m.totalProbability(wide(w)), c.total(wide(w))), what + ": probability of " + quote(w) + " is " + shown(m.totalProbability(wide(w))) + " instead of " + shown(c.total(wide(w))));
    // the lookup with this model
    std::vector<std::string> lines;
    for (size_t n = size_t(rnd(8)); n; --n)
    {
      std::string l = rnd(2) ? words[size_t(rnd(words.size()))] : rnd(3) ? pw() : pw() + " " + pw();
      if (l.find('\n') == std::string::npos)
        lines.push_back(l);
    }
    std::string in;
    for (auto &l : lines)
      in += l + "\n";
    const bool more = rnd(3) == 0;
    if (more)
      in += "\nabc\nd\n";
    else if (!lines.empty() && rnd(2))
      in.pop_back();
    std::string w2 = "lookup of " + quote(in.substr(0, 200)) + " with the model of " + quote(text.substr(0, 300));
    note(w2);
    const int rc2 = run({look, o}, in, &out, 60, false);
    check(rc2 == 0, w2 + ": exit code " + str(rc2));
    const auto ns = numbers(out);
    check(ns.size() == lines.size(), w2 + ": " + str(ns.size()) + " answers for " + str(lines.size()) + " lines");
    for (size_t k = 0; k < lines.size(); ++k)
    {
      const std::string want = shown(m.totalProbability(wide(lines[k])));
      check(ns[k] == want, w2 + ": " + ns[k] + " for " + quote(lines[k]) + " instead of " + want);
    }
    nontrivial += lines.size() > 1 && c.words > 1;
    if (!terminalDone || rnd(50) == 0)
    {
      terminal(look, o);
      terminalDone = true;
    }
    if (rnd(9) == 0)
    {
      // a damaged model, no model
      std::string d = readFile(o);
      if (rnd(2) || d.size() < 6)
        d = d.substr(0, size_t(rnd(std::min<size_t>(d.size(), 5))));
      else
        d[size_t(rnd(5))] ^= 1;
      writeFile(o, d);
      std::string w3 = "lookup with a damaged model " + quote(d.substr(0, 40));
      if (rnd(3) == 0)
      {
        unlink(o.c_str());
        w3 = "lookup without a model";
      }
      note(w3);
      const int rc3 = run({look, o}, "abc\n\n", &out, 60, false);
      check(rc3 > 0, w3 + ": exit code " + str(rc3));
      check(numbers(out).empty(), w3 + ": answers " + quote(out));
      note("no arguments");
      check(run({look}, "abc\n\n", &out, 60, false) > 0, "lookup without arguments: success, or a crash");
      check(run({gen}, "", &out, 60, false) > 0, "generator without arguments: success, or a crash");
      // no input, no output
      note("generator without an input");
      check(run({gen, "-I", dir + "/none", "-O", o}, "", &out, 60, false) > 0, "generator without an input: success");
      note("generator which cannot write");
      check(run({gen, "-I", f, "-O", dir + "/none/model"}, "", &out, 60, false) > 0, "generator which cannot write: success");
    }
  }
}
