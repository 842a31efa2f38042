#include "search.hpp"
#include <pty.h>
#include <poll.h>
#include <termios.h>
using namespace vt;

struct Answer
{
  std::string hash;
  bool found{false};
  std::string count;
};

static std::string lower(std::string s)
{
  for (auto &c : s)
    c = char(tolower((unsigned char)c));
  return s;
}

// what the tool printed: hashes, and answers, in order
static std::vector<Answer> answers(const std::string &out, const std::string &what)
{
  std::vector<Answer> r;
  std::istringstream is(out);
  std::string l;
  while (std::getline(is, l))
  {
    l = lower(l);
    for (size_t i = 0; i < l.size();)
    {
      size_t j = i;
      while (j < l.size() && isxdigit((unsigned char)l[j]))
        ++j;
      if (j - i == 32 && (i == 0 || !isalnum((unsigned char)l[i - 1])) && (j == l.size() || !isalnum((unsigned char)l[j])))
        r.push_back({l.substr(i, 32), false, "?"});
      i = j + 1;
    }
    if (l.find("found") != std::string::npos)
    {
      check(!r.empty() && r.back().count == "?", what + ": an answer without a hash in \"" + quote(out.substr(0, 300)) + "\"");
      r.back().found = l.find("not found") == std::string::npos;
      std::string n;
      for (size_t i = l.find("found"); i < l.size(); ++i)
        if (isdigit((unsigned char)l[i]))
          n += l[i];
      r.back().count = n;
    }
  }
  return r;
}

static std::string line()
{
  static const char *some[] = {"", " ", "a", "secret word", " leading", "trailing ", "tab\there", "dos\r", "quit", "0", "-1", "\x80\xff", "Password? ", "q", "exit"};
  if (rnd(3) == 0)
    return some[rnd(sizeof some / sizeof *some)];
  std::string s;
  for (size_t n = rnd(20) == 0 ? size_t(rnd(3000)) : size_t(rnd(12)); n; --n)
  {
    char c = char(rnd(4) ? 32 + rnd(95) : rnd(256));
    s += c == '\n' ? ' ' : c;
  }
  return s;
}

static std::string hex32(const Rec &r)
{
  char b[40];
  snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)r.u, (unsigned long long)r.l);
  return b;
}

static void judgeAll(const std::vector<std::string> &lines, const std::vector<Rec> &v, const std::string &out, const std::string &what)
{
  const auto as = answers(out, what);
  for (size_t k = 0; k < lines.size(); ++k)
  {
    const std::string d = md5(lines[k]), w = what + ", line " + str(k + 1) + " " + quote(lines[k].substr(0, 80));
    const Rec t{be8(d, 0), be8(d, 8), 0};
    check(k < as.size(), w + ": no answer");
    check(as[k].hash == hex32(t), w + ": hash " + as[k].hash + " instead of " + hex32(t));
    uint32_t c = 0;
    for (auto &r : v)
      if (r.u == t.u && r.l == t.l)
        c = r.c;
    check(as[k].found == (c > 0), w + ": " + (as[k].found ? "found" : "not found") + ", stored count " + str(c));
    check(!as[k].found || as[k].count == str(c), w + ": count " + as[k].count + " instead of " + str(c));
  }
  check(as.size() == lines.size(), what + ": " + str(as.size()) + " answers for " + str(lines.size()) + " lines");
}

static std::vector<Rec> fileFor(const std::vector<std::string> &lines)
{
  auto v = sortedFile(fileSize());
  for (auto &l : lines)
    if (rnd(2))
    {
      const std::string d = md5(l);
      v.push_back({be8(d, 0), be8(d, 8), uint32_t(rnd(3) ? 1 + rnd(1000) : rnd(2) ? 0xffffffffu - rnd(3) : 0)});
    }
  std::stable_sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end(), [](const Rec &a, const Rec &b) { return a.u == b.u && a.l == b.l; }), v.end());
  return v;
}

static void terminal(const std::string &bin, const std::string &f)
{
  std::vector<std::string> lines{"first secret", "second", "x y z"};
  auto v = fileFor(lines);
  writeFile(f, bytes(v));
  note("at a terminal");
  int m, s;
  check(openpty(&m, &s, nullptr, nullptr, nullptr) == 0, "openpty");
  termios t0;
  tcgetattr(s, &t0);
  pid_t pid = fork();
  if (pid == 0)
  {
    dup2(s, 0);
    dup2(s, 1);
    dup2(open("/dev/null", O_WRONLY), 2);
    close(m);
    execl(bin.c_str(), bin.c_str(), "-I", f.c_str(), (char *)nullptr);
    _exit(127);
  }
  std::string out;
  auto pump = [&](int ms) {
    pollfd p{m, POLLIN, 0};
    if (poll(&p, 1, ms) > 0)
    {
      char b[4096];
      ssize_t n = read(m, b, sizeof b);
      if (n > 0)
        out.append(b, size_t(n));
    }
  };
  for (size_t k = 0; k <= lines.size(); ++k)
  {
    // wait until the tool asks for line k with the echo off
    termios t;
    bool off = false, asked = false;
    for (int i = 0; i < 500 && !(off && asked); ++i)
    {
      pump(10);
      size_t n = 0;
      for (size_t at = out.find("assword?"); at != std::string::npos; at = out.find("assword?", at + 1))
        ++n;
      asked = n > k;
      tcgetattr(s, &t);
      off = !(t.c_lflag & ECHO);
    }
    if (!asked || !off)
      kill(pid, SIGKILL);
    check(asked, "at a terminal: no prompt for line " + str(k + 1));
    check(off, "at a terminal: the echo is on while line " + str(k + 1) + " is read");
    check(t.c_iflag == t0.c_iflag && t.c_oflag == t0.c_oflag && (t.c_lflag | ECHO) == (t0.c_lflag | ECHO), "at a terminal: other modes changed");
    const std::string in = k < lines.size() ? lines[k] + "\n" : "\x04";
    check(write(m, in.data(), in.size()) == ssize_t(in.size()), "write to the terminal");
  }
  int st = 0;
  bool done = false;
  for (int i = 0; i < 1000 && !done; ++i)
  {
    pump(10);
    done = waitpid(pid, &st, WNOHANG) == pid;
  }
  if (!done)
    kill(pid, SIGKILL);
  check(done, "at a terminal: the tool does not stop at the end of the input");
  pump(10);
  termios t;
  tcgetattr(s, &t);
  check((t.c_lflag & ECHO) != 0, "at a terminal: the echo is off afterwards");
  for (auto &l : lines)
    check(out.find(l) == std::string::npos, "at a terminal: the line typed was shown");
  judgeAll(lines, v, out, "at a terminal");
  close(m);
  close(s);
}

void vt::test()
{
  const std::string bin = std::string(getenv("VT_BIN")) + "/lookup", f = dir + "/h.md5", x = dir + "/h.idx";
  for (long i = 0; i < 150L * scale; ++i)
  {
    std::vector<std::string> lines;
    for (size_t n = i == 0 ? 0 : 1 + rnd(12); n; --n)
      lines.push_back(line());
    auto v = fileFor(lines);
    if (rnd(10) == 0)
      v.clear();
    writeFile(f, bytes(v));
    std::vector<std::string> argv{bin, "-I", f};
    const bool idx = rnd(2);
    if (idx)
    {
      writeFile(x, indexOf(v, unsigned(1 + rnd(10))));
      argv.insert(argv.end(), {"-X", x});
    }
    std::string in;
    for (auto &l : lines)
      in += l + "\n";
    if (!lines.empty() && !lines.back().empty() && rnd(2))
      in.pop_back();
    const std::string what = std::string("lookup") + (idx ? " with index" : "") + " of " + quote(in.substr(0, 200)) + " in " + brief(v);
    note(what);
    std::string out;
    const int rc = run(argv, in, &out, 20, false);
    check(rc == 0, what + ": exit code " + str(rc));
    judgeAll(lines, v, out, what);
    ++cases;
    nontrivial += lines.size() > 1;
  }
  for (int i = 0; i < 2 * scale; ++i)
    terminal(bin, f);
}
