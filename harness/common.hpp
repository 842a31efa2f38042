// Concrete runs of the real code against an independent oracle.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <random>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <openssl/md5.h>

typedef unsigned __int128 u128;

namespace vt
{
inline std::mt19937_64 rng;
inline std::string dir;
inline int scale = 1;
inline long cases = 0, nontrivial = 0;
inline std::string lastNote;

inline uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }

// describes the case being run; survives a crash or a hang
inline void note(const std::string &s)
{
  lastNote = s;
  static int fd = -1;
  if (fd < 0)
    fd = open((dir + "/case.txt").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (ftruncate(fd, 0) == 0)
  {
    ssize_t r = pwrite(fd, s.data(), s.size() > 60000 ? 60000 : s.size(), 0);
    (void)r;
  }
}

[[noreturn]] inline void fail(const std::string &msg)
{
  std::cout.clear();
  std::cout << "FAIL " << msg << "\nCASE " << lastNote << std::endl;
  _exit(1);
}

inline void check(bool ok, const std::string &msg)
{
  if (!ok)
    fail(msg);
}

template <typename T>
inline std::string str(const T &x)
{
  std::ostringstream s;
  s << x;
  return s.str();
}

inline std::string hex(const std::string &b)
{
  static const char *d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : b)
  {
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r;
}

inline std::string quote(const std::string &s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c < 32 || c > 126 || c == '"' || c == '\\')
    {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    }
    else
      r += char(c);
  }
  return r + "\"";
}

inline std::string md5(const std::string &s)
{
  unsigned char d[16];
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
  MD5(reinterpret_cast<const unsigned char *>(s.data()), s.size(), d);
#pragma GCC diagnostic pop
  return std::string(reinterpret_cast<char *>(d), 16);
}

inline uint64_t be8(const std::string &s, size_t o)
{
  uint64_t r = 0;
  for (int i = 0; i < 8; ++i)
    r = r << 8 | (unsigned char)s[o + size_t(i)];
  return r;
}

inline void put8(std::string &s, uint64_t v)
{
  for (int i = 0; i < 8; ++i)
    s += char(v >> (8 * i));
}
inline void put4(std::string &s, uint32_t v)
{
  for (int i = 0; i < 4; ++i)
    s += char(v >> (8 * i));
}
inline uint64_t get8(const std::string &s, size_t o)
{
  uint64_t r = 0;
  for (int i = 7; i >= 0; --i)
    r = r << 8 | (unsigned char)s[o + size_t(i)];
  return r;
}
inline uint32_t get4(const std::string &s, size_t o)
{
  uint32_t r = 0;
  for (int i = 3; i >= 0; --i)
    r = r << 8 | (unsigned char)s[o + size_t(i)];
  return r;
}

struct Rec
{
  uint64_t u, l;
  uint32_t c;
  bool operator<(const Rec &o) const { return u != o.u ? u < o.u : l < o.l; }
};

inline std::string bytes(const std::vector<Rec> &v)
{
  std::string s;
  for (auto &r : v)
  {
    put8(s, r.u);
    put8(s, r.l);
    put4(s, r.c);
  }
  return s;
}

inline std::vector<Rec> recs(const std::string &s)
{
  std::vector<Rec> v;
  for (size_t o = 0; o + 20 <= s.size(); o += 20)
    v.push_back({get8(s, o), get8(s, o + 8), get4(s, o + 16)});
  return v;
}

inline std::string show(const std::vector<Rec> &v)
{
  std::ostringstream s;
  s << std::hex << "[";
  for (auto &r : v)
    s << r.u << ":" << r.l << "x" << r.c << " ";
  s << "]";
  return s.str();
}

inline void writeFile(const std::string &f, const std::string &s)
{
  std::ofstream o(f, std::ios::binary | std::ios::trunc);
  o.write(s.data(), std::streamsize(s.size()));
}

inline std::string readFile(const std::string &f)
{
  std::ifstream i(f, std::ios::binary);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}

inline bool exists(const std::string &f)
{
  struct stat b;
  return stat(f.c_str(), &b) == 0;
}

// interesting 64-bit numbers
inline uint64_t num()
{
  switch (rnd(8))
  {
  case 0: return rnd(4);
  case 1: return ~uint64_t(0) - rnd(4);
  case 2: return uint64_t(1) << rnd(64);
  case 3: return (uint64_t(1) << 63) - 1 + rnd(3);
  case 4: return rnd(256) << 56;
  case 5: return rnd(256) << 56 | rnd(3);
  default: return rng();
  }
}

inline std::vector<Rec> sortedFile(size_t n)
{
  std::set<Rec> s;
  int style = int(rnd(4));
  while (s.size() < n)
  {
    Rec r{num(), num(), uint32_t(1 + rnd(1000))};
    if (style == 1)
      r.u = rng();
    if (style == 2)
      r.u = rnd(3) << 62;
    if (style == 2 && rnd(2))
      r.l = rng();
    if (rnd(20) == 0)
      r.c = uint32_t(0xffffffffu - rnd(2));
    if (rnd(12) == 0 && !s.empty())
    {
      r.u = s.begin()->u;
      r.l = s.begin()->l + 1 + rnd(3);
    }
    s.insert(r);
  }
  return std::vector<Rec>(s.begin(), s.end());
}

// exit code of a command with its standard input held open or taken from a file; -1000-sig if killed
inline int run(const std::vector<std::string> &argv, const std::string &input, std::string *out, int seconds, bool keepOpen = true)
{
  int pin[2], pout[2];
  if (pipe(pin) || pipe(pout))
    fail("pipe");
  pid_t pid = fork();
  if (pid == 0)
  {
    setpgid(0, 0);
    dup2(pin[0], 0);
    dup2(pout[1], 1);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 2);
    close(pin[1]);
    close(pout[0]);
    std::vector<char *> a;
    for (auto &s : argv)
      a.push_back(const_cast<char *>(s.c_str()));
    a.push_back(nullptr);
    execv(a[0], a.data());
    _exit(127);
  }
  setpgid(pid, pid);
  close(pin[0]);
  close(pout[1]);
  signal(SIGPIPE, SIG_IGN);
  size_t w = 0;
  while (w < input.size())
  {
    ssize_t n = write(pin[1], input.data() + w, input.size() - w);
    if (n <= 0)
      break;
    w += size_t(n);
  }
  if (!keepOpen)
    close(pin[1]);
  fcntl(pout[0], F_SETFL, O_NONBLOCK);
  std::string o;
  int status = 0;
  time_t t0 = time(nullptr);
  bool done = false;
  bool killed = false;
  while (true)
  {
    char b[65536];
    ssize_t n = read(pout[0], b, sizeof b);
    if (n > 0)
    {
      o.append(b, size_t(n));
      continue;
    }
    if (done)
      break;
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid)
    {
      done = true;
      continue;
    }
    if (time(nullptr) - t0 > seconds)
    {
      killed = true;
      kill(-pid, SIGKILL);
    }
    usleep(500);
  }
  close(pout[0]);
  if (keepOpen)
    close(pin[1]);
  if (out)
    *out = o;
  if (killed)
    return -2000;
  if (WIFSIGNALED(status))
    return -1000 - WTERMSIG(status);
  return WEXITSTATUS(status);
}

void test();
} // namespace vt

int main(int argc, char *argv[])
{
  vt::rng.seed(argc > 1 ? strtoull(argv[1], nullptr, 10) : 1);
  vt::scale = argc > 2 ? atoi(argv[2]) : 1;
  vt::dir = argc > 3 ? argv[3] : ".";
  vt::note("start");
  try
  {
    vt::test();
    std::cout.clear();
  }
  catch (const std::exception &e)
  {
    vt::fail(std::string("exception: ") + e.what());
  }
  std::cout << "OK cases=" << vt::cases << " nontrivial=" << vt::nontrivial << std::endl;
  _exit(0);
}
