#include "common.hpp"
#include "pwned-lib/util.hpp"
#include <pty.h>
#include <termios.h>
#include <dlfcn.h>
using namespace vt;

// a terminal that keeps every bit of its settings, also those that no pseudo-terminal has
static bool fake = false;
static termios store;
static long asked = 0;
extern "C" int tcgetattr(int fd, termios *t)
{
  if (!fake)
    return reinterpret_cast<int (*)(int, termios *)>(dlsym(RTLD_NEXT, "tcgetattr"))(fd, t);
  ++asked;
  *t = store;
  return 0;
}
extern "C" int tcsetattr(int fd, int how, const termios *t)
{
  if (!fake)
    return reinterpret_cast<int (*)(int, int, const termios *)>(dlsym(RTLD_NEXT, "tcsetattr"))(fd, how, t);
  store = *t;
  return 0;
}

static termios get()
{
  termios t;
  memset(&t, 0, sizeof t);
  check(tcgetattr(0, &t) == 0, "harness: tcgetattr");
  return t;
}

static bool same(const termios &a, const termios &b)
{
  return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && memcmp(a.c_cc, b.c_cc, NCCS) == 0;
}

static std::string switchOne(pwned::TermIO &g, termios &e)
{
  const int op = int(rnd(6));
  switch (op)
  {
  case 0: g.disableEcho(); e.c_lflag &= ~tcflag_t(ICANON | ECHO); break;
  case 1: g.enableEcho(); e.c_lflag |= ICANON | ECHO; break;
  case 2: g.disableBreak(); e.c_lflag &= ~tcflag_t(ISIG); break;
  case 3: g.enableBreak(); e.c_lflag |= ISIG; break;
  case 4: pwned::setStdinEcho(false); e.c_lflag &= ~tcflag_t(ECHO); break;
  default: pwned::setStdinEcho(true); e.c_lflag |= ECHO;
  }
  const char *nm[] = {"disableEcho", "enableEcho", "disableBreak", "enableBreak", "setStdinEcho(false)", "setStdinEcho(true)"};
  return nm[op];
}

static void bits()
{
  for (long i = 0; i < 400L * scale; ++i)
  {
    unsigned char *b = reinterpret_cast<unsigned char *>(&store);
    for (size_t k = 0; k < sizeof store; ++k)
      b[k] = static_cast<unsigned char>(rnd(4) ? rnd(256) : 255);
    const termios t = store;
    note("lflag " + str(t.c_lflag));
    asked = 0;
    {
      pwned::TermIO g;
      if (asked == 0)
        return; // the settings are asked for in another way
      ++cases;
      check(same(store, t), "creating a terminal guard changed the settings");
      for (int k = 0; k < 6; ++k)
      {
        if (rnd(4) == 0)
        {
          store.c_iflag ^= tcflag_t(rnd(1 << 16)); // someone else changes settings
          store.c_cc[rnd(NCCS)] ^= cc_t(rnd(256));
        }
        termios e = store;
        switchOne(g, e);
        check(same(store, e), "a switch did not change exactly the flags concerned");
      }
    }
    check(same(store, t), "the settings found were not restored");
  }
}

void vt::test()
{
  int m, s;
  if (openpty(&m, &s, nullptr, nullptr, nullptr) != 0)
    return; // no pseudo-terminal here: nothing to run
  dup2(s, 0);
  fake = true;
  bits();
  fake = false;
  for (long i = 0; i < 400L * scale; ++i)
  {
    termios t = get();
    const tcflag_t pool[] = {ECHO, ICANON, ISIG, ECHOE, ECHOK, ECHONL, IEXTEN, NOFLSH, TOSTOP};
    for (tcflag_t f : pool)
      t.c_lflag = rnd(2) ? t.c_lflag | f : t.c_lflag & ~f;
    t.c_iflag = rnd(2) ? t.c_iflag | ICRNL : t.c_iflag & ~tcflag_t(ICRNL);
    t.c_oflag = rnd(2) ? t.c_oflag | OPOST : t.c_oflag & ~tcflag_t(OPOST);
    t.c_cc[VMIN] = cc_t(rnd(5));
    tcsetattr(0, TCSANOW, &t);
    t = get();
    ++cases;
    ++nontrivial;
    note("lflag " + str(t.c_lflag));
    {
      pwned::TermIO g;
      check(same(get(), t), "creating a terminal guard changed the settings");
      for (int k = 0; k < 6; ++k)
      {
        termios e = get();
        const std::string op = switchOne(g, e);
        check(same(get(), e), op + " did not change exactly the flags concerned");
      }
    }
    check(same(get(), t), "the settings found were not restored");
  }
}
