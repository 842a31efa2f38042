// The web service over the loopback network, with clients that go away, wait too long, or send nonsense. The clock is ours.
#include "search.hpp"
#include <atomic>
#include <list>
#include <memory>
#include <mutex>
#include <thread>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <time.h>
#include <boost/asio.hpp>
#include "pwned-server/httpworker.hpp"
#include <sys/wait.h>
#define main server_main
#include "pwned-server/pwned-server.cpp"
#undef main
using namespace vt;

static std::atomic<long> ahead{0}; // ns

namespace std
{
namespace chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return time_point(duration(t.tv_sec * 1000000000l + t.tv_nsec + ahead));
}
} // namespace _V2
} // namespace chrono
} // namespace std

static double clockNow()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

struct Service
{
  boost::asio::io_context ioc;
  boost::asio::ip::tcp::acceptor acceptor;
  std::list<webservice::HttpWorker> workers;
  std::list<std::thread> threads;
  webservice::HttpWorker::log_callback_t log;
  std::mutex m;
  std::vector<std::string> lines;
  boost::asio::steady_timer poke;
  unsigned short port = 0;

  Service(unsigned nWorkers, unsigned nThreads, const std::string &base, const std::string &file, const std::string &index, bool logging)
      : acceptor(ioc, {boost::asio::ip::make_address("127.0.0.1"), 0}), poke(ioc)
  {
    port = acceptor.local_endpoint().port();
    log = [this](const std::string &s) {
      std::lock_guard<std::mutex> l(m);
      lines.push_back(s);
    };
    for (unsigned i = 0; i < nWorkers; ++i)
    {
      workers.emplace_back(acceptor, base, file, index, logging ? &log : nullptr);
      workers.back().start();
    }
    for (unsigned i = 0; i < nThreads; ++i)
      threads.emplace_back([this] {
        try
        {
          ioc.run();
        }
        catch (const std::exception &e)
        {
          fail(std::string("the service ended with an exception: ") + e.what());
        }
      });
  }
  // the clock advances, and the timers notice
  void advance(double s)
  {
    ahead += long(s * 1e9);
    std::atomic<bool> done{false};
    boost::asio::post(ioc, [&] {
      poke.expires_at(std::chrono::steady_clock::time_point(std::chrono::seconds(1))); // the first of all timers
      poke.async_wait([&](const boost::system::error_code &) { done = true; });
    });
    for (const double t = clockNow(); !done && clockNow() < t + 20;)
      usleep(500);
    check(done, "the service does not run any more");
    usleep(3000);
  }
  ~Service()
  {
    ioc.stop();
    for (auto &t : threads)
      t.join();
  }
};

struct Client
{
  int fd;
  std::string got;
  explicit Client(unsigned short port)
  {
    fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    timeval tv{20, 0};
    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
    const int on = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
    check(connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0, "connecting to the service failed");
  }
  Client(const Client &) = delete;
  void send(const std::string &s)
  {
    for (size_t o = 0; o < s.size();)
    {
      const ssize_t n = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL);
      if (n <= 0)
        return;
      o += size_t(n);
    }
  }
  // reads until the end; true: closed by the service, false: nothing happened for 20 s
  bool rest()
  {
    char b[4096];
    for (;;)
    {
      const ssize_t n = recv(fd, b, sizeof b, 0);
      if (n > 0)
        got.append(b, size_t(n));
      else
        return n == 0 || (errno != EAGAIN && errno != EWOULDBLOCK);
    }
  }
  bool open() const
  {
    char c;
    const ssize_t n = recv(fd, &c, 1, MSG_PEEK | MSG_DONTWAIT);
    return n < 0 && (errno == EAGAIN || errno == EWOULDBLOCK);
  }
  void abort()
  {
    linger l{1, 0};
    setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    ::close(fd);
    fd = -1;
  }
  ~Client()
  {
    if (fd >= 0)
      ::close(fd);
  }
};

struct Answer
{
  int status = 0;
  std::map<std::string, std::string> header;
  std::string body;
};

static Answer parse(const std::string &s)
{
  Answer a;
  const size_t end = s.find("\r\n\r\n");
  check(s.compare(0, 7, "HTTP/1.") == 0 && end != std::string::npos, "no HTTP response: " + quote(s.substr(0, 300)));
  a.status = atoi(s.c_str() + 9);
  std::istringstream in(s.substr(0, end + 2));
  std::string line;
  std::getline(in, line);
  while (std::getline(in, line))
  {
    if (!line.empty() && line.back() == '\r')
      line.pop_back();
    const size_t c = line.find(':');
    if (c == std::string::npos)
      continue;
    std::string k = line.substr(0, c), v = line.substr(c + 1);
    for (auto &x : k)
      x = char(tolower(x));
    while (!v.empty() && v[0] == ' ')
      v.erase(0, 1);
    a.header[k] = v;
  }
  a.body = s.substr(end + 4);
  if (a.header.count("content-length"))
    check(a.header["content-length"] == str(a.body.size()), "content-length " + a.header["content-length"] + " of a body of " + str(a.body.size()) + " bytes: " + quote(s.substr(0, 300)));
  return a;
}

// a flat JSON object; numbers as they are, texts in quotes
static std::map<std::string, std::string> json(const std::string &s)
{
  std::map<std::string, std::string> r;
  size_t i = 0;
  auto bad = [&]() { fail("not a flat JSON object: " + quote(s)); };
  auto ws = [&]() { while (i < s.size() && strchr(" \t\r\n", s[i])) ++i; };
  auto text = [&]() {
    std::string t;
    if (i >= s.size() || s[i] != '"')
      bad();
    for (++i; i < s.size() && s[i] != '"'; ++i)
      t += s[i];
    if (i++ >= s.size())
      bad();
    return t;
  };
  ws();
  if (i >= s.size() || s[i++] != '{')
    bad();
  for (;;)
  {
    ws();
    const std::string k = text();
    ws();
    if (i >= s.size() || s[i++] != ':')
      bad();
    ws();
    std::string v;
    if (i < s.size() && s[i] == '"')
      v = "\"" + text();
    else
    {
      while (i < s.size() && (isdigit((unsigned char)s[i]) || strchr("+-.eE", s[i])))
        v += s[i++];
      if (v.empty())
        bad();
    }
    r[k] = v;
    ws();
    if (i < s.size() && s[i] == ',')
    {
      ++i;
      continue;
    }
    if (i >= s.size() || s[i++] != '}')
      bad();
    ws();
    if (i != s.size())
      bad();
    return r;
  }
}

static std::string hex16(const Rec &t, bool upper)
{
  std::string b;
  for (int i = 7; i >= 0; --i)
    b += char(t.u >> (8 * i));
  for (int i = 7; i >= 0; --i)
    b += char(t.l >> (8 * i));
  std::string h = hex(b);
  if (upper)
    for (auto &c : h)
      c = char(toupper(c));
  return h;
}

static std::string lower(std::string s)
{
  for (auto &c : s)
    c = char(tolower(c));
  return s;
}

static std::string request(const std::string &method, const std::string &target, const std::string &body = "")
{
  std::string r = method + " " + target + " HTTP/1.1\r\nHost: localhost\r\n";
  if (rnd(3) == 0)
    r += "User-Agent: " + std::string(rnd(2000), 'x') + "\r\n";
  if (!body.empty())
    r += "Content-Length: " + str(body.size()) + "\r\n";
  return r + "\r\n" + body;
}

struct World
{
  std::vector<Rec> v;
  std::string base;
  Service *s;
  std::string trace;

  void say(const std::string &x)
  {
    trace += "; " + x;
    if (trace.size() > 3000)
      trace = "..." + trace.substr(trace.size() - 2500);
    note(brief(v).substr(0, 20000) + trace);
  }
  void lookup(const Answer &a, const Rec &t)
  {
    check(a.status == 200, "a lookup is answered with status " + str(a.status));
    auto h = a.header;
    check(h["content-type"] == "application/json", "a lookup is answered with " + h["content-type"]);
    auto o = json(a.body);
    check(lower(o["hash"]) == "\"" + hex16(t, false), "the answer names the hash " + o["hash"] + " instead of " + hex16(t, false));
    const Rec *r = find(v, t);
    check(o["found"] == str(r ? r->c : 0), "found " + o["found"] + " is not " + str(r ? r->c : 0) + " for " + hex16(t, false));
  }
  // one request that has to be answered
  unsigned short port = 0; // of the service, if it runs in a process of its own
  void ask(int kind)
  {
    Client c(s ? s->port : port);
    const Rec t = target(v);
    std::string q;
    switch (kind)
    {
    case 0:
    case 1:
    {
      q = base + "/lookup?";
      if (rnd(4) == 0)
        q += "x=y&";
      q += "hash=" + hex16(t, rnd(2));
      if (rnd(4) == 0)
        q += "&z=1";
      q = request("GET", q);
      break;
    }
    case 2: q = request("GET", base + "/info" + (rnd(2) ? "?a=b" : "")); break;
    case 3:
    {
      const char *p[] = {"/", "/lookup", "/lookup?hash", "/lookup?x=y", "/look", "/infos", "/info/x", "/lookups?hash=00112233445566778899aabbccddeeff"};
      const uint64_t k = rnd(10);
      q = request("GET", k == 8 && !base.empty() ? "/lookup?hash=00112233445566778899aabbccddeeff" : k >= 8 ? "/" : base + p[k]);
      break;
    }
    default:
    {
      const char *ms[] = {"POST", "PUT", "DELETE", "OPTIONS", "PATCH", "MKCOL", "HELLO"};
      const uint64_t k = rnd(7);
      q = request(ms[k], base + (rnd(2) ? "/info" : "/lookup?hash=" + hex16(t, false)), k < 2 && rnd(2) ? std::string(1 + rnd(3000), 'b') : "");
    }
    }
    say("request " + quote(q.substr(0, 80)) + " (" + str(q.size()) + ")");
    const bool extra = rnd(6) == 0;
    if (extra) // what follows the request is no part of the next one
      q += rnd(2) ? "GET /lookup HTTP/1.1\r\n" : std::string(1 + rnd(20), 'z');
    if (rnd(3) == 0)
    {
      const size_t k = size_t(rnd(q.size()));
      c.send(q.substr(0, k));
      usleep(useconds_t(rnd(3000)));
      c.send(q.substr(k));
    }
    else
      c.send(q);
    if (!c.rest())
      fail("the service does not answer");
    if (extra && c.got.find("\r\n\r\n") == std::string::npos)
      return; // closing with unread input may destroy the answer on its way
    const Answer a = parse(c.got);
    if (kind <= 1)
      lookup(a, t);
    else if (kind == 2)
    {
      check(a.status == 200, "a request for the info path is answered with status " + str(a.status));
      auto o = json(a.body);
      check(o["count"] == str(v.size()), "count " + o["count"] + " of " + str(v.size()) + " records");
    }
    else if (kind == 3)
      check(a.status == 404, "a request for another path is answered with status " + str(a.status));
    else
      check(a.status == 400, "a request of another method is answered with status " + str(a.status));
    ++nontrivial;
  }
  // one client that misbehaves
  void tease()
  {
    const std::string q = request("GET", base + "/lookup?hash=" + hex16(target(v), false));
    switch (rnd(7))
    {
    case 0:
    {
      say("a client that leaves at once");
      Client c(s->port);
      if (rnd(2))
        c.abort();
      break;
    }
    case 1:
    {
      say("a client that sends half a request and leaves");
      Client c(s->port);
      c.send(q.substr(0, 1 + rnd(q.size() - 1)));
      if (rnd(2))
        usleep(useconds_t(rnd(2000)));
      if (rnd(2))
        c.abort();
      break;
    }
    case 2:
    {
      say("a client that sends nonsense");
      Client c(s->port);
      std::string b;
      for (uint64_t n = 1 + rnd(300); n; --n)
        b += char(rnd(256));
      c.send(b + "\r\n\r\n");
      shutdown(c.fd, SHUT_WR);
      if (rnd(2))
        check(c.rest(), "a connection with nonsense is kept open");
      break;
    }
    case 3:
    {
      say("a client that sends a request and goes away without waiting");
      Client c(s->port);
      c.send(q);
      c.abort();
      break;
    }
    case 4:
    {
      // all workers are busy, so the next client is gone before it is accepted
      say("a client that goes away while the workers are busy");
      std::list<Client> busy;
      for (size_t i = 0; i < s->workers.size(); ++i)
      {
        busy.emplace_back(s->port);
        busy.back().send(q.substr(0, 20));
      }
      usleep(3000);
      for (int i = 0; i < 3; ++i)
      {
        Client c(s->port);
        c.send(request(rnd(4) ? "GET" : "POST", base + (rnd(2) ? "/lookup?hash=00112233445566778899aabbccddeeff" : "/info")));
        c.abort();
      }
      usleep(3000);
      for (auto &c : busy)
        c.send(q.substr(20));
      for (auto &c : busy)
      {
        check(c.rest(), "the service does not answer a busy client");
        check(parse(c.got).status == 200, "status of the answer to a slow client");
      }
      break;
    }
    case 5:
    {
      say("a client that takes too long");
      std::list<Client> slow;
      for (size_t i = 0, n = rnd(2) ? s->workers.size() : 1; i < n; ++i)
      {
        slow.emplace_back(s->port);
        slow.back().send(q.substr(0, rnd(q.size() - 1)));
      }
      for (auto &c : slow)
      {
        for (int k = 0; k < 100 && c.open(); ++k)
        {
          usleep(20000);
          s->advance(3600.5);
        }
        check(c.rest(), "a client that takes too long keeps its connection");
        check(c.got.empty(), "half a request is answered");
      }
      break;
    }
    default:
    {
      // the time that passed before a connection does not count for it
      say("a client after some time");
      ask(int(rnd(3)));
      s->advance(double(rnd(50)));
      Client c(s->port);
      const Rec t = target(v);
      const std::string r = request("GET", base + "/lookup?hash=" + hex16(t, false));
      c.send(r.substr(0, 10));
      usleep(20000);
      s->advance(0.1 + double(rnd(20)));
      check(c.open(), "the connection of a client that took little time is closed");
      c.send(r.substr(10));
      check(c.rest(), "the service does not answer a client after some time");
      lookup(parse(c.got), t);
    }
    }
  }
};

// the server itself, in a process of its own
static bool server(const std::string &f, int round)
{
  ++cases;
  World w;
  w.s = nullptr;
  w.v = sortedFile(rnd(60));
  writeFile(f, bytes(w.v));
  w.base = rnd(3) ? "/v1/pwned/api" : rnd(2) ? "" : "/x";
  const int nw = round == 0 ? 0 : round == 1 ? 1 : int(1 + rnd(8)), nt = round == 1 ? 0 : int(rnd(5));
  {
    const int fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof a;
    check(bind(fd, reinterpret_cast<sockaddr *>(&a), n) == 0 && getsockname(fd, reinterpret_cast<sockaddr *>(&a), &n) == 0, "no free port");
    w.port = ntohs(a.sin_port);
    close(fd);
  }
  const std::string address = "http://127.0.0.1:" + str(w.port) + w.base;
  w.say("pwned-server with " + str(nw) + " workers and " + str(nt) + " threads at " + address);
  const std::vector<std::string> args{"pwned-server", "-I", f, "-A", address, "-W", str(nw), "-T", str(nt)};
  const pid_t p = fork();
  if (p == 0)
  {
    alarm(120);
    std::vector<const char *> v;
    for (auto &x : args)
      v.push_back(x.c_str());
    std::cout.setstate(std::ios::failbit);
    _exit(server_main(int(v.size()), v.data()));
  }
  struct Stop
  {
    pid_t p;
    ~Stop()
    {
      kill(p, SIGKILL);
      waitpid(p, nullptr, 0);
    }
  } stop{p};
  for (int i = 0;; ++i)
  {
    const int fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(w.port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    const bool ok = connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0;
    close(fd);
    if (ok)
      break;
    int st;
    // the port may be taken by another process in the meantime
    if (i >= 300 || waitpid(p, &st, WNOHANG) != 0)
      return false;
    usleep(50000);
  }
  usleep(100000);
  for (int k = 0; k < 30; ++k)
    w.ask(int(rnd(5)));
  // as many connections at a time as there are workers
  std::list<Client> all;
  for (int i = 0; i < nw; ++i)
  {
    all.emplace_back(w.port);
    all.back().send("GET /");
  }
  usleep(5000);
  for (auto i = all.rbegin(); i != all.rend(); ++i)
  {
    i->send(" HTTP/1.1\r\n\r\n");
    check(i->rest(), "a worker is missing");
    check(parse(i->got).status == 404, "status of the last answers");
  }
  return true;
}

void vt::test()
{
  signal(SIGPIPE, SIG_IGN);
  for (int i = 0; i < 4 * scale; ++i)
    if (!server(dir + "/served.bin", i) && !server(dir + "/served.bin", i) && !server(dir + "/served.bin", i))
      fail("the server does not listen at its address");
  const std::string f = dir + "/hashes.bin";
  for (int round = 0; round < 6 * scale; ++round)
  {
    ++cases;
    World w;
    w.v = sortedFile(rnd(3) ? rnd(60) : rnd(3000));
    writeFile(f, bytes(w.v));
    w.base = rnd(3) ? "/v1/pwned/api" : rnd(2) ? "" : "/x";
    const unsigned nw = round % 3 == 0 ? 1 : unsigned(1 + rnd(6)), nt = round % 3 == 0 ? 1 : unsigned(1 + rnd(4));
    Service s(nw, nt, w.base, f, "", rnd(3) != 0);
    w.s = &s;
    w.say("service of " + str(nw) + " workers in " + str(nt) + " threads at " + quote(w.base));
    for (int k = 0; k < 60; ++k)
    {
      if (rnd(3) == 0)
        w.tease();
      else
        w.ask(int(rnd(5)));
    }
    // every worker is still there
    std::list<Client> all;
    for (unsigned i = 0; i < nw; ++i)
    {
      all.emplace_back(s.port);
      all.back().send("GET /");
    }
    usleep(5000);
    for (auto i = all.rbegin(); i != all.rend(); ++i)
    {
      i->send(" HTTP/1.1\r\n\r\n");
      check(i->rest(), "a worker is missing after the connections before");
      check(parse(i->got).status == 404, "status of the last answers");
    }
  }
}
