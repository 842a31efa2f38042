// The operation queue with real threads: every operation counts its starts, ends and destructions.
#include "common.hpp"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <list>
#include <memory>
#include <mutex>
#include <thread>
#include <sys/mman.h>
#include "pwned-lib/operation.hpp"
#include "pwned-lib/operationqueue.hpp"
#include "pwned-lib/operationexception.hpp"
#include "pwned-lib/semaphore.hpp"
using namespace vt;

static std::atomic<unsigned> processors{2};
static std::atomic<long> deadline{0}; // s; 0: none
static std::atomic<bool> hurry{false}; // no delays of operations
static std::atomic<uint32_t> jitter{12345};

static uint32_t any()
{
  uint32_t x = jitter.fetch_add(0x9e3779b9u);
  x ^= x >> 16;
  x *= 0x85ebca6bu;
  x ^= x >> 13;
  x *= 0xc2b2ae35u;
  return x ^ x >> 16;
}

static void nap(unsigned us)
{
  const unsigned t = any() % (us + 1);
  if (t > us / 2)
    std::this_thread::yield();
  else
    usleep(t);
}

// any number of processors
unsigned int std::thread::hardware_concurrency() noexcept { return processors; }

// waits as the standard allows: with a delay before, and sometimes without reason to wake
void std::condition_variable::wait(std::unique_lock<std::mutex> &l)
{
  const unsigned k = any() % 4;
  if (k < 2)
    nap(200);
  if (k == 3)
  {
    l.mutex()->unlock();
    nap(50);
    l.mutex()->lock();
    return;
  }
  pthread_cond_wait(native_handle(), l.mutex()->native_handle());
}

static long now()
{
  return std::chrono::duration_cast<std::chrono::seconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Track
{
  std::atomic<int> made{0}, begun{0}, ended{0}, gone{0}, waiting{0};
};

struct World
{
  std::atomic<int> live{0}, most{0}, seq{0};
  std::atomic<bool> stop{false};
  std::atomic<int> gate{0};
  std::atomic<int> epoch{0}; // odd: the queue is paused
  std::vector<std::unique_ptr<Track>> recs;
  std::mutex m;
  std::vector<long long> order;
  bool order1()
  {
    std::lock_guard<std::mutex> g(m);
    return !order.empty();
  }
};

enum Kind
{
  Short,
  UntilCancelled,
  UntilStopped,
  Together,
  Throwing
};

class Op : public pwned::Operation
{
public:
  World *w;
  Track *r;
  Kind kind;
  int need;
  Op(World *w, Kind kind, int need = 0) : w(w), kind(kind), need(need)
  {
    w->recs.emplace_back(new Track);
    r = w->recs.back().get();
    r->made = 1;
  }
  ~Op() override
  {
    if (r->gone++)
      fail("an operation is destroyed twice");
    if (r->begun != r->ended)
      fail("an operation is destroyed while it runs");
  }
  // a page of its own: any use after it was freed is a crash
  static void *operator new(size_t n)
  {
    void *p = mmap(nullptr, (n + 4095) & ~size_t(4095), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
      _exit(3);
    return p;
  }
  static void operator delete(void *p, size_t n) { mprotect(p, (n + 4095) & ~size_t(4095), PROT_NONE); }
  void start() noexcept override
  {
    if (!hurry)
      nap(100);
    pwned::Operation::start();
    if (!hurry)
      nap(100);
  }
  bool told() const { return isCancelled; }
  bool over() const { return isFinished && !isRunning; }
  void execute() noexcept(false) override
  {
    if (r->begun++)
      fail("an operation is executed twice");
    const int l = ++w->live;
    for (int m = w->most; l > m && !w->most.compare_exchange_weak(m, l);)
      ;
    {
      std::lock_guard<std::mutex> g(w->m);
      w->order.push_back(priority);
    }
    switch (kind)
    {
    case Short:
    case Throwing:
      if (!hurry)
        nap(150);
      break;
    case Together:
      ++w->gate;
      while (w->gate < need)
        usleep(20);
      break;
    case UntilCancelled:
    case UntilStopped:
      while (!isCancelled && !(kind == UntilStopped && w->stop))
      {
        if (isPaused)
        {
          nap(300);
          const int e = w->epoch;
          r->waiting = 1;
          wait();
          r->waiting = 0;
          if (e % 2 == 1 && w->epoch == e)
            fail("an operation goes on although the queue is paused");
          isPaused = false;
        }
        usleep(20);
      }
      break;
    }
    --w->live;
    ++r->ended;
    if (kind == Throwing)
      throw pwned::OperationException("none", 1);
  }
};

typedef pwned::OperationQueue<Op> Queue;

static void begin(const std::string &s)
{
  note(s + " (" + str(processors.load()) + " processors)");
  deadline = now() + 40;
  ++cases;
}

static void done() { deadline = 0; }

template <typename F>
static bool soon(F f, int ms)
{
  for (int i = 0; i < ms * 10; ++i)
  {
    if (f())
      return true;
    usleep(100);
  }
  return f();
}

static void finish(Queue &q, World &w)
{
  q.waitForFinished();
  check(q.size() == 0, "the queue has " + str(q.size()) + " operations after all have finished");
  check(!q.isCancelled() && !q.isRunning(), "the queue still counts as cancelled or running after all operations have finished");
  for (auto &r : w.recs)
    check(r->gone == 1 && r->begun == r->ended, "an operation still exists or runs after the queue has been waited for");
  check(w.most <= int(processors), str(w.most.load()) + " operations ran at a time");
}

static void all(Queue &q, int n, bool order, bool together)
{
  World w;
  std::vector<long long> prio;
  const bool wide = rnd(2);
  hurry = rnd(3) == 0;
  for (int i = 0; i < n; ++i)
  {
    Op *o = new Op(&w, together ? Together : rnd(8) ? Short : Throwing, n);
    o->priority = wide ? (long long)(num()) : rnd(3) ? int(rnd(100)) - 50 : 0;
    prio.push_back(o->priority);
    q.add(o);
  }
  check(q.size() == size_t(n), "the queue has " + str(q.size()) + " operations instead of " + str(n));
  const bool w1 = rnd(2);
  q.execute(w1);
  if (!w1)
    q.waitForScheduled();
  finish(q, w);
  for (auto &r : w.recs)
    check(r->begun == 1, "an operation was never executed");
  if (order)
  {
    std::sort(prio.rbegin(), prio.rend());
    check(w.order == prio, "operations are not executed in the order of their priority");
  }
  hurry = false;
  ++nontrivial;
}

static void together(Queue &q)
{
  begin("as many operations at a time as there are processors");
  all(q, int(processors), false, true);
  done();
}

static void pausing(Queue &q, int n)
{
  World w;
  n = std::min(n, int(processors));
  for (int i = 0; i < n; ++i)
    q.add(new Op(&w, UntilStopped));
  begin("pausing and resuming " + str(n) + " operations");
  q.execute(false);
  while (w.live < n)
    usleep(50);
  const int rounds = 1 + int(rnd(4));
  for (int k = 0; k < rounds; ++k)
  {
    q.pause();
    check(!q.isRunning(), "the queue counts as running although it is paused");
    ++w.epoch;
    switch (rnd(3))
    {
    case 0:
      break;
    case 1:
      nap(100);
      break;
    default:
      soon([&] { for (auto &r : w.recs) if (!r->waiting) return false; return true; }, 3);
      usleep(500);
    }
    ++w.epoch;
    q.resume();
    check(q.isRunning(), "the queue does not count as running after it was resumed");
    // nothing pauses now: whoever waits goes on
    while (!soon([&] { for (auto &r : w.recs) if (r->waiting) return false; return true; }, 50))
      ;
    nap(100);
  }
  w.stop = true;
  q.waitForScheduled();
  finish(q, w);
  for (auto &r : w.recs)
    check(r->begun == 1, "an operation was not executed once");
  ++nontrivial;
  done();
}

static void cancelled(Queue &q, int n, bool execute)
{
  begin("cancelling a queue of " + str(n) + " operations" + (execute ? "" : " that are not scheduled"));
  World w;
  const bool all = rnd(2);
  for (int i = 0; i < n; ++i)
    q.add(new Op(&w, all || rnd(2) ? UntilCancelled : Short));
  if (execute)
  {
    q.execute(false);
    const int k = int(rnd(4));
    if (k == 0 && n)
      while (!w.order1())
        usleep(20);
    else if (k == 1)
      nap(300);
    else if (k == 2 && n)
    {
      while (!w.order1())
        usleep(20);
      q.pause();
      nap(500);
    }
  }
  std::vector<int> running;
  for (size_t i = 0; i < w.recs.size(); ++i)
    if (w.recs[i]->begun)
      running.push_back(int(i));
  q.cancel();
  check(q.isCancelled(), "the queue does not count as cancelled");
  for (int i : running)
    check(w.recs[size_t(i)]->ended == 1, "an operation still runs after the queue was cancelled");
  size_t gone = 0, begun = 0;
  for (auto &r : w.recs)
  {
    gone += size_t(r->gone.load());
    begun += size_t(r->begun.load());
  }
  if (!execute)
    check(gone == size_t(n) && begun == 0 && q.size() == 0, "an unscheduled operation is left or was executed although the queue was cancelled");
  if (execute)
    q.waitForScheduled();
  finish(q, w);
  if (execute && all && !running.empty())
  {
    size_t b = 0;
    for (auto &r : w.recs)
      b += size_t(r->begun.load());
    check(b <= processors, "operations are executed after the queue was cancelled");
    ++nontrivial;
  }
  done();
}

static void semaphore()
{
  const unsigned cap = 1 + unsigned(rnd(3)), nt = 2 + unsigned(rnd(6));
  begin("semaphore of " + str(cap) + " with " + str(nt) + " threads");
  pwned::Semaphore s(cap);
  std::atomic<int> in{0};
  std::atomic<bool> bad{false};
  std::vector<std::thread> t;
  for (unsigned i = 0; i < nt; ++i)
    t.emplace_back([&] {
      for (int k = 0; k < 12; ++k)
      {
        s.wait();
        if (++in > int(cap))
          bad = true;
        nap(60);
        --in;
        s.notify();
      }
    });
  for (auto &x : t)
    x.join();
  check(!bad, "more threads than permits at a time");
  check(s.capacity() == cap, "the semaphore has " + str(s.capacity()) + " permits instead of " + str(cap));
  // every permit can be taken at once
  for (unsigned i = 0; i < cap; ++i)
    s.wait();
  check(s.capacity() == 0, "permits are left");
  for (unsigned i = 0; i < cap; ++i)
    s.notify();
  ++nontrivial;
  done();
}

static void single()
{
  begin("cancelling a single operation");
  World w;
  Op *o = new Op(&w, rnd(2) ? UntilCancelled : Throwing);
  Track *r = w.recs[0].get();
  const int how = int(rnd(4));
  if (how == 0)
  {
    o->cancel();
    o->start();
    check(r->begun == 0, "an operation is executed although it was cancelled before");
  }
  else if (how == 1)
  {
    o->kind = Short;
    o->start();
    check(r->begun == 1 && r->ended == 1 && o->over(), "an operation that was executed does not count as finished");
    o->cancel();
  }
  else
  {
    std::thread t([&] { o->start(); });
    if (how == 2)
      while (!r->begun)
        usleep(20);
    else
      nap(200);
    std::vector<std::thread> c;
    for (int i = 0; i < (how == 2 ? 2 : 1); ++i)
      c.emplace_back([&] {
        const bool before = r->begun;
        o->cancel();
        if (before && !r->ended)
          fail("an operation still runs after it was cancelled");
      });
    for (auto &x : c)
      x.join();
    t.join();
    check(r->begun == r->ended && r->begun <= 1, "an operation was not executed at most once");
  }
  check(o->told(), "an operation does not know that it was cancelled");
  delete o;
  check(r->gone == 1, "an operation was not destroyed");
  ++nontrivial;
  done();
}

// an operation cancelled just while it is started: it runs before cancelling returns, or not at all
static void meeting()
{
  begin("cancelling an operation while it is being started");
  const int N = 40;
  World w;
  std::vector<Op *> ops;
  for (int i = 0; i < N; ++i)
    ops.push_back(new Op(&w, UntilCancelled));
  std::atomic<int> turn{-1}, ready{0};
  std::thread t([&] {
    for (int i = 0; i < N; ++i)
    {
      for (unsigned k = 1; turn < i; ++k)
        if (k % 4096 == 0)
          std::this_thread::yield();
      ops[size_t(i)]->start();
      ++ready;
    }
  });
  for (int i = 0; i < N; ++i)
  {
    const unsigned k = unsigned(rnd(400));
    turn = i;
    for (volatile unsigned j = 0; j < k; ++j)
      ;
    ops[size_t(i)]->cancel();
    Track *r = w.recs[size_t(i)].get();
    const bool before = r->begun;
    for (unsigned k2 = 1; ready <= i; ++k2)
      if (k2 % 4096 == 0)
        std::this_thread::yield();
    check(before || !r->begun, "an operation begins after cancelling it has returned");
  }
  t.join();
  for (Op *o : ops)
    delete o;
  ++nontrivial;
  done();
}

void vt::test()
{
  std::cout.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);
  jitter = uint32_t(rnd(1u << 30));
  std::thread([] {
    for (;;)
    {
      usleep(200000);
      const long d = deadline;
      if (d && now() > d)
        fail("the operations, or who waits for them, wait forever");
    }
  }).detach();
  for (long i = 0; i < 1200L * scale; ++i)
  {
    processors = unsigned(i % 7 == 6 ? 8 : 1 + rnd(3));
    Queue q;
    for (int k = 0; k < 4; ++k)
      switch (rnd(4))
      {
      case 0:
      {
        const int n = rnd(4) ? int(rnd(8)) : int(rnd(60));
        begin("executing " + str(n) + " operations");
        all(q, n, processors == 1, false);
        done();
        break;
      }
      case 1:
        pausing(q, 1 + int(rnd(3)));
        break;
      case 2:
        cancelled(q, int(rnd(6)), rnd(4) != 0);
        break;
      default:
        together(q);
      }
    together(q);
    semaphore();
    single();
    meeting();
  }
  std::cout.clear();
  std::cerr.clear();
}
