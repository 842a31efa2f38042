QHDR = HDR + r'''
#include <atomic>
#include <mutex>
#include <thread>
#include <unistd.h>
#include "pwned-lib/operation.hpp"
#include "pwned-lib/operationqueue.hpp"
#include "pwned-lib/operationexception.hpp"
static std::mutex omtx;
static std::vector<int> order;
static std::atomic<int> ran{0}, gone{0}, told{0};
struct Op : pwned::Operation
{
  int n, kind;  // 0: ends at once, 1: goes on until told to cancel (at most 3 s), 2: throws
  Op(int n, int kind = 0, long long prio = 0) : n(n), kind(kind) { priority = prio; }
  ~Op() { ++gone; }
  void execute() noexcept(false) override
  {
    { std::lock_guard<std::mutex> l(omtx); order.push_back(n); }
    ++ran;
    if (kind == 1) { for (int i = 0; i < 3000 && !isCancelled; ++i) usleep(1000); if (isCancelled) ++told; }
    if (kind == 2) throw pwned::OperationException("no", pwned::OperationException::QueueNotSet);
  }
};
typedef pwned::OperationQueue<Op> Queue;
static void run(Queue &q) { q.execute(); q.waitForScheduled(); q.waitForFinished(); }
'''
ONE = '#include <thread>\nunsigned std::thread::hardware_concurrency() noexcept { return %d; }\n'
QH, SH = 'pwned-lib/operationqueue.hpp', 'pwned-lib/semaphore.hpp'
plant('p25-notify-when-empty', 'P25',
      [(SH, '    ++_capacity;\n    cv.notify_one();', '    if (_capacity++ == 0U)\n      cv.notify_one();')],
      'two threads waiting for a permit, and two permits given back before the first one woken takes its own',
      'the second waiter is never woken although there is a permit for it',
      QHDR + r'''
int main()
{
  alarm(20);
  for (int i = 0; i < 300; ++i)
  {
    pwned::Semaphore s(0);
    std::atomic<int> in{0};
    std::thread a([&] { ++in; s.wait(); }), b([&] { ++in; s.wait(); });
    while (in < 2) usleep(10);
    usleep(300);
    s.notify();
    s.notify();
    a.join();
    b.join();
  }
  return 0;
}
''', OPS)
plant('p25-wait-if', 'P25',
      [(SH, '    while (_capacity == 0U)', '    if (_capacity == 0U)')],
      'a spurious wake-up, or a permit taken by another thread before the woken one gets the mutex',
      'a thread gets a permit that is not there, and the count wraps around',
      QHDR + r'''
// every wait ends spuriously after a while, as std::condition_variable is allowed to do
void std::condition_variable::wait(std::unique_lock<std::mutex> &l) noexcept { l.unlock(); usleep(2000); l.lock(); }
int main()
{
  alarm(20);
  pwned::Semaphore s(0);
  std::atomic<bool> got{false};
  std::thread t([&] { s.wait(); got = true; });
  usleep(100000);
  const bool early = got;
  s.notify();
  t.join();
  CHECK(!early);
  return 0;
}
''', OPS)
plant('p25-finished-front', 'P25',
      [(QH, '    runningOps.remove(op);', '    runningOps.pop_front();')],
      'an operation that ends before one scheduled earlier, and cancelling the queue (or pausing it) afterwards',
      'the running operation is taken off the list instead of the one that ended: cancelling does not reach it, and touches a freed one',
      QHDR + ONE % 4 + r'''
int main()
{
  alarm(30);
  Queue q;
  q.add(new Op(1, 1, 9));
  q.add(new Op(2, 0, 1));
  q.execute();
  q.waitForScheduled();
  while (gone < 1) usleep(1000);
  usleep(20000);
  q.cancel();
  usleep(10000);
  CHECK(told == 1);
  q.waitForFinished();
  CHECK(ran == 2 && gone == 2);
  return 0;
}
''', OPS)
plant('p25-priority-int', 'P25',
      [(QH, '  return lhs->priority < rhs->priority;', '  return static_cast<int>(lhs->priority - rhs->priority) < 0;')],
      'operations whose priorities differ by 2^31 and more (file sizes)',
      'operations are started in the wrong order',
      QHDR + ONE % 1 + r'''
int main()
{
  alarm(30);
  Queue q;
  q.add(new Op(1, 0, 5));
  q.add(new Op(2, 0, 3000000000LL));
  q.add(new Op(3, 0, 100));
  run(q);
  CHECK((order == std::vector<int>{2, 3, 1}));
  return 0;
}
''', OPS)
plant('p25-capture-reference', 'P25',
      [(QH, 'runAsync([op, this]() {', 'runAsync([&op, this]() {')],
      'a thread that begins to run only after the next operation has been taken from the queue',
      'operations are skipped, run twice or freed twice',
      QHDR + ONE % 8 + r'''
int main()
{
  alarm(30);
  for (int r = 0; r < 50; ++r)
  {
    Queue q;
    ran = gone = 0;
    order.clear();
    for (int i = 0; i < 40; ++i) q.add(new Op(i, 0, i));
    run(q);
    CHECK(ran == 40 && gone == 40);
    std::vector<bool> seen(40);
    for (int n : order) { CHECK(n >= 0 && n < 40 && !seen[n]); seen[n] = true; }
  }
  return 0;
}
''', OPS)
plant('p25-cancel-one', 'P25',
      [(QH, '    while (!unscheduledOps.empty())\n    {\n      Operation', '    if (!unscheduledOps.empty())\n    {\n      Operation')],
      'cancelling a queue with two or more operations that are not scheduled yet',
      'all but one of the operations stay in the queue, and are run when it is executed again',
      QHDR + ONE % 1 + r'''
int main()
{
  alarm(30);
  Queue q;
  for (int i = 0; i < 4; ++i) q.add(new Op(i));
  q.cancel();
  CHECK(q.size() == 0 && gone == 4 && ran == 0);
  return 0;
}
''', OPS)
plant('p25-throw-running', 'P25',
      [('pwned-lib/operation.cpp', '    std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;', '    std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;\n    return;')],
      'an operation that ends with an OperationException',
      'the operation counts as running for ever: freeing it, and so waiting for the queue, never ends',
      QHDR + ONE % 2 + r'''
int main()
{
  alarm(10);
  Queue q;
  q.add(new Op(1, 2));
  q.add(new Op(2, 0));
  run(q);
  CHECK(ran == 2 && gone == 2);
  return 0;
}
''', OPS)
plant('p25-permit-cancelled', 'P25',
      [(QH, '          finished(op);\n          guard.notify();', '          finished(op);\n          if (!_isCancelled)\n            guard.notify();')],
      'operations running when the queue is cancelled, and another execution of the same queue',
      'the permits of the cancelled operations are lost: later operations are never scheduled, or fewer at a time',
      QHDR + ONE % 1 + r'''
int main()
{
  alarm(10);
  Queue q;
  q.add(new Op(1, 1));
  q.execute();
  while (ran < 1) usleep(1000);
  q.cancel();
  q.waitForScheduled();
  q.waitForFinished();
  q.add(new Op(2));
  run(q);
  CHECK(ran == 2 && gone == 2);
  return 0;
}
''', OPS)
plant('p25-stay-cancelled', 'P25',
      [(QH, '    _isRunning = false;\n    _isCancelled = false;\n  }', '    _isRunning = false;\n  }')],
      'using the same queue twice',
      'the queue counts as cancelled after its first use and does not run the operations added later',
      QHDR + r'''
int main()
{
  alarm(20);
  Queue q;
  q.add(new Op(1));
  run(q);
  q.add(new Op(2));
  run(q);
  CHECK(ran == 2 && gone == 2);
  return 0;
}
''', OPS)
