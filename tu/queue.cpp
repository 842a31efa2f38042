#include "pwned-lib/operation.cpp"
#include "pwned-lib/operationqueue.hpp"
extern "C" void vt_execute(pwned::Operation *op) noexcept(false);
struct VtOp : pwned::Operation
{
  void execute() override { vt_execute(this); }
  static void *running(pwned::Operation &o) { return &static_cast<VtOp &>(o).isRunning; }
  static void *finished(pwned::Operation &o) { return &static_cast<VtOp &>(o).isFinished; }
  static void *cancelled(pwned::Operation &o) { return &static_cast<VtOp &>(o).isCancelled; }
  static void *paused(pwned::Operation &o) { return &static_cast<VtOp &>(o).isPaused; }
  static void *mutex(pwned::Operation &o) { return &static_cast<VtOp &>(o).mtx; }
  static void *condition(pwned::Operation &o) { return &static_cast<VtOp &>(o).finishedCondition; }
  static void *theQueue(pwned::Operation &o) { return &static_cast<VtOp &>(o).queue; }
  static void finish(pwned::Operation &o) { static_cast<VtOp &>(o).waitForFinished(); }
  static void await(pwned::Operation &o) { static_cast<VtOp &>(o).wait(); }
};
template class pwned::OperationQueue<VtOp>;
typedef pwned::OperationQueue<VtOp> VtQ;
#define VT_MEMBER(C, N, m)                                    \
  template <auto M>                                           \
  struct N##_t                                                \
  {                                                           \
    friend const void *N##_(C &c) { return &(c.*M); }         \
  };                                                          \
  const void *N##_(C &);                                      \
  template struct N##_t<&C::m>;                               \
  extern "C" const void *N(C &c) { return N##_(c); }
VT_MEMBER(pwned::Semaphore, vt_sem_mtx, mtx)
VT_MEMBER(pwned::Semaphore, vt_sem_cv, cv)
VT_MEMBER(pwned::Semaphore, vt_sem_cap, _capacity)
VT_MEMBER(VtQ, vt_q_mtx, mtx)
VT_MEMBER(VtQ, vt_q_pausemtx, pauseMtx)
VT_MEMBER(VtQ, vt_q_guard, guard)
VT_MEMBER(VtQ, vt_q_cond, pauseCondition)
VT_MEMBER(VtQ, vt_q_exe, exeThread)
VT_MEMBER(VtQ, vt_q_ops, runningOps)
VT_MEMBER(VtQ, vt_q_threads, opThreads)
VT_MEMBER(VtQ, vt_q_unsched, unscheduledOps)
VT_MEMBER(VtQ, vt_q_isrunning, _isRunning)
VT_MEMBER(VtQ, vt_q_iscancelled, _isCancelled)
extern "C" {
unsigned long vt_sem_size = sizeof(pwned::Semaphore), vt_op_size = sizeof(VtOp), vt_queue_size = sizeof(VtQ);
const void *vt_op_running(pwned::Operation &o) { return VtOp::running(o); }
const void *vt_op_finished(pwned::Operation &o) { return VtOp::finished(o); }
const void *vt_op_cancelled(pwned::Operation &o) { return VtOp::cancelled(o); }
const void *vt_op_paused(pwned::Operation &o) { return VtOp::paused(o); }
const void *vt_op_mtx(pwned::Operation &o) { return VtOp::mutex(o); }
const void *vt_op_cv(pwned::Operation &o) { return VtOp::condition(o); }
const void *vt_op_queue(pwned::Operation &o) { return VtOp::theQueue(o); }
const void *vt_op_priority(pwned::Operation &o) { return &o.priority; }
void vt_op_finish(pwned::Operation &o) { VtOp::finish(o); }
void vt_op_await(pwned::Operation &o) { VtOp::await(o); }
void vt_op_construct(void *p) { new (p) VtOp; }
bool vt_less(pwned::Operation *a, pwned::Operation *b) { return pwned::opGreaterPriority(a, b); }
void vt_q_construct(VtQ *p) { new (p) VtQ; }
}
