"""Contracts of the operation queue (operationqueue.hpp, operation.cpp, semaphore.hpp), thread by thread.

Each thread's code is verified on its own against monitor invariants: what a mutex protects is arbitrary (within the
rely condition) whenever the mutex has just been taken, the invariants are obligations whenever it is given back, what
other threads may write without a mutex (atomic flags) is arbitrary at every load, and whoever makes the condition
another thread waits for come true has to do so under the mutex of that condition and to notify afterwards.
X is an arbitrary operation."""
import z3
from .common import *
from .merger import get_obj

Q = r'^pwned::OperationQueue<VtOp>::'
LT = r'std::list<std::thread, std::allocator<std::thread> ?>::'
LO = r'std::list<VtOp\*, std::allocator<VtOp\*> ?>::'
PQ = r'std::priority_queue<VtOp\*, std::vector<VtOp\*, std::allocator<VtOp\*> ?>, pwned::\S*\{?.*>::'


class Flag:
    """a flag other threads may change at any time"""

    def __init__(self, off, name, on_load=None, on_store=None, shared=True):
        self.off, self.name, self.on_load, self.on_store, self.shared = off, name, on_load, on_store, shared


class Flags:
    """region handler: loads of shared flags are arbitrary, stores are reported"""

    def __init__(self, unit, flags):
        self.unit, self.flags = unit, {f.off: f for f in flags}

    def load(self, eng, st, r, off, ty, line):
        f = self.flags.get(off) if isinstance(off, int) else None
        if f is None:
            return None
        if f.shared:
            b = z3.Bool(eng.fresh_name(f.name))
        else:
            b = eng.gget(st, PV(r.rid, 0), f.name)
        if f.on_load:
            f.on_load(eng, st, b)
        return IV(8, z3.If(b, 1, 0), 0, 1, bool=b)

    def store(self, eng, st, r, off, ty, v, line):
        f = self.flags.get(off) if isinstance(off, int) else None
        if f is None:
            return False
        if isinstance(v, BoolV):
            b = v.b
        elif isinstance(v, IV) and v.bool is not None:
            b = v.bool
        else:
            b = Not(Eq(eng.as_u(st, v), 0))
        b = simp(z3.simplify(zb(b)))
        b = True if z3.is_true(zb(b)) else False if z3.is_false(zb(b)) else b
        if not f.shared:
            eng.gset(st, PV(r.rid, 0), f.name, zb(b))
        if f.on_store:
            f.on_store(eng, st, b, line)
        return True


class Mon:
    """what a mutex protects"""

    def __init__(self, name, acquire=None, release=None):
        self.name, self.acquire, self.release = name, acquire, release


def m_atomic_load(eng, st, a, I, line, d):
    v = eng.load(st, a[0], ('i', 8), line)
    return (BoolV(v.bool if isinstance(v, IV) and v.bool is not None else v.b if isinstance(v, BoolV) else Not(Eq(eng.as_u(st, v), 0))),)


def m_atomic_store(eng, st, a, I, line, d):
    eng.store(st, a[0], ('i', 8), a[1], line)
    return (a[1],)


def held(st):
    return st.user.get('carry') or frozenset()


def key(eng, p):
    return (p.r, eng.coff(p.off))


def m_lock(eng, st, a, I, line, d):
    m = eng.cur.mons.get(key(eng, a[0]))
    if m is None:
        raise Unsupported('a mutex without an invariant')
    eng.oblige(st, 'the %s is not locked twice by the same thread' % m.name, m.name not in held(st), line)
    st.user['carry'] = held(st) | {m.name}
    for n, (mon, cv) in eng.cur.conds.items():
        if mon is m and eng.gget(st, eng.cur.self, 'pend_' + n) == 2:
            eng.gset(st, eng.cur.self, 'pend_' + n, 1)
    if m.acquire:
        m.acquire(eng, st)
    return (None,)


def release(eng, st, m, line):
    eng.oblige(st, 'the %s is held when it is given back' % m.name, m.name in held(st), line)
    if m.release:
        m.release(eng, st, line)
    st.user['carry'] = held(st) - {m.name}


def m_unlock(eng, st, a, I, line, d):
    m = eng.cur.mons.get(key(eng, a[0]))
    if m is None:
        raise Unsupported('a mutex without an invariant')
    release(eng, st, m, line)
    return (None,)


def cond_name(eng, p):
    k = key(eng, p)
    for n, (mon, cv) in eng.cur.conds.items():
        if cv == k:
            return n, mon
    raise Unsupported('a condition variable without a contract')


def m_cvwait(eng, st, a, I, line, d):
    n, mon = cond_name(eng, a[0])
    mx = eng.load(st, a[1], ('ptr',))
    if not isinstance(mx, PV) or mx.r is None:
        raise Unsupported('wait with an unknown mutex')
    eng.oblige(st, 'waits under the mutex of the condition', eng.cur.mons.get(key(eng, mx)) is mon and mon.name in held(st), line)
    eng.oblige(st, 'holds no other mutex while it waits', not (held(st) - {mon.name}), line)
    eng.cur.waiting(eng, st, n, line)
    if mon.release:
        mon.release(eng, st, line)
    if mon.acquire:
        mon.acquire(eng, st)
    return (None,)


def m_notify(eng, st, a, I, line, d):
    n, mon = cond_name(eng, a[0])
    eng.cur.notified(eng, st, n, mon, 'all' in d)
    return (None,)


def m_terminate(eng, st, a, I, line, d):
    eng.oblige(st, 'the program is not terminated (std::terminate)', False, line)
    raise Unsupported('std::terminate')


def m_new(eng, st, a, I, line, d):
    n = simp(a[0].t)
    return (eng.new_region(st, 'new', n if isinstance(n, int) else None, 'heap', lazy=True),)


def m_int(eng, st, a, I, line, d):
    return (eng.iv_sfresh(st, 32, eng.fresh_name('rc')),)


def m_self(eng, st, a, I, line, d):
    return (eng.iv_fresh(st, 64, eng.fresh_name('self')),)


def m_none(eng, st, a, I, line, d):
    return (None,)


def m_ref(eng, st, a, I, line, d):
    return (a[0],)


BASE = [
    (r'std::atomic<bool>::operator bool\(\) const( volatile)?$', m_atomic_load),
    (r'std::atomic<bool>::operator=\(bool\)( volatile)?$', m_atomic_store),
    (r'std::(atomic<bool>|__atomic_base<bool>)::load\(std::memory_order\) const$', m_atomic_load),
    (r'std::(atomic<bool>|__atomic_base<bool>)::store\(bool, std::memory_order\)$', m_atomic_store),
    (r'std::mutex::lock\(\)$', m_lock),
    (r'std::mutex::unlock\(\)$', m_unlock),
    (r'std::condition_variable::wait\(std::unique_lock<std::mutex>&\)$', m_cvwait),
    (r'std::condition_variable::notify_(one|all)\(\)$', m_notify),
    (r'std::terminate\(\)$', m_terminate),
    (r'operator new(\[\])?\(unsigned long\)$', m_new),
    (r'operator delete(\[\])?\(void\*(, unsigned long)?\)$', m_none),
    (r'std::condition_variable::~?condition_variable\(\)$', m_none),
    (r'pwned::UUID::UUID\(\)$', m_none),
    (r'std::operator<<.*\(std::ostream&, (char const\*|pwned::UUID const&)\)$', m_ref),
    (r'pwned::operator<<\(std::ostream&, pwned::UUID const&\)$', m_ref),
    (r'std::ostream::operator<<\(std::ostream& \(\*\)\(std::ostream&\)\)$', m_ref),
    (r'pthread_(getschedparam|setschedparam)$', m_int),
    (r'pthread_self$', m_self),
]


class Threads(Unit):
    tu = 'queue.cpp'
    timeout_ms = 10000

    def __init__(self):
        self.mons = {}
        self.conds = {}
        self.lib = list(self.models) + BASE
        self.termination = self.measured

    models = ()
    measured = True

    def mon(self, eng, p, m):
        self.mons[key(eng, p)] = m
        return m

    def cond(self, eng, st, p, name, mon):
        self.conds[name] = (mon, key(eng, p))
        eng.gset(st, self.self, 'pend_' + name, 0)

    def publish(self, eng, st, n, line):
        """the condition waited for on n has just come true"""
        mon, cv = self.conds[n]
        eng.gset(st, self.self, 'pend_' + n, 1 if mon.name in held(st) else 2)

    def notified(self, eng, st, n, mon, every):
        if eng.gget(st, self.self, 'pend_' + n) == 1 and every:
            eng.gset(st, self.self, 'pend_' + n, 0)

    def waiting(self, eng, st, n, line):
        raise Unsupported('waits here')

    def settled(self, eng, st, line=None):
        """at the end of a function"""
        eng.oblige(st, 'ensures no mutex stays locked', not held(st), line)
        for n in self.conds:
            p = eng.gget(st, self.self, 'pend_' + n)
            eng.oblige(st, 'ensures everyone who waits for the %s is woken after it came true under its mutex' % n,
                       p == 0 if isinstance(p, int) else zval(p) == 0, line)

    def members(self, eng, st, p, pre, names):
        for n in names:
            s, v = get_obj(eng, st, 'vt_%s_%s' % (pre, n), p)
            setattr(self, n, v)


# ---------------------------------------------------------------- semaphore

class SemUnit(Threads):
    measured = False

    def start(self, eng):
        st = State()
        self.self = obj(eng, st, 'semaphore', const(eng, 'vt_sem_size'))
        self.members(eng, st, self.self, 'sem', ['mtx', 'cv', 'cap'])
        m = self.mon(eng, self.mtx, Mon('mutex of the semaphore', self.acquire, self.release))
        self.cond(eng, st, self.cv, 'permit', m)
        self.g(eng, st, 'delta', z3.IntVal(0))
        self.g(eng, st, 'owed', z3.IntVal(0))
        self.g(eng, st, 'nin', z3.IntVal(0))
        self.g(eng, st, 'acq', z3.IntVal(0))
        self.arbitrary(eng, st)
        return st

    def g(self, eng, st, n, v=None):
        if v is None:
            return zval(eng.gget(st, self.self, n))
        eng.gset(st, self.self, n, v)

    def arbitrary(self, eng, st):
        c = eng.iv_fresh(st, 32, eng.fresh_name('permits'))
        st.add(zval(c.t) < (1 << 32) - 1)          # fewer than 2^32-1 permits
        eng.store(st, self.cap, ('i', 32), c)
        return c.t

    def acquire(self, eng, st):
        self.g(eng, st, 'acq', zval(self.arbitrary(eng, st)))
        self.g(eng, st, 'nin', z3.IntVal(0))

    def release(self, eng, st, line):
        cap = eng.load(st, self.cap, ('i', 32))
        d = zval(eng.as_u(st, cap)) - self.g(eng, st, 'acq')
        up = d - self.g(eng, st, 'nin')
        self.g(eng, st, 'delta', z3.simplify(self.g(eng, st, 'delta') + d))
        self.g(eng, st, 'owed', z3.simplify(self.g(eng, st, 'owed') + z3.If(up > 0, up, 0)))
        self.g(eng, st, 'nin', z3.IntVal(0))

    def waiting(self, eng, st, n, line):
        cap = eng.load(st, self.cap, ('i', 32))
        eng.oblige(st, 'waits only while there is no permit', zval(eng.as_u(st, cap)) == 0, line)

    def notified(self, eng, st, n, mon, every):
        if mon.name in held(st):
            self.g(eng, st, 'nin', z3.IntVal(1 << 40) if every else self.g(eng, st, 'nin') + 1)
        else:
            o = self.g(eng, st, 'owed')
            self.g(eng, st, 'owed', z3.IntVal(0) if every else z3.If(o > 0, o - 1, 0))


class SemWait(SemUnit):
    title = 'Semaphore::wait'

    def run(self, eng):
        st = self.start(eng)
        for s, r in eng.call_function(self.fn(eng, r'^pwned::Semaphore::wait\(\)$'), st, [self.self]):
            eng.oblige(s, 'ensures exactly one permit is taken, one that was there', self.g(eng, s, 'delta') == -1)
            self.settled(eng, s)


class SemNotify(SemUnit):
    title = 'Semaphore::notify'

    def run(self, eng):
        st = self.start(eng)
        for s, r in eng.call_function(self.fn(eng, r'^pwned::Semaphore::notify\(\)$'), st, [self.self]):
            eng.oblige(s, 'ensures exactly one permit is given back', self.g(eng, s, 'delta') == 1)
            eng.oblige(s, 'ensures one who waits for a permit is woken after it is there', self.g(eng, s, 'owed') == 0)
            self.settled(eng, s)


# ---------------------------------------------------------------- one operation

def m_execute(eng, st, a, I, line, d):
    u = eng.cur
    eng.oblige(st, 'the operation executed is this one', a[0].r == u.self.r and a[0].off == 0, line)
    eng.oblige(st, 'the operation counts as running while it executes', zb(eng.gget(st, u.self, 'running')), line)
    eng.oblige(st, 'no mutex is held while the operation executes', not held(st), line)
    eng.gset(st, u.self, 'executed', zval(eng.gget(st, u.self, 'executed')) + 1)
    return (None,)


class OpUnit(Threads):
    models = [(r'vt_execute$', m_execute)]
    own = False       # the thread of the operation itself (only it changes isRunning)

    def start(self, eng):
        st = State()
        self.self = obj(eng, st, 'operation', const(eng, 'vt_op_size'))
        eng.call_function(eng.mod.functions['@vt_op_construct'], st, [self.self])
        self.members(eng, st, self.self, 'op', ['running', 'finished', 'cancelled', 'paused', 'mtx', 'cv', 'queue'])
        m = self.mon(eng, self.mtx, Mon('mutex of the operation', self.acquire))
        self.cond(eng, st, self.cv, 'end', m)
        for n, v in (('executed', z3.IntVal(0)), ('sawcancel', z3.BoolVal(False)), ('said', z3.BoolVal(False)), ('obs', z3.BoolVal(False)),
                     ('last', z3.BoolVal(True)), ('clear', z3.BoolVal(False)), ('idle', z3.BoolVal(False)), ('running', z3.BoolVal(False)), ('finished', z3.Bool('finished0')),
                     ('pausedby', z3.BoolVal(False))):
            eng.gset(st, self.self, n, v)
        st.mem[self.self.r].handler = Flags(self, [
            Flag(self.running.off, 'running', None if self.own else self.saw, self.ended, not self.own),
            Flag(self.finished.off, 'finished', None, None, not self.own),
            Flag(self.cancelled.off, 'cancelled', self.saw_cancel, self.say_cancel),
            Flag(self.paused.off, 'paused', None, self.say_pause)])
        return st

    def gb(self, eng, st, n):
        return zb(eng.gget(st, self.self, n))

    def acquire(self, eng, st):
        eng.gset(st, self.self, 'obs', z3.BoolVal(False))
        eng.gset(st, self.self, 'clear', z3.BoolVal(False))

    def saw(self, eng, st, b):
        """isRunning read by another thread"""
        m = z3.BoolVal('mutex of the operation' in held(st))
        eng.gset(st, self.self, 'last', b)
        eng.gset(st, self.self, 'obs', z3.And(b, m))
        eng.gset(st, self.self, 'idle', z3.And(z3.Not(b), m, self.gb(eng, st, 'said')))

    def saw_cancel(self, eng, st, b):
        eng.gset(st, self.self, 'sawcancel', z3.Or(self.gb(eng, st, 'sawcancel'), b))
        eng.gset(st, self.self, 'clear', z3.And(z3.Not(b), z3.BoolVal('mutex of the operation' in held(st))))

    def say_cancel(self, eng, st, b, line):
        eng.oblige(st, 'a cancelled operation stays cancelled', zb(b), line)
        eng.gset(st, self.self, 'said', z3.BoolVal(True))

    def say_pause(self, eng, st, b, line):
        eng.gset(st, self.self, 'pausedby', zb(b))

    def ended(self, eng, st, b, line):
        eng.oblige(st, 'only the thread of the operation changes isRunning', self.own, line)
        if b is not False:
            eng.oblige(st, 'the operation begins only under its mutex, having seen under it that nobody cancelled it',
                       z3.Implies(zb(b), z3.And(self.gb(eng, st, 'clear'), z3.BoolVal('mutex of the operation' in held(st)))), line)
        if b is not True:
            self.publish(eng, st, 'end', line)

    def waiting(self, eng, st, n, line):
        eng.oblige(st, 'waits only after having seen, under the mutex, that the operation runs', self.gb(eng, st, 'obs'), line)
        if self.cancels:
            eng.oblige(st, 'the operation is told to cancel before its end is awaited', self.gb(eng, st, 'said'), line)
        eng.gset(st, self.self, 'last', z3.BoolVal(True))

    cancels = False


class OpStart(OpUnit):
    title = 'Operation::start'
    own = True

    def run(self, eng):
        st = self.start(eng)
        for s, r in eng.call_function(self.fn(eng, r'^pwned::Operation::start\(\)$'), st, [self.self]):
            ex = zval(eng.gget(s, self.self, 'executed'))
            eng.oblige(s, 'ensures the operation is executed once unless it was cancelled before',
                       z3.Or(ex == 1, z3.And(ex == 0, self.gb(eng, s, 'sawcancel'))))
            eng.oblige(s, 'ensures an operation cancelled before is not executed', z3.Implies(ex == 1, z3.Not(z3.And(self.gb(eng, s, 'sawcancel')))))
            eng.oblige(s, 'ensures the operation no longer counts as running', z3.Not(self.gb(eng, s, 'running')))
            eng.oblige(s, 'ensures an executed operation counts as finished', z3.Implies(ex == 1, self.gb(eng, s, 'finished')))
            self.settled(eng, s)


class OpWait(OpUnit):
    title = 'Operation::waitForFinished'
    measured = False

    def run(self, eng):
        st = self.start(eng)
        for s, r in eng.call_function(self.fn(eng, '@vt_op_finish'), st, [self.self]):
            eng.oblige(s, 'ensures the operation was seen not running', z3.Not(self.gb(eng, s, 'last')))
            self.settled(eng, s)


class OpCancel(OpUnit):
    title = 'Operation::cancel'
    measured = False
    cancels = True

    def run(self, eng):
        st = self.start(eng)
        for s, r in eng.call_function(self.fn(eng, r'^pwned::Operation::cancel\(\)$'), st, [self.self]):
            eng.oblige(s, 'ensures the operation is told to cancel', self.gb(eng, s, 'said'))
            eng.oblige(s, 'ensures the operation was seen not running, under its mutex, after it was told to cancel', self.gb(eng, s, 'idle'))
            self.settled(eng, s)


class OpPause(OpUnit):
    title = 'Operation::pause'

    def run(self, eng):
        st = self.start(eng)
        for s, r in eng.call_function(self.fn(eng, r'^pwned::Operation::pause\(\)$'), st, [self.self]):
            eng.oblige(s, 'ensures the operation is told to pause', self.gb(eng, s, 'pausedby'))
            self.settled(eng, s)


# ---------------------------------------------------------------- the queue

def the_op(eng, st, p):
    """'X', or the region of another operation"""
    if not isinstance(p, PV) or p.r is None or p.off != 0:
        raise Unsupported('an operation at %r' % (p,))
    return p


def other(eng, st):
    """an operation other than X"""
    u = eng.cur
    y = obj(eng, st, 'other operation', const(eng, 'vt_op_size'))
    eng.put(st, y.r, 0, 8, eng.load(st, PV(u.X.r, 0), ('ptr',)))
    for n, v in (('started', 0), ('freed', 0)):
        eng.gset(st, y, n, z3.IntVal(v))
    return y


def cell_of(eng, st, p):
    c = eng.new_region(st, 'element', 8, 'obj')
    eng.put(st, c.r, 0, 8, p)
    return c


class Contract:
    """the contract of a function another unit verifies"""

    def __init__(self, pat, f):
        self.pat, self.f = re.compile(pat), f

    def matches(self, d, name):
        return self.pat.match(d)

    def apply(self, eng, st, a, I, line):
        r = self.f(eng, st, a, I, line, self.pat.pattern)
        return r if isinstance(r, list) or r is None else [(st, r[0])]


class QUnit(Threads):
    contracts = ()

    def __init__(self):
        self.models = [m for m in QMODELS if not m[0].startswith('pwned')]
        super().__init__()
        self.contracts = list(self.contracts) + [Contract(*m) for m in QMODELS if m[0].startswith('pwned')]
        self.candgens = [self.cands]

    def g(self, eng, st, n, v=None):
        if v is None:
            return eng.gget(st, self.self, n)
        eng.gset(st, self.self, n, v)

    def start(self, eng):
        st = State()
        self.X = obj(eng, st, 'X', const(eng, 'vt_op_size'))
        self.self = self.X
        eng.call_function(eng.mod.functions['@vt_op_construct'], st, [self.X])
        self.self = obj(eng, st, 'queue', const(eng, 'vt_queue_size'))
        self.members(eng, st, self.self, 'q', ['mtx', 'pausemtx', 'guard', 'cond_', 'exe', 'ops', 'threads', 'unsched', 'isrunning', 'iscancelled'])
        self.mon(eng, self.mtx, Mon('mutex of the queue', self.acquire, self.release))
        pm = self.mon(eng, self.pausemtx, Mon('mutex of the pause', self.pacquire))
        self.cond(eng, st, self.cond_, 'resume', pm)
        eng.gset(st, self.X, 'started', z3.IntVal(0))
        eng.gset(st, self.X, 'freed', z3.IntVal(0))
        B = z3.BoolVal
        for n, v in (('inx', z3.Bool('queued')), ('rx', z3.Bool('running')), ('n', z3.Int('queued#')), ('rn', z3.Int('running#')), ('ix', z3.Int('at')),
                     ('px', B(False)), ('spawned', z3.IntVal(0)), ('tx', z3.IntVal(0)), ('tok', z3.IntVal(0)), ('qc', B(False)), ('cx', z3.IntVal(0)),
                     ('told', B(False)), ('saidc', B(False)), ('ptop', 0), ('taken', z3.IntVal(0)), ('joinedx', B(False)), ('joinedexe', B(False)),
                     ('tn', z3.Int('threads#')), ('tb', z3.IntVal(0)), ('tix', z3.Int('thread at')), ('saw_r', B(False)), ('set_r', z3.IntVal(-1)), ('set_c', z3.IntVal(-1)),
                     ('obs_r', B(False)), ('obs_c', B(False)), ('last', B(False)), ('removed', B(False)), ('envn', z3.IntVal(0))):
            self.g(eng, st, n, v)
        self.nodes = eng.new_region(st, 'positions', None, 'seq')
        self.tnodes = eng.new_region(st, 'thread positions', None, 'seq')
        self.telems = eng.new_region(st, 'threads', None, 'seq')
        self.consistent(eng, st)
        eng.store(st, self.exe, ('i', 64), eng.iv_const(64, 0))
        st.mem[self.self.r].handler = Flags(self, [
            Flag(self.isrunning.off, 'isrunning', self.saw_running, self.set_running),
            Flag(self.iscancelled.off, 'iscancelled', self.saw_cancelled, self.set_cancelled)])
        return st

    def members(self, eng, st, p, pre, names):
        for n in names:
            s, v = get_obj(eng, st, 'vt_%s_%s' % (pre, n.rstrip('_')), p)
            setattr(self, n, v)

    def consistent(self, eng, st):
        n, rn, ix, tn, tix = (zval(self.g(eng, st, k)) for k in ('n', 'rn', 'ix', 'tn', 'tix'))
        inx, rx = zb(self.g(eng, st, 'inx')), zb(self.g(eng, st, 'rx'))
        st.add(z3.And(n >= z3.If(inx, 1, 0), rn >= 0, z3.Implies(rx, z3.And(ix >= 0, ix < rn)), z3.Not(z3.And(inx, rx)), tn >= 0,
                      tix >= 0, z3.Implies(tn > 0, tix < tn), n < (1 << 60), rn < (1 << 60), tn < (1 << 60)))

    def bounds(self, eng):
        return [z3.Int('running#'), z3.Int('threads#'), z3.Int('queued#')] + ([self.rn0] if self.rn0 is not None else [])

    rn0 = None

    # -- rely and invariants
    def acquire(self, eng, st):
        """arbitrary state of the queue"""
        self.g(eng, st, 'ptop', 0)

    def release(self, eng, st, line):
        freed = zval(eng.gget(st, self.X, 'freed'))
        eng.oblige(st, 'no freed operation stays in the queue when its mutex is given back',
                   z3.Implies(freed > 0, z3.Not(z3.Or(zb(self.g(eng, st, 'inx')), zb(self.g(eng, st, 'rx'))))), line)
        eng.oblige(st, 'an operation given to a thread is among the running ones when the mutex is given back',
                   z3.Implies(zval(self.g(eng, st, 'spawned')) > 0, zb(self.g(eng, st, 'px'))), line)

    def pacquire(self, eng, st):
        pass

    def saw_running(self, eng, st, b):
        self.g(eng, st, 'saw_r', z3.Or(zb(self.g(eng, st, 'saw_r')), b))
        self.observed(eng, st, b, 'obs_r')

    def saw_cancelled(self, eng, st, b):
        self.g(eng, st, 'qc', z3.Or(zb(self.g(eng, st, 'qc')), b))
        self.observed(eng, st, b, 'obs_c')

    def observed(self, eng, st, b, which):
        pass

    def set_running(self, eng, st, b, line):
        self.g(eng, st, 'set_r', z3.If(zb(b), z3.IntVal(1), z3.IntVal(0)) if not isinstance(b, bool) else z3.IntVal(int(b)))
        if b is not False:
            self.publish(eng, st, 'resume', line)

    def set_cancelled(self, eng, st, b, line):
        self.g(eng, st, 'set_c', z3.If(zb(b), z3.IntVal(1), z3.IntVal(0)) if not isinstance(b, bool) else z3.IntVal(int(b)))
        if b is not False:
            self.g(eng, st, 'saidc', z3.BoolVal(True))
            self.publish(eng, st, 'resume', line)

    def under(self, eng, st, what, line):
        eng.oblige(st, '%s only under the mutex of the queue' % what, 'mutex of the queue' in held(st), line)

    def cands(self, ctx):
        e, out = ctx.eng, []

        def G(n, conv=zval):
            return lambda s: conv(self.g(e, s, n))
        fr = lambda s: zval(e.gget(s, self.X, 'freed'))
        inx, rx, px = G('inx', zb), G('rx', zb), G('px', zb)
        sp, tx, tok, cx, n, rn, tn, ix, tix, env = (G(k) for k in ('spawned', 'tx', 'tok', 'cx', 'n', 'rn', 'tn', 'ix', 'tix', 'envn'))
        out += [('X is queued, given to a thread or cancelled, once', lambda s: z3.If(inx(s), 1, 0) + sp(s) + env(s) == 1),
                ('the thread of X is kept', lambda s: tx(s) == sp(s)), ('no permit is kept', lambda s: tok(s) == 0),
                ('X was put among the running once given to a thread', lambda s: px(s) == (sp(s) > 0)),
                ('n counts X', lambda s: n(s) >= z3.If(inx(s), 1, 0)),
                ('X not in both', lambda s: z3.Not(z3.And(inx(s), rx(s)))),
                ('running only when given', lambda s: z3.Implies(rx(s), px(s))),
                ('cancelled only with the queue', lambda s: z3.Implies(env(s) > 0, zb(self.g(e, s, 'qc')))),
                ('X is freed or queued', lambda s: z3.If(inx(s), 1, 0) + fr(s) == z3.If(inx(ctx.st0), 1, 0) + fr(ctx.st0)),
                ('X is told or queued', lambda s: z3.Implies(z3.And(inx(ctx.st0), z3.Not(inx(s))), cx(s) > cx(ctx.st0))),
                ]
        out += [('told stays', lambda s: z3.Implies(zb(self.g(e, ctx.st0, 'told')), zb(self.g(e, s, 'told'))))]
        for nm, g, w in ctx.ints():
            for what, at, cnt in (('told', ix, rn), ('joinedx', tix, tn)):
                f = G(what, zb)
                cond = rx if what == 'told' else (lambda s: z3.BoolVal(True))
                out.append(('%s from position %s' % (what, nm), lambda s, f=f, g=g, at=at, cond=cond: f(s) == z3.And(cond(s), g(s) > at(s))))
                out.append(('%s within the list' % nm, lambda s, g=g, cnt=cnt: z3.And(g(s) >= 0, g(s) <= cnt(s))))
        return out

    def waiting(self, eng, st, n, line):
        raise Unsupported('waits here')


# -- models of the containers, the semaphore, the operations and the threads as used by the queue

def is_at(a, p):
    return isinstance(a, PV) and a.r == p.r and a.off == p.off


def pick_top(eng, st):
    """[(state, operation)]: the operation of highest priority"""
    u = eng.cur
    pt = u.g(eng, st, 'ptop')
    if not isinstance(pt, int):
        for k in (0, 1, 2):
            if eng.valid(st, pt == k):
                pt = k
                break
        else:
            raise Unsupported('top of the queue is not known')
    if pt == 1:
        return [(st, u.X)]
    if pt == 2:
        return [(st, st.user['topY'])]
    out = []
    n, inx = zval(u.g(eng, st, 'n')), zb(u.g(eng, st, 'inx'))
    s = st.copy()
    s.add(inx)
    if eng.feasible(s):
        u.g(eng, s, 'ptop', 1)
        out.append((s, u.X))
    s = st.copy()
    s.add(z3.Implies(inx, n >= 2))
    if eng.feasible(s):
        y = other(eng, s)
        s.user['topY'] = y
        u.g(eng, s, 'ptop', 2)
        # no element is greater than the top, as the comparison of the queue says
        py = eng.iv_sfresh(s, 64, eng.fresh_name('priority'))
        o = get_obj(eng, s, 'vt_op_priority', y)[1]
        eng.put(s, o.r, o.off, 8, py)
        for s2, b in eng.call_function(eng.mod.functions['@vt_less'], s.copy(), [y, u.X]):
            s2.add(z3.Implies(inx, z3.Not(bool_of(b))))
            out.append((s2, y))
    return out


def m_pq(eng, st, a, I, line, d):
    u = eng.cur
    if not is_at(a[0], u.unsched):
        raise Unsupported('another priority queue')
    what = re.search(r'::(\w+)\([^()]*\)( const)?$', d).group(1)
    n, inx = zval(u.g(eng, st, 'n')), zb(u.g(eng, st, 'inx'))
    u.under(eng, st, 'the unscheduled operations are used', line)
    if what == 'empty':
        return (BoolV(n == 0),)
    if what == 'size':
        return (IV(64, n, 0, 1 << 60),)
    if what == 'push':
        p = eng.load(st, a[1], ('ptr',))
        p = the_op(eng, st, p)
        if p.r == u.X.r:
            eng.oblige(st, 'an operation is not queued twice', z3.Not(inx), line)
            u.g(eng, st, 'inx', z3.BoolVal(True))
        u.g(eng, st, 'n', n + 1)
        u.g(eng, st, 'ptop', 0)
        return (None,)
    eng.oblige(st, 'the queue is not empty', n >= 1, line)
    st.add(n >= 1)
    outs = []
    for s, p in pick_top(eng, st):
        if what == 'top':
            outs.append((s, cell_of(eng, s, p)))
        else:
            if p.r == u.X.r:
                u.g(eng, s, 'inx', z3.BoolVal(False))
            u.g(eng, s, 'n', n - 1)
            u.g(eng, s, 'ptop', 0)
            s.user['taken'] = p.r
            outs.append((s, None))
    return outs


def m_ops(eng, st, a, I, line, d):
    """std::list of the running operations"""
    u = eng.cur
    if not is_at(a[0], u.ops):
        raise Unsupported('another list of operations')
    what = re.search(r'::(\w+)(<.*>)?\([^()]*\)( const)?$', d).group(1)
    u.under(eng, st, 'the running operations are used', line)
    rn, rx = zval(u.g(eng, st, 'rn')), zb(u.g(eng, st, 'rx'))
    if what in ('begin', 'cbegin'):
        return (PV(u.nodes.r, 0),)
    if what in ('end', 'cend'):
        return (PV(u.nodes.r, rn),)
    if what == 'size':
        return (IV(64, rn, 0, 1 << 60),)
    if what == 'empty':
        return (BoolV(rn == 0),)
    p = the_op(eng, st, eng.load(st, a[1], ('ptr',)))
    if what == 'push_back' or what == 'push_front':
        if p.r == u.X.r:
            eng.oblige(st, 'an operation is not put among the running ones twice', z3.Not(rx), line)
            u.g(eng, st, 'rx', z3.BoolVal(True))
            u.g(eng, st, 'px', z3.BoolVal(True))
            u.g(eng, st, 'ix', rn if what == 'push_back' else z3.IntVal(0))
        elif what == 'push_front':
            u.g(eng, st, 'ix', zval(u.g(eng, st, 'ix')) + 1)
        u.g(eng, st, 'rn', rn + 1)
        return (None,)
    if what == 'remove':
        k = z3.Int(eng.fresh_name('removed'))
        st.add(z3.And(k >= 0, k <= 1, k <= rn))
        if p.r == u.X.r:
            st.add((k == 1) == rx)
            u.g(eng, st, 'rx', z3.BoolVal(False))
            u.g(eng, st, 'removed', z3.BoolVal(True))
        else:
            ix = z3.Int(eng.fresh_name('at'))
            st.add(z3.Implies(rx, z3.And(ix >= 0, ix < rn - k)))
            u.g(eng, st, 'ix', ix)
            eng.gset(st, p, 'removed', z3.BoolVal(True))
        u.g(eng, st, 'rn', rn - k)
        return (IV(64, k, 0, 1),) if I.res else (None,)
    raise Unsupported('std::list::' + what)


def m_iter(eng, st, a, I, line, d):
    """iterators of the two lists: a position"""
    u = eng.cur
    what = re.search(r'operator(\+\+|\*|->|==|!=)', d).group(1)
    it = eng.load(st, a[0], ('ptr',))
    if not isinstance(it, PV) or it.r not in (u.nodes.r, u.tnodes.r):
        raise Unsupported('another iterator')
    if what in ('==', '!='):
        jt = eng.load(st, a[1], ('ptr',))
        if not isinstance(jt, PV) or it.r != jt.r:
            raise Unsupported('iterators of different lists')
        e = zval(it.off) == zval(jt.off)
        return (BoolV(e if what == '==' else z3.Not(e)),)
    if what == '++':
        eng.store(st, a[0], ('ptr',), PV(it.r, simp(z3.simplify(zval(it.off) + 1))))
        return (a[0] if len(a) == 1 else it,)
    i = zval(it.off)
    if it.r == u.tnodes.r:
        eng.oblige(st, 'the iterator is inside the list', z3.And(i >= zval(u.g(eng, st, 'tb')), i < zval(u.g(eng, st, 'tn'))), line)
        return (PV(u.telems.r, simp(z3.simplify(i))),)
    u.under(eng, st, 'the running operations are used', line)
    eng.oblige(st, 'the iterator is inside the list', z3.And(i >= 0, i < zval(u.g(eng, st, 'rn'))), line)
    outs = []
    here = z3.And(zb(u.g(eng, st, 'rx')), i == zval(u.g(eng, st, 'ix')))
    for c, isx in ((here, True), (z3.Not(here), False)):
        s = st.copy()
        s.add(c)
        if eng.feasible(s):
            outs.append((s, cell_of(eng, s, u.X if isx else other(eng, s))))
    return outs


def m_threads(eng, st, a, I, line, d):
    """std::list of the threads of the operations"""
    u = eng.cur
    if not is_at(a[0], u.threads):
        raise Unsupported('another list of threads')
    what = re.search(r' ?>::(\w+)(<std::thread>)?\([^()]*\)( const)?$', d).group(1)
    tn, tb = zval(u.g(eng, st, 'tn')), zval(u.g(eng, st, 'tb'))
    there = z3.And(zval(u.g(eng, st, 'tix')) >= tb, tb < tn)      # the thread considered is in the list
    if what == 'begin':
        return (PV(u.tnodes.r, simp(z3.simplify(tb))),)
    if what == 'end':
        return (PV(u.tnodes.r, tn),)
    if what == 'size':
        return (IV(64, tn - tb, 0, 1 << 60),)
    if what == 'empty':
        return (BoolV(tn == tb),)
    if what in ('front', 'pop_front'):
        eng.oblige(st, 'the list of threads is not empty', tb < tn, line)
        if what == 'front':
            return (PV(u.telems.r, simp(z3.simplify(tb))),)
        eng.oblige(st, 'no thread is dropped before it has been joined',
                   z3.Or(zb(u.g(eng, st, 'joinedx')), zval(u.g(eng, st, 'tix')) != tb), line)
        u.g(eng, st, 'tb', z3.simplify(tb + 1))
        return (None,)
    if what == 'clear':
        eng.oblige(st, 'no thread is dropped before it has been joined', z3.Or(zb(u.g(eng, st, 'joinedx')), z3.Not(there)), line)
        u.g(eng, st, 'tb', tn)
        return (None,)
    if what in ('push_back', 'emplace_back'):
        t = eng.as_u(st, eng.load(st, a[1], ('i', 64)))
        if not isinstance(t, int):
            raise Unsupported('a thread that is not known')
        eng.oblige(st, 'a running thread is kept', t in (2, 3), line)
        eng.store(st, a[1], ('i', 64), eng.iv_const(64, 0))
        if t == 2:
            u.g(eng, st, 'tx', zval(u.g(eng, st, 'tx')) + 1)
        u.g(eng, st, 'tn', tn + 1)
        return (a[0],) if I.res else (None,)
    raise Unsupported('std::list::' + what)


def m_join(eng, st, a, I, line, d):
    u = eng.cur
    eng.oblige(st, 'holds no mutex while it waits for a thread', not held(st), line)
    if is_at(a[0], u.exe):
        t = eng.as_u(st, eng.load(st, a[0], ('i', 64)))
        eng.oblige(st, 'the thread joined is the one that schedules', Eq(t, 1), line)
        eng.store(st, a[0], ('i', 64), eng.iv_const(64, 0))
        u.g(eng, st, 'joinedexe', z3.BoolVal(True))
        return (None,)
    if a[0].r == u.telems.r:
        i = zval(a[0].off)
        j, at = zb(u.g(eng, st, 'joinedx')), zval(u.g(eng, st, 'tix'))
        eng.oblige(st, 'no thread is joined twice', z3.Not(z3.And(j, i == at)), line)
        u.g(eng, st, 'joinedx', z3.Or(j, i == at))
        return (None,)
    raise Unsupported('join of another thread')


def m_joinable(eng, st, a, I, line, d):
    u = eng.cur
    if a[0].r == u.telems.r:
        return (BoolV(z3.Not(z3.And(zb(u.g(eng, st, 'joinedx')), zval(a[0].off) == zval(u.g(eng, st, 'tix'))))),)
    return (BoolV(Not(Eq(eng.as_u(st, eng.load(st, a[0], ('i', 64))), 0))),)


class Dead:
    """the stack of the function that starts a thread, as the thread sees it: it may be gone"""

    def load(self, eng, st, r, off, ty, line):
        eng.oblige(st, 'a thread uses no variable of the function that started it', False, line)
        raise Unsupported('a thread uses a variable of the function that started it')

    def store(self, eng, st, r, off, ty, v, line):
        return self.load(eng, st, r, off, ty, line)


def m_start_thread(eng, st, a, I, line, d):
    u = eng.cur
    nest = st.user.get('nest', 0)
    state = eng.load(st, a[1], ('ptr',))
    if not isinstance(state, PV) or state.r is None:
        raise Unsupported('a thread without state')
    vt = eng.load(st, state, ('ptr',))
    f = eng.load(st, PV(vt.r, simp(vt.off + 16)), ('ptr',))
    if not isinstance(f, FnV):
        raise Unsupported('the function of the thread is not known')
    fn = eng.mod.functions[f.name]
    w = st.copy()
    w.user['nest'] = nest + 1
    w.user['carry'] = frozenset()
    for rid, r in list(w.mem.items()):
        if r.kind == 'alloca':
            r = r.clone()
            r.handler = Dead()
            w.mem[rid] = r
    if nest == 0:
        ident = 1
        w = u.exe_thread(eng, w)
        for s, r in eng.call_function(fn, w, [state], 1, '/exe'):
            u.exe_ends(eng, s)
    elif nest == 1:
        tok = zval(u.g(eng, st, 'tok'))
        eng.oblige(st, 'a thread is started only with a permit', tok >= 1, line)
        u.g(eng, st, 'tok', tok - 1)
        w.user['first'] = True
        u.g(eng, w, 'tok', z3.IntVal(1))
        w.user['ran'] = ()
        kinds = set()
        for s, r in eng.call_function(fn, w, [state], 2, '/worker'):
            ran = s.user['ran']
            eng.oblige(s, 'ensures the thread has run one operation', len(ran) == 1)
            if len(ran) != 1:
                raise Unsupported('the operation of the thread is not known')
            p = ran[0]
            eng.oblige(s, 'ensures the operation is the one taken from the queue last, that of highest priority', p.r == st.user.get('taken'))
            kinds.add(p.r == u.X.r)
            eng.oblige(s, 'ensures the operation was freed once, after it had run', zval(eng.gget(s, p, 'freed')) == 1)
            eng.oblige(s, 'ensures the operation is no longer among the running ones',
                       z3.Not(zb(u.g(eng, s, 'rx'))) if p.r == u.X.r else zb(eng.gget(s, p, 'removed') or False))
            eng.oblige(s, 'ensures the permit was given back', zval(u.g(eng, s, 'tok')) == 0)
            eng.oblige(s, 'ensures no mutex stays locked', not held(s))
        if len(kinds) != 1:
            raise Unsupported('the operation of the thread is not known')
        if True in kinds:
            u.g(eng, st, 'spawned', zval(u.g(eng, st, 'spawned')) + 1)
            ident = 2
        else:
            ident = 3
    else:
        raise Unsupported('a thread started by a thread of an operation')
    eng.store(st, a[0], ('i', 64), eng.iv_const(64, ident))
    eng.store(st, a[1], ('ptr',), NULL)
    return (None,)


def m_sem(eng, st, a, I, line, d):
    u = eng.cur
    if not is_at(a[0], u.guard):
        raise Unsupported('another semaphore')
    tok = zval(u.g(eng, st, 'tok'))
    if 'wait' in d:
        eng.oblige(st, 'holds no mutex while it waits for a permit', not held(st), line)
        u.g(eng, st, 'tok', tok + 1)
    else:
        eng.oblige(st, 'only a permit taken before is given back', tok >= 1, line)
        u.g(eng, st, 'tok', tok - 1)
    return (None,)


def m_opstart(eng, st, a, I, line, d):
    u = eng.cur
    p = the_op(eng, st, a[0])
    eng.oblige(st, 'the operation is started in a thread of its own', st.user.get('nest', 0) == 2, line)
    eng.oblige(st, 'no mutex is held while the operation runs', not held(st), line)
    eng.oblige(st, 'an operation runs only with a permit', zval(u.g(eng, st, 'tok')) >= 1, line)
    sv, fv = zval(eng.gget(st, p, 'started')), zval(eng.gget(st, p, 'freed'))
    eng.oblige(st, 'an operation is started only once, and not after it was freed', z3.And(sv == 0, fv == 0), line)
    eng.gset(st, p, 'started', sv + 1)
    if 'ran' in st.user:
        st.user['ran'] = st.user['ran'] + (p,)
    return (None,)


def m_opcancel(eng, st, a, I, line, d):
    u = eng.cur
    p = the_op(eng, st, a[0])
    eng.oblige(st, 'an operation is cancelled only before it is freed', zval(eng.gget(st, p, 'freed')) == 0, line)
    eng.oblige(st, 'operations are cancelled under the mutex of the queue', 'mutex of the queue' in held(st), line)
    eng.oblige(st, 'the end of an operation is not awaited with the mutex of the pause', 'mutex of the pause' not in held(st), line)
    eng.oblige(st, 'operations that pause are woken before the end of an operation is awaited',
               z3.And(zb(u.g(eng, st, 'saidc')), z3.BoolVal(u.g(eng, st, 'pend_resume') == 0)), line)
    if p.r == u.X.r:
        u.g(eng, st, 'told', z3.BoolVal(True))
        u.g(eng, st, 'cx', zval(u.g(eng, st, 'cx')) + 1)
    return (None,)


def m_oppause(eng, st, a, I, line, d):
    u = eng.cur
    p = the_op(eng, st, a[0])
    eng.oblige(st, 'an operation is paused only before it is freed', zval(eng.gget(st, p, 'freed')) == 0, line)
    eng.oblige(st, 'operations are paused under the mutex of the queue', 'mutex of the queue' in held(st), line)
    if p.r == u.X.r:
        u.g(eng, st, 'told', z3.BoolVal(True))
    return (None,)


def m_opdel(eng, st, a, I, line, d):
    u = eng.cur
    p = the_op(eng, st, a[0])
    fv = zval(eng.gget(st, p, 'freed'))
    eng.oblige(st, 'an operation is freed only once', fv == 0, line)
    eng.oblige(st, 'operations are freed under the mutex of the queue', 'mutex of the queue' in held(st), line)
    if st.user.get('nest', 0) == 2:
        eng.oblige(st, 'an operation given to a thread is freed only after it has run', zval(eng.gget(st, p, 'started')) == 1, line)
    elif p.r == u.X.r:
        eng.oblige(st, 'no running operation is freed by another thread', z3.Not(zb(u.g(eng, st, 'rx'))), line)
    eng.gset(st, p, 'freed', fv + 1)
    return (None,)


def m_hc(eng, st, a, I, line, d):
    v = eng.iv_fresh(st, 32, eng.fresh_name('processors'))
    eng.cur.g(eng, st, 'hc', v.t)
    return (v,)


QMODELS = [
    (PQ + r'(empty|size|top|pop|push)\([^()]*\)( const)?$', m_pq),
    (LO + r'(begin|end|cbegin|cend|push_back|push_front|remove|size|empty)\([^()]*\)( const)?$', m_ops),
    (LT + r'(begin|end|push_back|clear|size|empty|front|pop_front)\([^()]*\)( const)?$', m_threads),
    (r'(.* )?' + LT + r'emplace_back<std::thread>\([^()]*\)$', m_threads),
    (r'std::_List_(const_)?iterator<(VtOp\*|std::thread)>::operator(\+\+|\*|->)\(.*\)( const)?$', m_iter),
    (r'std::operator(==|!=)\(std::_List_(const_)?iterator<(VtOp\*|std::thread)>', m_iter),
    (r'std::thread::join\(\)$', m_join),
    (r'std::thread::joinable\(\) const$', m_joinable),
    (r'std::thread::_M_start_thread\(', m_start_thread),
    (r'std::thread::hardware_concurrency\(\)$', m_hc),
    (r'std::priority_queue<VtOp\*.*>::priority_queue<', m_none),
    (r'std::priority_queue<VtOp\*.*>::priority_queue\(', m_none),
    (r'std::list<(VtOp\*|std::thread), .*>::list\(\)$', m_none),
    (r'std::(vector|_Vector_base)<VtOp\*, .*>::~?(vector|_Vector_base)\(\)$', m_none),
    (r'pwned::Semaphore::wait\(\)$', m_sem),
    (r'pwned::Semaphore::notify\(\)$', m_sem),
    (r'pwned::Operation::start\(\)$', m_opstart),
    (r'pwned::Operation::cancel\(\)$', m_opcancel),
    (r'pwned::Operation::pause\(\)$', m_oppause),
    (r'VtOp::~VtOp\(\)$', m_opdel),
]


class Comparison(Threads):
    title = 'opGreaterPriority'

    def run(self, eng):
        st = State()
        self.self = x = obj(eng, st, 'x', const(eng, 'vt_op_size'))
        y = obj(eng, st, 'y', const(eng, 'vt_op_size'))
        v = []
        for p in (x, y):
            o = get_obj(eng, st, 'vt_op_priority', p)[1]
            iv = eng.iv_sfresh(st, 64, eng.fresh_name('priority'))
            eng.put(st, o.r, o.off, 8, iv)
            v.append(iv.t)
        for s, r in eng.call_function(self.fn(eng, '@vt_less'), st, [x, y]):
            eng.oblige(s, 'ensures less exactly if its priority is', bool_of(r) == (zval(v[0]) < zval(v[1])))


class Construct(QUnit):
    title = 'OperationQueue::OperationQueue'

    def run(self, eng):
        st = self.start(eng)
        s0, sem = get_obj(eng, st, 'vt_sem_cap', self.guard)
        eng.put(st, self.exe.r, self.exe.off, 8, eng.iv_fresh(st, 64, 'garbage'))
        for s, r in eng.call_function(self.fn(eng, '@vt_q_construct'), st, [self.self]):
            cap = zval(eng.as_u(s, eng.load(s, sem, ('i', 32))))
            eng.oblige(s, 'ensures as many permits as there are processors', cap == zval(self.g(eng, s, 'hc')))
            t = eng.as_u(s, eng.load(s, self.exe, ('i', 64)))
            eng.oblige(s, 'ensures no scheduling thread', zval(t) == 0)
            eng.oblige(s, 'ensures neither running nor cancelled', z3.And(zval(self.g(eng, s, 'set_r')) == 0, zval(self.g(eng, s, 'set_c')) == 0))


class Add(QUnit):
    title = 'OperationQueue::add'

    def run(self, eng):
        st = self.start(eng)
        self.g(eng, st, 'inx', z3.BoolVal(False))
        self.g(eng, st, 'rx', z3.BoolVal(False))
        for s, r in eng.call_function(self.fn(eng, Q + r'add\(VtOp\*\)$'), st, [self.self, self.X]):
            eng.oblige(s, 'ensures the operation is queued', zb(self.g(eng, s, 'added')))
            qp = eng.load(s, get_obj(eng, s, 'vt_op_queue', self.X)[1], ('ptr',))
            eng.oblige(s, 'ensures the operation knows its queue', isinstance(qp, PV) and qp.r == self.self.r and qp.off == 0)
            self.settled(eng, s)

    def start(self, eng):
        st = super().start(eng)
        self.g(eng, st, 'added', z3.BoolVal(False))
        return st

    def acquire(self, eng, st):
        super().acquire(eng, st)
        n = z3.Int(eng.fresh_name('n'))
        st.add(z3.And(n >= 0, n < (1 << 60)))
        self.g(eng, st, 'n', n)

    def release(self, eng, st, line):
        super().release(eng, st, line)
        self.g(eng, st, 'added', z3.BoolVal(z3.is_true(z3.simplify(zb(self.g(eng, st, 'inx'))))))


class Size(QUnit):
    title = 'OperationQueue::size'

    def acquire(self, eng, st):
        super().acquire(eng, st)
        for k in ('n', 'rn'):
            v = z3.Int(eng.fresh_name(k))
            st.add(z3.And(v >= 0, v < (1 << 60)))
            self.g(eng, st, k, v)

    def run(self, eng):
        st = self.start(eng)
        for s, r in eng.call_function(self.fn(eng, Q + r'size\(\) const$'), st, [self.self]):
            eng.oblige(s, 'ensures the number of unscheduled and running operations',
                       zval(eng.as_u(s, r)) == zval(self.g(eng, s, 'n')) + zval(self.g(eng, s, 'rn')))
            self.settled(eng, s)


def anything(u, eng, st):
    """arbitrary contents of the queue, consistent"""
    for k in ('n', 'rn', 'ix'):
        u.g(eng, st, k, z3.Int(eng.fresh_name(k)))
    for k in ('inx', 'rx'):
        u.g(eng, st, k, z3.Bool(eng.fresh_name(k)))
    u.consistent(eng, st)
    u.rn0 = u.g(eng, st, 'rn')
    u.g(eng, st, 'inx0', u.g(eng, st, 'inx'))
    u.g(eng, st, 'rx0', u.g(eng, st, 'rx'))
    u.g(eng, st, 'fr0', zval(eng.gget(st, u.X, 'freed')))


class Pause(QUnit):
    title = 'OperationQueue::pause'
    name = 'pause'

    def acquire(self, eng, st):
        super().acquire(eng, st)
        anything(self, eng, st)

    def run(self, eng):
        st = self.start(eng)
        self.g(eng, st, 'rx0', z3.BoolVal(False))
        for s, r in eng.call_function(self.fn(eng, Q + r'pause\(\)$'), st, [self.self]):
            eng.oblige(s, 'ensures the queue counts as paused, unless it was cancelled or not running',
                       z3.Or(zval(self.g(eng, s, 'set_r')) == 0, zb(self.g(eng, s, 'qc')), z3.Not(zb(self.g(eng, s, 'saw_r')))))
            eng.oblige(s, 'ensures every running operation is told to pause',
                       z3.Implies(zval(self.g(eng, s, 'set_r')) == 0, z3.Implies(zb(self.g(eng, s, 'rx0')), zb(self.g(eng, s, 'told')))))
            self.settled(eng, s)


class Resume(QUnit):
    title = 'OperationQueue::resume'

    def run(self, eng):
        st = self.start(eng)
        for s, r in eng.call_function(self.fn(eng, Q + r'resume\(\)$'), st, [self.self]):
            eng.oblige(s, 'ensures the queue counts as running, unless it was cancelled',
                       z3.Or(zval(self.g(eng, s, 'set_r')) == 1, zb(self.g(eng, s, 'qc')), zb(self.g(eng, s, 'saw_r'))))
            self.settled(eng, s)


class OperationWait(QUnit):
    title = 'Operation::wait, OperationQueue::operationWait'
    measured = False

    def observed(self, eng, st, b, which):
        l = zb(self.g(eng, st, 'last'))
        self.g(eng, st, 'last', z3.Or(l, b))
        if 'mutex of the pause' in held(st):
            self.g(eng, st, which, z3.Not(z3.Or(l, b)))

    def pacquire(self, eng, st):
        self.g(eng, st, 'obs_r', z3.BoolVal(False))
        self.g(eng, st, 'obs_c', z3.BoolVal(False))
        self.g(eng, st, 'last', z3.BoolVal(False))

    def waiting(self, eng, st, n, line):
        eng.oblige(st, 'waits only after having seen, under the mutex, that the queue is neither resumed nor cancelled',
                   z3.And(zb(self.g(eng, st, 'obs_r')), zb(self.g(eng, st, 'obs_c'))), line)

    def run(self, eng):
        st = self.start(eng)
        o = get_obj(eng, st, 'vt_op_queue', self.X)[1]
        eng.put(st, o.r, o.off, 8, self.self)
        for s, r in eng.call_function(self.fn(eng, '@vt_op_await'), st, [self.X]):
            eng.oblige(s, 'ensures the queue was seen resumed or cancelled', zb(self.g(eng, s, 'last')))
            self.settled(eng, s)


class Cancel(QUnit):
    title = 'OperationQueue::cancel'

    def acquire(self, eng, st):
        super().acquire(eng, st)
        anything(self, eng, st)

    def run(self, eng):
        st = self.start(eng)
        for k in ('rx0', 'inx0'):
            self.g(eng, st, k, z3.BoolVal(True))
        self.g(eng, st, 'fr0', z3.IntVal(0))
        for s, r in eng.call_function(self.fn(eng, Q + r'cancel\(\)$'), st, [self.self]):
            rx0, inx0 = zb(self.g(eng, s, 'rx0')), zb(self.g(eng, s, 'inx0'))
            fr = zval(eng.gget(s, self.X, 'freed'))
            eng.oblige(s, 'ensures the queue counts as cancelled', zval(self.g(eng, s, 'set_c')) == 1)
            eng.oblige(s, 'ensures every running operation is cancelled', z3.Implies(rx0, zb(self.g(eng, s, 'told'))))
            eng.oblige(s, 'ensures every unscheduled operation leaves the queue and is freed',
                       z3.Implies(inx0, z3.And(z3.Not(zb(self.g(eng, s, 'inx'))), fr == 1)))
            eng.oblige(s, 'ensures no other operation is freed', z3.Implies(z3.Not(inx0), fr == 0))
            eng.oblige(s, 'ensures no unscheduled operation is left', zval(self.g(eng, s, 'n')) == 0)
            eng.oblige(s, 'ensures nothing is started', z3.And(zval(eng.gget(s, self.X, 'started')) == 0))
            self.settled(eng, s)


class Execute(QUnit):
    title = 'OperationQueue::execute, the scheduling thread and the threads of the operations'

    def exe_thread(self, eng, st):
        return st

    def acquire(self, eng, st):
        """others may have cancelled the queue; threads of operations may have ended"""
        super().acquire(eng, st)
        if st.user.get('nest', 0) == 2:
            # in the thread of an operation: it is among the running ones until this thread removes it
            if st.user['ran'] and st.user['ran'][0].r == self.X.r:
                self.g(eng, st, 'rx', z3.Not(zb(self.g(eng, st, 'removed'))))
                self.g(eng, st, 'inx', z3.BoolVal(False))
            else:
                self.g(eng, st, 'rx', z3.Bool(eng.fresh_name('rx')))
            for k in ('rn', 'ix', 'n'):
                self.g(eng, st, k, z3.Int(eng.fresh_name(k)))
            self.consistent(eng, st)
            return
        c = z3.Bool(eng.fresh_name('cancelled_meanwhile'))
        inx, n, rx = zb(self.g(eng, st, 'inx')), zval(self.g(eng, st, 'n')), zb(self.g(eng, st, 'rx'))
        self.g(eng, st, 'envn', zval(self.g(eng, st, 'envn')) + z3.If(z3.And(c, inx), 1, 0))
        self.g(eng, st, 'inx', z3.And(inx, z3.Not(c)))
        self.g(eng, st, 'n', z3.If(c, 0, n))
        self.g(eng, st, 'qc', z3.Or(zb(self.g(eng, st, 'qc')), c))
        self.g(eng, st, 'rx', z3.And(rx, z3.Bool(eng.fresh_name('still'))))
        for k in ('rn', 'ix'):
            self.g(eng, st, k, z3.Int(eng.fresh_name(k)))
        rn, ix = zval(self.g(eng, st, 'rn')), zval(self.g(eng, st, 'ix'))
        st.add(z3.And(rn >= 0, z3.Implies(zb(self.g(eng, st, 'rx')), z3.And(ix >= 0, ix < rn))))

    def exe_ends(self, eng, s):
        sp, qc = zval(self.g(eng, s, 'spawned')), zb(self.g(eng, s, 'qc'))
        eng.oblige(s, 'ensures every operation queued before is given to a thread once, unless the queue was cancelled',
                   z3.And(sp <= 1, z3.Or(qc, sp == 1)))
        eng.oblige(s, 'ensures an operation cancelled before it was scheduled is not given to a thread',
                   z3.Implies(zval(self.g(eng, s, 'envn')) > 0, sp == 0))
        eng.oblige(s, 'ensures the thread of every operation is kept', zval(self.g(eng, s, 'tx')) == sp)
        eng.oblige(s, 'ensures the scheduling thread keeps no permit', zval(self.g(eng, s, 'tok')) == 0)
        eng.oblige(s, 'ensures no mutex stays locked', not held(s))
        self.ended = True

    def publish(self, eng, st, n, line):
        pass      # nothing waits before execute() has returned: pause() does nothing until then

    def run(self, eng):
        st = self.start(eng)
        self.ended = False
        self.g(eng, st, 'inx', z3.BoolVal(True))
        self.g(eng, st, 'rx', z3.BoolVal(False))
        self.consistent(eng, st)
        w = z3.Bool('waitForScheduled')
        for s, r in eng.call_function(self.fn(eng, Q + r'execute\(bool\)$'), st, [self.self, BoolV(w)]):
            eng.oblige(s, 'ensures a scheduling thread was started', self.ended)
            eng.oblige(s, 'ensures the queue counts as running', zval(self.g(eng, s, 'set_r')) == 1)
            eng.oblige(s, 'ensures all operations are scheduled if that was asked for', z3.Implies(w, zb(self.g(eng, s, 'joinedexe'))))
            t = eng.as_u(s, eng.load(s, self.exe, ('i', 64)))
            eng.oblige(s, 'ensures the scheduling thread is kept', zval(t) == z3.If(zb(self.g(eng, s, 'joinedexe')), 0, 1))
            self.settled(eng, s)


class WaitForScheduled(QUnit):
    title = 'OperationQueue::waitForScheduled'

    def run(self, eng):
        st = self.start(eng)
        eng.store(st, self.exe, ('i', 64), eng.iv_const(64, 1))
        for s, r in eng.call_function(self.fn(eng, Q + r'waitForScheduled\(\)$'), st, [self.self]):
            eng.oblige(s, 'ensures the scheduling thread has ended', zb(self.g(eng, s, 'joinedexe')))
            self.settled(eng, s)


class QCancel:
    """contract of OperationQueue::cancel"""

    def matches(self, d, name):
        return d == 'pwned::OperationQueue<VtOp>::cancel()'

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        eng.oblige(st, 'the queue is cancelled without holding its mutexes', not held(st), line)
        u.g(eng, st, 'cancels', zval(u.g(eng, st, 'cancels')) + 1)
        u.g(eng, st, 'set_c', z3.IntVal(1))
        return [(st, None)]


class WaitForFinished(QUnit):
    title = 'OperationQueue::waitForFinished, reset'
    contracts = [QCancel()]

    def start(self, eng):
        st = super().start(eng)
        self.g(eng, st, 'cancels', z3.IntVal(0))
        return st

    def run(self, eng):
        st = self.start(eng)
        tn0 = zval(self.g(eng, st, 'tn'))
        for s, r in eng.call_function(self.fn(eng, Q + r'waitForFinished\(\)$'), st, [self.self]):
            eng.oblige(s, 'ensures the thread of every operation has ended', z3.Implies(tn0 > 0, zb(self.g(eng, s, 'joinedx'))))
            eng.oblige(s, 'ensures the queue can be used again: neither cancelled nor running, no thread kept',
                       z3.And(zval(self.g(eng, s, 'set_c')) == 0, zval(self.g(eng, s, 'set_r')) == 0, zval(self.g(eng, s, 'tb')) == zval(self.g(eng, s, 'tn'))))
            self.settled(eng, s)


def units(tier):
    return [SemWait(), SemNotify(), OpStart(), OpWait(), OpCancel(), OpPause(), Comparison(), Construct(), Add(), Size(), Pause(), Resume(), OperationWait(),
            Cancel(), Execute(), WaitForScheduled(), WaitForFinished()]
