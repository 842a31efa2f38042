"""Symbolic execution / verification-condition generator over LLVM IR.

Function-modular: a call is replaced by the callee's contract if it has one,
by a library model if the callee is a standard-library function with an assumed
contract, and inlined otherwise (helpers and library templates whose bodies are
part of the translation unit).  Loops are cut at their header; the invariant is
the largest conjunction of candidate formulas that is inductive (Houdini), with
every step discharged by the solver.  There is no bound on inputs or iterations
unless a loop is unrolled completely."""
import os
import re
import subprocess
import time
import math
from fractions import Fraction
import z3
from .ir import Module, Unsupported, Instr
from . import fp

z3.set_param('smt.random_seed', 7)


class Budget(Exception):
    pass


# --------------------------------------------------------------------------
# values
class IV:
    """integer of width w.  In the Int domain `t` is any representative modulo
    2^w, with lo <= t <= hi known syntactically.  In the BV domain t is a
    bit-vector."""
    __slots__ = ('w', '_t', 'lo', 'hi', 'tz', 'bytes', 'bool', 'thunk')

    def __init__(self, w, t=None, lo=None, hi=None, tz=0, bytes=None, bool=None, thunk=None):
        self.w = w
        self._t = t
        self.thunk = thunk
        if isinstance(t, int):
            lo = hi = t
        self.lo = lo if lo is not None else 0
        self.hi = hi if hi is not None else (1 << w) - 1
        self.tz = tz
        self.bytes = bytes
        self.bool = bool

    @property
    def t(self):
        if self._t is None:
            if self.thunk is not None:
                self._t = self.thunk()
            else:
                r = 0
                for i, b in enumerate(self.bytes):
                    r = r + b * (1 << (8 * i))
                self._t = r
        return self._t

    def __repr__(self):
        return 'i%d:%s' % (self.w, self.t)


class BoolV:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'b:%s' % (self.b,)


class PV:
    """pointer: region id and byte offset (python int or z3 Int term)"""
    __slots__ = ('r', 'off')

    def __init__(self, r, off=0):
        self.r, self.off = r, off

    def __repr__(self):
        return 'ptr(%s,%s)' % (self.r, self.off)


NULL = PV(None, 0)


class FnV:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'fn:' + self.name


class FV:
    """floating point value: term of an uninterpreted sort (no arithmetic laws assumed)"""
    __slots__ = ('t', 'ty', 'iv', 'r')

    def __init__(self, t, ty='double', iv=None, r=None):
        # iv: interval (rationals) the value lies in, None if nothing is known (the value may be NaN)
        # r: the value as a real term (units with reals = True)
        self.t, self.ty, self.iv, self.r = t, ty, iv, r

    def __repr__(self):
        return 'f:%s' % (self.t,)


def f_outward(lo, hi, ty):
    """interval containing every correctly rounded value of [lo, hi]"""
    e = Fraction(1, 1 << (23 if ty == 'float' else 52))
    tiny = Fraction(1, 1 << 140)
    m = max(abs(lo), abs(hi))
    if m > (Fraction(2) ** (127 if ty == 'float' else 1000)):
        return None
    return (lo - abs(lo) * e - (tiny if lo else 0), hi + abs(hi) * e + (tiny if hi else 0))


def f_interval(op, x, y, ty):
    if x is None or y is None:
        return None
    if op == 'fadd':
        lo, hi = x[0] + y[0], x[1] + y[1]
    elif op == 'fsub':
        lo, hi = x[0] - y[1], x[1] - y[0]
    elif op == 'fmul':
        c = [a * b for a in x for b in y]
        lo, hi = min(c), max(c)
    elif op == 'fdiv' and not (y[0] <= 0 <= y[1]):
        c = [a / b for a in x for b in y]
        lo, hi = min(c), max(c)
    else:
        return None
    return f_outward(lo, hi, ty)


class Agg:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals

    def __repr__(self):
        return 'agg%r' % (self.vals,)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()
DEBUG = os.environ.get('IRV_DEBUG')
FSORT = z3.DeclareSort('Flt')


def is_c(x):
    return isinstance(x, (int, bool))


def zb(b):
    """z3 bool from python/z3 bool"""
    return z3.BoolVal(b) if isinstance(b, bool) else b


def And(*a):
    r = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*a):
    r = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if is_c(a) and is_c(b) and not isinstance(a, bool) and a == b:
        return a
    return z3.If(c, zval(a), zval(b))


def zval(a):
    if isinstance(a, bool):
        return z3.BoolVal(a)
    if isinstance(a, int):
        return z3.IntVal(a)
    return a


def Eq(a, b):
    if is_c(a) and is_c(b):
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
        return True
    return zval(a) == zval(b)


def cmpc(op, a, b):
    r = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
    return r


def mk_div(t, d):
    """t div d (d > 0 constant) in a canonical form"""
    if isinstance(t, int):
        return t // d
    if d == 1:
        return t
    if z3.is_app(t) and t.num_args() == 2 and z3.is_int_value(t.arg(1)):
        m = t.arg(1).as_long()
        k = t.decl().kind()
        if k == z3.Z3_OP_IDIV and m > 0:
            return mk_div(t.arg(0), m * d)
        if k == z3.Z3_OP_MOD and m > 0 and m % d == 0:
            return mk_mod(mk_div(t.arg(0), d), m // d)
        if k == z3.Z3_OP_MOD and m > 0 and d % m == 0:
            return z3.IntVal(0)
    return t / d


def mk_mod(t, m):
    """t mod m (m > 0 constant) in a canonical form"""
    if isinstance(t, int):
        return t % m
    if m == 1:
        return z3.IntVal(0)
    if z3.is_app(t) and t.num_args() == 2 and z3.is_int_value(t.arg(1)) and t.decl().kind() == z3.Z3_OP_MOD:
        n = t.arg(1).as_long()
        if n > 0 and n % m == 0:
            return mk_mod(t.arg(0), m)
        if n > 0 and m % n == 0:
            return t
    return t % m


def simp(t):
    if isinstance(t, z3.ExprRef):
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return s
    return t


# --------------------------------------------------------------------------
class Region:
    __slots__ = ('rid', 'name', 'size', 'kind', 'cells', 'lazy', 'epoch', 'arr', 'handler', 'alive', 'tag')

    def __init__(self, rid, name, size=None, kind='obj', lazy=False, handler=None):
        self.rid, self.name, self.size, self.kind = rid, name, size, kind
        self.cells = {}
        self.lazy = lazy
        self.epoch = 0
        self.arr = None      # (elemsize, z3 array Int->Int)
        self.handler = handler
        self.alive = True
        self.tag = None

    def clone(self):
        r = Region.__new__(Region)
        for k in Region.__slots__:
            setattr(r, k, getattr(self, k))
        r.cells = dict(self.cells)
        return r


class State:
    __slots__ = ('mem', 'ghost', 'pc', 'regs', 'norm', 'trace', 'seqs', 'dead', 'user')

    def __init__(self):
        self.mem = {}
        self.ghost = {}
        self.pc = []
        self.regs = {}
        self.norm = {}
        self.trace = ()
        self.seqs = {}
        self.user = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        s.pc = list(self.pc)
        s.regs = dict(self.regs)
        s.norm = dict(self.norm)
        s.trace = self.trace
        s.seqs = dict(self.seqs)
        s.user = dict(self.user)
        return s

    def add(self, f):
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        self.pc.append(f)


class Obligation:
    def __init__(self, fn, name, line=None):
        self.fn, self.name, self.line = fn, name, line
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None
        self.count = 1


class Frame:
    __slots__ = ('fn', 'depth', 'path', 'contract')

    def __init__(self, fn, depth, path):
        self.fn, self.depth, self.path = fn, depth, path


class LoopInfo:
    __slots__ = ('header', 'body')

    def __init__(self, h, b):
        self.header, self.body = h, b


class Engine:
    def __init__(self, mod, dom='int', lib=None, contracts=None, timeout_ms=8000, deadline=None):
        self.mod = mod
        self.dom = dom
        self.lib = lib or []
        self.reals = False
        self.contracts = contracts or []
        self.nreg = 0
        self.nfresh = 0
        self.obls = []
        self.wlogs = []
        self.timeout = timeout_ms
        self.deadline = deadline
        self.queries = 0
        self.solver_time = 0.0
        self.quiet = 0               # >0: do not record obligations (non-final passes)
        self.obl_sinks = []
        self.cur = None              # contract under verification
        self.no_contract = set()     # names that must be executed (function under verification)
        self.globals = {}
        self.used_models = {}
        self.used_contracts = {}
        self.inlined = {}
        self.hooks = []              # theory hooks
        self.candgens = []           # candidate generators
        self.loop_stats = []
        self.unroll_pred = None
        self.max_unroll = 70
        self.demangle_cache = {}
        self.backend_count = {'z3': 0, 'cvc5': 0, 'trivial': 0}
        self.unknowns = 0
        self.covered_lines = set()
        self.termination = True
        self.shr_terms = 'shr'
        self.branch_vacuity = {}

    # ---- misc
    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')

    def fresh_name(self, p):
        self.nfresh += 1
        return '%s!%d' % (p, self.nfresh)

    def fresh_int(self, p='k'):
        return z3.Int(self.fresh_name(p))

    def fresh_bool(self, p='b'):
        return z3.Bool(self.fresh_name(p))

    def iv_const(self, w, n):
        if self.dom == 'bv':
            return IV(w, z3.BitVecVal(n, w))
        return IV(w, n)

    def iv_fresh(self, st, w, name=None):
        name = name or self.fresh_name('v')
        if self.dom == 'bv':
            return IV(w, z3.BitVec(name, w))
        v = z3.Int(name)
        st.add(z3.And(v >= 0, v < (1 << w)))
        return IV(w, v, 0, (1 << w) - 1)

    def iv_sfresh(self, st, w, name=None):
        """fresh, signed representative"""
        name = name or self.fresh_name('v')
        if self.dom == 'bv':
            return IV(w, z3.BitVec(name, w))
        v = z3.Int(name)
        st.add(z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1))))
        return IV(w, v, -(1 << (w - 1)), (1 << (w - 1)) - 1)

    # ---- demangling
    def dem(self, name):
        d = self.demangle_cache.get(name)
        if d is None:
            if len(self.demangle_cache) == 0:
                names = [n for n in list(self.mod.functions) + list(self.mod.aliases)]
                clean = [n[1:].strip('"') for n in names]
                out = subprocess.run(['c++filt'], input='\n'.join(clean), capture_output=True, text=True).stdout.split('\n')
                for n, o in zip(names, out):
                    self.demangle_cache[n] = normalise(o)
                d = self.demangle_cache.get(name)
            if d is None:
                d = normalise(subprocess.run(['c++filt', name[1:].strip('"')], capture_output=True, text=True).stdout.strip())
                self.demangle_cache[name] = d
        return d

    # ---- solver
    def _check(self, facts, goal_neg, timeout=None):
        """returns ('unsat'|'sat'|'unknown', model)"""
        self.check_time()
        self.queries += 1
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.add(*facts)
        if goal_neg is not None:
            s.add(goal_neg)
        r = s.check()
        self.solver_time += time.time() - t0
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', s.model()
        return 'unknown', s

    def feasible(self, st):
        if st.pc and z3.is_false(st.pc[-1]):
            return False
        r, _ = self._check(st.pc, None, 3000)
        return r != 'unsat'

    def valid(self, st, goal, timeout=None):
        """True if pc |= goal is proved"""
        if goal is True:
            return True
        if goal is False:
            return not self.feasible(st)
        r, _ = self._check(st.pc, z3.Not(goal), timeout)
        return r == 'unsat'

    def decide(self, st, c):
        """'T', 'F' or None(undetermined)"""
        if isinstance(c, bool):
            return 'T' if c else 'F'
        c2 = z3.simplify(c)
        if z3.is_true(c2):
            return 'T'
        if z3.is_false(c2):
            return 'F'
        r, _ = self._check(st.pc, z3.Not(c), 3000)
        if r == 'unsat':
            return 'T'
        r, _ = self._check(st.pc, c, 3000)
        if r == 'unsat':
            return 'F'
        return None

    def fork(self, st, c):
        """[(state, bool)] for the feasible truth values of c"""
        d = self.decide(st, c)
        if d == 'T':
            return [(st, True)]
        if d == 'F':
            return [(st, False)]
        s2 = st.copy()
        st.add(c)
        s2.add(z3.Not(c))
        return [(st, True), (s2, False)]

    def oblige(self, st, name, goal, line=None, fn=None):
        """proof obligation pc |= goal"""
        o = Obligation(fn or (self.cur.title if self.cur else '?'), name, line)
        t0 = time.time()
        if goal is True:
            o.status, o.backend = 'proved', 'trivial'
        else:
            g = zb(goal) if isinstance(goal, bool) else goal
            r, m = self._check(st.pc, z3.Not(g))
            o.backend = 'z3'
            if r == 'unknown' and z3.is_and(g):
                r = 'unsat'
                for c in g.children():
                    r1, m1 = self._check(st.pc, z3.Not(c))
                    if r1 != 'unsat':
                        r, m = r1, m1
                        if r1 == 'sat':
                            break
            if r == 'unknown':
                r2 = self._cvc5(st.pc + [z3.Not(g)])
                if r2 == 'unsat':
                    r = 'unsat'
                    o.backend = 'cvc5'
                elif r2 == 'sat':
                    r, m = 'sat', None
                    o.backend = 'cvc5'
            if r == 'unsat':
                o.status = 'proved'
            elif r == 'sat':
                o.status = 'failed'
                o.model = self._model_text(m, st, g)
            else:
                o.status = 'unknown'
        o.time = time.time() - t0
        (self.obl_sinks[-1] if self.obl_sinks else self.obls).append(o)
        return o.status == 'proved'

    def _model_text(self, m, st, goal):
        out = []
        try:
            if m is not None:
                for d in sorted(m.decls(), key=lambda d: d.name()):
                    if d.arity() == 0:
                        out.append('%s = %s' % (d.name(), m[d]))
            out = out[:80]
        except Exception as e:
            out.append(str(e))
        out.append('goal: ' + str(goal)[:600])
        out.append('path: ' + ' '.join(map(str, st.trace[-60:])))
        return out

    def _cvc5(self, facts):
        try:
            import cvc5
            from . import cvc5check
            return cvc5check.check(facts, self.timeout)
        except Exception:
            return 'unknown'

    # ---- regions
    def new_region(self, st, name, size=None, kind='obj', lazy=False, handler=None):
        self.nreg += 1
        r = Region(self.nreg, name, size, kind, lazy, handler)
        st.mem[r.rid] = r
        return PV(r.rid, 0)

    def wreg(self, st, rid):
        r = st.mem[rid].clone()
        st.mem[rid] = r
        return r

    def log(self, item):
        for w in self.wlogs:
            w.add(item)

    def touch(self, st, rid):
        """units about code that several threads run at the same time: shared data must not be modified"""
        f = getattr(self.cur, 'shared_write', None)
        if f and rid in st.mem and st.mem[rid].kind == 'global' and not st.user.get('guards'):
            name = st.mem[rid].name
            d = self.mod.globals.get(name, '')
            if not name.startswith('@_ZGV') and not re.search(r'thread_local| constant |std::(basic_[a-z]*stream|[a-z_]*mutex|atomic|once_flag|locale|ios_base)', d):
                f(self, st, name)

    def gget(self, st, p, field, default=None):
        k = (p.r, self.coff(p.off), field)
        if k in st.ghost:
            return st.ghost[k]
        if default is not None:
            v = default()
            st.ghost[k] = v
            return v
        return None

    def gset(self, st, p, field, val):
        k = (p.r, self.coff(p.off), field)
        self.touch(st, p.r)
        st.ghost[k] = val
        self.log(('ghost', k))

    def coff(self, off):
        if isinstance(off, int):
            return off
        s = simp(off)
        if isinstance(s, int):
            return s
        return s.sexpr() if False else ('sym', s)

    # ---- integer normal forms (Int domain)
    def as_u(self, st, v):
        w = v.w
        N = 1 << w
        if v.lo >= 0 and v.hi < N:
            return v.t
        if isinstance(v.t, int):
            return v.t % N
        k = (v.t.get_id(), w, 'u')
        if k in st.norm:
            return st.norm[k][1]
        t = v.t
        if self.valid(st, z3.And(t >= 0, t < N), 3000):
            r = t
        elif v.lo >= -N and v.hi < N:
            r = z3.If(t < 0, t + N, t)
        elif v.lo >= 0 and v.hi < 2 * N:
            r = z3.If(t >= N, t - N, t)
        else:
            r = mk_mod(t, N)
        st.norm[k] = (t, r)
        return r

    def as_s(self, st, v):
        w = v.w
        H = 1 << (w - 1)
        N = 1 << w
        if v.lo >= -H and v.hi < H:
            return v.t
        if isinstance(v.t, int):
            return (v.t + H) % N - H
        k = (v.t.get_id(), w, 's')
        if k in st.norm:
            return st.norm[k][1]
        t = v.t
        if self.valid(st, z3.And(t >= -H, t < H), 3000):
            r = t
        elif v.lo >= -H and v.hi < N + H:
            r = z3.If(t >= H, t - N, t)
        elif v.lo >= -N - H and v.hi < H:
            r = z3.If(t < -H, t + N, t)
        else:
            r = (t + H) % N - H
        st.norm[k] = (t, r)
        return r

    def uiv(self, st, v):
        t = self.as_u(st, v)
        if t is v.t:
            return IV(v.w, t, max(v.lo, 0), min(v.hi, (1 << v.w) - 1), v.tz, v.bytes)
        return IV(v.w, t, 0, (1 << v.w) - 1, v.tz)

    def shr_fun(self):
        return z3.Function('lshr', z3.IntSort(), z3.IntSort(), z3.IntSort())

    def sym_shr(self, st, x, s):
        """x >> s for symbolic s: an uninterpreted function, monotone in x"""
        f = self.shr_fun()
        t = f(x, s)
        st.add(z3.And(t >= 0, t <= x))
        key = ('shr', s.sexpr())
        old = st.seqs.get(key, ())
        for (y, ty) in old:
            st.add(z3.And(z3.Implies(x <= y, t <= ty), z3.Implies(y <= x, ty <= t)))
        if not any(y.eq(zval(x)) for y, _ in old):
            st.seqs[key] = old + ((zval(x), t),)
        return t

    def mask_and(self, t, m, w):
        """t & m for constant m, t unsigned representative"""
        N = (1 << w) - 1
        m &= N
        if m == 0:
            return 0
        if m == N:
            return t
        r = 0
        i = 0
        while i < w:
            if m >> i & 1:
                j = i
                while j < w and m >> j & 1:
                    j += 1
                x = t
                if i:
                    x = mk_div(x, 1 << i)
                if j < w:
                    x = mk_mod(x, 1 << (j - i))
                if i:
                    x = x * (1 << i)
                r = x if isinstance(r, int) and r == 0 else r + x
                i = j
            else:
                i += 1
        return r

    def ibin(self, st, op, x, y, flags=(), line=None):
        w = x.w
        if self.dom == 'bv':
            a, b = x.t, y.t
            f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b,
                 'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b, 'urem': lambda: z3.URem(a, b),
                 'srem': lambda: z3.SRem(a, b), 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
                 'ashr': lambda: a >> b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                self.oblige(st, 'division by zero excluded', b != 0, line)
            if op in ('shl', 'lshr', 'ashr'):
                self.oblige_safe(st, 'shift amount below the width', z3.ULT(b, w), line)
            return IV(w, z3.simplify(f()))
        if op in ('and', 'or', 'xor', 'shl', 'lshr') and w % 8 == 0 and (x.bytes is not None or y.bytes is not None):
            r = self.byte_op(st, op, x, y, w)
            if r is not None:
                return r
        cx, cy = isinstance(x.t, int) if x._t is not None else False, isinstance(y.t, int) if y._t is not None else False
        M = 1 << w
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags or 'nuw' in flags:
                a = self.as_s(st, x) if 'nsw' in flags else self.as_u(st, x)
                b = self.as_s(st, y) if 'nsw' in flags else self.as_u(st, y)
                alo, ahi = self.rng(x, a, w)
                blo, bhi = self.rng(y, b, w)
            else:
                a, b = x.t, y.t
                alo, ahi, blo, bhi = x.lo, x.hi, y.lo, y.hi
                if cx:
                    a = alo = ahi = self.sgn(a, w)
                if cy:
                    b = blo = bhi = self.sgn(b, w)
            if op == 'add':
                r, lo, hi = a + b, alo + blo, ahi + bhi
                tz = min(x.tz if not cx else 0, y.tz if not cy else 0)
            elif op == 'sub':
                r, lo, hi = a - b, alo - bhi, ahi - blo
                tz = 0
            else:
                r = a * b
                c = [alo * blo, alo * bhi, ahi * blo, ahi * bhi]
                lo, hi = min(c), max(c)
                tz = 0
                k = b if cy else a if cx else None
                if isinstance(k, int) and k > 0:
                    tz = (k & -k).bit_length() - 1 + (x.tz if cy else y.tz)
            if isinstance(r, int):
                r = self.sgn(r, w)
                return IV(w, r)
            v = IV(w, r, lo, hi, tz)
            if 'nsw' in flags and (lo < -(M >> 1) or hi >= (M >> 1)):
                if w == 32 and getattr(self.cur, 'counters', False) and op == 'add':
                    self.used_models['machine arithmetic: a 32-bit counter of steps does not reach 2^30'] = 1
                    v = IV(w, r, max(lo, -(M >> 2)), min(hi, (M >> 2) - 1), tz)
                    st.add(z3.And(r >= -(M >> 2), r < (M >> 2)))
                elif self.cur is not None and getattr(self.cur, 'overflow', True):
                    self.oblige(st, 'no signed overflow', z3.And(r >= -(M >> 1), r < (M >> 1)), line)
                    v = IV(w, r, max(lo, -(M >> 1)), min(hi, (M >> 1) - 1), tz)
                    st.add(z3.And(r >= -(M >> 1), r < (M >> 1)))
            elif hi - lo > 8 * M:
                v = IV(w, self.as_u(st, v), 0, M - 1)
            return v
        if op in ('udiv', 'urem'):
            a, b = self.as_u(st, x), self.as_u(st, y)
            if not isinstance(b, int):
                self.oblige(st, 'division by zero excluded', b != 0, line)
            elif b == 0:
                self.oblige(st, 'division by zero excluded', False, line)
                raise Unsupported('div by zero')
            if isinstance(a, int) and isinstance(b, int):
                return IV(w, a // b if op == 'udiv' else a % b)
            if isinstance(b, int):
                hi0 = x.hi if x.lo >= 0 and x.hi < M else M - 1
                if op == 'udiv':
                    return IV(w, mk_div(a, b), 0, hi0 // b)
                return IV(w, mk_mod(a, b), 0, b - 1)
            if op == 'udiv':
                return IV(w, zval(a) / zval(b), 0, (x.hi if x.lo >= 0 and x.hi < M else M - 1))
            return IV(w, zval(a) % zval(b), 0, (b - 1) if isinstance(b, int) else M - 1)
        if op in ('sdiv', 'srem'):
            a, b = self.as_s(st, x), self.as_s(st, y)
            if not isinstance(b, int):
                self.oblige(st, 'division by zero excluded', b != 0, line)
                a2, b2 = zval(a), zval(b)
                q = z3.If(a2 >= 0, z3.If(b2 > 0, a2 / b2, -(a2 / -b2)), z3.If(b2 > 0, -((-a2) / b2), (-a2) / (-b2)))
                return IV(w, q if op == 'sdiv' else a2 - b2 * q, -(M >> 1), (M >> 1) - 1)
            if b == 0:
                self.oblige(st, 'division by zero excluded', False, line)
                raise Unsupported('div by zero')
            if isinstance(a, int):
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return IV(w, q if op == 'sdiv' else a - b * q)
            nonneg = x.lo >= 0 and x.hi < (M >> 1) or self.valid(st, a >= 0, 3000)
            if b > 0 and nonneg:
                if op == 'sdiv':
                    return IV(w, mk_div(a, b), 0, (M >> 1) - 1)
                return IV(w, mk_mod(a, b), 0, b - 1)
            q = z3.If(a >= 0, a / abs(b), -((-a) / abs(b)))
            if b < 0:
                q = -q
            if op == 'sdiv':
                return IV(w, q, -(M >> 1), (M >> 1) - 1)
            return IV(w, a - b * q, -(abs(b) - 1), abs(b) - 1)
        if op in ('shl', 'lshr', 'ashr'):
            b = self.as_u(st, y)
            if isinstance(b, int):
                if b >= w:
                    self.oblige_safe(st, 'shift amount below the width', False, line)
                    return self.iv_fresh(st, w)
                if op == 'shl':
                    if cx:
                        return IV(w, self.sgn(x.t << b, w))
                    v = IV(w, x.t * (1 << b), min(x.lo << b, x.lo), x.hi << b, x.tz + b)
                    if v.hi - v.lo > 8 * M:
                        u = self.as_u(st, x)
                        v = IV(w, (u * (1 << b)) % M, 0, M - 1, x.tz + b)
                    return v
                if op == 'lshr':
                    a = self.as_u(st, x)
                    if isinstance(a, int):
                        return IV(w, a >> b)
                    return IV(w, mk_div(a, 1 << b), 0, (min(x.hi, M - 1) if x.lo >= 0 else M - 1) >> b)
                a = self.as_s(st, x)
                if isinstance(a, int):
                    return IV(w, a >> b)
                return IV(w, a / (1 << b), -(M >> 1) >> b, (M >> 1) - 1 >> b)
            self.oblige_safe(st, 'shift amount below the width', z3.And(b >= 0, b < w), line)
            if op == 'lshr':
                a = zval(self.as_u(st, x))
                return IV(w, self.sym_shr(st, a, zval(b)), 0, M - 1)
            if op == 'shl':
                f = z3.Function('shl%d' % w, z3.IntSort(), z3.IntSort(), z3.IntSort())
                t = f(zval(self.as_u(st, x)), zval(b))
                st.add(z3.And(t >= 0, t < M))
                return IV(w, t, 0, M - 1)
            return self.iv_fresh(st, w)
        if op in ('and', 'or', 'xor'):
            if cx and not cy:
                x, y, cx, cy = y, x, cy, cx
            a, b = self.as_u(st, x), self.as_u(st, y)
            if isinstance(a, int) and isinstance(b, int):
                return IV(w, {'and': a & b, 'or': a | b, 'xor': a ^ b}[op])
            if op == 'and' and isinstance(b, int):
                r = self.mask_and(a, b, w)
                return IV(w, r, 0, b) if not isinstance(r, int) else IV(w, r)
            if op == 'xor' and isinstance(b, int) and b == M - 1:
                return IV(w, M - 1 - a, 0, M - 1)
            if isinstance(b, int) and b == 0:
                return IV(w, a, 0, M - 1, x.tz)
            if op in ('or', 'xor'):
                hx = x.hi if x.lo >= 0 and x.hi < M else M - 1
                hy = y.hi if y.lo >= 0 and y.hi < M else M - 1
                if isinstance(b, int):
                    hy = b
                tzx = x.tz
                tzy = y.tz if not isinstance(b, int) else ((b & -b).bit_length() - 1)
                if (hy < (1 << tzx)) or (hx < (1 << tzy)):
                    return IV(w, a + b, 0, min(hx + hy, M - 1), min(tzx, tzy))
                if isinstance(b, int) and op == 'or':
                    # a | c = (a & ~c) + c
                    return IV(w, self.mask_and(a, ~b, w) + b, 0, M - 1)
                if isinstance(b, int):
                    m = self.mask_and(a, b, w)
                    return IV(w, a - m + (b - m), 0, M - 1)
            a, b = zval(a), zval(b)
            f = z3.Function('bit%s%d' % (op, w), z3.IntSort(), z3.IntSort(), z3.IntSort())
            t = f(a, b)
            st.add(z3.And(t >= 0, t < M))
            if op == 'and':
                st.add(z3.And(t <= a, t <= b))
            else:
                st.add(t <= a + b)
                if op == 'or':
                    st.add(z3.And(t >= a, t >= b))
                    st.add(z3.Implies(a == 0, t == b))
                    st.add(z3.Implies(b == 0, t == a))
            return IV(w, t, 0, M - 1)
        raise Unsupported('binop ' + op)

    def byte_op(self, st, op, x, y, w):
        """bitwise operation carried out byte by byte, None if not possible"""
        n = w // 8

        def cbytes(v):
            if v.bytes is not None:
                return list(v.bytes)
            if isinstance(v._t, int):
                return [(v._t >> (8 * i)) & 255 for i in range(n)]
            return None
        if op in ('shl', 'lshr'):
            if x.bytes is None or not isinstance(y._t, int) or y._t % 8 or not 0 <= y._t < w:
                return None
            k = y._t // 8
            bs = list(x.bytes)
            bs = [0] * k + bs[:n - k] if op == 'shl' else bs[k:] + [0] * k
            return self.from_bytes(bs, n)
        a, b = cbytes(x), cbytes(y)
        if a is None or b is None:
            return None
        out = []
        for p, q in zip(a, b):
            if isinstance(p, int) and isinstance(q, int):
                out.append({'and': p & q, 'or': p | q, 'xor': p ^ q}[op])
                continue
            if isinstance(p, int):
                p, q = q, p
            if op == 'and':
                if isinstance(q, int):
                    out.append(self.mask_and(p, q, 8))
                    continue
                return None
            if isinstance(q, int) and q == 0:
                out.append(p)
                continue
            return None
        return self.from_bytes(out, n)

    def oblige_safe(self, st, name, goal, line):
        if self.cur is None or getattr(self.cur, 'safety', True):
            self.oblige(st, name, goal, line)

    def sgn(self, n, w):
        H = 1 << (w - 1)
        return (n + H) % (1 << w) - H

    def rng(self, v, t, w):
        if isinstance(t, int):
            return t, t
        if t is v.t:
            return v.lo, v.hi
        return -(1 << (w - 1)), (1 << w) - 1

    def icmp(self, st, pred, x, y):
        if self.dom == 'bv':
            a, b = x.t, y.t
            r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
                 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
            return simp(r)
        w = x.w
        M = 1 << w
        if pred in ('eq', 'ne'):
            def in_u(v):
                return v.lo >= 0 and v.hi < M

            def in_s(v):
                return v.lo >= -(M >> 1) and v.hi < (M >> 1)
            cx, cy = isinstance(x.t, int), isinstance(y.t, int)
            if (in_u(x) or cx) and (in_u(y) or cy):
                a, b = self.as_u(st, x), self.as_u(st, y)
            elif (in_s(x) or cx) and (in_s(y) or cy):
                a, b = self.as_s(st, x), self.as_s(st, y)
            else:
                a, b = self.as_u(st, x), self.as_u(st, y)
            e = Eq(a, b)
            return e if pred == 'eq' else Not(e)
        if pred[0] == 'u':
            a, b = self.as_u(st, x), self.as_u(st, y)
        else:
            a, b = self.as_s(st, x), self.as_s(st, y)
        o = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]]
        return cmpc(o, a, b)

    # ---- casts
    def cast(self, st, op, v, w):
        if isinstance(v, BoolV):
            if op == 'zext':
                if self.dom == 'bv':
                    return IV(w, z3.If(zb(v.b), z3.BitVecVal(1, w), z3.BitVecVal(0, w)), bool=v.b)
                return IV(w, If(v.b, 1, 0), 0, 1, bool=v.b)
            if op == 'sext':
                return IV(w, If(v.b, -1, 0), -1, 0) if self.dom != 'bv' else \
                    IV(w, z3.If(zb(v.b), z3.BitVecVal(-1, w), z3.BitVecVal(0, w)))
            raise Unsupported('cast bool ' + op)
        if op == 'trunc':
            if w == 1:
                if v.bool is not None:
                    return BoolV(v.bool)
                if self.dom == 'bv':
                    return BoolV(z3.Extract(0, 0, v.t) == 1)
                t = self.as_u(st, v)
                return BoolV(Eq(t % 2, 1))
            if self.dom == 'bv':
                return IV(w, z3.simplify(z3.Extract(w - 1, 0, v.t)), bool=v.bool)
            if v.bytes is not None and w % 8 == 0:
                return IV(w, None, 0, (1 << w) - 1, bytes=v.bytes[:w // 8])
            if isinstance(v.t, int):
                return IV(w, self.sgn(v.t, w))
            r = IV(w, v.t, v.lo, v.hi, v.tz, bool=v.bool)
            if v.hi - v.lo > 16 * (1 << w):
                return IV(w, self.as_u(st, r), 0, (1 << w) - 1, min(v.tz, w))
            return r
        if op == 'zext':
            if self.dom == 'bv':
                return IV(w, z3.simplify(z3.ZeroExt(w - v.w, v.t)), bool=v.bool)
            if v.bytes is not None:
                return IV(w, v._t, 0, (1 << v.w) - 1, v.tz, bytes=list(v.bytes) + [0] * ((w - v.w) // 8))
            t = self.as_u(st, v)
            if isinstance(t, int):
                return IV(w, t)
            u = v if t is v.t else None
            return IV(w, t, 0, min(v.hi, (1 << v.w) - 1) if u is not None else (1 << v.w) - 1, v.tz, bool=v.bool)
        if op == 'sext':
            if self.dom == 'bv':
                return IV(w, z3.simplify(z3.SignExt(w - v.w, v.t)))
            t = self.as_s(st, v)
            if isinstance(t, int):
                return IV(w, t)
            H = 1 << (v.w - 1)
            lo, hi = (max(v.lo, -H), min(v.hi, H - 1)) if t is v.t else (-H, H - 1)
            return IV(w, t, lo, hi, v.tz)
        raise Unsupported('cast ' + op)

    # ---- typed values from memory
    def fresh_val(self, st, ty, name):
        ty = self.mod.resolve(ty)
        if ty[0] == 'i':
            if ty[1] == 1:
                return BoolV(z3.Bool(name))
            return self.iv_fresh(st, ty[1], name)
        if ty[0] == 'ptr':
            raise Unsupported('load of unknown pointer ' + name)
        if ty[0] in ('double', 'float', 'x86_fp80'):
            return FV(z3.Const(name, FSORT), ty[0], None, z3.Real(name + '_r') if self.reals else None)
        if ty[0] == 'struct':
            vals = []
            for i, e in enumerate(ty[1]):
                vals.append(self.fresh_val(st, e, name + '.' + str(i)))
            return Agg(vals)
        raise Unsupported('fresh value of %r' % (ty,))

    def load(self, st, p, ty, line=None):
        ty = self.mod.resolve(ty)
        if not isinstance(p, PV):
            raise Unsupported('load through %r' % (p,))
        if p.r is None:
            self.oblige(st, 'no null pointer dereference', False, line)
            raise Unsupported('null load')
        r = st.mem.get(p.r)
        if r is None:
            raise Unsupported('load from unknown region')
        if r.handler is not None:
            v = r.handler.load(self, st, r, p.off, ty, line)
            if v is not None:
                return v
        if ty[0] in ('struct', 'arr'):
            if ty[0] == 'arr':
                s = self.mod.sizeof(ty[2])[0]
                return Agg([self.load(st, PV(p.r, p.off + i * s), ty[2], line) for i in range(ty[1])])
            vals = []
            for i, e in enumerate(ty[1]):
                o, _ = self.mod.field(ty, i)
                vals.append(self.load(st, PV(p.r, p.off + o), e, line))
            return Agg(vals)
        n = self.mod.sizeof(ty)[0]
        off = p.off
        if not isinstance(off, int):
            off = simp(off)
        if not isinstance(off, int) or r.arr is not None:
            return self.arr_load(st, r, off, n, ty, line)
        c = r.cells.get(off)
        if c is not None and c[0] == n:
            return self.coerce(st, c[1], ty)
        # overlapping?
        ov = [(o, s, v) for o, (s, v) in r.cells.items() if o < off + n and off < o + s]
        if not ov:
            if r.size is not None and (off < 0 or off + n > r.size):
                self.oblige(st, 'access inside the object %s' % r.name, False, line)
                raise Unsupported('out of bounds load %s+%d' % (r.name, off))
            v = self.fresh_val(st, ty, '%s@%d:%d#%d' % (r.name, off, n, r.epoch))
            r2 = self.wreg(st, p.r)
            r2.cells[off] = (n, v)
            return v
        if ty[0] != 'i':
            raise Unsupported('type-punned load of %r from %s' % (ty, r.name))
        # compose from bytes
        if len(ov) == 1 and ov[0][0] <= off and off + n <= ov[0][0] + ov[0][1]:
            o, s, v = ov[0]
            bs = self.bytes_of(st, v)[off - o:off - o + n]
            return self.from_bytes(bs, n)
        bs = []
        for i in range(n):
            cell = None
            for o, s, v in ov:
                if o <= off + i < o + s:
                    cell = (o, s, v)
            if cell is None:
                b = self.load(st, PV(p.r, off + i), ('i', 8), line)
                bs.append(self.bytes_of(st, b)[0])
            else:
                bs.append(self.bytes_of(st, cell[2])[off + i - cell[0]])
        return self.from_bytes(bs, n)

    def bytes_of(self, st, v):
        if isinstance(v, BoolV):
            return [If(v.b, 1, 0)] if self.dom != 'bv' else [z3.If(zb(v.b), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))]
        if not isinstance(v, IV):
            raise Unsupported('bytes of %r' % (v,))
        if v.bytes is not None:
            return v.bytes
        n = v.w // 8
        if self.dom == 'bv':
            return [z3.simplify(z3.Extract(8 * i + 7, 8 * i, v.t)) for i in range(n)]
        t = self.as_u(st, v)
        if isinstance(t, int):
            return [(t >> (8 * i)) & 255 for i in range(n)]
        if n == 1:
            return [t]
        # introduce byte variables once per term
        key = ('bytes', t.get_id())
        if key in st.seqs:
            return st.seqs[key][1]
        f = z3.Function('byteof', z3.IntSort(), z3.IntSort(), z3.IntSort())
        bs = [f(t, z3.IntVal(i)) for i in range(n)]
        for b in bs:
            st.add(z3.And(b >= 0, b < 256))
        st.add(t == sum(b * (1 << (8 * i)) for i, b in enumerate(bs)))
        st.seqs[key] = (t, bs)
        return bs

    def from_bytes(self, bs, n):
        if self.dom == 'bv':
            if n == 1:
                return IV(8, bs[0])
            return IV(8 * n, z3.simplify(z3.Concat(*reversed(bs))))
        if all(isinstance(b, int) for b in bs):
            return IV(8 * n, sum(b << (8 * i) for i, b in enumerate(bs)))
        if n == 1:
            return IV(8, bs[0], 0, 255)
        return IV(8 * n, None, 0, (1 << (8 * n)) - 1, bytes=list(bs))

    def coerce(self, st, v, ty):
        if getattr(self.cur, 'fp_tokens', False):
            # values of type double that are only copied: one real per bit pattern
            bits, num = z3.Function('bits_of', z3.RealSort(), z3.IntSort()), z3.Function('of_bits', z3.IntSort(), z3.RealSort())
            if ty == ('i', 64) and isinstance(v, FV) and v.r is not None and v.ty == 'double':
                b = bits(v.r)
                st.add(z3.And(b >= 0, b < (1 << 64), num(b) == v.r))
                return IV(64, b, 0, (1 << 64) - 1)
            if ty[0] == 'double' and isinstance(v, IV) and v.w == 64:
                t = zval(self.as_u(st, v))
                st.add(bits(num(t)) == t)
                return FV(z3.Const(self.fresh_name('tok'), FSORT), 'double', None, num(t))
        if ty[0] == 'i' and isinstance(v, (FV, PV, FnV)):
            raise Unsupported('int load of %r' % (v,))
        if ty[0] == 'ptr' and isinstance(v, IV):
            if v.t == 0 if isinstance(v.t, int) else False:
                return NULL
            raise Unsupported('pointer load of an integer')
        if ty[0] in ('double', 'float') and isinstance(v, IV):
            if isinstance(v.t, int) and v.t == 0:
                return FV(self.fconst('0', ty[0]), ty[0], (Fraction(0), Fraction(0)), fp.rv(0))
            raise Unsupported('float load of an integer')
        if v is UNDEF:
            raise Unsupported('load of undef')
        return v

    def fconst(self, s, ty='double'):
        return z3.Const('flt_%s' % s, FSORT)

    def store(self, st, p, ty, v, line=None):
        ty = self.mod.resolve(ty)
        if not isinstance(p, PV):
            raise Unsupported('store through %r' % (p,))
        if p.r is None:
            self.oblige(st, 'no null pointer dereference', False, line)
            raise Unsupported('null store')
        r = st.mem.get(p.r)
        if r is None:
            raise Unsupported('store to unknown region')
        if r.handler is not None:
            if r.handler.store(self, st, r, p.off, ty, v, line):
                return
        if ty[0] == 'struct':
            for i, e in enumerate(ty[1]):
                o, _ = self.mod.field(ty, i)
                self.store(st, PV(p.r, p.off + o), e, v.vals[i] if isinstance(v, Agg) else v, line)
            return
        if ty[0] == 'arr':
            s = self.mod.sizeof(ty[2])[0]
            for i in range(ty[1]):
                self.store(st, PV(p.r, p.off + i * s), ty[2], v.vals[i], line)
            return
        if v is UNDEF:
            v = self.fresh_val(st, ty, self.fresh_name('undef')) if ty[0] != 'ptr' else NULL
        n = self.mod.sizeof(ty)[0]
        off = p.off
        if not isinstance(off, int):
            off = simp(off)
        if not isinstance(off, int) or r.arr is not None:
            return self.arr_store(st, r, off, n, v, line)
        if r.size is not None and (off < 0 or off + n > r.size):
            self.oblige(st, 'access inside the object %s' % r.name, False, line)
            raise Unsupported('out of bounds store')
        self.put(st, p.r, off, n, v)

    def put(self, st, rid, off, n, v):
        r = self.wreg(st, rid)
        for o in list(r.cells):
            s, old = r.cells[o]
            if o < off + n and off < o + s and not (o == off and s == n):
                del r.cells[o]
                if o < off or o + s > off + n:
                    bs = self.bytes_of(st, old)
                    for i in range(s):
                        if not (off <= o + i < off + n):
                            r.cells[o + i] = (1, self.from_bytes([bs[i]], 1))
        self.touch(st, rid)
        r.cells[off] = (n, v)
        self.log(('cell', rid, off, n))

    # array-like regions with symbolic index
    def arr_load(self, st, r, off, n, ty, line):
        if r.arr is None:
            raise Unsupported('symbolic offset into %s' % r.name)
        es, arr, nel = r.arr
        if es != n:
            raise Unsupported('array element size')
        if isinstance(off, int):
            idx = off // es
            if off % es:
                raise Unsupported('unaligned array access')
        else:
            idx = simp(z3.simplify(off / es))
            if not self.valid(st, off == es * zval(idx)):
                raise Unsupported('unaligned array access')
        self.oblige(st, 'index inside the array %s' % r.name, And(zval(idx) >= 0, zval(idx) < nel), line)
        t = z3.Select(arr, zval(idx))
        if ty[0] == 'i':
            st.add(z3.And(t >= 0, t < (1 << ty[1])))
            return IV(ty[1], t, 0, (1 << ty[1]) - 1)
        raise Unsupported('array load type')

    def arr_store(self, st, r, off, n, v, line):
        if r.arr is None:
            raise Unsupported('symbolic offset into %s' % r.name)
        es, arr, nel = r.arr
        if es != n:
            raise Unsupported('array element size')
        if isinstance(off, int):
            idx = off // es
        else:
            idx = simp(z3.simplify(off / es))
            if not self.valid(st, off == es * zval(idx)):
                raise Unsupported('unaligned array access')
        self.oblige(st, 'index inside the array %s' % r.name, And(zval(idx) >= 0, zval(idx) < nel), line)
        r2 = self.wreg(st, r.rid)
        r2.arr = (es, z3.Store(arr, zval(idx), zval(self.as_u(st, v))), nel)
        self.touch(st, r.rid)
        self.log(('arr', r.rid))

    def memcpy(self, st, d, s, n, line=None):
        if not isinstance(n, int):
            raise Unsupported('memcpy of symbolic length')
        if n == 0:
            return
        sr = st.mem.get(s.r)
        if sr is None:
            raise Unsupported('memcpy from unknown region')
        if isinstance(d.off, int) is False or (isinstance(s.off, int) is False and not hasattr(sr.handler, 'copy')):
            raise Unsupported('memcpy with symbolic offset')
        out = []
        if hasattr(sr.handler, 'copy'):
            sr.handler.copy(self, st, s.r, s.off, n, line, out)
            i = end = 0
        else:
            i = s.off
            end = s.off + n
        if sr.handler is not None:
            # element-wise through the handler
            while i < end:
                step = 8 if i % 8 == 0 and i + 8 <= end else 4 if i % 4 == 0 and i + 4 <= end else 1
                out.append((i - s.off, step, self.load(st, PV(s.r, i), ('i', 8 * step), line)))
                i += step
        else:
            while i < end:
                sr = st.mem[s.r]
                c = sr.cells.get(i)
                if c is not None and i + c[0] <= end:
                    out.append((i - s.off, c[0], c[1]))
                    i += c[0]
                    continue
                ov = [(o, z) for o, (z, v) in sr.cells.items() if o <= i < o + z]
                if ov:
                    out.append((i - s.off, 1, self.load(st, PV(s.r, i), ('i', 8))))
                    i += 1
                    continue
                nxt = min([o for o in sr.cells if o > i] + [end])
                step = 8 if i % 8 == 0 and i + 8 <= nxt else 4 if i % 4 == 0 and i + 4 <= nxt else 1
                if not sr.lazy:
                    # padding / uninitialised: leave the destination unspecified
                    out.append((i - s.off, step, None))
                else:
                    out.append((i - s.off, step, self.load(st, PV(s.r, i), ('i', 8 * step), line)))
                i += step
        for o, z, v in out:
            if v is None:
                v = self.iv_fresh(st, 8 * z, self.fresh_name('uninit'))
            self.store(st, PV(d.r, d.off + o), ('i', 8 * z) if isinstance(v, IV) else self.ty_of(v), v, line)
        # ghost fields travel with the bytes of trivially copyable objects
        for (rid, o, f), v in list(st.ghost.items()):
            if rid == s.r and isinstance(o, int) and isinstance(s.off, int) and s.off <= o < s.off + n:
                self.gset(st, PV(d.r, d.off + o - s.off), f, v)

    def ty_of(self, v):
        if isinstance(v, IV):
            return ('i', v.w)
        if isinstance(v, BoolV):
            return ('i', 8)
        if isinstance(v, (PV, FnV)):
            return ('ptr',)
        if isinstance(v, FV):
            return (v.ty,)
        raise Unsupported('type of %r' % (v,))

    # ---- operands
    def val(self, st, ty, v):
        k = v[0]
        if k == 'loc':
            x = st.regs.get(v[1])
            if x is None:
                raise Unsupported('register ' + v[1])
            return x
        ty = self.mod.resolve(ty)
        if k == 'int':
            if ty == ('i', 1):
                return BoolV(v[1] != 0)
            return self.iv_const(ty[1], v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'float':
            nm = self.fnorm(v[1], ty)
            try:
                q = fp.round_const(Fraction(nm), ty[0]) if not nm.startswith('0x') else None
            except ValueError:
                q = None
            return FV(self.fconst(nm), ty[0], (q, q) if q is not None else None, fp.rv(q) if q is not None else None)
        if k == 'glob':
            return self.glob(st, v[1])
        if k == 'cgep':
            base = self.val(st, v[2][0][0], v[2][0][1])
            return self.gep(st, v[1], base, [(t, self.val(st, t, x)) for t, x in v[2][1:]])
        if k == 'aggr':
            return Agg([self.val(st, t, x) for t, x in v[1]])
        if k == 'cstr':
            return Agg([self.iv_const(8, b) for b in v[1]])
        if k == 'ccast':
            x = self.val(st, v[2], v[3])
            if v[1] in ('bitcast', 'addrspacecast'):
                return x
            if v[1] in ('trunc', 'zext', 'sext'):
                return self.cast(st, v[1], x, v[4][1])
        raise Unsupported('operand %r' % (v,))

    def fnorm(self, s, ty):
        import struct
        if s.startswith('0x') and not s.startswith('0xK'):
            d = struct.unpack('>d', bytes.fromhex(s[2:].zfill(16)))[0]
        elif s.startswith('0x'):
            return s
        else:
            d = float(s)
        if d == int(d) if abs(d) < 1e300 and d == d else False:
            return str(int(d))
        return repr(d)

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 'i':
            return BoolV(False) if ty[1] == 1 else self.iv_const(ty[1], 0)
        if ty[0] == 'ptr':
            return NULL
        if ty[0] in ('double', 'float'):
            return FV(self.fconst('0'), ty[0], (Fraction(0), Fraction(0)), fp.rv(0))
        if ty[0] == 'struct':
            return Agg([self.zero(e) for e in ty[1]])
        if ty[0] == 'arr':
            return Agg([self.zero(ty[2])] * ty[1])
        raise Unsupported('zero of %r' % (ty,))

    def glob(self, st, name):
        if name in self.mod.functions or name in self.mod.aliases:
            return FnV(name)
        g = self.globals.get(name)
        if g is None:
            ty, init, const = self.mod.global_init(name)
            self.nreg += 1
            size = None
            try:
                size = self.mod.sizeof(ty)[0]
            except Unsupported:
                pass
            self.globals[name] = g = (self.nreg, ty, init, const, size)
        rid = g[0]
        if rid not in st.mem:
            r = Region(rid, name, g[4], 'global', lazy=True)
            st.mem[rid] = r
            if name.startswith('@_ZGV') and any(n in name for n in getattr(self.cur, 'const_statics', ())):
                # a constant initialised on first use: always the value of its initialiser
                r.cells[0] = (1, IV(8, 0))
                self.used_models['function-local constants have the value of their initialiser'] = 1
            if g[3] and g[2] is not None:
                try:
                    n0 = len(self.wlogs)
                    wl, self.wlogs = self.wlogs, []
                    v = self.val(st, g[1], g[2])
                    self.store(st, PV(rid, 0), g[1], v)
                    self.wlogs = wl
                except Unsupported:
                    self.wlogs = wl
            r = st.mem[rid]
        return PV(rid, 0)

    def gep(self, st, bt, base, idx):
        if not isinstance(base, PV):
            raise Unsupported('gep on %r' % (base,))
        off = base.off
        t = bt
        for k, (it, iv) in enumerate(idx):
            if k == 0:
                s = self.mod.sizeof(t)[0]
                off = off + self.idxterm(st, iv) * s
                continue
            t = self.mod.resolve(t)
            if t[0] == 'struct':
                i = iv.t
                if not isinstance(i, int):
                    i = simp(i)
                    if not isinstance(i, int):
                        i = i.as_long()
                o, t = self.mod.field(t, i)
                off = off + o
            elif t[0] in ('arr', 'vec'):
                t = t[2]
                s = self.mod.sizeof(t)[0]
                off = off + self.idxterm(st, iv) * s
            else:
                raise Unsupported('gep into %r' % (t,))
        if not isinstance(off, int):
            off = simp(off)
        return PV(base.r, off)

    def idxterm(self, st, iv):
        if self.dom == 'bv':
            t = z3.simplify(iv.t)
            if z3.is_bv_value(t):
                return t.as_signed_long()
            raise Unsupported('symbolic index in bit-vector mode')
        return self.as_s(st, iv)

    # ---- execution ------------------------------------------------------
    def call_function(self, fn, st, args, depth=0, path=''):
        """executes the body; returns [(state, retval)]"""
        fn.parse()
        if depth > 40:
            raise Unsupported('inlining depth')
        saved = st.regs
        st.regs = {}
        for (t, nm, info), a in zip(fn.params, args):
            st.regs[nm] = a
        if len(args) > len(fn.params):
            st.regs['varargs'] = args[len(fn.params):]
        fr = Frame(fn, depth, path + '/' + self.short(fn.name))
        back, exits, rets = self.exec_region(fr, st, fn.entry, None, None)
        out = []
        for s, v in rets:
            s.regs = dict(saved)
            out.append((s, v))
        return out

    def short(self, name):
        d = self.dem(name)
        d = re.sub(r'\(.*', '', d)
        return d.split('::')[-1][:30]

    def exec_region(self, fr, st, block, prev, loop):
        back, exits, rets = [], [], []
        work = [(st, block, prev, 0, None)]
        loops = fr.fn.cfg()[2]
        while work:
            self.check_time()
            st, b, prev, idx, skiphdr = work.pop()
            if idx == 0 and skiphdr is None:
                if loop is not None:
                    if b == loop.header and prev is not None and prev in loop.body and (prev, b) != getattr(self, '_', None) and st.user.get('_in_' + fr.path + loop.header):
                        back.append((st, prev))
                        continue
                    if b not in loop.body:
                        exits.append((st, b, prev))
                        continue
                if b in loops and not (loop is not None and b == loop.header):
                    ex, rr = self.exec_loop(fr, st, LoopInfo(b, loops[b]), prev)
                    rets.extend(rr)
                    for (s2, b2, p2) in ex:
                        work.append((s2, b2, p2, 0, None))
                    continue
                if loop is not None and b == loop.header:
                    st.user['_in_' + fr.path + loop.header] = True
            r = self.exec_block(fr, st, b, prev, idx)
            for item in r:
                if item[0] == 'ret':
                    rets.append((item[1], item[2]))
                elif item[0] == 'goto':
                    work.append((item[1], item[2], b, 0, None))
                elif item[0] == 'cont':
                    work.append((item[1], b, prev, item[2], True))
        return back, exits, rets

    def exec_block(self, fr, st, b, prev, idx):
        instrs = fr.fn.block(b)
        if idx == 0:
            # phis in parallel
            ph = []
            while idx < len(instrs) and instrs[idx].op == 'phi':
                I = instrs[idx]
                src = [v for v, blk in I.a['inc'] if blk == prev]
                if not src:
                    raise Unsupported('phi without source')
                ph.append((I.res, self.val(st, I.ty, src[0])))
                idx += 1
            for k, v in ph:
                st.regs[k] = v
        n = len(instrs)
        while idx < n:
            I = instrs[idx]
            op = I.op
            idx += 1
            line = self.mod.dbgline.get(I.dbg)
            if op == 'nop':
                continue
            if op in ('call', 'invoke'):
                outs = self.exec_call(fr, st, I, line)
                if op == 'call':
                    if len(outs) == 1 and outs[0] is st:
                        continue
                    return [('cont', s, idx) for s in outs]
                return [('goto', s, I.a['normal']) for s in outs]
            if op == 'br':
                if I.a['cond'] is None:
                    return [('goto', st, I.a['targets'][0])]
                c = self.val(st, ('i', 1), I.a['cond'])
                if c is UNDEF:
                    raise Unsupported('branch on undef')
                out = []
                for s, tv in self.fork(st, c.b):
                    if line:
                        s.trace = s.trace + ('%s:%s%s' % (fr.path.split('/')[-1], line, '+' if tv else '-'),)
                    out.append(('goto', s, I.a['targets'][0 if tv else 1]))
                return out
            if op == 'ret':
                v = None if I.a['val'] is None else self.val(st, I.ty, I.a['val'])
                return [('ret', st, v)]
            if op == 'switch':
                v = self.val(st, I.ty, I.a['val'])
                out = []
                cur = st
                alive = True
                for cv, tgt in I.a['cases']:
                    if not alive:
                        break
                    c = self.icmp(cur, 'eq', v, self.iv_const(v.w, cv))
                    fs = self.fork(cur, c)
                    alive = False
                    for s, tv in fs:
                        if tv:
                            out.append(('goto', s, tgt))
                        else:
                            cur = s
                            alive = True
                if alive:
                    out.append(('goto', cur, I.a['default']))
                return out
            if op == 'unreachable':
                return []
            r = self.exec_simple(fr, st, I, line)
            if r is not None:
                return [('cont', s, idx) for s in r]
        raise Unsupported('block falls through')

    def exec_simple(self, fr, st, I, line):
        op = I.op
        a = I.a
        if op == 'alloca':
            sz = self.mod.sizeof(I.ty)[0]
            n = self.val(st, a['nt'], a['n'])
            nm = '%s%s' % (fr.path, I.res)
            self.nreg += 1
            r = Region(self.nreg, nm + '#' + str(self.nreg), sz, 'alloca')
            # allocas of one frame path are unique per execution; reuse the id inside loops
            st.mem[r.rid] = r
            st.regs[I.res] = PV(r.rid, 0)
            return
        if op == 'load':
            p = self.val(st, ('ptr',), a['ptr'])
            st.regs[I.res] = self.load(st, p, I.ty, line)
            return
        if op == 'store':
            v = self.val(st, I.ty, a['val'])
            p = self.val(st, ('ptr',), a['ptr'])
            self.store(st, p, I.ty, v, line)
            return
        if op == 'getelementptr':
            base = self.val(st, ('ptr',), a['ops'][0][1])
            ops = [(t, self.val(st, t, v)) for t, v in a['ops'][1:]]
            if isinstance(base, PV) and base.r in st.mem and st.mem[base.r].handler is not None:
                h = st.mem[base.r].handler
                if hasattr(h, 'gep'):
                    q = h.gep(self, st, st.mem[base.r], base, a['base'], ops)
                    if q is not None:
                        st.regs[I.res] = q
                        return
            st.regs[I.res] = self.gep(st, a['base'], base, ops)
            return
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            x = self.val(st, I.ty, a['x'])
            y = self.val(st, I.ty, a['y'])
            if isinstance(x, BoolV) or isinstance(y, BoolV):
                f = {'and': And, 'or': Or, 'xor': lambda p, q: Not(Eq(p, q)) if is_c(p) or is_c(q) else z3.Xor(p, q),
                     'add': lambda p, q: z3.Xor(zb(p), zb(q))}.get(op)
                if f is None:
                    raise Unsupported('bool ' + op)
                st.regs[I.res] = BoolV(f(x.b, y.b))
                return
            if x is UNDEF or y is UNDEF:
                raise Unsupported('arithmetic on undef')
            if isinstance(x, tuple) and x[0] == 'pint' or isinstance(y, tuple) and y[0] == 'pint':
                st.regs[I.res] = self.ptrdiff(st, op, x, y, I.ty[1])
                return
            st.regs[I.res] = self.ibin(st, op, x, y, a['flags'], line)
            return
        if op in ('trunc', 'zext', 'sext'):
            x = self.val(st, a['src'], a['x'])
            if x is UNDEF:
                raise Unsupported('cast of undef')
            st.regs[I.res] = self.cast(st, op, x, I.ty[1])
            return
        if op == 'icmp':
            x = self.val(st, a['src'], a['x'])
            y = self.val(st, a['src'], a['y'])
            if isinstance(x, (PV, FnV)) or isinstance(y, (PV, FnV)):
                st.regs[I.res] = BoolV(self.pcmp(st, a['pred'], x, y))
                return
            if isinstance(x, BoolV):
                e = Eq(x.b, y.b)
                if a['pred'] not in ('eq', 'ne'):
                    raise Unsupported('bool compare')
                st.regs[I.res] = BoolV(e if a['pred'] == 'eq' else Not(e))
                return
            if x is UNDEF or y is UNDEF:
                raise Unsupported('comparison of undef')
            st.regs[I.res] = BoolV(self.icmp(st, a['pred'], x, y))
            return
        if op == 'select':
            c = self.val(st, a['ct'], a['cond'])
            d = self.decide(st, c.b)
            if d is None:
                x, y = self.val(st, I.ty, a['x']), self.val(st, I.ty, a['y'])
                if isinstance(x, IV) and isinstance(y, IV) and self.dom != 'bv':
                    st.regs[I.res] = IV(x.w, If(c.b, x.t, y.t), min(x.lo, y.lo), max(x.hi, y.hi))
                    return
                if isinstance(x, IV) and self.dom == 'bv':
                    st.regs[I.res] = IV(x.w, z3.If(c.b, x.t, y.t))
                    return
                if isinstance(x, BoolV):
                    st.regs[I.res] = BoolV(Or(And(c.b, x.b), And(Not(c.b), y.b)))
                    return
                out = []
                for s, tv in self.fork(st, c.b):
                    s.regs[I.res] = self.val(s, I.ty, a['x'] if tv else a['y'])
                    out.append(s)
                return out
            st.regs[I.res] = self.val(st, I.ty, a['x'] if d == 'T' else a['y'])
            return
        if op == 'extractvalue':
            v = self.val(st, a['src'], a['x'])
            for i in a['idx']:
                v = v.vals[i]
            st.regs[I.res] = v
            return
        if op == 'insertvalue':
            v = self.val(st, I.ty, a['x'])
            e = self.val(st, a['et'], a['ev'])
            if v is UNDEF:
                t = self.mod.resolve(I.ty)
                v = Agg([UNDEF] * len(t[1]))
            vals = list(v.vals)
            if len(a['idx']) != 1:
                raise Unsupported('nested insertvalue')
            vals[a['idx'][0]] = e
            st.regs[I.res] = Agg(vals)
            return
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            st.regs[I.res] = self.val(st, a.get('src', I.ty), a['x'])
            return
        if op == 'ptrtoint':
            p = self.val(st, a['src'], a['x'])
            if p.r is None:
                st.regs[I.res] = self.iv_const(I.ty[1], 0)
            else:
                st.regs[I.res] = ('pint', p)
            return
        if op == 'inttoptr':
            v = self.val(st, a['src'], a['x'])
            if isinstance(v, tuple):
                st.regs[I.res] = v[1]
                return
            raise Unsupported('inttoptr')
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x, y = self.val(st, I.ty, a['x']), self.val(st, I.ty, a['y'])
            f = z3.Function(op + '_' + I.ty[0], FSORT, FSORT, FSORT)
            if self.reals and x.r is not None and y.r is not None:
                st.regs[I.res] = FV(f(x.t, y.t), I.ty[0], f_interval(op, x.iv, y.iv, I.ty[0]), fp.binop(self, st, op, x.r, y.r, I.ty[0]))
                return
            st.regs[I.res] = FV(f(x.t, y.t), I.ty[0], f_interval(op, x.iv, y.iv, I.ty[0]))
            return
        if op == 'fneg':
            x = self.val(st, I.ty, a['x'])
            st.regs[I.res] = FV(z3.Function('fneg', FSORT, FSORT)(x.t), I.ty[0], (-x.iv[1], -x.iv[0]) if x.iv else None, -x.r if x.r is not None else None)
            return
        if op == 'fcmp':
            x, y = self.val(st, a['src'], a['x']), self.val(st, a['src'], a['y'])
            st.regs[I.res] = BoolV(self.fcmp(st, a['pred'], x, y, a['src'][0]))
            return
        if op in ('uitofp', 'sitofp'):
            x = self.val(st, a['src'], a['x'])
            if isinstance(x, BoolV):
                x = self.cast(st, 'zext', x, 32)
            t = self.as_u(st, x) if op == 'uitofp' else self.as_s(st, x)
            if isinstance(t, int) and abs(t) < 1 << 24:
                st.regs[I.res] = FV(self.fconst(str(t)), I.ty[0], (Fraction(t), Fraction(t)), fp.rv(t))
                return
            f = z3.Function('i2f_' + I.ty[0], z3.IntSort(), FSORT)
            lo, hi = self.rng(x, t, x.w)
            if op == 'uitofp':
                lo, hi = (lo, hi) if lo >= 0 else (0, (1 << x.w) - 1)
            st.regs[I.res] = FV(f(zval(t)), I.ty[0], f_outward(Fraction(lo), Fraction(hi), I.ty[0]),
                                 fp.of_int(self, st, t, I.ty[0]) if self.reals else None)
            return
        if op in ('fptosi', 'fptoui'):
            x = self.val(st, a['src'], a['x'])
            f = z3.Function('f2i%d' % I.ty[1], FSORT, z3.IntSort())
            t = f(x.t)
            H = 1 << (I.ty[1] - (1 if op == 'fptosi' else 0))
            lo, hi = -H if op == 'fptosi' else 0, H - 1
            if x.iv is not None:
                lo, hi = max(lo, math.floor(x.iv[0])), min(hi, math.ceil(x.iv[1]))
            if self.reals and x.r is not None:
                t = simp(fp.trunc(x.r))
                if not isinstance(t, int):
                    d = self.fresh_int('trunc')
                    st.add(d == t)
                    st.add(z3.Implies(x.r >= 0, d == z3.ToInt(x.r)))
                    t = d
                self.oblige_safe(st, 'conversion to an integer in range', z3.And(zval(t) >= lo, zval(t) <= hi), line)
                st.regs[I.res] = IV(I.ty[1], t) if isinstance(t, int) else IV(I.ty[1], t, lo, hi)
                st.add(z3.And(zval(t) >= lo, zval(t) <= hi))
                return
            st.add(z3.And(t >= lo, t <= hi))
            st.regs[I.res] = IV(I.ty[1], t, lo, hi)
            return
        if op in ('fpext', 'fptrunc'):
            x = self.val(st, a['src'], a['x'])
            if z3.is_const(x.t) and x.t.decl().name().startswith('flt_'):
                st.regs[I.res] = FV(x.t, I.ty[0], x.iv, x.r)
                return
            f = z3.Function('%s_%s' % (op, I.ty[0]), FSORT, FSORT)
            st.regs[I.res] = FV(f(x.t), I.ty[0], f_outward(x.iv[0], x.iv[1], I.ty[0]) if x.iv else None,
                                 None if x.r is None else x.r if op == 'fpext' else fp.rnd(self, st, x.r, I.ty[0]))
            return
        raise Unsupported('instruction %s' % I.text[:80])

    def fcmp(self, st, pred, x, y, ty='double'):
        p = pred[1:] if pred[0] in 'ou' and len(pred) > 2 else pred
        if self.reals and x.r is not None and y.r is not None and p in ('lt', 'gt', 'le', 'ge', 'eq', 'ne'):
            return fp.cmp(p, x.r, y.r, ty)
        lt = z3.Function('flt', FSORT, FSORT, z3.BoolSort())
        eq = z3.Function('feq', FSORT, FSORT, z3.BoolSort())
        if p == 'lt':
            return lt(x.t, y.t)
        if p == 'gt':
            return lt(y.t, x.t)
        if p == 'eq':
            return eq(x.t, y.t)
        if p == 'ne':
            return z3.Not(eq(x.t, y.t))
        if p == 'le':
            return z3.Or(lt(x.t, y.t), eq(x.t, y.t))
        if p == 'ge':
            return z3.Or(lt(y.t, x.t), eq(x.t, y.t))
        raise Unsupported('fcmp ' + pred)

    def ptrdiff(self, st, op, x, y, w):
        if op == 'sub' and isinstance(x, tuple) and isinstance(y, tuple) and x[1].r == y[1].r:
            d = x[1].off - y[1].off
            return IV(w, d, -(1 << 62), 1 << 62) if not isinstance(d, int) else IV(w, d)
        raise Unsupported('pointer arithmetic')

    def pcmp(self, st, pred, x, y):
        if isinstance(x, IV) or isinstance(y, IV) or isinstance(x, tuple) or isinstance(y, tuple):
            raise Unsupported('pointer/integer compare')
        if isinstance(x, FnV) or isinstance(y, FnV):
            e = isinstance(x, FnV) and isinstance(y, FnV) and x.name == y.name
        elif x.r != y.r:
            h = None
            for z in (x, y):
                if z.r is not None and st.mem.get(z.r) is not None and st.mem[z.r].kind == 'maybe':
                    raise Unsupported('comparison of an unknown pointer')
            if pred not in ('eq', 'ne'):
                raise Unsupported('ordering of unrelated pointers')
            e = False
        else:
            if pred in ('eq', 'ne'):
                e = Eq(x.off, y.off)
            else:
                o = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]]
                return cmpc(o, x.off, y.off)
        return e if pred == 'eq' else Not(e)

    # ---- calls
    def exec_call(self, fr, st, I, line):
        """returns list of successor states with the result register set"""
        cv = I.a['callee']
        args = []
        name = None
        if cv[0] == 'glob':
            name = cv[1]
        else:
            c = self.val(st, ('ptr',), cv)
            if isinstance(c, FnV):
                name = c.name
            else:
                raise Unsupported('indirect call')
        if name.startswith('@llvm.'):
            if name.startswith(('@llvm.dbg', '@llvm.lifetime', '@llvm.stacksave', '@llvm.stackrestore', '@llvm.experimental.noalias', '@llvm.donothing')):
                if I.res:
                    st.regs[I.res] = NULL
                return [st]
        for t, v, info in I.a['args']:
            args.append(self.val(st, t, v))
        if name.startswith('@llvm.'):
            r = self.intrinsic(st, name, args, I, line)
            if I.res:
                st.regs[I.res] = r
            return [st]
        name = self.mod.aliases.get(name, name)
        outs = self.dispatch(fr, st, name, args, I, line)
        res = []
        for s, v in outs:
            if I.res:
                if v is None:
                    raise Unsupported('no result from ' + name)
                s.regs[I.res] = v
            res.append(s)
        return res

    def dispatch(self, fr, st, name, args, I, line):
        d = self.dem(name)
        for c in self.contracts:
            if c.matches(d, name) and name not in self.no_contract:
                self.used_contracts[d] = self.used_contracts.get(d, 0) + 1
                r = c.apply(self, st, args, I, line)
                if r is not None:
                    return r
        for pat, f in self.lib:
            m = pat.match(d)
            if m:
                r = f(self, st, args, I, line, d)
                if r is None:
                    continue
                self.used_models[d] = self.used_models.get(d, 0) + 1
                if isinstance(r, list):
                    return r
                return [(st, r[0])]
        fn = self.mod.functions.get(name)
        if fn is None or fn.decl:
            raise Unsupported('no contract and no body: ' + d[:150])
        self.inlined[d] = self.inlined.get(d, 0) + 1
        return self.call_function(fn, st, args, fr.depth + 1, fr.path)

    def intrinsic(self, st, name, args, I, line):
        b = name[6:]
        if b.startswith(('memcpy', 'memmove')):
            n = args[2].t if self.dom != 'bv' else z3.simplify(args[2].t).as_long()
            if not isinstance(n, int):
                n = simp(n)
            self.memcpy(st, args[0], args[1], n, line)
            return None
        if b.startswith('memset'):
            n = args[2].t if self.dom != 'bv' else z3.simplify(args[2].t).as_long()
            v = args[1].t if self.dom != 'bv' else z3.simplify(args[1].t).as_long()
            n = simp(n)
            r = st.mem[args[0].r]
            if not isinstance(n, int) or r.arr is not None:
                if r.arr is None:
                    raise Unsupported('memset of symbolic length')
                es, arr, nel = r.arr
                self.oblige(st, 'memset stays inside %s' % r.name, zval(n) <= es * nel, line)
                if not self.valid(st, zval(n) == es * nel) or args[0].off != 0:
                    raise Unsupported('partial memset')
                val = sum((v & 255) << (8 * i) for i in range(es))
                r2 = self.wreg(st, r.rid)
                r2.arr = (es, z3.K(z3.IntSort(), z3.IntVal(val)), nel)
                self.log(('arr', r.rid))
                return None
            i = 0
            while i < n:
                o = args[0].off + i
                step = 8 if o % 8 == 0 and i + 8 <= n else 4 if o % 4 == 0 and i + 4 <= n else 1
                self.store(st, PV(args[0].r, o), ('i', 8 * step),
                           self.iv_const(8 * step, sum((v & 255) << (8 * k) for k in range(step))), line)
                i += step
            return None
        if b.startswith('bswap'):
            v = args[0]
            if self.dom == 'bv':
                n = v.w // 8
                return IV(v.w, z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v.t) for i in range(n)])))
            bs = list(reversed(self.bytes_of(st, v)))
            return self.from_bytes(bs, v.w // 8)
        m = re.match(r'(u|s)(add|sub|mul)\.with\.overflow', b)
        if m:
            x, y = args[0], args[1]
            w = x.w
            if self.dom == 'bv':
                raise Unsupported('overflow intrinsic in bv')
            a, c = (self.as_u(st, x), self.as_u(st, y)) if m.group(1) == 'u' else (self.as_s(st, x), self.as_s(st, y))
            r = {'add': a + c, 'sub': a - c, 'mul': a * c}[m.group(2)]
            lo, hi = (0, (1 << w) - 1) if m.group(1) == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            ov = Or(r < lo, r > hi) if not isinstance(r, int) else (r < lo or r > hi)
            iv = IV(w, r, -(1 << (2 * w)), 1 << (2 * w)) if not isinstance(r, int) else IV(w, r)
            if self.valid(st, Not(ov)):
                iv = IV(w, r, lo, hi)
                ov = False
            return Agg([iv, BoolV(ov)])
        m = re.match(r'(u|s)(min|max)\.', b)
        if m:
            c = self.icmp(st, m.group(1) + ('lt' if m.group(2) == 'min' else 'gt'), args[0], args[1])
            x, y = args
            if self.dom == 'bv':
                return IV(x.w, z3.If(c, x.t, y.t))
            return IV(x.w, If(c, x.t, y.t), min(x.lo, y.lo), max(x.hi, y.hi))
        if b.startswith('abs.'):
            s = self.as_s(st, args[0])
            return IV(args[0].w, abs(s)) if isinstance(s, int) else IV(args[0].w, z3.If(s < 0, -s, s), 0, 1 << (args[0].w - 1))
        if b.startswith('ctpop') and self.dom == 'bv':
            v = args[0]
            return IV(v.w, sum(z3.ZeroExt(v.w - 1, z3.Extract(i, i, v.t)) for i in range(v.w)))
        if b.startswith('expect'):
            return args[0]
        if b.startswith('is.constant'):
            return BoolV(False)
        if b.startswith(('trap', 'assume')):
            return None
        if b.startswith(('va_start', 'va_end', 'va_copy')):
            return None
        if b.startswith('objectsize'):
            return self.iv_const(64, -1)
        if b.startswith('fmuladd'):
            t = I.ty[0]
            mul = z3.Function('fmul_' + t, FSORT, FSORT, FSORT)
            add = z3.Function('fadd_' + t, FSORT, FSORT, FSORT)
            return FV(add(mul(args[0].t, args[1].t), args[2].t), t)
        if b.startswith(('round', 'fabs', 'floor', 'ceil', 'trunc', 'sqrt', 'rint', 'nearbyint')):
            f = z3.Function(b.split('.')[0], FSORT, FSORT)
            x, r = args[0], None
            if self.reals and x.r is not None:
                r = z3.If(x.r >= 0, x.r, -x.r) if b.startswith('fabs') else fp.to_integral(b.split('.')[0], x.r)
                if r is not None and not b.startswith('fabs'):
                    r = z3.ToReal(r)
            return FV(f(x.t), I.ty[0], None, r)
        raise Unsupported('intrinsic ' + name)

    # ---- loops ----------------------------------------------------------
    def exec_loop(self, fr, st, L, prev):
        key = '_in_' + fr.path + L.header
        # 1. deterministic unrolling while the loop condition is decided
        force = self.unroll_pred(fr, L) if self.unroll_pred else False
        if force is not None:
            r = self.try_unroll(fr, st, L, prev, force)
            if r is not None:
                return r
        return self.exec_inv(fr, st, L, prev)

    def try_unroll(self, fr, st, L, prev, force):
        key = '_in_' + fr.path + L.header
        states = [(st.copy(), prev)]
        exits, rets = [], []
        n0 = len(self.obls)
        self.obl_sinks.append([])
        ok = False
        q0 = self.queries
        try:
            for it in range(self.max_unroll):
                nxt = []
                for s, p in states:
                    s.user.pop(key, None)
                    b, e, r = self.exec_region(fr, s, L.header, p, L)
                    if not force and b and (e or r):
                        return None
                    for x, pp in b:
                        x.user.pop(key, None)
                    nxt.extend(b)
                    for x, bb, pp in e:
                        x.user.pop(key, None)
                        exits.append((x, bb, pp))
                    rets.extend(r)
                if not nxt:
                    ok = True
                    break
                if len(nxt) > 300:
                    return None
                if not force and it >= 2 and (exits or rets):
                    return None
                states = nxt
            if not ok:
                return None
            sink = self.obl_sinks[-1]
            self.loop_stats.append((fr.path, L.header, 'unrolled', it))
            return exits, rets
        except Unsupported:
            if force:
                raise
            return None
        finally:
            sink = self.obl_sinks.pop()
            if ok:
                (self.obl_sinks[-1] if self.obl_sinks else self.obls).extend(sink)

    def loop_vars(self, st, mods):
        """integer cells that are alive at the header (for candidates)"""
        return mods

    def havoc(self, st, mods, st0, tag):
        """havoc everything the loop may modify; returns description of havoced things"""
        for m in mods:
            if m[0] == 'cell':
                _, rid, off, n = m
                if rid not in st.mem:
                    continue
                r0 = st.mem[rid]
                c = r0.cells.get(off)
                old = c[1] if c is not None and c[0] == n else None
                if old is None:
                    # uninitialised or differently typed before the loop: forget
                    ov = [o for o, (s, v) in r0.cells.items() if o < off + n and off < o + s]
                    r = self.wreg(st, rid)
                    for o in ov:
                        del r.cells[o]
                    r.epoch = self.bump()
                    continue
                nm = self.fresh_name('h')
                if isinstance(old, IV):
                    v = self.iv_havoc(st, old, nm)
                elif isinstance(old, BoolV):
                    v = BoolV(z3.Bool(nm))
                elif isinstance(old, PV):
                    if old.r is None:
                        raise Unsupported('null pointer modified in loop')
                    v = PV(old.r, z3.Int(nm))
                    rr = st.mem.get(old.r)
                    if rr is not None and rr.handler is not None and hasattr(rr.handler, 'off_facts'):
                        rr.handler.off_facts(self, st, rr, v.off, old.off)
                elif isinstance(old, FV):
                    v = FV(z3.Const(nm, FSORT), old.ty, None, z3.Real(nm + '_r') if self.reals else None)
                else:
                    raise Unsupported('havoc of %r' % (old,))
                r = self.wreg(st, rid)
                r.cells[off] = (n, v)
            elif m[0] == 'ghost':
                k = m[1]
                old = st.ghost.get(k)
                if old is None:
                    continue
                st.ghost[k] = self.ghost_havoc(st, k, old)
            elif m[0] == 'arr':
                rid = m[1]
                if rid not in st.mem:
                    continue
                r = self.wreg(st, rid)
                es, arr, nel = r.arr
                r.arr = (es, z3.Array(self.fresh_name('harr'), z3.IntSort(), z3.IntSort()), nel)
            elif m[0] == 'region':
                rid = m[1]
                if rid in st.mem:
                    r = self.wreg(st, rid)
                    r.cells = {}
                    r.epoch = self.bump()

    def bump(self):
        self.nfresh += 1
        return self.nfresh

    def iv_havoc(self, st, old, nm):
        if self.dom == 'bv':
            return IV(old.w, z3.BitVec(nm, old.w))
        # keep the signedness style of the value at loop entry
        if old.lo < 0:
            return self.iv_sfresh(st, old.w, nm)
        H = 1 << (old.w - 1)
        if old.hi >= H:
            return self.iv_fresh(st, old.w, nm)
        return self.iv_sfresh(st, old.w, nm)

    def ghost_havoc(self, st, k, old):
        nm = self.fresh_name('g_%s' % k[2])
        if isinstance(old, bool):
            return z3.Bool(nm)
        if isinstance(old, int):
            return z3.Int(nm) if k[2] not in () else old
        if isinstance(old, z3.ExprRef):
            v = z3.Const(nm, old.sort())
            return v
        if hasattr(old, 'havoc'):
            return old.havoc(self, st, nm)
        if isinstance(old, (str, tuple)):
            raise Unsupported('ghost %s modified in loop' % (k[2],))
        raise Unsupported('ghost havoc %r' % (old,))

    def get_item(self, st, m):
        """current value of a modified item"""
        if m[0] == 'cell':
            r = st.mem.get(m[1])
            if r is None:
                return None
            c = r.cells.get(m[2])
            if c is None or c[0] != m[3]:
                return None
            return c[1]
        if m[0] == 'ghost':
            return st.ghost.get(m[1])
        if m[0] == 'arr':
            r = st.mem.get(m[1])
            return r.arr[1] if r is not None else None
        return None

    def exec_inv(self, fr, st0, L, prev):
        key = '_in_' + fr.path + L.header
        maxrid = self.nreg
        mods = set()
        cands = None
        rounds = 0
        for I in fr.fn.block(L.header):
            if I.op == 'phi':
                raise Unsupported('phi at the header of a loop that needs an invariant')
        # arrive the header afresh
        while True:
            rounds += 1
            if rounds > 60:
                raise Unsupported('loop analysis does not converge')
            s = st0.copy()
            s.user.pop(key, None)
            self.havoc(s, sorted(mods, key=repr), st0, fr.path)
            if cands is None:
                cands = []
                ctx = LoopCtx(self, fr, L, st0, mods)
                todo = []
                for gen in self.candgens + [default_candidates]:
                    for nm, f in gen(ctx):
                        try:
                            e0 = f(st0)
                        except Missing:
                            continue
                        if e0 is None or e0 is False:
                            continue
                        todo.append((nm, f, e0))
                cands = self.filter_valid(st0, todo)
                if DEBUG:
                    kept = {nm for nm, _ in cands}
                    print('loop', fr.path, L.header, 'not at entry', [t[0] for t in todo if t[0] not in kept])
            for nm, f in cands:
                try:
                    e = f(s)
                except Missing:
                    continue
                if e is not None:
                    s.add(e)
            head = s.copy()
            self.wlogs.append(set())
            self.obl_sinks.append([])
            try:
                back, exits, rets = self.exec_region(fr, s, L.header, prev, L)
            finally:
                w = self.wlogs.pop()
                sink = self.obl_sinks.pop()
            new = set()
            for m in w:
                rid = m[1][0] if m[0] == 'ghost' else m[1]
                if (rid is None or rid <= maxrid) and m not in mods:
                    new.add(m)
            if new:
                mods |= new
                cands = None
                continue
            # Houdini step
            bad = set()
            for (b, pp) in back:
                if b.user.get('carry') != head.user.get('carry'):
                    raise Unsupported('protocol state differs between iterations: %r, %r' % (head.user.get('carry'), b.user.get('carry')))
                # check pointer regions stable
                for m in mods:
                    if m[0] == 'cell':
                        v0, v1 = self.get_item(head, m), self.get_item(b, m)
                        if isinstance(v0, PV) and (not isinstance(v1, PV) or v1.r != v0.r):
                            raise Unsupported('pointer changes its object in a loop')
                exprs = []
                for i, (nm, f) in enumerate(cands):
                    if i in bad:
                        continue
                    try:
                        e = f(b)
                    except Missing:
                        bad.add(i)
                        continue
                    if e is None or e is True:
                        continue
                    exprs.append((i, e))
                # quick: all at once
                while exprs:
                    g = z3.And(*[zb(e) if isinstance(e, bool) else e for _, e in exprs])
                    r, m = self._check(b.pc, z3.Not(g), 4000)
                    if r == 'unsat':
                        break
                    if r == 'sat':
                        rest = []
                        for i, e in exprs:
                            v = m.eval(zb(e) if isinstance(e, bool) else e, model_completion=True)
                            if z3.is_false(v):
                                bad.add(i)
                            else:
                                rest.append((i, e))
                        if len(rest) == len(exprs):
                            # model did not falsify any single one definitely: check one by one
                            rest = []
                            for i, e in exprs:
                                if self.valid(b, e, 2000):
                                    rest.append((i, e))
                                else:
                                    bad.add(i)
                            exprs = []
                            break
                        exprs = rest
                    else:
                        rest = []
                        for i, e in exprs:
                            if not self.valid(b, e, 2000):
                                bad.add(i)
                        exprs = []
            if bad:
                if DEBUG:
                    print('loop', fr.path, L.header, 'round', rounds, 'drops', [cands[i][0] for i in sorted(bad)])
                cands = [c for i, c in enumerate(cands) if i not in bad]
                continue
            break
        # inductive: keep obligations of the final pass
        (self.obl_sinks[-1] if self.obl_sinks else self.obls).extend(sink)
        for m in w:
            rid = m[1][0] if m[0] == 'ghost' else m[1]
            if rid is None or rid <= maxrid:
                self.log(m)
        self.loop_stats.append((fr.path, L.header, 'invariant', [nm for nm, _ in cands]))
        if self.termination and back:
            self.check_variant(fr, L, head, back, mods)
        for x, b, p in exits:
            x.user.pop(key, None)
        for x, v in rets:
            x.user.pop(key, None)
        return exits, rets

    def filter_valid(self, st, todo):
        """the candidates that hold in a state"""
        while todo:
            ex = [(zb(e) if isinstance(e, bool) else e) for _, _, e in todo]
            r, m = self._check(st.pc, z3.Not(z3.And(*ex)), 4000)
            if r == 'unsat':
                break
            rest = []
            if r == 'sat':
                rest = [t for t, e in zip(todo, ex) if not z3.is_false(m.eval(e, model_completion=True))]
            if r != 'sat' or len(rest) == len(todo):
                todo = [t for t, e in zip(todo, ex) if self.valid(st, e, 2000)]
                break
            todo = rest
        return [(nm, f) for nm, f, _ in todo]

    def check_variant(self, fr, L, head, back, mods):
        """find a term that decreases on every back edge and is bounded below"""
        items = []
        for m in sorted(mods, key=repr):
            v = self.get_item(head, m)
            if isinstance(v, IV) and self.dom != 'bv':
                items.append((m, v.t, v))
            elif isinstance(v, PV) and not isinstance(v.off, int):
                items.append((m, v.off, v))
            elif isinstance(v, z3.ArithRef):
                items.append((m, v, None))
            elif hasattr(v, 'measure'):
                items.append((m, v.measure(), v))
        def cur(s, m, like):
            v = self.get_item(s, m)
            if isinstance(v, IV):
                w = IV(v.w, v.t, v.lo, v.hi)
                if isinstance(like, IV) and like.lo < 0:
                    return self.as_s(s, w)
                return self.as_u(s, w) if isinstance(like, IV) and like.hi >= (1 << (like.w - 1)) else self.as_s(s, w)
            if isinstance(v, PV):
                return v.off
            if hasattr(v, 'measure'):
                return v.measure()
            return v
        terms = []
        for m, t, v in items:
            terms.append((lambda s, m=m, v=v: cur(s, m, v), t))
            if isinstance(v, IV) and v.w == 64 and v.lo >= 0 and v.hi >= (1 << 63):
                sg = lambda s, m=m: self.as_s(s, self.get_item(s, m))
                terms.append((sg, zval(sg(head))))
            elif isinstance(v, IV) and v.lo < 0:
                un = lambda s, m=m: self.as_u(s, self.get_item(s, m))
                terms.append((un, zval(un(head))))
        const = []
        for f, t in terms:
            const.append((f, t))
        # candidates: t up (bounded by something), t down, t1 - t2
        cand = []
        for i, (f, t) in enumerate(terms):
            cand.append(('down', lambda s, f=f: f(s), t))
        for i, (f, t) in enumerate(terms):
            for j, (g, u) in enumerate(terms):
                if i != j:
                    cand.append(('diff', lambda s, f=f, g=g: f(s) - g(s), t - u))
        # increasing, bounded by constants of the path: strictly increasing and <= some unmodified term
        for i, (f, t) in enumerate(terms):
            cand.append(('up', lambda s, f=f: -f(s), -t))
        for nm, f, t0 in cand + list(self.extra_variants(head)) + list(self.cur.variants(self, head) if hasattr(self.cur, 'variants') else []):
            ok = True
            for b, _ in back:
                try:
                    now = f(b)
                except Exception:
                    ok = False
                    break
                if nm == 'up':
                    # bounded above by a term that does not change: use the machine range or any bound
                    goal = now < t0
                    bound = self.upper_bound(b, t0)
                    if not bound:
                        ok = False
                        break
                else:
                    goal = z3.And(zval(now) < t0, t0 >= -(1 << 40) if nm == 'down' else t0 >= -(1 << 40))
                if not self.valid(b, goal, 2000):
                    ok = False
                    break
            if ok:
                o = Obligation(self.cur.title if self.cur else '?', 'loop terminates (%s)' % nm, None)
                o.status, o.backend = 'proved', 'z3'
                (self.obl_sinks[-1] if self.obl_sinks else self.obls).append(o)
                return
        o = Obligation(self.cur.title if self.cur else '?', 'loop terminates', None)
        # not finding a measure is no refutation
        o.status, o.backend = 'unknown', 'z3'
        o.model = ['no decreasing bounded measure found for the loop at ' + fr.path + ' ' + L.header]
        (self.obl_sinks[-1] if self.obl_sinks else self.obls).append(o)

    def extra_variants(self, head):
        """a position that grows up to a bound, then a flag that is set"""
        items = [k for k in head.ghost if k[2] == 'pos']
        flags = [k for k in head.ghost if k[2] in ('eof', 'fail')]
        out = []
        for B in self.bounds(head):
            for p in items:
                for f in flags:
                    if f[:2] == p[:2]:
                        def m(s, p=p, f=f, B=B):
                            return 2 * (B - zval(s.ghost[p])) + z3.If(zb(s.ghost[f]), 0, 1)
                        out.append(('position, then flag', m, m(head)))
        return out

    def upper_bound(self, st, negt):
        """-t bounded below by a loop-independent constant: t < B for a term B fixed before the loop"""
        for B in self.bounds(st):
            if self.valid(st, -negt <= B, 1500):
                return True
        return False

    def bounds(self, st):
        out = list(getattr(self.cur, 'bounds', lambda e: [])(self) if self.cur is not None else [])
        for r in st.mem.values():
            if hasattr(r.handler, 'stride'):
                out.append(z3.simplify(r.handler.stride * zval(r.handler.n)))
        return out


def normalise(d):
    from .lib import normalise as n
    return n(d)


class Missing(Exception):
    pass


class LoopCtx:
    def __init__(self, eng, fr, L, st0, mods):
        self.eng, self.fr, self.L, self.st0, self.mods = eng, fr, L, st0, mods

    def ints(self):
        """[(name, getter(state)->z3 Int term)] for modified integer cells"""
        e = self.eng
        out = []
        for m in sorted(self.mods, key=repr):
            v = e.get_item(self.st0, m)
            if isinstance(v, IV) and e.dom != 'bv':
                signed = not (v.lo >= 0 and v.hi >= (1 << (v.w - 1)))

                def g(s, m=m, signed=signed):
                    x = e.get_item(s, m)
                    if not isinstance(x, IV):
                        raise Missing()
                    return zval(e.as_s(s, x) if signed else e.as_u(s, x))
                out.append((self.nm(m), g, v.w))
                if not signed and v.w == 64:
                    # may be a signed variable that was assigned an unsigned value before the loop
                    def gs(s, m=m):
                        x = e.get_item(s, m)
                        if not isinstance(x, IV):
                            raise Missing()
                        return zval(e.as_s(s, x))
                    out.append((self.nm(m) + ' (signed)', gs, v.w))
            elif isinstance(v, PV):
                def g(s, m=m):
                    x = e.get_item(s, m)
                    if not isinstance(x, PV):
                        raise Missing()
                    return zval(x.off)
                out.append((self.nm(m), g, 64))
            elif m[0] == 'ghost' and (isinstance(v, z3.ArithRef) or isinstance(v, int) and not isinstance(v, bool)):
                def g(s, m=m):
                    x = e.get_item(s, m)
                    if x is None:
                        raise Missing()
                    return zval(x)
                out.append((self.nm(m), g, 0))
        return out

    def bools(self):
        e = self.eng
        out = []
        for m in sorted(self.mods, key=repr):
            v = e.get_item(self.st0, m)
            if isinstance(v, bool) or isinstance(v, z3.BoolRef):
                def g(s, m=m):
                    x = e.get_item(s, m)
                    if x is None:
                        raise Missing()
                    return zb(x)
                out.append((self.nm(m), g))
            elif isinstance(v, BoolV) or isinstance(v, IV) and v.bool is not None:
                def g(s, m=m):
                    x = e.get_item(s, m)
                    if isinstance(x, BoolV):
                        return zb(x.b)
                    if isinstance(x, IV) and x.bool is not None:
                        return zb(x.bool)
                    if isinstance(x, IV) and e.dom != 'bv':
                        return zb(Not(Eq(e.as_u(s, x), 0)))
                    raise Missing()
                out.append((self.nm(m), g))
        return out

    def nm(self, m):
        if m[0] == 'cell':
            r = self.st0.mem.get(m[1])
            return '%s+%d' % (r.name.split('/')[-1] if r else '?', m[2])
        if m[0] == 'ghost':
            r = self.st0.mem.get(m[1][0])
            return '%s+%s.%s' % (r.name.split('/')[-1] if r else '?', m[1][1], m[1][2])
        return repr(m)


def default_candidates(ctx):
    """generic, name-independent candidates"""
    e = ctx.eng
    out = []
    for nm, g, w in ctx.ints():
        out.append((nm + ' >= 0', lambda s, g=g: g(s) >= 0))
        v0 = g(ctx.st0)
        out.append((nm + ' >= entry', lambda s, g=g, v0=v0: g(s) >= v0))
        out.append((nm + ' <= entry', lambda s, g=g, v0=v0: g(s) <= v0))
        out.append((nm + ' == entry', lambda s, g=g, v0=v0: g(s) == v0))
    for nm, g in ctx.bools():
        out.append((nm, lambda s, g=g: g(s)))
        out.append(('!' + nm, lambda s, g=g: z3.Not(g(s))))
    bl = ctx.bools()
    if len(bl) <= 6:
        for i in range(len(bl)):
            for j in range(len(bl)):
                if i != j:
                    a, b = bl[i], bl[j]
                    out.append(('%s -> %s' % (a[0], b[0]), lambda s, a=a, b=b: z3.Implies(a[1](s), b[1](s))))
    # pairwise
    ints = ctx.ints()
    if len(ints) <= 8:
        for i in range(len(ints)):
            for j in range(len(ints)):
                if i != j:
                    a, b = ints[i], ints[j]
                    out.append(('%s <= %s' % (a[0], b[0]), lambda s, a=a, b=b: a[1](s) <= b[1](s)))
    return out
