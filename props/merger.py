"""Contracts on the merger (pwned-merger-cli/mergeoperation.cpp, mergerinput.hpp)"""
import re
from .common import *
from irv.lib import ByteSink, sv_same
from irv.seq import SeqMem, Col, vector_of, seq_candidates, positions

RU, RL, RC = (z3.Function(n, z3.IntSort(), z3.IntSort()) for n in ('RU', 'RL', 'RC'))
IN = z3.Function('IN', z3.IntSort(), z3.IntSort())
SEEN = z3.Function('SEEN', z3.IntSort(), z3.BoolSort())
XU, XL, N = z3.Ints('xu xl N')
M32 = 1 << 32


def lt128(a, b, c, d):
    return z3.Or(a < c, z3.And(a == c, b < d))


def le128(a, b, c, d):
    return z3.Or(a < c, z3.And(a == c, b <= d))


def get_obj(eng, st, fn, p):
    """address of a member, computed by the repository's own layout"""
    (s, v), = eng.call_function(eng.mod.functions['@' + fn], st, [p])
    assert s is st or True
    return s, v


def m_now(eng, st, a, I, line, d):
    v = eng.iv_sfresh(st, 64, eng.fresh_name('now'))
    st.add(z3.And(v.t >= 0, v.t < (1 << 60)))
    return (v,)


def m_text(eng, st, a, I, line, d):
    """some text"""
    setstr(eng, st, a[0], SV.const(st, eng.fresh_name('text')))
    return (None,)


def m_path_string(eng, st, a, I, line, d):
    """path::string() of boost: the text of the path"""
    if len(a) == 2:
        setstr(eng, st, a[0], getstr(eng, st, a[1]))
        return (None,)
    return (a[0],)


def m_atomic_get(eng, st, a, I, line, d):
    v = eng.load(st, a[0], ('i', 8))
    if isinstance(v, IV) and v.bool is None:
        return (BoolV(Not(Eq(eng.as_u(st, v), 0))),)
    return (BoolV(v.bool if isinstance(v, IV) else v.b),)


def m_atomic_set(eng, st, a, I, line, d):
    b = a[1].b if isinstance(a[1], BoolV) else Not(Eq(eng.as_u(st, a[1]), 0))
    eng.put(st, a[0].r, a[0].off, 1, IV(8, z3.If(b, 1, 0) if isinstance(b, z3.ExprRef) else int(b), 0, 1, bool=b))
    return (a[1],)


def m_errno(eng, st, a, I, line, d):
    return (eng.new_region(st, 'errno', 4, 'obj', lazy=True),)


MODELS = [
    (r'std::chrono::_V2::s\w+_clock::now\(\)$', m_now),
    (r'pwned::readable(Time|Size)\(', m_text),
    (r'boost::filesystem::path::(string|native)\(\) const$', m_path_string),
    (r'std::atomic<bool>::operator bool\(\) const$', m_atomic_get),
    (r'std::atomic<bool>::operator=\(bool\)$', m_atomic_set),
    (r'pwned::OperationQueue<.*>::operationWait\(\)$', lib.m_void),
]


class Next:
    """next(): takes the next record of the ascending sequence of all records of all inputs (proved for the code in MergeOperation::next)"""

    def matches(self, d, name):
        return d == 'merger::MergeOperation::next()'

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        out, this = a
        j = zval(eng.gget(st, u.op, 'taken'))
        res = []
        for s, more in eng.fork(st, j < N):
            if more:
                u.facts(s, j)
                eng.put(s, out.r, out.off, 8, IV(64, RU(j), 0, M64 - 1))
                eng.put(s, out.r, out.off + 8, 8, IV(64, RL(j), 0, M64 - 1))
                v = z3.Bool('valid')
                eng.put(s, out.r, out.off + 16, 1, IV(8, z3.If(v, 1, 0), 0, 1, bool=v))
                eng.put(s, out.r, out.off + 24, 4, IV(32, RC(j), 0, M32 - 1))
                eng.gset(s, u.op, 'taken', simp(j + 1))
            else:
                for o, n in ((0, 8), (8, 8), (24, 4)):
                    eng.put(s, out.r, out.off + o, n, eng.iv_fresh(s, 8 * n, eng.fresh_name('none')))
                eng.put(s, out.r, out.off + 16, 1, IV(8, 0, 0, 1, bool=False))
            res.append((s, None))
        return res


class QueueEmpty:
    """priority_queue::empty()/size(): whether records are left"""

    def matches(self, d, name):
        m = re.match(r'std::priority_queue<merger::MergerInput\*.*>::(empty|size)\(\) const$', d)
        self.what = m and m.group(1)
        return m

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        eng.oblige(st, 'the queue asked is that of this operation', z3.And(a[0].r == u.pq.r, zval(a[0].off) == zval(u.pq.off)), line)
        j = zval(eng.gget(st, u.op, 'taken'))
        if self.what == 'empty':
            return [(st, BoolV(j == N))]
        v = eng.iv_fresh(st, 64, eng.fresh_name('queued'))
        st.add((v.t == 0) == (j == N))
        return [(st, v)]


class Progress:
    """the progress callback: assigns nothing of the operation"""

    def matches(self, d, name):
        return name == '@vt_progress_callback'

    def apply(self, eng, st, a, I, line):
        return [(st, None)]


class CallbackVT:
    def load(self, eng, st, r, off, ty, line):
        return FnV('@vt_progress_callback')

    def store(self, eng, st, r, off, ty, v, line):
        raise Unsupported('store into a vtable')


class Execute(Unit):
    """Fixed arbitrary hash x.  The inputs' records in ascending order are r_0..r_{N-1}; IN(k) is the sum of the counts of x among
    the first k of them, SEEN(k) whether x is among them."""
    tu = 'merger.cpp'
    lib = MODELS
    contracts = (Next(), QueueEmpty(), Progress())

    def __init__(self, callback):
        self.callback = callback
        self.title = 'MergeOperation::execute, with%s progress callback' % ('' if callback else 'out')
        self.candgens = (self.cands,)

    def facts(self, st, j):
        key = ('rec', j.get_id())
        if key in st.seqs:
            return
        st.seqs[key] = j
        st.add(z3.And(RU(j) >= 0, RU(j) < M64, RL(j) >= 0, RL(j) < M64, RC(j) >= 0, RC(j) < M32))
        isx = z3.And(RU(j) == XU, RL(j) == XL)
        st.add(z3.Implies(j >= 1, le128(RU(j - 1), RL(j - 1), RU(j), RL(j))))
        st.add(IN(j + 1) == IN(j) + z3.If(isx, RC(j), 0))
        st.add(SEEN(j + 1) == z3.Or(SEEN(j), isx))
        st.add(z3.And(IN(j) >= 0, IN(j + 1) <= IN(N)))
        # ascending: x was seen before a different record only if it is smaller
        st.add(z3.Implies(z3.And(j >= 1, SEEN(j)), le128(XU, XL, RU(j - 1), RL(j - 1))))
        st.add(z3.Implies(z3.Not(SEEN(j)), IN(j) == 0))

    def bounds(self, eng):
        return [N, N + 1]

    def open_sink(self, eng, st, nm, mode):
        eng.oblige(st, 'the output is the destination file', sv_same(eng, st, nm, self.dstname))
        eng.oblige(st, 'old contents of the output are dropped', isinstance(mode, int) and mode & 1 == 0 and (mode & 8 == 0 or mode & 32 != 0))
        return ByteSink(self.expect), True

    def expect(self, eng, st, q, pos, got, line):
        self.out = q
        p = zval(pos)
        i = 0
        op = self.op
        num = lambda bs: zval(eng.as_u(st, eng.from_bytes(bs, len(bs))))
        while i < len(got):
            at = p + i
            if len(got) - i >= 8 and eng.valid(st, at % 20 == 0):
                eng.gset(st, op, 'pu', num(got[i:i + 8]))
                i += 8
            elif len(got) - i >= 8 and eng.valid(st, at % 20 == 8):
                eng.gset(st, op, 'pl', num(got[i:i + 8]))
                i += 8
            elif len(got) - i >= 4 and eng.valid(st, at % 20 == 16):
                self.record(eng, st, zval(eng.gget(st, op, 'pu')), zval(eng.gget(st, op, 'pl')), num(got[i:i + 4]), line)
                i += 4
            else:
                eng.oblige(st, 'ensures whole records are written', False, line)
                raise Unsupported('partial record')

    def record(self, eng, st, u, l, c, line):
        op = self.op
        g = lambda f: eng.gget(st, op, f)
        j = zval(g('taken'))
        isx = z3.And(u == XU, l == XL)
        eng.oblige(st, 'ensures hashes strictly ascend', z3.Implies(zb(g('any')), lt128(zval(g('lu')), zval(g('ll')), u, l)), line)
        eng.oblige(st, 'ensures only hashes of the inputs are written', z3.Implies(isx, SEEN(j)), line)
        eng.gset(st, op, 'outx', simp(zval(g('outx')) + z3.If(isx, c, 0)))
        eng.gset(st, op, 'hasx', z3.Or(zb(g('hasx')), isx))
        eng.gset(st, op, 'any', True)
        eng.gset(st, op, 'lu', u)
        eng.gset(st, op, 'll', l)

    def cands(self, ctx):
        eng, op = ctx.eng, self.op
        g = lambda s, f: eng.gget(s, op, f)
        j = lambda s: zval(g(s, 'taken'))
        out = [('1 <= taken <= N', lambda s: z3.And(j(s) >= 1, j(s) <= N)),
               ('0 <= taken <= N', lambda s: z3.And(j(s) >= 0, j(s) <= N)),
               ('opos % 20 == 0', lambda s: zval(eng.gget(s, self.dst, 'opos')) % 20 == 0)]
        cells = {}
        for m in ctx.mods:
            v = eng.get_item(ctx.st0, m)
            if m[0] == 'cell' and isinstance(v, IV):
                cells.setdefault(m[1], {})[m[2]] = m
        # objects that hold a record
        for rid, c in cells.items():
            for o, m in sorted(c.items()):
                if m[3] != 8 or o + 8 not in c or o + 24 not in c:
                    continue

                def rec(s, a=m, b=c[o + 8], d=c[o + 24]):
                    r = []
                    for x in (a, b, d):
                        v = eng.get_item(s, x)
                        if not isinstance(v, IV):
                            raise Missing()
                        r.append(zval(eng.as_u(s, v)))
                    return r
                nm = ctx.nm(m)

                def is_last(s, rec=rec):
                    u, l, k = rec(s)
                    return z3.And(u == RU(j(s) - 1), l == RL(j(s) - 1))

                def sums(s, rec=rec):
                    u, l, k = rec(s)
                    return z3.If(z3.And(u == XU, l == XL), z3.And(k == IN(j(s)), zval(g(s, 'outx')) == 0, z3.Not(zb(g(s, 'hasx'))), SEEN(j(s))),
                                 z3.And(zval(g(s, 'outx')) == IN(j(s)), zb(g(s, 'hasx')) == SEEN(j(s))))

                def above(s, rec=rec):
                    u, l, k = rec(s)
                    return z3.Implies(zb(g(s, 'any')), lt128(zval(g(s, 'lu')), zval(g(s, 'll')), u, l))
                out += [(nm + ' is the hash taken last', is_last), (nm + ' + output == input', sums), (nm + ' above the output', above)]

                def ranges(s, rec=rec):
                    u, l, k = rec(s)
                    return z3.And(u >= 0, u < M64, l >= 0, l < M64, k >= 0, k < M32)
                out.append((nm + ' in range', ranges))
        return out

    def run(self, eng):
        st = State()
        st.add(z3.And(N >= 0, N < 1 << 60, XU >= 0, XU < M64, XL >= 0, XL < M64))
        st.add(z3.And(IN(0) == 0, z3.Not(SEEN(0)), IN(N) < M32))
        self.op = op = obj(eng, st, 'op', const(eng, 'vt_op_size'))
        d = obj(eng, st, 'd', const(eng, 'vt_priv_size'))
        mem = {}
        st, sp = get_obj(eng, st, 'vt_d', op)
        eng.put(st, sp.r, sp.off, 8, d)
        for f in ('vt_pq', 'vt_dst', 'vt_dstpath', 'vt_progress', 'vt_processed', 'vt_total'):
            st, mem[f] = get_obj(eng, st, f, d)
        for f in ('vt_cancelled', 'vt_paused', 'vt_queue'):
            st, mem[f] = get_obj(eng, st, f, op)
        self.pq, self.dst = mem['vt_pq'], mem['vt_dst']
        c, p = mem['vt_cancelled'], mem['vt_paused']
        eng.put(st, c.r, c.off, 1, IV(8, 0, 0, 1, bool=False))
        b = z3.Bool('paused')
        eng.put(st, p.r, p.off, 1, IV(8, z3.If(b, 1, 0), 0, 1, bool=b))
        eng.put(st, mem['vt_queue'].r, mem['vt_queue'].off, 8, obj(eng, st, 'queue', 64))
        if self.callback:
            cb = obj(eng, st, 'callback', 64)
            eng.put(st, cb.r, 0, 8, eng.new_region(st, 'callback vtable', None, 'vtable', handler=CallbackVT()))
        else:
            cb = NULL
        eng.put(st, mem['vt_progress'].r, mem['vt_progress'].off, 8, cb)
        cell_iv(eng, st, mem['vt_processed'], 64, 'processed')
        t = cell_iv(eng, st, mem['vt_total'], 64, 'total')
        self.dstname = SV.const(st, 'dstname')
        setstr(eng, st, mem['vt_dstpath'], self.dstname)
        lib.make_ofstream(eng, st, self.dst)
        self.out = None
        for f, v in (('taken', 0), ('pu', 0), ('pl', 0), ('outx', 0), ('hasx', False), ('any', False), ('lu', 0), ('ll', 0)):
            eng.gset(st, op, f, v)
        for s, r in eng.call_function(self.fn(eng, r'merger::MergeOperation::execute\(\)$'), st, [op]):
            g = lambda f: eng.gget(s, op, f)
            eng.oblige(s, 'ensures the output is opened', eng.gget(s, self.dst, 'opos') is not None)
            eng.oblige(s, 'ensures all records are taken', zval(g('taken')) == N)
            eng.oblige(s, 'ensures the count of every hash is the sum over all inputs', zval(g('outx')) == IN(N))
            eng.oblige(s, 'ensures every hash of the inputs is written', zb(g('hasx')) == SEEN(N))
            o = eng.gget(s, self.dst, 'opos')
            if o is not None:
                eng.oblige(s, 'ensures the output consists of complete records', zval(o) % 20 == 0)


PQ = r'std::priority_queue<merger::MergerInput\*.*>::'


class TheQueue:
    """priority_queue with an arbitrary set of inputs, the smallest record (by SmallestHashFirst) on top"""

    def matches(self, d, name):
        m = re.match(PQ + r'(empty|size|top|pop|push)\(', d)
        if m:
            self.what = m.group(1)
        return m

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        if a[0].r != u.pq.r or a[0].off != u.pq.off:
            raise Unsupported('another queue')
        g = lambda f: eng.gget(st, u.pq, f)
        if self.what in ('empty', 'size'):
            e = zb(g('empty'))
            if self.what == 'empty':
                return [(st, BoolV(e))]
            v = eng.iv_fresh(st, 64, eng.fresh_name('queued'))
            st.add((v.t == 0) == e)
            return [(st, v)]
        if self.what == 'top':
            eng.oblige(st, 'requires the queue is not empty', z3.Not(zb(g('empty'))), line)
            if g('pops') != 0 or g('pushes') != 0:
                raise Unsupported('top of a changed queue')
            return [(st, u.topcell)]
        if self.what == 'pop':
            eng.oblige(st, 'requires the queue is not empty', z3.Not(zb(g('empty'))), line)
            eng.oblige(st, 'ensures the smallest record alone is taken off the queue', zval(g('pops')) == 0 and g('pushes') == 0, line)
            eng.gset(st, u.pq, 'pops', g('pops') + 1)
            eng.gset(st, u.pq, 'empty', z3.Bool(eng.fresh_name('empty')))
            return [(st, None)]
        x = eng.load(st, a[1], ('ptr',))
        ok = isinstance(x, PV) and x.r == u.mi.r
        eng.oblige(st, 'ensures only an input taken off the queue is put back', ok and g('pops') == 1 and g('pushes') == 0, line)
        eng.oblige(st, 'ensures an input is put back only with its next record', zval(eng.gget(st, u.mi, 'reads')) == 1 and zb(eng.gget(st, u.mi, 'ok')), line)
        eng.gset(st, u.pq, 'pushes', g('pushes') + 1)
        eng.gset(st, u.pq, 'empty', False)
        return [(st, None)]


class ReadRecord:
    """PasswordHashAndCount::read (proved in P08): the next record of the stream, or false and an arbitrary record"""

    def matches(self, d, name):
        return d == 'pwned::PasswordHashAndCount::read(std::istream&)'

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        rec, f = a
        eng.oblige(st, 'the record read is that of the input', rec.r == u.mi.r and rec.off == u.phc.off and f.r == u.mi.r, line)
        n = eng.gget(st, u.mi, 'reads')
        ok = z3.Bool('more%d' % n)
        eng.gset(st, u.mi, 'reads', n + 1)
        eng.gset(st, u.mi, 'ok', ok)
        for o, w in ((0, 8), (8, 8), (24, 4)):
            v = eng.iv_fresh(st, 8 * w, 'next%d_%d' % (n, o))
            eng.put(st, rec.r, rec.off + o, w, v)
        return [(st, BoolV(ok))]


class NextUnit(Unit):
    tu = 'merger.cpp'
    title = 'MergeOperation::next'
    contracts = (TheQueue(), ReadRecord())
    lib = MODELS + [(r'boost::filesystem::remove\(', lambda eng, st, a, I, line, d: eng.cur.removed(eng, st, line)),
                    (r'merger::MergerInput::~MergerInput\(\)$', lambda eng, st, a, I, line, d: eng.cur.destroyed(eng, st, a, line))]

    def removed(self, eng, st, line):
        eng.oblige(st, 'ensures an input file is removed only if that is asked for and it is used up',
                   z3.And(zb(self.remove), z3.Not(zb(eng.gget(st, self.mi, 'ok'))), zval(eng.gget(st, self.mi, 'reads')) > 0), line)
        return (BoolV(True),)

    def destroyed(self, eng, st, a, line):
        eng.oblige(st, 'ensures only an input without further record is dropped',
                   z3.And(a[0].r == self.mi.r, z3.Not(zb(eng.gget(st, self.mi, 'ok'))), zval(eng.gget(st, self.mi, 'reads')) > 0), line)
        return (None,)

    def run(self, eng):
        st = State()
        op = obj(eng, st, 'op', const(eng, 'vt_op_size'))
        d = obj(eng, st, 'd', const(eng, 'vt_priv_size'))
        self.mi = mi = obj(eng, st, 'input', const(eng, 'vt_input_size'))
        st, sp = get_obj(eng, st, 'vt_d', op)
        eng.put(st, sp.r, sp.off, 8, d)
        st, self.pq = get_obj(eng, st, 'vt_pq', d)
        st, rm = get_obj(eng, st, 'vt_remove', d)
        st, self.phc = get_obj(eng, st, 'vt_phc', mi)
        st, valid = get_obj(eng, st, 'vt_valid', mi)
        self.remove = z3.Bool('remove')
        eng.put(st, rm.r, rm.off, 1, IV(8, z3.If(self.remove, 1, 0), 0, 1, bool=self.remove))
        eng.put(st, valid.r, valid.off, 1, IV(8, 1, 0, 1, bool=True))
        u, l, v = fresh_hash(eng, st, self.phc, 'current')
        c = cell_iv(eng, st, PV(self.phc.r, self.phc.off + 24), 32, 'count')
        self.topcell = obj(eng, st, 'top', 8)
        eng.put(st, self.topcell.r, 0, 8, mi)
        e0 = z3.Bool('queue_empty')
        for f, x in (('empty', e0), ('pops', 0), ('pushes', 0)):
            eng.gset(st, self.pq, f, x)
        eng.gset(st, mi, 'reads', 0)
        eng.gset(st, mi, 'ok', True)
        out = obj(eng, st, 'result', 32)
        for s, r in eng.call_function(self.fn(eng, r'merger::MergeOperation::next\(\)$'), st, [out, op]):
            g = lambda f: eng.gget(s, self.pq, f)
            reads = eng.gget(s, mi, 'reads')
            u2, l2, v2 = hash_at(eng, s, out)
            c2 = rd(eng, s, PV(out.r, 24), 32)
            eng.oblige(s, 'ensures nothing is taken off an empty queue', z3.Implies(e0, z3.And(g('pops') == 0, g('pushes') == 0, reads == 0)))
            eng.oblige(s, 'ensures the result is the smallest record', z3.Implies(z3.Not(e0), z3.And(u2 == u, l2 == l, c2 == c, v2 == v)))
            eng.oblige(s, 'ensures the smallest record is taken off the queue', z3.Implies(z3.Not(e0), g('pops') == 1))
            eng.oblige(s, 'ensures one further record is read from its input', z3.Implies(z3.Not(e0), zval(reads) == 1))
            eng.oblige(s, 'ensures the input goes back exactly if it has a further record', z3.Implies(z3.Not(e0), z3.If(zb(eng.gget(s, mi, 'ok')), g('pushes') == 1, g('pushes') == 0)))


class Comparator(Unit):
    """the top of a priority_queue is an element that compares below none"""
    tu = 'merger.cpp'
    title = 'SmallestHashFirst'

    def run(self, eng):
        st = State()
        a, b = (obj(eng, st, n, const(eng, 'vt_input_size')) for n in ('a', 'b'))
        v = z3.Bool('valid')
        st, pa = get_obj(eng, st, 'vt_phc', a)
        st, pb = get_obj(eng, st, 'vt_phc', b)
        x = fresh_hash(eng, st, pa, 'a', v)
        y = fresh_hash(eng, st, pb, 'b', v)
        for s, r in eng.call_function(self.fn(eng, '@vt_less'), st, [a, b]):
            eng.oblige(s, 'ensures an input is on top exactly if no other has a smaller hash', bool_of(r) == lt128(y[0], y[1], x[0], x[1]))


class InputRead(Unit):
    tu = 'merger.cpp'
    contracts = (ReadRecord(),)
    lib = MODELS

    def __init__(self, fn, title, opened):
        self.f, self.title, self.opened = fn, title, opened

    def open_source(self, eng, st, nm):
        eng.oblige(st, 'the file opened is that of the input', sv_same(eng, st, nm, self.name))
        self.src = FileSrc('file')
        st.pc += self.src.axioms()
        return self.src, self.canopen

    def run(self, eng):
        st = State()
        self.mi = mi = obj(eng, st, 'input', const(eng, 'vt_input_size'))
        st, self.phc = get_obj(eng, st, 'vt_phc', mi)
        st, valid = get_obj(eng, st, 'vt_valid', mi)
        st, f = get_obj(eng, st, 'vt_f', mi)
        self.canopen = z3.Bool('canopen')
        self.name = SV.const(st, 'name')
        setstr(eng, st, mi, self.name)
        b = z3.Bool('oldvalid')
        if self.opened:
            eng.put(st, valid.r, valid.off, 1, IV(8, 0, 0, 1, bool=False))
            make_stream(eng, st, f, None, fresh=False, open=False)
        else:
            eng.put(st, valid.r, valid.off, 1, IV(8, z3.If(b, 1, 0), 0, 1, bool=b))
            make_stream(eng, st, f, FileSrc('file'))
        eng.gset(st, mi, 'reads', 0)
        eng.gset(st, mi, 'ok', False)
        for s, r in eng.call_function(self.fn(eng, '@' + self.f), st, [mi]):
            reads, ok = eng.gget(s, mi, 'reads'), zb(eng.gget(s, mi, 'ok'))
            v = rdb(eng, s, valid)
            if self.opened:
                eng.oblige(s, 'ensures the first record is read if the file can be opened', zval(reads) == z3.If(self.canopen, 1, 0))
            else:
                eng.oblige(s, 'ensures exactly one record is read', zval(reads) == 1)
                eng.oblige(s, 'ensures success is reported', bool_of(r) == ok)
            eng.oblige(s, 'ensures the input is valid exactly if a record was read', v == ok)


class Lemma(Unit):
    """the contracts of next() and of the queue imply the contract of next() that execute() relies on"""
    tu = 'merger.cpp'
    title = 'lemma: taking the smallest record of ascending inputs yields all records in ascending order'

    def run(self, eng):
        # last: the record returned last; a: the current record of an arbitrary input, t: of the input on top, t2: the one after it
        for same in (True, False):
            st = State()
            last, a, t, t2 = [(z3.Int(n + 'u'), z3.Int(n + 'l')) for n in ('last', 'a', 't', 't2')]
            for x in (last, a, t, t2):
                st.add(z3.And(x[0] >= 0, x[0] < M64, x[1] >= 0, x[1] < M64))
            st.add(le128(*last, *a))
            st.add(le128(*last, *t))
            st.add(z3.Not(lt128(*a, *t)))
            st.add(le128(*t, *t2))
            a2 = t2 if same else a
            eng.oblige(st, 'ensures the sequence ascends', le128(*last, *t))
            eng.oblige(st, 'ensures the current record of every input stays at or above the record returned last', le128(*t, *a2))
        # sums: what is returned and what remains always add up to what the inputs contained
        st = State()
        done, rem, c, tot = z3.Ints('done rem c tot')
        st.add(done + rem == tot)
        eng.oblige(st, 'ensures no record is lost or repeated', (done + c) + (rem - c) == tot)
        # the facts about IN and SEEN that execute() uses, by induction over the sequence
        st = State()
        j = z3.Int('j')
        st.add(z3.And(j >= 0, RC(j) >= 0))
        isx = z3.And(RU(j) == XU, RL(j) == XL)
        seen2, in2 = z3.Or(SEEN(j), isx), IN(j) + z3.If(isx, RC(j), 0)
        st.add(z3.Implies(z3.And(j >= 1, SEEN(j)), le128(XU, XL, RU(j - 1), RL(j - 1))))
        st.add(z3.Implies(j == 0, z3.Not(SEEN(j))))
        st.add(z3.Implies(j >= 1, le128(RU(j - 1), RL(j - 1), RU(j), RL(j))))
        st.add(z3.Implies(z3.Not(SEEN(j)), IN(j) == 0))
        st.add(IN(j) >= 0)
        eng.oblige(st, 'ensures a hash seen before is not above the record taken last', z3.Implies(seen2, le128(XU, XL, RU(j), RL(j))))
        eng.oblige(st, 'ensures a hash not seen has no count', z3.Implies(z3.Not(seen2), in2 == 0))
        eng.oblige(st, 'ensures sums grow', z3.And(in2 >= IN(j), in2 >= 0))


NAME = z3.Function('NAME', z3.IntSort(), S)
HASREC = z3.Function('HASREC', z3.IntSort(), z3.BoolSort())
Q = z3.Int('q')


class CopyFile:
    """InputFile(const InputFile &): the path of the original"""

    def matches(self, d, name):
        return d == 'merger::InputFile::InputFile(merger::InputFile const&)'

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        to, frm = a
        if frm.r == u.files.r:
            i = simp(z3.simplify(zval(frm.off) / u.stride))
            eng.oblige(st, 'requires one of the input files is copied', z3.And(zval(i) >= 0, zval(i) < u.n, zval(frm.off) == u.stride * zval(i)), line)
        else:
            i = eng.gget(st, frm, 'file')
            if i is None:
                raise Unsupported('copy of an unknown input file')
        eng.gset(st, to, 'file', zval(i))
        setstr(eng, st, to, SV.base(NAME(zval(i))))
        return [(st, None)]


class FirstRecord:
    """PasswordHashAndCount::read (proved in P08) on a freshly opened input"""

    def matches(self, d, name):
        return d == 'pwned::PasswordHashAndCount::read(std::istream&)'

    def apply(self, eng, st, a, I, line):
        rec, f = a
        i = eng.gget(st, PV(f.r, 0), 'opened')
        if i is None:
            raise Unsupported('read from a file that is not open')
        eng.oblige(st, 'ensures the first record is read only once', z3.Not(zb(eng.gget(st, PV(f.r, 0), 'has'))), line)
        for o, w in ((0, 8), (8, 8), (24, 4)):
            eng.put(st, rec.r, rec.off + o, w, eng.iv_fresh(st, 8 * w, eng.fresh_name('first')))
        eng.gset(st, PV(f.r, 0), 'has', True)
        return [(st, BoolV(HASREC(zval(i))))]


class Push:
    def matches(self, d, name):
        return re.match(PQ + r'push\(', d)

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        x = eng.load(st, a[1], ('ptr',))
        i = eng.gget(st, x, 'opened')
        if i is None:
            raise Unsupported('an input without open file is queued')
        eng.oblige(st, 'ensures only inputs with a record are queued', z3.And(zb(eng.gget(st, x, 'has')), HASREC(i)), line)
        eng.oblige(st, 'ensures an input is queued once', z3.Not(z3.And(i == Q, zb(eng.gget(st, u.d, 'inq')))), line)
        eng.gset(st, u.d, 'inq', z3.Or(zb(eng.gget(st, u.d, 'inq')), i == Q))
        return [(st, None)]


def m_open_input(eng, st, a, I, line, d):
    """opening succeeds exactly for files that can be read; HASREC(i): file i can be opened and has a complete first record"""
    f = a[0]
    nm = getstr(eng, st, a[1])
    ps = nm.parts
    t = ps[0][0] if len(ps) == 1 and isinstance(ps[0], tuple) else None
    if t is None or not z3.is_app(t) or t.decl().name() != 'NAME':
        eng.oblige(st, 'ensures the file of the input is opened', False, line)
        raise Unsupported('opening another file')
    i = t.arg(0)
    can = z3.Function('CANOPEN', z3.IntSort(), z3.BoolSort())(i)
    st.add(z3.Implies(HASREC(i), can))
    out = []
    for s, o in eng.fork(st, can):
        if o:
            eng.gset(s, PV(f.r, 0), 'opened', i)
            eng.gset(s, PV(f.r, 0), 'has', False)
        eng.gset(s, PV(f.r, 0), 'isopen', bool(o))
        out.append((s, None))
    return out


def m_input_is_open(eng, st, a, I, line, d):
    o = eng.gget(st, PV(a[0].r, 0), 'isopen')
    return (BoolV(False if o is None else o),)


def m_alloc(eng, st, a, I, line, d):
    n = eng.as_u(st, a[0])
    if not isinstance(n, int):
        raise Unsupported('allocation of unknown size')
    return (eng.new_region(st, 'heap', n, 'obj', lazy=False),)


def m_path_from(eng, st, a, I, line, d):
    setstr(eng, st, a[0], getstr(eng, st, a[1]))
    return (None,)


def m_size_of_file(eng, st, a, I, line, d):
    v = eng.iv_fresh(st, 64, eng.fresh_name('filesize'))
    p = obj(eng, st, 'filesize', 8)
    eng.put(st, p.r, 0, 8, v)
    return (p,)


class Build(Unit):
    """MergeOperationPrivate: for an arbitrary input q: it is queued exactly if it has a record"""
    tu = 'merger.cpp'
    title = 'MergeOperationPrivate::MergeOperationPrivate'
    contracts = (CopyFile(), FirstRecord(), Push())
    lib = [(r'std::ifstream::open(<.*>)?\(', m_open_input), (r'std::ifstream::is_open\(\)', m_input_is_open),
           (r'operator new(\[\])?\(unsigned long\)$', m_alloc), (r'boost::filesystem::path::path\(std::string const&\)$', m_path_from),
           (r'std::priority_queue<.*>::priority_queue<', lib.m_void), (r'Lazy<unsigned long>::value\(\)', m_size_of_file),
           (r'(merger::MergerInput::~MergerInput|merger::InputFile::~InputFile)\(\)$', lib.m_void),
           (r'std::ifstream::basic_ifstream\(\)$', lib.m_void)] + MODELS

    def __init__(self):
        self.candgens = (self.cands, seq_candidates(None))

    def bounds(self, eng):
        return [self.n, self.stride * self.n]

    def cands(self, ctx):
        out = []
        for nm, g, w, stride, n in positions(ctx):
            ix = (lambda s, g=g, k=stride: g(s) / k)

            def f(s, ix=ix):
                return zb(ctx.eng.gget(s, self.d, 'inq')) == z3.And(Q < ix(s), HASREC(Q))
            out.append(('inputs before %s are queued' % nm, f))
        return out

    def run(self, eng):
        st = State()
        self.d = d = obj(eng, st, 'd', const(eng, 'vt_priv_size'))
        self.n = n = z3.Int('n')
        st.add(z3.And(n >= 0, n < 1 << 32, Q >= 0, Q < n))
        self.stride = const(eng, 'vt_file_size')
        vec = obj(eng, st, 'srcFiles', 24)
        self.files = vector_of(eng, st, vec, SeqMem(self.stride, n, [], 'input file'))
        dst = obj(eng, st, 'dstFilename', 32)
        nm = SV.const(st, 'dstname')
        setstr(eng, st, dst, nm)
        rm = z3.Bool('remove')
        cb = obj(eng, st, 'callback', 8)
        eng.gset(st, d, 'inq', False)
        for s, r in eng.call_function(self.fn(eng, r'MergeOperationPrivate::MergeOperationPrivate\('), st, [d, vec, dst, BoolV(rm), cb]):
            eng.oblige(s, 'ensures every input with a record is queued, and no other', zb(eng.gget(s, d, 'inq')) == HASREC(Q))
            s, p = get_obj(eng, s, 'vt_dstpath', d)
            eng.oblige(s, 'ensures the destination is the one given', sv_same(eng, s, getstr(eng, s, p), nm))
            s, p = get_obj(eng, s, 'vt_remove', d)
            eng.oblige(s, 'ensures inputs are removed only if asked for', rdb(eng, s, p) == rm)
            s, p = get_obj(eng, s, 'vt_progress', d)
            x = eng.load(s, p, ('ptr',))
            eng.oblige(s, 'ensures the callback is the one given', isinstance(x, PV) and x.r == cb.r)


def merge_units():
    return [Build(), Execute(False), Execute(True), NextUnit(), Comparator(), InputRead('vt_mi_open', 'MergerInput::open', True),
            InputRead('vt_mi_read', 'MergerInput::read', False), Lemma()]
