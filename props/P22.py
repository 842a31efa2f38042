"""Sizes and durations."""
from .common import *
from irv import fp
from irv.lib import cstr, printf_text, fixed_text, num_text, sv_same
from fractions import Fraction


class StringFormat:
    """contract of pwned::string_format, proved by its own unit: the text printf would print"""

    def matches(self, d, name):
        return d.startswith('pwned::string_format(')

    def apply(self, eng, st, a, I, line):
        f = getstr(eng, st, a[1]).is_lit()
        if f is None:
            raise Unsupported('format is not constant')
        setstr(eng, st, a[0], printf_text(eng, st, f, a[2:]))
        return [(st, None)]


class CBuf:
    """a heap buffer of characters that holds a text"""

    def load(self, eng, st, r, off, ty, line):
        raise Unsupported('byte access to a character buffer')

    def store(self, eng, st, r, off, ty, v, line):
        raise Unsupported('byte access to a character buffer')


def m_newbuf(eng, st, a, I, line, d):
    p = eng.new_region(st, 'buffer', None, 'heap', handler=CBuf())
    eng.gset(st, p, 'size', zval(eng.as_u(st, a[0])))
    return (p,)


def m_strcpy(eng, st, a, I, line, d):
    sv = cstr(eng, st, a[1])
    eng.oblige(st, 'the text copied fits into the buffer', zval(sv.length()) + 1 <= eng.gget(st, PV(a[0].r, 0), 'size'), line)
    eng.gset(st, a[0], 'cstr', sv)
    return (a[0],)


def m_vsnprintf(eng, st, a, I, line, d):
    T = eng.cur.text
    n = zval(eng.as_u(st, a[1]))
    eng.oblige(st, 'vsnprintf is given the size of the buffer', n <= eng.gget(st, PV(a[0].r, 0), 'size'), line)
    eng.oblige(st, 'vsnprintf is given the format', sv_same(eng, st, cstr(eng, st, a[2]), eng.cur.fmt), line)
    L = T.length()
    out = []
    for s, fits in eng.fork(st, L < n):
        s_t = T if fits else T.sub(eng, s, 0, n - 1)
        eng.gset(s, a[0], 'cstr', s_t)
        out.append((s, IV(32, L, 0, 1 << 30)))
    return out


class Format(Unit):
    tu = 'util.cpp'
    title = 'string_format returns all of the text'
    lib = [(r'operator new\[\]\(unsigned long\)$', m_newbuf), (r'strcpy$', m_strcpy), (r'vsnprintf$', m_vsnprintf)]

    def unroll(self, fr, L):
        return True

    def run(self, eng):
        f = self.fn(eng, r'pwned::string_format\(')
        st = State()
        self.fmt, self.text = SV.const(st, 'format'), SV.const(st, 'text')
        st.add(z3.And(self.fmt.length() < (1 << 29), self.text.length() < (1 << 30)))
        out, p = obj(eng, st, 'result', 32), obj(eng, st, 'fmt', 32)
        setstr(eng, st, p, self.fmt)
        eng.used_models['assumed contract: vsnprintf returns the length of the whole text and writes as much of it as fits'] = 1
        for s, r in eng.call_function(f, st, [out, p]):
            eng.oblige(s, 'ensures all of the text is returned', sv_same(eng, s, getstr(eng, s, out), self.text))


def same(eng, s, out, *pieces):
    ps = []
    for p in pieces:
        ps += list(p.parts) if isinstance(p, SV) else [p]
    return sv_same(eng, s, getstr(eng, s, out), SV(ps))


class Size(Unit):
    tu = 'util.cpp'
    title = 'readableSize'
    contracts = (StringFormat(),)
    reals = True

    def run(self, eng):
        f = self.fn(eng, r'pwned::readableSize\b.*\(unsigned long\)')
        for nm, lo, hi, k in (('TB', (1 << 40) + 1, M64 - 1, 40), ('GB', (1 << 30) + 1, 1 << 40, 30), ('MB', (1 << 20) + 1, 1 << 30, 20),
                              ('KB', 1025, 1 << 20, 10), ('B', 0, 1024, 0)):
            st = State()
            n = z3.Int('size')
            st.add(z3.And(n >= lo, n <= hi))
            out = obj(eng, st, 'result', 32)
            for s, r in eng.call_function(f, st, [out, IV(64, n, lo, hi)]):
                if k:
                    v = FV(None, 'double', None, fp.of_int(eng, s, n, 'double') * fp.rv(Fraction(1, 1 << k)))
                    t = fixed_text(s, v, 1)
                    eng.oblige(s, 'ensures the size in %s with one decimal' % nm, same(eng, s, out, t, (' ' + nm).encode()))
                else:
                    eng.oblige(s, 'ensures the size in bytes', same(eng, s, out, num_text(eng, s, n, 10, 0, 32, False), b' B'))


class Time(Unit):
    tu = 'util.cpp'
    contracts = (StringFormat(),)
    reals = True
    timeout_ms = 60000
    budget = 250

    CASES = [('days', 86400, 1 << 31), ('hours', 3600, 86400), ('minutes', 60, 3600), ('seconds', 0, 60)]

    def __init__(self, i):
        self.nm, self.lo, self.hi = self.CASES[i]
        self.title = 'readableTime, starting with ' + self.nm

    def run(self, eng):
        f = self.fn(eng, r'pwned::readableTime\b.*\(double\)')
        st = State()
        t = z3.Real('t')
        lo, hi = self.lo, self.hi
        R = z3.Int('seconds')
        if self.nm == 'seconds':
            st.add(z3.And(t >= 0, fp.cmp('lt', t, fp.rv(60), 'double'), fp.rnd(eng, st, t, 'double') == t))
        else:
            st.add(z3.And(R == fp.to_integral('round', t), R >= lo, R < hi, t >= 60))
        out = obj(eng, st, 'result', 32)
        for s, r in eng.call_function(f, st, [out, FV(z3.Const('t_f', FSORT), 'double', (Fraction(0), Fraction(hi)), t)]):
            if self.nm == 'seconds':
                eng.oblige(s, 'ensures seconds with four decimals', same(eng, s, out, fixed_text(s, FV(None, 'double', None, t), 4), b's'))
                continue
            D, H, M, X = (z3.Int(x) for x in ('days', 'hours', 'mins', 'secs'))
            s.add(z3.And(D == R / 86400, H == (R - 86400 * D) / 3600, M == (R - 86400 * D - 3600 * H) / 60, X == R - 86400 * D - 3600 * H - 60 * M))
            eng.oblige(s, 'lemma: the parts are in range', z3.And(D >= 0, H >= 0, H < 24, M >= 0, M < 60, X >= 0, X < 60))
            num = lambda x: num_text(eng, s, x, 10, 0, 32, False)
            parts = [num(D), b'd ', num(H), b'h ', num(M), b'm ', num(X), b's']
            parts = parts[{'days': 0, 'hours': 2, 'minutes': 4}[self.nm]:]
            g = same(eng, s, out, *parts)
            for c in (g.children() if z3.is_and(g) else [g]):
                eng.oblige(s, 'ensures the parts that add up to the duration', c)


def units(tier):
    return [Format(), Size(), Time(0), Time(1), Time(2), Time(3)]


harness = dict(src='P22.cpp', repo=['pwned-lib/util.cpp'], libs=[], flags=['-DBOOST_ALL_NO_LIB'])

assumptions = ['std::string members by their contracts over sequences of bytes (irv/lib.py)',
               'vsnprintf returns the length of the whole text and writes as much of it as fits; printf rounds correctly']
