from .strings import *


class Decode(Unit):
    tu = 'util.cpp'
    title = 'decodeHex'

    def run(self, eng):
        st = State()
        c = eng.iv_fresh(st, 8, 'c')
        hv = hexval_def(st, c.t)
        for s, r in eng.call_function(self.fn(eng, r'pwned::decodeHex\('), st, [c]):
            x = zval(eng.as_s(s, r))
            eng.oblige(s, 'ensures a hex digit yields its value', z3.Implies(hv >= 0, x == hv))
            eng.oblige(s, 'ensures any other character is reported', z3.Implies(hv < 0, x < 0))


class PopCnt(Unit):
    tu = 'util.cpp'
    dom = 'bv'
    title = 'popcnt64'
    timeout_ms = 60000

    def run(self, eng):
        st = State()
        x = z3.BitVec('x', 64)
        for s, r in eng.call_function(self.fn(eng, r'pwned::popcnt64\('), st, [IV(64, x)]):
            n = sum([z3.ZeroExt(25, z3.Extract(i, i, x)) if False else z3.ZeroExt(31, z3.Extract(i, i, x)) for i in range(64)])
            eng.oblige(s, 'ensures the number of bits set', r.t == n)


def text_candidates(ctx):
    """invariants relating the text built so far to the loop counters"""
    e = ctx.eng
    u = e.cur
    out = []
    texts = [m for m in sorted(ctx.mods, key=repr) if m[0] == 'ghost' and isinstance(ctx.st0.ghost.get(m[1]), SV)]
    for nm, g, w in ctx.ints():
        out.append((nm + ' even', lambda s, g=g: g(s) % 2 == 0))
        out.append((nm + ' <= 2*bad', lambda s, g=g: g(s) <= 2 * u.bad))
        out.append((nm + ' <= n', lambda s, g=g: g(s) <= u.n))
        for m in texts:
            out.append(('2*len(text) == ' + nm, lambda s, g=g, m=m: 2 * zval(s.ghost[m[1]].length()) == g(s)))
            out.append(('len(text) == ' + nm, lambda s, g=g, m=m: zval(s.ghost[m[1]].length()) == g(s)))
    for m in texts:
        def content(s, m=m):
            sv = s.ghost[m[1]]
            return z3.Implies(z3.And(u.k >= 0, u.k < zval(sv.length())), zval(sv.at(e, s, u.k)) == u.byte)
        out.append(('text[k] is the byte spelt', content))
    return out


class HexSeq(Unit):
    """hexToCharSeq for a text of even length; `hexonly`: all characters are hex digits; otherwise one is not"""
    tu = 'util.cpp'
    candgens = (text_candidates,)

    def __init__(self, hexonly):
        self.hexonly = hexonly
        self.title = 'hexToCharSeq, text of pairs of hex digits' if hexonly else 'hexToCharSeq, text of even length with another character'
        self.contracts = (DecodeHex(self.on_char),)

    def on_char(self, eng, st, c, t):
        if self.hexonly and c.decl().eq(sat):
            i = c.arg(1)
            st.add(z3.Implies(z3.And(i >= 0, i < self.n, c == sat(z3.Const('seq', S), i)), t >= 0))

    def bounds(self, eng):
        return [self.n]

    def run(self, eng):
        st = State()
        q, r0 = obj(eng, st, 'seq', 32), obj(eng, st, 'result', 32)
        sv = SV.const(st, 'seq')
        setstr(eng, st, q, sv)
        setstr(eng, st, r0, SV.const(st, 'oldresult'))
        self.n = sv.length()
        self.k, self.bad = z3.Int('k'), z3.Int('bad')
        st.add(self.n % 2 == 0)
        st.add(z3.And(self.k >= 0, 2 * self.k < self.n))
        hi, lo = sv.at(eng, st, 2 * self.k), sv.at(eng, st, 2 * self.k + 1)
        self.byte = 16 * hexval_def(st, hi) + hexval_def(st, lo)
        if self.hexonly:
            st.add(z3.And(hexval(hi) >= 0, hexval(lo) >= 0))
            st.add(self.bad == self.n)
        else:
            st.add(z3.And(self.bad >= 0, 2 * self.bad < self.n))
            b1, b2 = sv.at(eng, st, 2 * self.bad), sv.at(eng, st, 2 * self.bad + 1)
            st.add(z3.Or(hexval_def(st, b1) < 0, hexval_def(st, b2) < 0))
        for s, r in eng.call_function(self.fn(eng, r'pwned::hexToCharSeq\('), st, [q, r0]):
            got = getstr(eng, s, r0)
            if self.hexonly:
                eng.oblige(s, 'ensures the text is decodable', bool_of(r))
                eng.oblige(s, 'ensures half as many bytes', 2 * zval(got.length()) == self.n)
                eng.oblige(s, 'ensures every byte is the one spelt', zval(got.at(eng, s, self.k)) == self.byte)
            else:
                eng.oblige(s, 'ensures the text is reported as undecodable', z3.Not(bool_of(r)))


class HexEmpty(Unit):
    tu = 'util.cpp'
    title = 'hexToCharSeq, empty text'
    contracts = (DecodeHex(),)
    candgens = ()

    def run(self, eng):
        st = State()
        q, r0 = obj(eng, st, 'seq', 32), obj(eng, st, 'result', 32)
        setstr(eng, st, q, SV([]))
        setstr(eng, st, r0, SV.const(st, 'oldresult'))
        for s, r in eng.call_function(self.fn(eng, r'pwned::hexToCharSeq\('), st, [q, r0]):
            eng.oblige(s, 'ensures no byte and success', z3.And(bool_of(r), zval(getstr(eng, s, r0).length()) == 0))


def units(tier):
    return [Decode(), PopCnt(), HexSeq(True), HexSeq(False), HexEmpty()]


harness = dict(src='P14.cpp', repo=['pwned-lib/util.cpp'])

assumptions = ['std::string members by their contracts over sequences of bytes (irv/lib.py)']
