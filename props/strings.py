"""contracts about text shared by several properties"""
from .common import *
from irv.lib import SV, Ch, hexdigit, sv_same

hexval = z3.Function('hexval', z3.IntSort(), z3.IntSort())


def hexval_def(st, c):
    """value of a hex digit, -1 for any other character (c in 0..255)"""
    c = zval(c)
    t = hexval(c)
    st.add(t == z3.If(z3.And(c >= 48, c <= 57), c - 48,
                      z3.If(z3.And(c >= 97, c <= 102), c - 87,
                            z3.If(z3.And(c >= 65, c <= 70), c - 55, -1))))
    return t


class DecodeHex:
    """contract of pwned::decodeHex (proved in P14)"""

    def __init__(self, on_char=None):
        self.on_char = on_char

    def matches(self, d, name):
        return d == 'pwned::decodeHex(char)'

    def apply(self, eng, st, a, I, line):
        c = eng.as_u(st, a[0])
        t = hexval_def(st, c)
        if self.on_char:
            self.on_char(eng, st, zval(c), t)
        # the contract promises a negative number for other characters, not which
        r = z3.Function('decodeHex', z3.IntSort(), z3.IntSort())(zval(c))
        st.add(z3.If(t >= 0, r == t, z3.And(r < 0, r >= -(1 << 31))))
        return [(st, IV(32, r, -(1 << 31), 15))]


md5b = z3.Function('md5byte', S, z3.IntSort(), z3.IntSort())


def md5_num(st, t, i0):
    bs = [md5b(t, z3.IntVal(i0 + i)) for i in range(8)]
    for b in bs:
        st.add(z3.And(b >= 0, b < 256))
    return sum(b * (1 << (8 * (7 - i))) for i, b in enumerate(bs))


class MD5Contract:
    """MD5 of OpenSSL: trusted, an uninterpreted function of the text hashed"""

    def matches(self, d, name):
        return name == '@MD5'

    def apply(self, eng, st, a, I, line):
        p = a[0]
        r = st.mem.get(p.r)
        if r is None or not isinstance(r.handler, lib.StrData):
            raise Unsupported('MD5 of raw memory')
        sv = getstr(eng, st, r.handler.owner).sub(eng, st, p.off, None)
        n = zval(eng.as_u(st, a[1]))
        eng.oblige(st, 'MD5 stays inside the text', n <= zval(sv.length()), line)
        sv = sv.sub(eng, st, 0, simp(n))
        sv.facts(st)
        t = sv.term()
        for i in range(16):
            b = md5b(t, z3.IntVal(i))
            st.add(z3.And(b >= 0, b < 256))
            eng.store(st, PV(a[2].r, a[2].off + i), ('i', 8), IV(8, b, 0, 255), line)
        return [(st, a[2])]


md5_upper = z3.Function('md5_upper', S, z3.IntSort())
md5_lower = z3.Function('md5_lower', S, z3.IntSort())


def md5_of(st, sv):
    """the two halves of the MD5 digest of a text (the contract of Hash(string), proved in P07, names them)"""
    sv.facts(st)
    t = sv.term()
    u, l = md5_upper(t), md5_lower(t)
    for x in (u, l):
        st.add(z3.And(x >= 0, x < M64))
    return u, l


class HashOfText:
    """contract of Hash::Hash(const std::string &), proved in P07"""

    def matches(self, d, name):
        return d == 'pwned::Hash::Hash(std::string const&)'

    def apply(self, eng, st, a, I, line):
        u, l = md5_of(st, getstr(eng, st, a[1]))
        eng.put(st, a[0].r, a[0].off, 8, IV(64, u, 0, M64 - 1))
        eng.put(st, a[0].r, eng.coff(a[0].off) + 8, 8, IV(64, l, 0, M64 - 1))
        eng.store(st, PV(a[0].r, a[0].off + 16), ('i', 8), IV(8, 1))
        return [(st, None)]
