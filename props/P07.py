from .strings import *


class FromHex(Unit):
    tu = 'hash.cpp'
    title = 'Hash::fromHex'
    contracts = (DecodeHex(),)

    def unroll(self, fr, L):
        return True

    def run(self, eng):
        st = State()
        out, s0 = obj(eng, st, 'result', 32), obj(eng, st, 'seq', 32)
        sv = SV.const(st, 'seq')
        setstr(eng, st, s0, sv)
        n = sv.length()
        ds = []
        for i in range(32):
            ds.append(hexval_def(st, sv.at(eng, st, i)))
        allhex = z3.And(n == 32, *[d >= 0 for d in ds])
        U = sum(ds[i] * 16 ** (15 - i) for i in range(16))
        L = sum(ds[16 + i] * 16 ** (15 - i) for i in range(16))
        k = 0
        for s, r in eng.call_function(self.fn(eng, r'pwned::Hash::fromHex\('), st, [out, s0]):
            u, l, v = hash_at(eng, s, out)
            eng.oblige(s, 'ensures valid exactly for 32 hex digits', v == allhex)
            eng.oblige(s, 'ensures the number is the one spelt', z3.Implies(v, z3.And(u == U, l == L)))


class ToString(Unit):
    tu = 'hash.cpp'

    def __init__(self, upper):
        self.upper = upper
        self.title = 'Hash::toString(%s)' % ('true' if upper else 'false')

    def run(self, eng):
        st = State()
        out, h = obj(eng, st, 'result', 32), obj(eng, st, 'h', 32)
        u, l, v = fresh_hash(eng, st, h, 'h')
        for s, r in eng.call_function(self.fn(eng, r'pwned::Hash::toString\('), st, [out, h, BoolV(self.upper)]):
            got = getstr(eng, s, out)
            want = SV([Ch(hexdigit(s, mk_mod(mk_div(x, 16 ** (15 - i)), 16), self.upper)) for x in (u, l) for i in range(16)])
            eng.oblige(s, 'ensures the 32 digits of the number', sv_same(eng, s, got, want))
            x = hash_at(eng, s, h)
            eng.oblige(s, 'assigns nothing', z3.And(x[0] == u, x[1] == l, x[2] == v))


class Print(Unit):
    tu = 'hash.cpp'
    title = 'operator<<(ostream, Hash)'

    def run(self, eng):
        st = State()
        o, h = obj(eng, st, 'os', 600), obj(eng, st, 'h', 32)
        u, l, v = fresh_hash(eng, st, h, 'h')
        make_ostream(eng, st, o, lib.StrSink())
        eng.gset(st, o, 'text', SV([]))
        for s, r in eng.call_function(self.fn(eng, r'pwned::operator<<\(std::ostream&, pwned::Hash'), st, [o, h]):
            want = SV([Ch(hexdigit(s, mk_mod(mk_div(x, 16 ** (15 - i)), 16), False)) for x in (u, l) for i in range(16)])
            eng.oblige(s, 'ensures prints the lower-case digits', sv_same(eng, s, eng.gget(s, o, 'text'), want))


class Ctor(Unit):
    tu = 'hash.cpp'
    title = 'Hash(const std::string &)'
    contracts = (MD5Contract(),)

    def run(self, eng):
        st = State()
        h, p = obj(eng, st, 'h', 32), obj(eng, st, 'pwd', 32)
        sv = SV.const(st, 'pwd')
        setstr(eng, st, p, sv)
        for s, r in eng.call_function(self.fn(eng, r'pwned::Hash::Hash\(std::string const&\)$'), st, [h, p]):
            u, l, v = hash_at(eng, s, h)
            t = sv.term()
            eng.oblige(s, 'ensures the number is the MD5 digest, first byte first',
                       z3.And(u == md5_num(s, t, 0), l == md5_num(s, t, 8)))
            eng.oblige(s, 'ensures the hash is valid', v)


class ParsePrint(Unit):
    tu = 'hash.cpp'
    title = 'lemma: printing parses back'

    def run(self, eng):
        st = State()
        x = z3.Int('x')
        st.add(z3.And(x >= 0, x < M64))
        for up in (False, True):
            ds = []
            for i in range(16):
                d = mk_mod(mk_div(x, 16 ** (15 - i)), 16)
                c = hexdigit(st, d, up)
                st.add(z3.And(d >= 0, d < 16))
                ds.append((hexval_def(st, c), d))
            for i, (hv, d) in enumerate(ds):
                eng.oblige(st, 'ensures digit %d of the text decodes to that digit (%s)' % (i, up), hv == d)
        # the digits spell the number (bit-vector proof)
        b = z3.BitVec('b', 64)
        t = z3.BitVecVal(0, 64)
        for i in range(16):
            t = t * 16 + (z3.LShR(b, 4 * (15 - i)) & 15)
        s2 = State()
        eng.oblige(s2, 'ensures the 16 digits spell the 64-bit number', t == b)


def units(tier):
    return [FromHex(), ToString(False), ToString(True), Print(), Ctor(), ParsePrint()]


harness = dict(src='P07.cpp', repo=['pwned-lib/hash.cpp', 'pwned-lib/util.cpp'])

assumptions = ['std::string members by their contracts over sequences of bytes (irv/lib.py)',
               'ostream << setw/setfill/hex prints as documented',
               'MD5() of OpenSSL is an uninterpreted function of the bytes given to it']
