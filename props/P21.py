from .strings import *


class Print(Unit):
    tu = 'uuid.cpp'
    title = 'operator<<(ostream, UUID)'

    def run(self, eng):
        st = State()
        o, p = obj(eng, st, 'os', 600), obj(eng, st, 'uuid', 16)
        a = cell_iv(eng, st, p, 64, 'uuid0')
        b = cell_iv(eng, st, PV(p.r, 8), 64, 'uuid1')
        make_ostream(eng, st, o, lib.StrSink())
        eng.gset(st, o, 'text', SV([]))
        for s, r in eng.call_function(self.fn(eng, r'pwned::operator<<\(std::ostream&, pwned::UUID'), st, [o, p]):
            ds = [Ch(hexdigit(s, mk_mod(mk_div(x, 16 ** (15 - i)), 16), True)) for x in (a, b) for i in range(16)]
            want = SV(ds[:8] + [b'-'] + ds[8:12] + [b'-'] + ds[12:16] + [b'-'] + ds[16:20] + [b'-'] + ds[20:])
            eng.oblige(s, 'ensures 8-4-4-4-12 upper-case digits of all 128 bits', sv_same(eng, s, eng.gget(s, o, 'text'), want))
            eng.oblige(s, 'assigns nothing of the UUID', z3.And(rd(eng, s, p, 64) == a, rd(eng, s, PV(p.r, 8), 64) == b))


class Equal(Unit):
    tu = 'uuid.cpp'
    title = 'UUID::operator=='

    def run(self, eng):
        st = State()
        x, y = obj(eng, st, 'x', 16), obj(eng, st, 'y', 16)
        v = [cell_iv(eng, st, PV(r.r, o), 64, n) for r, o, n in ((x, 0, 'x0'), (x, 8, 'x1'), (y, 0, 'y0'), (y, 8, 'y1'))]
        for s, r in eng.call_function(self.fn(eng, '@vt_uuideq'), st, [x, y]):
            eng.oblige(s, 'ensures equal exactly if all 128 bits are', bool_of(r) == z3.And(v[0] == v[2], v[1] == v[3]))


class Injective(Unit):
    tu = 'uuid.cpp'
    title = 'lemma: different UUIDs have different texts'

    def run(self, eng):
        st = State()
        x, y = z3.BitVecs('x y', 64)
        st.add(z3.And(*[z3.LShR(x, 4 * i) & 15 == z3.LShR(y, 4 * i) & 15 for i in range(16)]))
        eng.oblige(st, 'ensures the digits determine the number', x == y)
        s2 = State()
        d, e = z3.Ints('d e')
        s2.add(z3.And(d >= 0, d < 16, e >= 0, e < 16))
        eng.oblige(s2, 'ensures the digit characters determine the digits',
                   z3.Implies(hexdigit(s2, d, True) == hexdigit(s2, e, True), d == e))


def units(tier):
    return [Print(), Equal(), Injective()]


harness = dict(src='P21.cpp', repo=['pwned-lib/uuid.cpp'])
assumptions = ['the random number generator of UUID() is not specified here (any 128 bits)']
