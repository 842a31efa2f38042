from .common import *


class CompareUnit(Unit):
    """postcondition of one comparison operator: its result is the comparison of the 128-bit numbers"""
    tu = 'hash.cpp'

    def __init__(self, sym, name, spec, phc=False):
        self.sym, self.spec = sym, spec
        self.title = name

    def run(self, eng):
        st = State()
        a, b = obj(eng, st, 'a', 32), obj(eng, st, 'b', 32)
        A = fresh_hash(eng, st, a, 'a')
        Bh = fresh_hash(eng, st, b, 'b')
        pre = st.pc[:]
        for s, r in eng.call_function(self.fn(eng, '@' + self.sym), st, [a, b]):
            eng.oblige(s, 'ensures ' + self.title, bool_of(r) == self.spec(A, Bh))
            for p, X in ((a, A), (b, Bh)):
                u, l, v = hash_at(eng, s, p)
                eng.oblige(s, 'assigns nothing', z3.And(u == X[0], l == X[1], v == X[2]))


def lt(x, y):
    # lexicographic on (upper, lower) is the numeric order of upper * 2^64 + lower (lemma below)
    return z3.Or(x[0] < y[0], z3.And(x[0] == y[0], x[1] < y[1]))


def eq(x, y):
    return z3.And(x[0] == y[0], x[1] == y[1], x[2] == y[2])


def same(x, y):
    return z3.And(x[0] == y[0], x[1] == y[1])


class OrderLemma(Unit):
    """from the postconditions alone: the operators form one total order, the numeric one"""
    tu = 'hash.cpp'
    title = 'lemma: the comparison contracts describe the total order of 128-bit numbers'

    def run(self, eng):
        st = State()
        H = []
        for n in 'abc':
            r = obj(eng, st, n, 32)
            H.append(fresh_hash(eng, st, r, n))
        a, b, c = H
        N = [num128(x[0], x[1]) for x in H]
        le = lambda x, y: z3.Or(eq(x, y), lt(x, y))
        o = lambda nm, g: eng.oblige(st, 'ensures ' + nm, g)
        o('a < b is the numeric comparison', lt(a, b) == (N[0] < N[1]))
        o('trichotomy among hashes of equal validity', z3.Implies(a[2] == b[2], z3.PbEq([(lt(a, b), 1), (eq(a, b), 1), (lt(b, a), 1)], 1)))
        o('transitivity of <', z3.Implies(z3.And(lt(a, b), lt(b, c)), lt(a, c)))
        o('transitivity of <=', z3.Implies(z3.And(le(a, b), le(b, c)), le(a, c)))
        o('antisymmetry', z3.Implies(z3.And(le(a, b), le(b, a)), eq(a, b)))
        o('a <= b iff not b < a, for equal validity', z3.Implies(a[2] == b[2], le(a, b) == z3.Not(lt(b, a))))


class CopyUnit(Unit):
    """copying, assigning, constructing"""
    tu = 'hash.cpp'

    def __init__(self, sym, title, kind):
        self.sym, self.title, self.kind = sym, title, kind

    def run(self, eng):
        st = State()
        k = self.kind
        d, s0 = obj(eng, st, 'dst', 32), obj(eng, st, 'src', 32)
        args = [d, s0]
        A = None
        c = None
        if k in ('copy', 'phc', 'make'):
            A = fresh_hash(eng, st, s0, 's')
            if k == 'phc':
                c = cell_iv(eng, st, PV(s0.r, 24), 32, 's_count')
            if k == 'make':
                v = eng.iv_fresh(st, 32, 'count')
                c = v.t
                args.append(v)
        elif k == 'two':
            u, l = eng.iv_fresh(st, 64, 'u'), eng.iv_fresh(st, 64, 'l')
            args = [d, u, l]
            A = (u.t, l.t, z3.BoolVal(True))
        else:
            args = [d]
            A = (z3.IntVal(0), z3.IntVal(0), z3.BoolVal(False))
            c = z3.IntVal(0) if k == 'phcdefault' else None
        for s, r in eng.call_function(self.fn(eng, '@' + self.sym), st, args):
            u, l, v = hash_at(eng, s, d)
            eng.oblige(s, 'ensures the result has the value given', z3.And(u == A[0], l == A[1], v == A[2]))
            if c is not None:
                eng.oblige(s, 'ensures the count is the one given', rd(eng, s, PV(d.r, 24), 32) == c)
            if k in ('copy', 'phc', 'make'):
                u, l, v = hash_at(eng, s, s0)
                eng.oblige(s, 'assigns only the destination', z3.And(u == A[0], l == A[1], v == A[2]))


def units(tier):
    return [
        CompareUnit('vt_eq', 'operator==(Hash, Hash)', eq),
        CompareUnit('vt_ne', 'operator!=(Hash, Hash)', lambda a, b: z3.Not(eq(a, b))),
        CompareUnit('vt_lt', 'operator<(Hash, Hash)', lt),
        CompareUnit('vt_le', 'operator<=(Hash, Hash)', lambda a, b: z3.Or(eq(a, b), lt(a, b))),
        CompareUnit('vt_gt', 'operator>(Hash, Hash)', lambda a, b: lt(b, a)),
        CompareUnit('vt_ge', 'operator>=(Hash, Hash)', lambda a, b: z3.Or(eq(a, b), lt(b, a))),
        CompareUnit('vt_less', 'HashLess', lt),
        CompareUnit('vt_phcless', 'PasswordHashAndCountLess', lt),
        CompareUnit('vt_phceq', 'operator==(PasswordHashAndCount, PasswordHashAndCount)', eq),
        CopyUnit('vt_copy', 'Hash(const Hash &)', 'copy'),
        CopyUnit('vt_assign', 'Hash::operator=', 'copy'),
        CopyUnit('vt_phccopy', 'PasswordHashAndCount copy', 'phc'),
        CopyUnit('vt_phcassign', 'PasswordHashAndCount assignment', 'phc'),
        CopyUnit('vt_phcmake', 'PasswordHashAndCount(Hash, count)', 'make'),
        CopyUnit('vt_default', 'Hash()', 'default'),
        CopyUnit('vt_phcdefault', 'PasswordHashAndCount()', 'phcdefault'),
        CopyUnit('vt_two', 'Hash(upper, lower)', 'two'),
        OrderLemma(),
    ]


harness = dict(src='P06.cpp', repo=['pwned-lib/hash.cpp', 'pwned-lib/util.cpp'])

assumptions = ['none beyond the trusted base: the functions are verified down to the machine words']
