"""main of the test set extractor, over the contracts of PasswordHashAndCount (P08) and PasswordInspector (P01)."""
from .strings import *
from . import P23
from .P23 import stored
from irv import po
from irv.lib import sv_same, Box, src_of

RU, RL, RC = (z3.Function('record_' + k, z3.IntSort(), z3.IntSort()) for k in ('upper', 'lower', 'count'))
SIZE = z3.Int('size of the hash file')
REC = 20


def g(st, k):
    return st.ghost[(None, 'set', k)]


def gset(eng, st, k, v):
    st.ghost[(None, 'set', k)] = v
    eng.log(('ghost', (None, 'set', k)))


class Input:
    """the hash file, read record by record"""


class Records:
    """PasswordHashAndCount::read and dump (P08)"""

    def matches(self, d, name):
        m = re.match(r'pwned::PasswordHashAndCount::(read|dump)\(', d)
        if m:
            self.what = m.group(1) + str(d.count(',') + 1)
        return m

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        q = lib.stream(eng, st, a[1])
        if self.what == 'read2':
            if not isinstance(src_of(eng, st, q), Input):
                raise Unsupported('record of another file')
            pos = zval(eng.as_s(st, a[2]))
            eng.oblige(st, 'ensures the hash file is open', zb(eng.gget(st, q, 'open')), line)
            eng.oblige(st, 'ensures whole records are read', pos % REC == 0, line)
            eng.oblige(st, 'ensures every record read is written', zval(g(st, 'owed')) == 0, line)
            eng.oblige(st, 'ensures no record is read twice', pos > zval(g(st, 'at')), line)
            u.lemma(st, zval(g(st, 'n')))
            out = []
            for s, ok in eng.fork(st, z3.And(pos >= 0, pos + REC <= SIZE)):
                hu, hl, _ = fresh_hash(eng, s, a[0], eng.fresh_name('record'))
                c = eng.iv_fresh(s, 32, 'count')
                eng.put(s, a[0].r, eng.coff(a[0].off) + u.count_at, 4, c)
                if ok:
                    s.add(z3.And(hu == RU(pos), hl == RL(pos), zval(eng.as_u(s, c)) == RC(pos)))
                    gset(eng, s, 'at', pos)
                    gset(eng, s, 'owed', 1)
                else:
                    gset(eng, s, 'failed', simp(zval(g(s, 'failed')) + 1))
                out.append((s, BoolV(z3.BoolVal(ok))))
            return out
        if self.what == 'dump1':
            u.output(eng, st, q)
            eng.oblige(st, 'ensures records are written only if no URLs are asked for', z3.Not(u.URLS), line)
            hu, hl, _ = hash_at(eng, st, a[0])
            u.wrote(eng, st, hu, hl, rd(eng, st, PV(a[0].r, eng.coff(a[0].off) + u.count_at), 32), line)
            return [(st, None)]
        raise Unsupported(self.what)


class Output:
    def write(self, eng, st, q, p, n, line):
        raise Unsupported('raw output')

    def piece(self, eng, st, q, sv):
        u = eng.cur
        c = st.user['carry']
        parts = list(c['pending']) + list(sv.parts)
        if not parts or not (isinstance(parts[-1], bytes) and parts[-1].endswith(b'\n')):
            st.user['carry'] = dict(c, pending=tuple(parts))
            return
        parts[-1] = parts[-1][:-1]
        st.user['carry'] = dict(c, pending=())
        eng.oblige(st, 'ensures URLs are written only if they are asked for', u.URLS)
        text = SV([p for p in parts if p != b''])
        hu, hl = u.current(eng, st)
        want = SV([*u.prefix.parts, *[Ch(hexdigit(st, mk_mod(mk_div(x, 16 ** (15 - i)), 16), False)) for x in (hu, hl) for i in range(16)]])
        eng.oblige(st, 'ensures a URL is the prefix followed by the hash', sv_same(eng, st, text, want))
        u.wrote(eng, st, hu, hl, None, None)


class Search(P23.Search):
    def apply(self, eng, st, a, I, line):
        u = eng.cur
        hu, hl, _ = hash_at(eng, st, a[2])
        eng.oblige(st, 'ensures every hash not in the file is written', zval(g(st, 'owed')) == 0, line)
        r = P23.Search.apply(self, eng, st, a, I, line)
        absent = stored(st, hu, hl) == 0
        st.user['searched'] = (hu, hl)
        gset(eng, st, 'owed', z3.If(absent, z3.IntVal(1), z3.IntVal(0)))
        gset(eng, st, 'found', simp(zval(g(st, 'found')) + z3.If(absent, 0, 1)))
        return r


def m_random(eng, st, a, I, line, d):
    return (eng.iv_fresh(st, 64, 'random'),)


TWISTER = r'std::mersenne_twister_engine<.*>::'


class Main(Unit):
    tu = 'testset.cpp'
    contracts = (Records(), P23.Construct(), Search())
    termination = True
    lib = [(r'(usage|hello|license|warranty)\(\)$', lib.m_void), (TWISTER + r'operator\(\)\(\)$', m_random), (TWISTER, lib.m_void),
           (r'pwned::PasswordInspector::~PasswordInspector\(\)$', lib.m_void)] + po.MODELS

    def __init__(self, absent, few=None):
        self.absent, self.few = absent, few
        self.title = 'main of the test set extractor, ' + ('hashes not in the file' if absent else 'no more records than asked for' if few else 'more records than asked for')

    @property
    def candgens(self):
        return [self.cands]

    def bounds(self, eng):
        return [SIZE, self.N.t]

    def option(self, eng, st, nm):
        if nm == 'test-urls':
            return IV(8, z3.If(self.URLS, 1, 0), 0, 1, bool=self.URLS)
        return {'input': self.iname, 'output': self.oname, 'num': self.N, 'non-existent': eng.iv_const(8, int(self.absent)), 'test-url-prefix': self.prefix}.get(nm)

    def file_size(self, eng, st, nm):
        eng.oblige(st, 'ensures the size is that of the hash file', sv_same(eng, st, nm, self.iname))
        return SIZE

    def open_source(self, eng, st, nm):
        eng.oblige(st, 'ensures the hash file is the one given', sv_same(eng, st, nm, self.iname))
        return Input(), self.READABLE

    def open_sink(self, eng, st, nm, mode):
        eng.oblige(st, 'ensures the output is the file given', sv_same(eng, st, nm, self.oname))
        m = zval(mode)
        eng.oblige(st, 'ensures the output starts empty, and is binary', z3.Or(*[m == x for x in (4, 20, 36, 52)]))
        return Output(), self.WRITABLE

    def output(self, eng, st, q):
        b = eng.gget(st, q, 'sink')
        eng.oblige(st, 'ensures the test set is written to the output', b is not None and isinstance(b.v, Output))

    def current(self, eng, st):
        """the hash to be written"""
        if not self.absent:
            return RU(zval(g(st, 'at'))), RL(zval(g(st, 'at')))
        if 'searched' not in st.user:
            raise Unsupported('a hash not searched for is written')
        return st.user['searched']

    def wrote(self, eng, st, hu, hl, count, line):
        if self.absent:
            eng.oblige(st, 'ensures the hash is not in the file', stored(st, hu, hl) == 0, line)
            eng.oblige(st, 'ensures each hash is written once', zval(g(st, 'owed')) == 1, line)
            if count is not None:
                eng.oblige(st, 'ensures the count of a hash not in the file is zero', count == 0, line)
        else:
            at = zval(g(st, 'at'))
            eng.oblige(st, 'ensures each record read is written once', zval(g(st, 'owed')) == 1, line)
            eng.oblige(st, 'ensures the hash is that of the record read', z3.And(hu == RU(at), hl == RL(at)), line)
            if count is not None:
                eng.oblige(st, 'ensures the count is that of the record read', count == RC(at), line)
        gset(eng, st, 'owed', 0)
        gset(eng, st, 'n', simp(zval(g(st, 'n')) + 1))

    def lemma(self, st, n):
        # multiplication is monotonic
        st.add(z3.Implies(n + 1 <= self.N.t, (n + 1) * self.STEP <= self.N.t * self.STEP))

    def cands(self, ctx):
        n = lambda s: zval(g(s, 'n'))
        out = [('nothing owed', lambda s: zval(g(s, 'owed')) == 0), ('some', lambda s: n(s) >= 0), ('failures', lambda s: z3.And(zval(g(s, 'failed')) >= 0, zval(g(s, 'failed')) <= 1, z3.Implies(zval(g(s, 'failed')) == 1, n(s) == self.WANT))), ('no more than there are', lambda s: n(s) * REC <= SIZE)]
        for nm, f, w in ctx.ints():
            out.append(('as many as %s' % nm, lambda s, f=f: n(s) == f(s)))
            out.append(('at most %s' % nm, lambda s, f=f: n(s) <= f(s)))
            out.append(('%s at most N' % nm, lambda s, f=f: f(s) <= self.N.t))
            out.append(('at most N - %s' % nm, lambda s, f=f: n(s) <= self.N.t - f(s)))
            if self.absent:
                out.append(('as many as %s and found' % nm, lambda s, f=f: n(s) + zval(g(s, 'found')) == f(s)))
                for k in (-1, 0, 1):
                    out.append(('%s%+d left' % (nm, k), lambda s, f=f, k=k: n(s) + zval(g(s, 'found')) + f(s) + k == self.N.t))
            else:
                out.append(('%s: tries' % nm, lambda s, f=f: n(s) + zval(g(s, 'failed')) == f(s)))
                for k in (-1, 0, 1):
                    out.append(('%s%+d left' % (nm, k), lambda s, f=f, k=k: n(s) + f(s) + k == self.N.t))
                    out.append(('%s%+d left, tries' % (nm, k), lambda s, f=f, k=k: n(s) + zval(g(s, 'failed')) + f(s) + k == self.N.t))
                out.append(('%s: at the next record to be selected' % nm, lambda s, f=f: z3.Or(z3.And(zval(g(s, 'failed')) == 0, f(s) == n(s) * self.STEP), z3.And(zval(g(s, 'failed')) == 1, f(s) >= SIZE, n(s) == self.WANT))))
            out.append(('%s past the last record' % nm, lambda s, f=f: f(s) - f(s) % REC > zval(g(s, 'at'))))
        return out

    def variants(self, eng, head):
        return []

    def run(self, eng):
        st = State()
        self.count_at = const(eng, 'vt_count_at')
        self.READABLE, self.WRITABLE, self.URLS = z3.Bool('readable'), z3.Bool('writable'), z3.Bool('urls')
        self.N = eng.iv_sfresh(st, 32, 'N')
        self.iname, self.oname, self.prefix = SV.const(st, 'input'), SV.const(st, 'output'), SV.const(st, 'prefix')
        self.xname = SV([])
        st.add(z3.And(zval(self.iname.length()) > 0, zval(self.oname.length()) > 0, SIZE >= 0, SIZE < 1 << 62))
        if not self.absent:
            # few: all records are selected; else N of them, evenly spread
            n = self.N.t
            st.add(z3.Implies(n >= 1, (SIZE < REC * n) == z3.BoolVal(self.few)))
            self.STEP = z3.IntVal(REC) if self.few else z3.Int('step')
            self.WANT = SIZE / REC if self.few else n
            if not self.few:
                st.add(z3.Implies(n >= 1, z3.And(self.STEP == SIZE / n, self.STEP >= REC, n * self.STEP <= SIZE)))
        for k, v in (('at', -1), ('owed', 0), ('n', 0), ('found', 0), ('failed', 0)):
            st.ghost[(None, 'set', k)] = v
        self.WANT = getattr(self, 'WANT', z3.IntVal(0))
        st.user['carry'] = dict(pending=())
        argv = eng.new_region(st, 'argv', 64, 'obj', lazy=True)
        for s, r in eng.call_function(self.fn(eng, '@main'), st, [eng.iv_fresh(st, 32, 'argc'), argv]):
            ok = zval(r.t) == 0
            eng.oblige(s, 'ensures success is told only if the hash file could be read and the output be written', z3.Implies(ok, z3.And(self.READABLE, self.WRITABLE)))
            eng.oblige(s, 'ensures every record read is written', zval(g(s, 'owed')) == 0)
            n = zval(g(s, 'n'))
            eng.oblige(s, 'ensures no more records are written than asked for', z3.Or(n == 0, n <= self.N.t))
            if self.absent:
                eng.oblige(s, 'ensures as many hashes are tried as asked for', z3.Implies(ok, n + zval(g(s, 'found')) >= self.N.t))
            else:
                self.lemma(s, n)
                eng.oblige(s, 'ensures as many records are selected as asked for, or all', z3.Implies(z3.And(ok, self.N.t >= 1), n == self.WANT))
            eng.oblige(s, 'ensures no line is left unfinished', not s.user['carry']['pending'])


def units_():
    return [Main(False, True), Main(False, False), Main(True)]
