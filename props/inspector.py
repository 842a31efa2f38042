"""Contracts of PasswordInspector: the file, the target of a search, the representation invariant."""
from .strings import *

REC = 20


class SortedFile:
    """a hash:count file with strictly ascending hashes, and a search target that is either
    the hash of record k (present) or would have to stand before record k (absent)"""

    def __init__(self, st, present, name='file'):
        self.src = FileSrc(name)
        self.present = present
        F = self.F = self.src.F
        self.n = z3.Int('nrec')
        st.pc += self.src.axioms()
        st.add(z3.And(self.n >= 0, F == REC * self.n, self.n < (1 << 55)))
        self.k = k = z3.Int('k')
        self.hu, self.hl = z3.Int('target_upper'), z3.Int('target_lower')
        for x in (self.hu, self.hl):
            st.add(z3.And(x >= 0, x < M64))
        if present:
            st.add(z3.And(k >= 0, k < self.n))
            self.count = self.src.le_at(st, 4, REC * k + 16)
            st.add(self.src.le_at(st, 8, REC * k) == self.hu)
            st.add(self.src.le_at(st, 8, REC * k + 8) == self.hl)
        else:
            st.add(z3.And(k >= 0, k <= self.n))
            self.count = z3.IntVal(0)
        self.src.on_read.append(self.on_read)

    def lt(self, u, l):
        return z3.Or(u < self.hu, z3.And(u == self.hu, l < self.hl))

    def gt(self, u, l):
        return z3.Or(u > self.hu, z3.And(u == self.hu, l > self.hl))

    def on_read(self, eng, st, pos, n):
        """instances of sortedness for the records read"""
        if n < 16:
            return
        for o in range(0, n, REC):
            if n - o >= 16:
                self.instance(eng, st, zval(simp(zval(pos + o))))

    def instance(self, eng, st, p):
        u, l = self.src.le_at(st, 8, p), self.src.le_at(st, 8, simp(p + 8))
        ok = z3.And(p % REC == 0, p >= 0, p + REC <= self.F)
        K = REC * self.k
        st.add(z3.Implies(z3.And(ok, p < K), self.lt(u, l)))
        if self.present:
            st.add(z3.Implies(z3.And(ok, p > K), self.gt(u, l)))
            st.add(z3.Implies(z3.And(ok, p == K), z3.And(u == self.hu, l == self.hl, self.src.le_at(st, 4, simp(p + 16)) == self.count)))
        else:
            st.add(z3.Implies(z3.And(ok, p >= K), self.gt(u, l)))


class Index:
    """the index of a sorted file (what P04 guarantees): entry b is the offset of the first record with key b,
    or all ones if no record has key b"""

    def __init__(self, st, file, name='index'):
        self.file = file
        self.src = FileSrc(name)
        self.sh, self.nk = z3.Int('shift'), z3.Int('nkeys')
        st.pc += self.src.axioms()
        st.add(z3.And(self.sh >= 1, self.sh <= 63, self.nk >= 2, self.nk < (1 << 58), self.src.F == 8 * self.nk))
        self.src.on_read.append(self.on_read)

    def key(self, eng, st, x):
        t = eng.sym_shr(st, zval(x), self.sh)
        st.add(t < self.nk)
        return t

    def on_read(self, eng, st, pos, n):
        if n != 8:
            raise Unsupported('index read of %d bytes' % n)
        f = self.file
        p = zval(pos)
        e = self.src.le_at(st, 8, p)
        b = simp(mk_div(p, 8))
        ok = z3.And(p % 8 == 0, p >= 0, p + 8 <= self.src.F)
        t = self.key(eng, st, f.hu)
        real = z3.And(ok, e != M64 - 1)
        K = REC * f.k
        some = z3.And(real, f.n > 0)
        st.add(z3.Implies(some, z3.And(e % REC == 0, e >= 0, e < f.F)))
        st.add(z3.Implies(z3.And(real, f.n == 0), z3.And(b == 0, e == 0)))
        # the entry points to the first record with key b
        u0 = f.src.le_at(st, 8, e)
        st.add(z3.Implies(some, self.key(eng, st, u0) == b))
        f.instance(eng, st, e)
        if f.present:
            # instances of "keys ascend, and the first record with key b is at e" for record k
            st.add(z3.Implies(z3.And(some, K < e), t < b))
            st.add(z3.Implies(z3.And(some, K >= e), t >= b))
            st.add(z3.Implies(z3.And(ok, e == M64 - 1), t != b))
        else:
            # records before k are smaller than the target (keys <= t), the others greater (keys >= t)
            st.add(z3.Implies(some, z3.And(z3.Implies(t < b, e >= K), z3.Implies(t > b, e < K), z3.Implies(t == b, e <= K))))


def index_candidates(ctx):
    e, u = ctx.eng, ctx.eng.cur
    ix = getattr(u, 'index', None)
    if ix is None:
        return []
    t = ix.key(e, ctx.st0, u.file.hu)
    out = []
    for nm, g, w in ctx.ints():
        if w == 64:
            out.append((nm + ' <= 8*key', lambda s, g=g: g(s) <= 8 * t))
            out.append((nm + ' >= 8*key', lambda s, g=g: g(s) >= 8 * t))
            out.append((nm + ' > 8*key', lambda s, g=g: g(s) > 8 * t))
            out.append((nm + ' % 8 == 0', lambda s, g=g: g(s) % 8 == 0))
            out.append((nm + ' >= -8', lambda s, g=g: g(s) >= -8))
            out.append((nm + ' <= 8*nkeys', lambda s, g=g: g(s) <= 8 * ix.nk))
    return out


def search_candidates(ctx):
    """invariants of searches: positions relative to the target, alignment, what the last record read says"""
    e = ctx.eng
    u = e.cur
    f = u.file
    K, F = REC * f.k, f.F
    out = []
    hashes = []
    cells = {(m[1], m[2]) for m in ctx.mods if m[0] == 'cell' and m[3] == 8}
    for (rid, off) in sorted(cells):
        if (rid, off + 8) in cells and rid in ctx.st0.mem and (rid, off - 8) not in cells:
            hashes.append((rid, off))

    def mem(s, h):
        a = e.get_item(s, ('cell', h[0], h[1], 8))
        b = e.get_item(s, ('cell', h[0], h[1] + 8, 8))
        if not isinstance(a, IV) or not isinstance(b, IV):
            raise Missing()
        return zval(e.as_u(s, a)), zval(e.as_u(s, b))
    ints = [x for x in ctx.ints() if x[2] in (64, 32)]
    for nm, g, w in ints:
        if w != 64:
            continue
        for txt, t in (('20k', K), ('20k-20', K - REC), ('F', F), ('F-20', F - REC), ('k', f.k), ('n', f.n), ('n-1', f.n - 1)):
            out.append((nm + ' <= ' + txt, lambda s, g=g, t=t: g(s) <= t))
            out.append((nm + ' >= ' + txt, lambda s, g=g, t=t: g(s) >= t))
        out.append((nm + ' % 20 == 0', lambda s, g=g: g(s) % REC == 0))
        out.append((nm + ' >= -20', lambda s, g=g: g(s) >= -REC))
        out.append((nm + ' >= -1', lambda s, g=g: g(s) >= -1))
        out.append((nm + ' <= F or ', lambda s, g=g: g(s) <= F + REC))
        for h in hashes:
            out.append((nm + ' >= F -> last record below target', lambda s, g=g, h=h: z3.Implies(g(s) >= F, z3.Or(F == 0, f.lt(*mem(s, h))))))
    for h in hashes:
        out.append(('F == 0 -> nothing read', lambda s, h=h: z3.Implies(F == 0, z3.And(mem(s, h)[0] == mem(ctx.st0, h)[0], mem(s, h)[1] == mem(ctx.st0, h)[1]))))
    for nm, g, w in ctx.ints():
        if w == 32:
            v0 = g(ctx.st0)
            out.append(('F == 0 -> %s == entry' % nm, lambda s, g=g, v0=v0: z3.Implies(F == 0, g(s) == v0)))
    return out + getattr(u, 'more_candidates', lambda c: [])(ctx)


class InspectorUnit(Unit):
    tu = 'inspector.cpp'
    extra = ('-fno-access-control',)
    candgens = (search_candidates, index_candidates)
    timeout_ms = 10000
    budget = 200
    counters = True
    index = None

    def bounds(self, eng):
        return [self.file.F + REC, self.file.n] + ([self.index.src.F + 8] if getattr(self, 'index', None) else [])

    def setup(self, eng, present, indexed=False):
        st = State()
        self.file = SortedFile(st, present)
        this = obj(eng, st, 'this', const(eng, 'size_pi'))
        oi, ox = const(eng, 'off_input'), const(eng, 'off_index')
        make_stream(eng, st, PV(this.r, oi), self.file.src)
        # the index stream is not open
        self.index = Index(st, self.file) if indexed else None
        if not indexed:
            make_stream(eng, st, PV(this.r, ox), None, open=False)
        else:
            make_stream(eng, st, PV(this.r, ox), self.index.src)
            self.index.key(eng, st, self.file.hu)
            eng.put(st, this.r, const(eng, 'off_shift'), 4, IV(32, self.index.sh, 1, 63))
        eng.put(st, this.r, const(eng, 'off_size'), 8, IV(64, self.file.F, 0, REC << 55))
        h = obj(eng, st, 'hash', 32)
        eng.put(st, h.r, 0, 8, IV(64, self.file.hu, 0, M64 - 1))
        eng.put(st, h.r, 8, 8, IV(64, self.file.hl, 0, M64 - 1))
        hv = z3.Bool('target_valid')
        eng.put(st, h.r, 16, 1, IV(8, z3.If(hv, 1, 0), 0, 1, bool=hv))
        return st, this, h

    def invariant(self, eng, s, this, msg='representation invariant kept: ', kind='ensures '):
        """the object after a call answers the next one from the same file"""
        oi = PV(this.r, const(eng, 'off_input'))
        eng.oblige(s, kind + '%sfile size' % msg, rd(eng, s, PV(this.r, const(eng, 'off_size')), 64) == self.file.F)
        eng.oblige(s, kind + '%sinput file still open' % msg, zb(eng.gget(s, oi, 'open')))
        b = eng.gget(s, oi, 'src')
        eng.oblige(s, kind + '%ssame file' % msg, b is not None and b.v is self.file.src)
        ox = PV(this.r, const(eng, 'off_index'))
        if self.index:
            eng.oblige(s, kind + '%skey width' % msg, rd(eng, s, PV(this.r, const(eng, 'off_shift')), 32) == self.index.sh)
            b = eng.gget(s, ox, 'src')
            eng.oblige(s, kind + '%sindex still open' % msg, And(b is not None and b.v is self.index.src, zb(eng.gget(s, ox, 'open'))))
        else:
            eng.oblige(s, kind + '%sno index' % msg, Not(zb(eng.gget(s, ox, 'open'))))

    def result(self, eng, s, out):
        f = self.file
        u, l, v = hash_at(eng, s, out)
        c = rd(eng, s, PV(out.r, 24), 32)
        if f.present:
            eng.oblige(s, 'ensures the stored hash is returned', z3.And(u == f.hu, l == f.hl))
            eng.oblige(s, 'ensures the stored count is returned', c == f.count)
        else:
            eng.oblige(s, 'ensures the count is 0', c == 0)


class BinSearch(InspectorUnit):
    def __init__(self, present, indexed=False):
        self.present, self.indexed = present, indexed
        self.title = 'PasswordInspector::binsearch%s, hash %s' % (' with index' if indexed else '', 'in the file' if present else 'not in the file')

    def run(self, eng):
        st, this, h = self.setup(eng, self.present, self.indexed)
        out = obj(eng, st, 'result', 32)
        rc = obj(eng, st, 'readCount', 4)
        for s, r in eng.call_function(self.fn(eng, r'pwned::PasswordInspector::binsearch\('), st, [out, this, h, rc]):
            self.result(eng, s, out)
            self.invariant(eng, s, this)




class Lookup(InspectorUnit):
    contracts = (HashOfText(),)

    def __init__(self, present):
        self.present = present
        self.title = 'PasswordInspector::lookup, hash of the password %s' % ('in the file' if present else 'not in the file')

    def run(self, eng):
        st, this, h = self.setup(eng, self.present)
        out, p = obj(eng, st, 'result', 32), obj(eng, st, 'pwd', 32)
        sv = SV.const(st, 'pwd')
        setstr(eng, st, p, sv)
        u, l = md5_of(st, sv)
        st.add(z3.And(self.file.hu == u, self.file.hl == l))
        for s, r in eng.call_function(self.fn(eng, r'pwned::PasswordInspector::lookup\('), st, [out, this, p]):
            self.result(eng, s, out)
            self.invariant(eng, s, this)


class Open(InspectorUnit):
    def __init__(self, ctor):
        self.ctor = ctor
        self.title = 'PasswordInspector::PasswordInspector(name)' if ctor else 'PasswordInspector::open(name)'

    def file_size(self, eng, st, nm):
        eng.oblige(st, 'file_size is asked for the hash file', sv_same(eng, st, nm, self.name))
        return self.file.F

    def open_source(self, eng, st, nm):
        eng.oblige(st, 'the hash file is the one opened', sv_same(eng, st, nm, self.name))
        return self.file.src, z3.Bool('can_be_opened')

    def run(self, eng):
        st = State()
        self.file = SortedFile(st, True)
        this = obj(eng, st, 'this', const(eng, 'size_pi'))
        if not self.ctor:
            for o in ('off_input', 'off_index'):
                make_stream(eng, st, PV(this.r, const(eng, o)), None, fresh=False, open=False)
        p = obj(eng, st, 'name', 32)
        self.name = SV.const(st, 'name')
        setstr(eng, st, p, self.name)
        f = self.fn(eng, r'pwned::PasswordInspector::PasswordInspector\(std::string const&\)$' if self.ctor else
                    r'pwned::PasswordInspector::open\(std::string const&\)$')
        ok = z3.Bool('can_be_opened')
        for s, r in eng.call_function(f, st, [this, p]):
            oi, ox = PV(this.r, const(eng, 'off_input')), PV(this.r, const(eng, 'off_index'))
            eng.oblige(s, 'ensures the file is open if it can be opened', zb(eng.gget(s, oi, 'open')) == ok)
            eng.oblige(s, 'ensures no index is in use', Not(zb(eng.gget(s, ox, 'open'))))
            if not self.ctor:
                eng.oblige(s, 'ensures the result tells whether the file is open', bool_of(r) == ok)
            s.add(ok)
            self.invariant(eng, s, this, 'establishes the representation invariant: ')


class Size(InspectorUnit):
    title = 'PasswordInspector::size, isOpen'

    def run(self, eng):
        st, this, h = self.setup(eng, True)
        for s, r in eng.call_function(self.fn(eng, r'pwned::PasswordInspector::size\(\)'), st.copy(), [this]):
            eng.oblige(s, 'ensures the number of records', zval(eng.as_u(s, r)) == self.file.n)
        for s, r in eng.call_function(self.fn(eng, r'pwned::PasswordInspector::isOpen\(\)'), st.copy(), [this]):
            eng.oblige(s, 'ensures true for an open file', bool_of(r))


class BinSearchContract:
    """contract of binsearch: the units above, as seen by a caller"""

    def __init__(self, unit):
        self.unit = unit

    def matches(self, d, name):
        return d.startswith('pwned::PasswordInspector::binsearch(')

    def apply(self, eng, st, a, I, line):
        u = self.unit
        f = u.file
        out, this, h = a[0], a[1], a[2]
        u.invariant(eng, st, this, 'requires of binsearch: ', 'requires ')
        hu, hl, _ = hash_at(eng, st, h)
        eng.oblige(st, 'ensures the search is for the hash asked for', z3.And(hu == f.hu, hl == f.hl), line)
        # assigns: the stream, the result, the counter
        oi = PV(this.r, const(eng, 'off_input'))
        pos = z3.Int(eng.fresh_name('pos'))
        st.add(z3.And(pos >= 0, pos < (1 << 62)))
        lib.setf(eng, st, oi, pos=pos, eof=eng.fresh_bool('eof'), fail=eng.fresh_bool('fail'), bad=eng.fresh_bool('bad'), gcount=0)
        st.add(z3.Implies(eng.gget(st, oi, 'bad'), eng.gget(st, oi, 'fail')))
        au, al = z3.Int('plain_upper'), z3.Int('plain_lower')
        for x in (au, al):
            st.add(z3.And(x >= 0, x < M64))
        if f.present:
            st.add(z3.And(au == f.hu, al == f.hl))
        eng.put(st, out.r, out.off, 8, IV(64, au, 0, M64 - 1))
        eng.put(st, out.r, out.off + 8, 8, IV(64, al, 0, M64 - 1))
        v = z3.Bool('plain_valid')
        eng.put(st, out.r, out.off + 16, 1, IV(8, z3.If(v, 1, 0), 0, 1, bool=v))
        eng.put(st, out.r, out.off + 24, 4, IV(32, f.count, 0, (1 << 32) - 1))
        rc = a[3]
        u.plain_reads = z3.Int('plain_reads')
        st.add(z3.And(u.plain_reads >= 0, u.plain_reads < (1 << 30)))
        eng.used_models['machine arithmetic: a lookup needs less than 2^30 reads'] = 1
        if not (isinstance(rc, PV) and rc.r == NULL.r):
            eng.store(st, rc, ('i', 32), IV(32, u.plain_reads, 0, 1 << 30), line)
        return [(st, None)]


class SmartSearch(InspectorUnit):
    def __init__(self, present):
        self.present = present
        self.title = 'PasswordInspector::smart_binsearch, hash %s' % ('in the file' if present else 'not in the file')
        self.contracts = (BinSearchContract(self),)

    def run(self, eng):
        st, this, h = self.setup(eng, self.present)
        out = obj(eng, st, 'result', 32)
        rc = obj(eng, st, 'readCount', 4)
        for s, r in eng.call_function(self.fn(eng, r'pwned::PasswordInspector::smart_binsearch\('), st, [out, this, h, rc]):
            self.result(eng, s, out)
            u, l, v = hash_at(eng, s, out)
            eng.oblige(s, 'ensures the hash the plain search returns', z3.And(u == z3.Int('plain_upper'), l == z3.Int('plain_lower')))
            n = zval(eng.as_s(s, eng.load(s, PV(rc.r, 0), ('i', 32))))
            eng.oblige(s, 'ensures at least as many reads as the plain search', n >= z3.Int('plain_reads'))
            self.invariant(eng, s, this)


class OpenIndexed(InspectorUnit):
    """nKeys is a power of two (P04); every width is a case of its own"""

    def __init__(self, ctor, widths):
        self.ctor, self.widths = ctor, widths
        self.title = ('PasswordInspector::PasswordInspector(name, index), %d..%d bits' if ctor else 'PasswordInspector::open(name, index), %d..%d bits') % (widths[0], widths[-1])

    def which(self, eng, st, nm, what):
        if sv_same(eng, st, nm, self.name) is not False and eng.valid(st, zb(sv_same(eng, st, nm, self.name)), 1000):
            return 0
        if eng.valid(st, zb(sv_same(eng, st, nm, self.iname)), 1000):
            return 1
        raise Unsupported('another file is used')

    def file_size(self, eng, st, nm):
        return [self.file.F, self.isize][self.which(eng, st, nm, 'file_size')]

    def open_source(self, eng, st, nm):
        i = self.which(eng, st, nm, 'open')
        return [self.file.src, self.isrc][i], z3.Bool('can_be_opened%d' % i)

    def run(self, eng):
        f = self.fn(eng, r'pwned::PasswordInspector::PasswordInspector\(std::string const&, std::string const&\)$' if self.ctor else
                    r'pwned::PasswordInspector::open\(std::string const&, std::string const&\)$')
        for bits in self.widths:
            st = State()
            self.file = SortedFile(st, True)
            this = obj(eng, st, 'this', const(eng, 'size_pi'))
            if not self.ctor:
                for o in ('off_input', 'off_index'):
                    make_stream(eng, st, PV(this.r, const(eng, o)), None, fresh=False, open=False)
            p, q = obj(eng, st, 'name', 32), obj(eng, st, 'iname', 32)
            self.name, self.iname = SV.const(st, 'name'), SV.const(st, 'iname')
            self.isrc = FileSrc('index')
            self.isize = 8 << bits
            setstr(eng, st, p, self.name)
            setstr(eng, st, q, self.iname)
            st.add(zval(self.iname.length()) > 0)
            st.add(zval(self.name.length()) != zval(self.iname.length()))
            ok, ok1 = z3.Bool('can_be_opened0'), z3.Bool('can_be_opened1')
            for s, r in eng.call_function(f, st, [this, p, q]):
                oi, ox = PV(this.r, const(eng, 'off_input')), PV(this.r, const(eng, 'off_index'))
                eng.oblige(s, 'ensures the hash file is open if it can be opened', zb(eng.gget(s, oi, 'open')) == ok)
                eng.oblige(s, 'ensures the index is open if it can be opened', zb(eng.gget(s, ox, 'open')) == ok1)
                if not self.ctor:
                    eng.oblige(s, 'ensures the result tells whether both are open', bool_of(r) == z3.And(ok, ok1))
                eng.oblige(s, 'ensures the file size', rd(eng, s, PV(this.r, const(eng, 'off_size')), 64) == self.file.F)
                s.add(z3.And(ok, ok1))
                for o, src in ((oi, self.file.src), (ox, self.isrc)):
                    b = eng.gget(s, o, 'src')
                    eng.oblige(s, 'ensures the right file is opened', b is not None and b.v is src)
                eng.oblige(s, 'ensures %d-bit keys are the upper bits of a hash' % bits,
                           rd(eng, s, PV(this.r, const(eng, 'off_shift')), 32) == 64 - bits)
