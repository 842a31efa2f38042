from .inspector import *
from irv import po
from irv.lib import sv_same

TOP = M64 - 1


class IndexSink:
    """the index file, an array of 64-bit words"""

    def write(self, eng, st, q, p, n, line):
        eng.oblige(st, 'the index is written to the file asked for', eng.gget(st, q, 'mine'))
        pos = eng.gget(st, q, 'opos')
        r = st.mem.get(p.r)
        if r is None:
            raise Unsupported('write of unknown memory')
        if r.arr is not None:
            es, arr, nel = r.arr
            if p.off != 0 or es != 8:
                raise Unsupported('partial write of the index')
            eng.oblige(st, 'the bytes written lie inside the array', zval(n) <= es * nel, line)
            if not eng.valid(st, zval(pos) == 0):
                raise Unsupported('index written in pieces')
            eng.gset(st, q, 'words', arr)
        else:
            if n != 8:
                raise Unsupported('write of %s bytes' % n)
            v = zval(eng.as_u(st, eng.load(st, p, ('i', 64))))
            eng.oblige(st, 'words are written aligned', zval(pos) % 8 == 0)
            eng.gset(st, q, 'words', z3.Store(eng.gget(st, q, 'words'), mk_div(zval(pos), 8), v))
        eng.gset(st, q, 'opos', simp(zval(pos) + zval(n)))

    def piece(self, eng, st, q, sv):
        raise Unsupported('text output to the index')


def m_new(eng, st, a, I, line, d):
    n = simp(eng.as_u(st, a[0]))
    if not isinstance(n, int):
        raise Unsupported('allocation of a symbolic size')
    p = eng.new_region(st, 'heap', n, 'heap', lazy='[]' not in d)
    if '[]' in d and n >= 16:
        st.mem[p.r].arr = (8, z3.Array(eng.fresh_name('heap'), z3.IntSort(), z3.IntSort()), n // 8)
    return (p,)


def m_ofs_ctor(eng, st, a, I, line, d):
    u = eng.cur
    nm = getstr(eng, st, a[1])
    make_ostream(eng, st, a[0], IndexSink())
    q = a[0]
    m = eng.as_u(st, a[2])
    # std::ios::app keeps old contents, in without trunc too
    eng.oblige(st, 'an existing index file is replaced', isinstance(m, int) and m & 1 == 0 and (m & 8 == 0 or m & 32 != 0), line)
    eng.gset(st, q, 'mine', sv_same(eng, st, nm, u.oname))
    eng.gset(st, q, 'opos', 0)
    eng.gset(st, q, 'open', True)
    eng.gset(st, q, 'words', z3.Array('unwritten', z3.IntSort(), z3.IntSort()))
    u.out = q
    return (None,)


def index_writer_candidates(ctx):
    """what the array says about the bucket under consideration, and about the last key read"""
    e, u = ctx.eng, ctx.eng.cur
    b, K = z3.IntVal(0) + u.b, REC * u.file.k
    out = []
    arrs = [('array', m) for m in sorted(ctx.mods, key=repr) if m[0] == 'arr']

    def sel(s, m, i):
        a = e.get_item(s, m)
        if a is None:
            raise Missing()
        return z3.Select(a, i)
    ints = [x for x in ctx.ints()]
    for nm, g, w in ints:
        if w not in (64, 0):
            continue
        for txt, t in (('b', u.b), ('20k', K), ('F', u.file.F), ('F-20', u.file.F - REC)):
            out.append((nm + ' <= ' + txt, lambda s, g=g, t=t: g(s) <= t))
            out.append((nm + ' >= ' + txt, lambda s, g=g, t=t: g(s) >= t))
        out.append((nm + ' % 20 == 0', lambda s, g=g: g(s) % REC == 0))
        out.append((nm + ' < nkeys', lambda s, g=g: g(s) < u.nk))
        for _, m in arrs:
            # the bucket is filled exactly when record k was read
            out.append(('a[b] == all ones before ' + nm, lambda s, g=g, m=m: z3.Implies(z3.And(g(s) <= K, u.file.n > 0), sel(s, m, u.b) == TOP)))
            if u.present:
                out.append(('a[b] == 20k after ' + nm, lambda s, g=g, m=m: z3.Implies(g(s) > K, sel(s, m, u.b) == K)))
            else:
                out.append(('a[b] == all ones ' + nm, lambda s, g=g, m=m: z3.Implies(u.file.n > 0, sel(s, m, u.b) == TOP)))
        if w == 64:
            # what was kept of the record read last
            for n2, g2, w2 in ints:
                if w2 == 0:
                    last = lambda s, g2=g2: u.file.src.le[8](g2(s) - REC)
                    out.append(('%s is the upper half of the record before %s' % (nm, n2), lambda s, g=g, last=last: z3.Implies(u.file.n > 0, g(s) == last(s))))
                    out.append(('%s is the key of the record before %s' % (nm, n2), lambda s, g=g, last=last: z3.Implies(u.file.n > 0, g(s) == mk_div(last(s), u.div))))
            out.append(('nothing read, %s == 0' % nm, lambda s, g=g: z3.Implies(u.file.n == 0, g(s) == 0)))
        for bn, bg in ctx.bools():
            out.append(('%s -> %s >= F' % (bn, nm), lambda s, g=g, bg=bg: z3.Implies(bg(s), g(s) >= u.file.F)))
        for n2, g2, w2 in ints:
            if n2 == nm or w2 not in (64, 0):
                continue
            if u.present:
                out.append(('%s > 20k iff %s >= b' % (nm, n2), lambda s, g=g, g2=g2: (g(s) > K) == (g2(s) >= u.b)))
            else:
                out.append(('%s > 20k iff %s > b' % (nm, n2), lambda s, g=g, g2=g2: z3.And(g2(s) != u.b, (g(s) > K) == (g2(s) > u.b))))
            if w == 64 and w2 == 64:
                for bn, bg in ctx.bools():
                    out.append(('%s -> %s == %s' % (bn, nm, n2), lambda s, g=g, g2=g2, bg=bg: z3.Implies(bg(s), g(s) == g2(s))))
                out.append(('%s == %s' % (nm, n2), lambda s, g=g, g2=g2: g(s) == g2(s)))
                for _, m in arrs:
                    out.append(('a[%s] == %s' % (nm, n2), lambda s, g=g, g2=g2, m=m: sel(s, m, g(s)) == g2(s)))
    return out


class Indexer(Unit):
    tu = 'index.cpp'
    candgens = (index_writer_candidates,)
    timeout_ms = 10000
    budget = 250
    counters = True
    lib = po.MODELS + [(r'operator new(\[\])?\(unsigned long\)$', m_new),
                       (r'std::ofstream::basic_ofstream(<.*>)?\(std::string const&, std::_Ios_Openmode\)$', m_ofs_ctor),
                       (r'(usage|hello|license|warranty)\(\)$', lib.m_void)]

    def __init__(self, present, widths):
        self.present, self.widths = present, widths
        self.title = 'main of the indexer, %d..%d bits, key %s in the file' % (widths[0], widths[-1], 'present' if present else 'absent')

    def bounds(self, eng):
        return [self.file.F + REC]

    def option(self, eng, st, nm):
        return {'input': self.iname, 'output': self.oname, 'bits': IV(32, self.bits)}.get(nm)

    def open_source(self, eng, st, nm):
        eng.oblige(st, 'the hash file is the one opened', sv_same(eng, st, nm, self.iname))
        return self.file.src, True

    def run(self, eng):
        f = self.fn(eng, '@main')
        for bits in self.widths:
            self.bits, self.nk, self.div = bits, 1 << bits, 1 << (64 - bits)
            st = State()
            self.file = file = BucketFile(st, self.present, bits)
            self.b = file.b
            self.iname, self.oname = SV.const(st, 'iname'), SV.const(st, 'oname')
            st.add(zval(self.iname.length()) > 0)
            st.add(zval(self.oname.length()) > 0)
            argv = obj(eng, st, 'argv', 64)
            argc = cellv = eng.iv_fresh(st, 32, 'argc')
            self.out = None
            ends = eng.call_function(f, st, [argc, argv])
            for s, r in ends:
                eng.oblige(s, 'ensures an index is written (%d bits)' % bits, self.out is not None)
                if self.out is None:
                    continue
                q = self.out
                eng.oblige(s, 'ensures the index has one 64-bit entry for every key (%d bits)' % bits, zval(eng.gget(s, q, 'opos')) == 8 * self.nk)
                v = z3.Select(eng.gget(s, q, 'words'), self.b)
                if self.present:
                    eng.oblige(s, 'ensures the entry is the offset of the first record with this key (%d bits)' % bits, v == REC * file.k)
                else:
                    eng.oblige(s, 'ensures the entry of a missing key has all bits set (%d bits)' % bits,
                               z3.Or(v == TOP, z3.And(file.n == 0, self.b == 0, v == 0)))


class BucketFile:
    """a file sorted by hash, an arbitrary key b, and the first record k with a key of at least b"""

    def __init__(self, st, present, bits):
        self.src = FileSrc('file')
        F = self.F = self.src.F
        self.n, self.k, self.b = z3.Int('nrec'), z3.Int('k'), z3.Int('b')
        self.present, self.bits = present, bits
        st.pc += self.src.axioms()
        st.add(z3.And(self.n >= 0, F == REC * self.n, self.n < (1 << 55), self.b >= 0, self.b < (1 << bits), self.k >= 0))
        st.add(self.k < self.n if present else self.k <= self.n)
        self.src.on_read.append(self.on_read)

    def on_read(self, eng, st, pos, n):
        if n < 8:
            return
        for o in range(0, n, REC):
            p = simp(zval(pos + o))
            key = mk_div(self.src.le_at(st, 8, p), 1 << (64 - self.bits))
            p = zval(p)
            ok = z3.And(p % REC == 0, p >= 0, p + REC <= self.F)
            K = REC * self.k
            # the hashes, and so the keys, ascend
            prev = mk_div(self.src.le_at(st, 8, simp(p - REC)), 1 << (64 - self.bits))
            st.add(z3.Implies(z3.And(ok, p >= REC), key >= prev))
            st.add(z3.Implies(z3.And(ok, p < K), key < self.b))
            if self.present:
                st.add(z3.Implies(z3.And(ok, p > K), key >= self.b))
                st.add(z3.Implies(z3.And(ok, p == K), key == self.b))
            else:
                st.add(z3.Implies(z3.And(ok, p >= K), key > self.b))


class Rejects(Indexer):
    def __init__(self):
        super().__init__(True, [24])
        self.title = 'main of the indexer, unsupported key widths'

    def run(self, eng):
        f = self.fn(eng, '@main')
        st = State()
        self.bits = eng.iv_fresh(st, 32, 'bits').t
        st.add(z3.Or(self.bits == 0, self.bits >= 64))
        self.file = BucketFile(st, True, 24)
        self.nk, self.b = 1 << 24, self.file.b
        self.iname, self.oname = SV.const(st, 'iname'), SV.const(st, 'oname')
        argv = obj(eng, st, 'argv', 64)
        self.out = None
        for s, r in eng.call_function(f, st, [eng.iv_fresh(st, 32, 'argc'), argv]):
            eng.oblige(s, 'ensures no index is written for an unsupported width', self.out is None)
            eng.oblige(s, 'ensures failure is reported', zval(eng.as_u(s, r)) != 0)

    def option(self, eng, st, nm):
        return {'input': self.iname, 'output': self.oname, 'bits': IV(32, self.bits, 0, (1 << 32) - 1)}.get(nm)


def units(tier):
    import os
    w = list(range(1, 60))
    if os.environ.get('P04W'):
        w = [int(x) for x in os.environ['P04W'].split(',')]
        return [Indexer(True, w), Indexer(False, w)]
    return [Rejects()] + [Indexer(p, w[i:i + 8]) for i in range(0, 59, 8) for p in (True, False)]


harness = dict(src='P04.cpp', repo=[], libs=[],
               bins=[('index', ['pwned-index/index.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp'], ['boost_program_options', 'boost_filesystem', 'boost_system'])])

assumptions = ['the hash file consists of whole 20-byte records, strictly ascending (the precondition of the property); it does not change while it is read, and reads of bytes it has succeed',
               'file streams by their contracts (irv/lib.py): seekg clears eof, a read of n bytes delivers the n bytes at the position, or what is left and sets eof and fail',
               'boost::program_options puts the options given into the variables; the output file can be written',
               'the array of the index fits into memory',
               'an index is written in native (little-endian) words']
