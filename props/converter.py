"""Contracts on the converter (pwned-converter-cli/convertoperation.cpp)"""
import re
from .common import *
from .merger import MODELS as COMMON, get_obj, lt128, le128, m_text, M32
from irv.lib import ByteSink, sv_same
from irv.seq import SeqMem, Col, seq_candidates

HU, HL = (z3.Function(n, z3.IntSort(), z3.IntSort()) for n in ('HU', 'HL'))
HV = z3.Function('HV', z3.IntSort(), z3.BoolSort())
INP = z3.Function('INP', z3.IntSort(), z3.IntSort())
XU, XL, M = z3.Ints('xu xl M')
COUNT = r'(?:unsigned )?(?:short|int|long)(?: long)?'
MAP = r'std::map<pwned::Hash, ' + COUNT + r', pwned::HashLess, .*>::'
VEC = r'std::vector<pwned::PasswordHashAndCount, std::allocator<pwned::PasswordHashAndCount> >::'


def isx(u, l):
    return z3.And(u == XU, l == XL)


def put_hash(eng, st, p, u, l, v):
    eng.put(st, p.r, p.off, 8, IV(64, u, 0, M64 - 1))
    eng.put(st, p.r, p.off + 8, 8, IV(64, l, 0, M64 - 1))
    eng.put(st, p.r, p.off + 16, 1, IV(8, z3.If(v, 1, 0) if isinstance(v, z3.ExprRef) else int(v), 0, 1, bool=v))


class Enum(SeqMem):
    """the elements of a container in the order of iteration; at most one, at index xat, has the hash x"""

    def __init__(self, eng, st, has, count, n, order, what, w=32):
        self.U, self.L, self.C = (z3.Function(eng.fresh_name(what + k), z3.IntSort(), z3.IntSort()) for k in 'ulc')
        self.has, self.count, self.xat = has, count, z3.Int(eng.fresh_name(what + 'x'))
        self.order = order
        st.add(z3.Implies(has, z3.And(self.xat >= 0, self.xat < n)))
        st.add(n >= 0)
        one = lambda i: z3.IntVal(1)
        SeqMem.__init__(self, 32, n, [Col(0, 8, self.U, on=self.facts), Col(8, 8, self.L, on=self.facts),
                                      Col(16, 1, lambda i: z3.If(z3.Bool('stored_valid'), 1, 0), on=self.facts), Col(24, w // 8, self.C, on=self.facts)], what)

    def facts(self, eng, st, i):
        key = ('enum', self.name, self.U.name(), i.get_id())
        if key in st.seqs:
            return
        st.seqs[key] = i
        for k in (i, z3.simplify(i - 1)):
            st.add(z3.And(self.U(k) >= 0, self.U(k) < M64, self.L(k) >= 0, self.L(k) < M64))
        st.add(isx(self.U(i), self.L(i)) == z3.And(self.has, i == self.xat))
        st.add(z3.Implies(i == self.xat, self.C(i) == self.count))
        st.add(z3.Implies(z3.And(i >= 1, self.order), le128(self.U(i - 1), self.L(i - 1), self.U(i), self.L(i))))


def unreg(eng, st, p):
    """an enumeration of the former contents is no longer one"""
    if eng.gget(st, p, 'reg') is not None and eng.gget(st, p, 'reg').r is not None:
        eng.gset(st, p, 'reg', NULL)


# ---- std::map<Hash, uint32_t, HashLess> (or another type of counts)
def width(d):
    t = re.search(r'std::map<pwned::Hash, (' + COUNT + ')', d).group(1)
    if t.startswith('unsigned ') is False:
        raise Unsupported('signed counts')
    return 16 if 'short' in t else 64 if 'long' in t else 32


def map_new(eng, st, a, I, line, d):
    p = a[0]
    w = width(d)
    xs, os = obj(eng, st, 'count of x', w // 8), obj(eng, st, 'count of another hash', w // 8)
    eng.put(st, xs.r, 0, w // 8, IV(w, 0))
    eng.put(st, os.r, 0, w // 8, IV(w, 0))
    for f, v in (('w', w), ('xs', xs), ('os', os), ('has', False), ('filled', False), ('reg', NULL)):
        eng.gset(st, p, f, v)
    return (None,)


def map_index(eng, st, a, I, line, d):
    p = a[0]
    u, l, v = hash_at(eng, st, a[1])
    out = []
    eng.gset(st, p, 'filled', True)
    unreg(eng, st, p)
    for s, same in eng.fork(st, isx(u, l)):
        if same:
            eng.gset(s, p, 'has', True)
            out.append((s, eng.gget(s, p, 'xs')))
        else:
            o = eng.gget(s, p, 'os')
            w = eng.gget(s, p, 'w')
            eng.put(s, o.r, 0, w // 8, eng.iv_fresh(s, w, eng.fresh_name('other')))
            out.append((s, o))
    return out


def map_size(eng, st, a, I, line, d):
    f = zb(eng.gget(st, a[0], 'filled'))
    if '::empty' in d:
        return (BoolV(z3.Not(f)),)
    v = eng.iv_fresh(st, 64, eng.fresh_name('mapsize'))
    st.add(z3.And((v.t > 0) == f, v.t < (1 << 60)))
    return (v,)


def map_reg(eng, st, p):
    r = eng.gget(st, p, 'reg')
    if r is not None and r.r is not None:
        return r
    has, filled = zb(eng.gget(st, p, 'has')), zb(eng.gget(st, p, 'filled'))
    n = z3.Int(eng.fresh_name('mapsize'))
    st.add(z3.And((n > 0) == filled, n < (1 << 60)))
    w = eng.gget(st, p, 'w')
    count = rd(eng, st, eng.gget(st, p, 'xs'), w)
    mem = Enum(eng, st, has, count, n, z3.BoolVal(True), 'key', w)
    r = eng.new_region(st, 'map elements', None, 'seq', handler=mem)
    # the enumeration is that of the current contents
    st.ghost[(p.r, eng.coff(p.off), 'reg')] = r
    return r


def map_begin(eng, st, a, I, line, d):
    r = map_reg(eng, st, a[0])
    mem = st.mem[r.r].handler
    return (PV(r.r, 0 if 'begin' in d else simp(z3.simplify(32 * mem.n))),)


def tree_next(eng, st, a, I, line, d):
    p = eng.load(st, a[0], ('ptr',))
    eng.store(st, a[0], ('ptr',), PV(p.r, simp(z3.simplify(zval(p.off) + 32))), line)
    return (a[0] if '(int)' not in d else p,)


def tree_get(eng, st, a, I, line, d):
    return (eng.load(st, a[0], ('ptr',)),)


# ---- std::vector<PasswordHashAndCount>
def vec_new(eng, st, a, I, line, d):
    for f, v in (('num', 0), ('sum', 0), ('len', 0), ('asc', True), ('lu', 0), ('ll', 0), ('reg', NULL)):
        eng.gset(st, a[0], f, v)
    return (None,)


def vec_push(eng, st, a, I, line, d):
    p = a[0]
    g = lambda f: eng.gget(st, p, f)
    if g('len') is None:
        raise Unsupported('unknown vector')
    u, l, v = hash_at(eng, st, a[1])
    if 'emplace_back' in d and len(a) == 3:
        c = rd(eng, st, a[2], 32)
    else:
        c = rd(eng, st, PV(a[1].r, a[1].off + 24), 32)
    n = zval(g('len'))
    x = isx(u, l)
    eng.gset(st, p, 'num', simp(z3.simplify(zval(g('num')) + z3.If(x, 1, 0))))
    eng.gset(st, p, 'sum', simp(z3.simplify(zval(g('sum')) + z3.If(x, c, 0))))
    eng.gset(st, p, 'asc', z3.And(zb(g('asc')), z3.Or(n == 0, le128(zval(g('lu')), zval(g('ll')), u, l))))
    eng.gset(st, p, 'lu', u)
    eng.gset(st, p, 'll', l)
    eng.gset(st, p, 'len', simp(n + 1))
    unreg(eng, st, p)
    if 'emplace_back' in d:
        return (obj(eng, st, 'back', 32),)
    return (None,)


def vec_reg(eng, st, p):
    g = lambda f: eng.gget(st, p, f)
    if g('len') is None:
        raise Unsupported('unknown vector')
    r = g('reg')
    if r is not None and r.r is not None:
        return r
    num = zval(g('num'))
    if not eng.valid(st, num <= 1):
        raise Unsupported('a list with repeated hashes')
    mem = Enum(eng, st, num == 1, zval(g('sum')), zval(g('len')), zb(g('asc')), 'entry')
    mem.vec = p
    r = eng.new_region(st, 'list entries', None, 'seq', handler=mem)
    st.ghost[(p.r, eng.coff(p.off), 'reg')] = r
    return r


def vec_begin(eng, st, a, I, line, d):
    r = vec_reg(eng, st, a[0])
    return (PV(r.r, 0 if 'begin' in d else simp(z3.simplify(32 * st.mem[r.r].handler.n))),)


def vec_size(eng, st, a, I, line, d):
    n = zval(eng.gget(st, a[0], 'len'))
    if '::empty' in d:
        return (BoolV(n == 0),)
    st.add(n < (1 << 60))
    return (IV(64, simp(n), 0, 1 << 60),)


def do_sort(eng, st, a, I, line, d):
    """std::sort with the order proved in P06: an ascending permutation"""
    f, l = a[0], a[1]
    h = st.mem[f.r].handler if f.r in st.mem else None
    if not isinstance(h, Enum) or not hasattr(h, 'vec') or l.r != f.r or not eng.valid(st, z3.And(zval(f.off) == 0, zval(l.off) == 32 * h.n)):
        raise Unsupported('sorting something else than a whole list')
    eng.gset(st, h.vec, 'asc', True)
    eng.gset(st, h.vec, 'reg', NULL)
    return (None,)


# ---- paths and texts
def path_copy(eng, st, a, I, line, d):
    setstr(eng, st, a[0], getstr(eng, st, a[1]))
    return (a[0],) if 'operator=' in d else (None,)


def path_append(eng, st, a, I, line, d):
    setstr(eng, st, a[0], SV.const(st, eng.fresh_name('path')))
    return (a[0],)


def path_exists(eng, st, a, I, line, d):
    u = eng.cur
    nm = getstr(eng, st, a[0])
    b = z3.Bool(eng.fresh_name('exists'))
    out = []
    for s, e in eng.fork(st, b):
        if e:
            # only finitely many files exist
            t = zval(eng.gget(s, u.op, 'tries'))
            s.add(t < z3.Int('E'))
            eng.gset(s, u.op, 'tries', simp(t + 1))
        else:
            locked = eng.valid(s, zb(eng.gget(s, u.op, 'locked')))
            eng.gset(s, u.op, 'free', nm if locked else SV([]))
        out.append((s, BoolV(e)))
    return out


def m_lock(eng, st, a, I, line, d):
    """a mutex all operations share keeps them from creating files until it is given back"""
    u = eng.cur
    r = st.mem.get(a[0].r)
    if r is None:
        raise Unsupported('mutex')
    if r.kind == 'global':
        eng.oblige(st, 'the mutex is not locked twice', Not(eng.gget(st, u.op, 'locked')), line)
        eng.gset(st, u.op, 'locked', True)
    return (IV(32, 0),)


def m_unlock(eng, st, a, I, line, d):
    u = eng.cur
    if st.mem[a[0].r].kind == 'global':
        eng.gset(st, u.op, 'locked', False)
        eng.gset(st, u.op, 'free', SV([]))
    return (IV(32, 0),)


MODELS = COMMON + [
    (r'std::mutex::lock\(\)$', m_lock), (r'std::mutex::unlock\(\)$', m_unlock),
    (MAP + r'map\(\)$', map_new), (MAP + r'operator\[\]\(', map_index), (MAP + r'(size|empty)\(\) const$', map_size),
    (MAP + r'c?(begin|end)\(\)( const)?$', map_begin), (MAP + r'~map\(\)$', lib.m_void),
    (r'std::_Rb_tree_(const_)?iterator<std::pair<pwned::Hash const, ' + COUNT + r'> >::operator\+\+\((int)?\)$', tree_next),
    (r'std::_Rb_tree_(const_)?iterator<std::pair<pwned::Hash const, ' + COUNT + r'> >::operator(\*|->)\(\) const$', tree_get),
    (VEC + r'vector\(\)$', vec_new), (r'(.* )?' + VEC + r'(push_back|emplace_back(<.*>)?)\(', vec_push), (VEC + r'reserve\(', lib.m_void),
    (VEC + r'c?(begin|end)\(\)( const)?$', vec_begin), (VEC + r'(size|empty)\(\) const$', vec_size), (VEC + r'~vector\(\)$', lib.m_void),
    (r'void std::(stable_)?sort<__gnu_cxx::__normal_iterator<pwned::PasswordHashAndCount\*.*, pwned::PasswordHashAndCountLess>\(', do_sort),
    (r'boost::filesystem::path::(path|operator=)\((boost::filesystem::path|std::string)( const)?&&?\)$', path_copy),
    (r'boost::filesystem::path::~path\(\)$', lib.m_void),
    (r'boost::filesystem::.*::stem_v[0-9]\(', m_text), (r'boost::filesystem::path::stem\(\)', m_text),
    (r'boost::filesystem::.*append_v[0-9]\(', path_append),
    (r'boost::filesystem::exists\(', path_exists),
    (r'pwned::string_format\(', m_text),
    (r'pwned::operator<<\(std::ostream&, pwned::UUID const&\)$', lambda eng, st, a, I, line, d: (a[0],)),
    (r'pwned::UserPasswordReader::~UserPasswordReader\(\)$', lib.m_void),
]


class Reader:
    """UserPasswordReader (proved in P11, P12, P13): entries 0..M-1 of the list, one for each call of nextPasswordHash()"""

    def matches(self, d, name):
        m = re.match(r'pwned::UserPasswordReader::(UserPasswordReader|eof|bad|nextPasswordHash)\(', d)
        if m:
            self.what = m.group(1)
        return m

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        k = zval(eng.gget(st, u.op, 'taken'))
        if self.what == 'UserPasswordReader':
            eng.oblige(st, 'ensures the list is read', z3.And(a[1].r == u.input.r, zval(a[1].off) == zval(u.input.off)), line)
            eng.oblige(st, 'ensures the list is read from its start', z3.And(zb(eng.gget(st, u.input, 'open')), zval(eng.gget(st, u.input, 'pos') or 0) == 0), line)
            eng.oblige(st, 'ensures the list is read with the options given', a[2].r == u.options.r and a[2].off == u.options.off, line)
            eng.oblige(st, 'ensures the list is read once', zval(eng.gget(st, u.op, 'readers')) == 0, line)
            eng.gset(st, u.op, 'readers', 1)
            return [(st, None)]
        if self.what == 'eof':
            return [(st, BoolV(k == M))]
        if self.what == 'bad':
            return [(st, BoolV(False))]
        out = a[0]
        res = []
        for s, more in eng.fork(st, k < M):
            if more:
                s.add(z3.And(HU(k) >= 0, HU(k) < M64, HL(k) >= 0, HL(k) < M64))
                s.add(INP(k + 1) == INP(k) + z3.If(z3.And(HV(k), isx(HU(k), HL(k))), 1, 0))
                s.add(z3.And(INP(k) >= 0, INP(k + 1) <= INP(M)))
                put_hash(eng, s, out, HU(k), HL(k), HV(k))
                eng.gset(s, u.op, 'taken', simp(k + 1))
            else:
                put_hash(eng, s, out, z3.Int(eng.fresh_name('nou')), z3.Int(eng.fresh_name('nol')), False)
            res.append((s, None))
        return res


class Execute(Unit):
    """Fixed arbitrary hash x; INP(k): the number of entries with the hash x among the first k"""
    tu = 'converter.cpp'
    title = 'ConvertOperation::execute'
    lib = MODELS
    contracts = (Reader(),)
    budget = 300

    def __init__(self):
        self.candgens = (self.cands, seq_candidates(None))

    def bounds(self, eng):
        return [M, z3.Int('E'), M + 1]

    def open_source(self, eng, st, nm):
        eng.oblige(st, 'ensures the list given is opened', sv_same(eng, st, nm, self.srcname))
        b = z3.Bool(eng.fresh_name('readable'))
        eng.gset(st, self.op, 'readable', b)
        st.user['opened'] = True
        return FileSrc('list'), b

    def open_sink(self, eng, st, nm, mode):
        op = self.op
        free = eng.gget(st, op, 'free')
        eng.oblige(st, 'ensures no existing file is overwritten, nor one of an operation that runs at the same time',
                   z3.And(zb(sv_same(eng, st, nm, free)), zb(eng.gget(st, op, 'locked'))) if free is not None else False)
        eng.gset(st, op, 'fx', False)
        eng.gset(st, op, 'any', False)
        eng.gset(st, op, 'free', SV([]))
        return ByteSink(self.expect), True

    def expect(self, eng, st, q, pos, got, line):
        p = zval(pos)
        i = 0
        op = self.op
        num = lambda bs: zval(eng.as_u(st, eng.from_bytes(bs, len(bs))))
        while i < len(got):
            at = p + i
            if len(got) - i >= 8 and eng.valid(st, at % 20 == 0):
                eng.gset(st, op, 'pu', num(got[i:i + 8]))
                i += 8
            elif len(got) - i >= 8 and eng.valid(st, at % 20 == 8):
                eng.gset(st, op, 'pl', num(got[i:i + 8]))
                i += 8
            elif len(got) - i >= 4 and eng.valid(st, at % 20 == 16):
                self.record(eng, st, zval(eng.gget(st, op, 'pu')), zval(eng.gget(st, op, 'pl')), num(got[i:i + 4]), line)
                i += 4
            else:
                eng.oblige(st, 'ensures whole records are written', False, line)
                raise Unsupported('partial record')

    def record(self, eng, st, u, l, c, line):
        op = self.op
        g = lambda f: eng.gget(st, op, f)
        x = isx(u, l)
        eng.oblige(st, 'ensures hashes do not descend within a file', z3.Implies(zb(g('any')), le128(zval(g('lu')), zval(g('ll')), u, l)), line)
        eng.oblige(st, 'ensures every hash is written once to a file', z3.Implies(x, z3.Not(zb(g('fx')))), line)
        eng.gset(st, op, 'outx', simp(z3.simplify(zval(g('outx')) + z3.If(x, c, 0))))
        eng.gset(st, op, 'fx', z3.Or(zb(g('fx')), x))
        eng.gset(st, op, 'any', True)
        eng.gset(st, op, 'lu', u)
        eng.gset(st, op, 'll', l)

    def cands(self, ctx):
        eng, op = ctx.eng, self.op
        g = lambda s, f: eng.gget(s, op, f)
        k = lambda s: zval(g(s, 'taken'))
        out = [('0 <= taken <= M', lambda s: z3.And(k(s) >= 0, k(s) <= M)),
               ('output == input', lambda s: zval(g(s, 'outx')) == INP(k(s)))]
        k0 = k(ctx.st0)
        for nm, f, w in ctx.ints():
            out.append((nm + ' != 0 -> an entry was taken', lambda s, f=f: z3.Implies(f(s) != 0, k(s) > k0)))
            f0 = f(ctx.st0)
            t0 = zval(g(ctx.st0, 'tries'))
            out += [('0 <= %s <= entries taken' % nm, lambda s, f=f: z3.And(f(s) >= 0, f(s) <= k(s))),
                    (nm + ' counts tries', lambda s, f=f, f0=f0: f(s) == f0 + zval(g(s, 'tries')) - t0)]
        out.append(('0 <= tries <= E', lambda s: z3.And(zval(g(s, 'tries')) >= 0, zval(g(s, 'tries')) <= z3.Int('E'))))

        def gf(p, f):
            def get(s):
                v = eng.gget(s, p, f)
                if v is None:
                    raise Missing()
                return v
            return get
        seen = set()
        for (rid, off, f) in list(ctx.st0.ghost):
            if f == 'xs' and (rid, off) not in seen:
                seen.add((rid, off))
                p = PV(rid, off)
                has, xs = gf(p, 'has'), gf(p, 'xs')

                def count(s, xs=xs, p=p):
                    return rd(eng, s, xs(s), gf(p, 'w')(s))
                out += [('output + map == input', lambda s, count=count: zval(g(s, 'outx')) + count(s) == INP(k(s))),
                        ('in the map exactly if counted', lambda s, has=has, count=count: zb(has(s)) == (count(s) > 0)),
                        ('not counted unless in the map', lambda s, has=has, count=count: z3.Implies(z3.Not(zb(has(s))), count(s) == 0)),
                        ('map not empty', lambda s, has=has, p=p: z3.Implies(zb(has(s)), zb(eng.gget(s, p, 'filled'))))]
        vecs = [PV(rid, off) for (rid, off, f) in ctx.st0.ghost if f == 'asc']
        for m in sorted(ctx.mods, key=repr):
            v = eng.get_item(ctx.st0, m)
            if not isinstance(v, PV) or v.r is None or v.r not in ctx.st0.mem:
                continue
            h = ctx.st0.mem[v.r].handler
            if not isinstance(h, Enum):
                continue

            def ix(s, m=m):
                x = eng.get_item(s, m)
                if not isinstance(x, PV):
                    raise Missing()
                return zval(x.off) / 32
            before = lambda s, ix=ix, h=h: z3.And(h.has, h.xat < ix(s))
            nm = ctx.nm(m)
            for p in vecs:
                if hasattr(h, 'vec'):
                    continue
                G = lambda s, f, p=p: gf(p, f)(s)
                out += [(nm + ': copied', lambda s, G=G, before=before: zval(G(s, 'num')) == z3.If(before(s), 1, 0)),
                        (nm + ': sum copied', lambda s, G=G, before=before, h=h: zval(G(s, 'sum')) == z3.If(before(s), h.count, 0)),
                        (nm + ': length', lambda s, G=G, ix=ix: zval(G(s, 'len')) == ix(s)),
                        (nm + ': ascending', lambda s, G=G: zb(G(s, 'asc'))),
                        (nm + ': last', lambda s, G=G, ix=ix, h=h: z3.Implies(ix(s) > 0, z3.And(zval(G(s, 'lu')) == h.U(ix(s) - 1), zval(G(s, 'll')) == h.L(ix(s) - 1))))]
            o0 = zval(g(ctx.st0, 'outx'))
            out += [(nm + ': written', lambda s, before=before, h=h: zval(g(s, 'outx')) == o0 + z3.If(before(s), h.count, 0)),
                    (nm + ': x written', lambda s, before=before: zb(g(s, 'fx')) == before(s)),
                    (nm + ': last written', lambda s, ix=ix, h=h: z3.If(ix(s) > 0, z3.And(zb(g(s, 'any')), zval(g(s, 'lu')) == h.U(ix(s) - 1), zval(g(s, 'll')) == h.L(ix(s) - 1)), z3.Not(zb(g(s, 'any')))))]
        for (rid, off, f) in list(ctx.st0.ghost):
            if f == 'opos':
                p = PV(rid, off)
                out.append(('opos % 20 == 0', lambda s, p=p: zval(gf(p, 'opos')(s)) % 20 == 0))
        return out

    def shared_write(self, eng, st, name):
        # operations run at the same time
        eng.oblige(st, 'ensures operations that run at the same time share nothing they modify, unless a mutex all of them share is held', eng.gget(st, self.op, 'locked') or False, None)

    def run(self, eng):
        st = State()
        st.add(z3.And(M >= 0, M < 1 << 30, XU >= 0, XU < M64, XL >= 0, XL < M64, z3.Int('E') >= 0, z3.Int('E') < 1 << 30))
        st.add(z3.And(INP(0) == 0, INP(M) < M32))
        self.op = op = obj(eng, st, 'op', const(eng, 'vt_op_size'))
        d = obj(eng, st, 'd', const(eng, 'vt_priv_size'))
        mem = {}
        st, sp = get_obj(eng, st, 'vt_d', op)
        eng.put(st, sp.r, sp.off, 8, d)
        for f in ('vt_maxmem', 'vt_src', 'vt_dst', 'vt_ext', 'vt_options', 'vt_input'):
            st, mem[f] = get_obj(eng, st, f, d)
        for f in ('vt_cancelled', 'vt_paused', 'vt_queue', 'vt_priority'):
            st, mem[f] = get_obj(eng, st, f, op)
        self.input, self.options = mem['vt_input'], mem['vt_options']
        c, p = mem['vt_cancelled'], mem['vt_paused']
        eng.put(st, c.r, c.off, 1, IV(8, 0, 0, 1, bool=False))
        b = z3.Bool('paused')
        eng.put(st, p.r, p.off, 1, IV(8, z3.If(b, 1, 0), 0, 1, bool=b))
        eng.put(st, mem['vt_queue'].r, mem['vt_queue'].off, 8, obj(eng, st, 'queue', 64))
        mm = cell_iv(eng, st, mem['vt_maxmem'], 64, 'maxMem')
        cell_iv(eng, st, mem['vt_priority'], 64, 'priority')
        for f in ('vt_src', 'vt_dst', 'vt_ext'):
            setstr(eng, st, mem[f], SV.const(st, f))
        make_stream(eng, st, self.input, None, fresh=False, open=False)
        self.srcname = getstr(eng, st, mem['vt_src'])
        for f, v in (('taken', 0), ('pu', 0), ('pl', 0), ('outx', 0), ('fx', False), ('any', False), ('lu', 0), ('ll', 0), ('tries', 0), ('readers', 0), ('locked', False), ('readable', False)):
            eng.gset(st, op, f, v)
        eng.gset(st, op, 'free', SV([]))
        for s, r in eng.call_function(self.fn(eng, r'^ConvertOperation::execute\(\)$'), st, [op]):
            g = lambda f: eng.gget(s, op, f)
            ok = zb(g('readable'))
            eng.oblige(s, 'ensures every entry of the list is taken', z3.Implies(ok, zval(g('taken')) == M))
            eng.oblige(s, 'ensures the counts written add up to the number of entries', z3.Implies(ok, zval(g('outx')) == INP(M)))
            eng.oblige(s, 'ensures the mutex is given back', Not(g('locked')))
            eng.oblige(s, 'ensures the list is opened', 'opened' in s.user)


def m_alloc(eng, st, a, I, line, d):
    return (eng.new_region(st, 'private', const(eng, 'vt_priv_size'), 'obj', lazy=True),)


class Build(Unit):
    """the operation is about the list, the directory and the options it is made with"""
    tu = 'converter.cpp'
    title = 'ConvertOperation::ConvertOperation'
    lib = [(r'operator new\(unsigned long\)$', m_alloc), (r'pwned::Operation::Operation\(\)$', lib.m_void),
           (r'std::shared_ptr<ConvertOperationPrivate>::shared_ptr<.*>\(ConvertOperationPrivate\*\)$', lambda eng, st, a, I, line, d: (eng.store(st, a[0], ('ptr',), a[1], line),)),
           (r'std::shared_ptr<ConvertOperationPrivate>::(~shared_ptr|shared_ptr)\(', lib.m_void),
           (r'std::vector<pwned::UserPasswordReaderOptions.*>::vector\(std::vector<', lambda eng, st, a, I, line, d: (eng.gset(st, a[0], 'copy', Box(a[1])),)),
           (r'std::vector<pwned::UserPasswordReaderOptions.*>::~vector\(', lib.m_void),
           (r'boost::filesystem::(detail::)?file_size\(', lambda eng, st, a, I, line, d: (eng.iv_fresh(st, 64, eng.fresh_name('size')),))] + MODELS

    def open_source(self, eng, st, nm):
        st.user['opened'] = True
        eng.oblige(st, 'ensures the list given is opened', sv_same(eng, st, nm, self.src))
        return FileSrc('list'), z3.Bool(eng.fresh_name('readable'))

    def run(self, eng):
        st = State()
        op = obj(eng, st, 'op', const(eng, 'vt_op_size'))
        args, svs = [], []
        for n in ('source', 'directory', 'extension'):
            p = obj(eng, st, n, 32)
            svs.append(SV.const(st, n))
            setstr(eng, st, p, svs[-1])
            args.append(p)
        self.src = svs[0]
        opt = obj(eng, st, 'options', 24)
        mm = eng.iv_fresh(st, 64, 'maxMem')
        for s, r in eng.call_function(self.fn(eng, r'^ConvertOperation::ConvertOperation\('), st, [op] + args + [mm, opt]):
            s, sp = get_obj(eng, s, 'vt_d', op)
            d = eng.load(s, sp, ('ptr',))
            for f, sv, what in (('vt_src', svs[0], 'list'), ('vt_dst', svs[1], 'directory'), ('vt_ext', svs[2], 'extension')):
                s, p = get_obj(eng, s, f, d)
                eng.oblige(s, 'ensures the %s is the one given' % what, sv_same(eng, s, getstr(eng, s, p), sv))
            s, p = get_obj(eng, s, 'vt_maxmem', d)
            eng.oblige(s, 'ensures the memory limit is the one given', rd(eng, s, p, 64) == mm.t)
            s, p = get_obj(eng, s, 'vt_options', d)
            b = eng.gget(s, p, 'copy')
            eng.oblige(s, 'ensures the options are the ones given', b is not None and b.v.r == opt.r)
            s, p = get_obj(eng, s, 'vt_input', d)
            if 'opened' in s.user:
                continue
            eng.oblige(s, 'ensures the stream of the list is not open yet', Not(eng.gget(s, p, 'open')))


def convert_units():
    return [Execute(), Build()]
