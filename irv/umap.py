"""std::unordered_map keyed by symbols, and vectors of (symbol, value) pairs, seen from one fixed arbitrary key.

A contract about 'every key' is proved for one key about which nothing is known. Of the other keys only the one used last is
remembered, and (for counts) the sum of all their values. Iteration visits every key exactly once, in an unknown order."""
import re
import z3
from .engine import *
from .ir import Unsupported
from .lib import Box, m_void
from .seq import SeqMem, Col

M64 = 1 << 64


class UM:
    def __init__(self, name, key, kind, on_node=None):
        """kind: cnt (64-bit counts), prob (double), node (objects described by ghost fields; on_node(eng, st, p, fresh) sets those of a node)"""
        self.name, self.key, self.kind, self.on_node = name, key, kind, on_node


def um_of(eng, st, p):
    b = eng.gget(st, p, 'um')
    if b is None:
        raise Unsupported('unknown map')
    return b.v


def fv(eng, r):
    return FV(z3.Const(eng.fresh_name('mf'), FSORT), 'double', None, r)


def put_val(eng, st, d, p, v):
    eng.put(st, p.r, p.off + 8, 8, IV(64, v, 0, M64 - 1) if d.kind == 'cnt' else fv(eng, v))


def get_val(eng, st, d, p):
    if d.kind == 'cnt':
        return zval(eng.as_u(st, eng.load(st, PV(p.r, p.off + 8), ('i', 64))))
    v = eng.load(st, PV(p.r, p.off + 8), ('double',))
    if not isinstance(v, FV) or v.r is None:
        raise Unsupported('value of a map')
    return v.r


def attach(eng, st, p, d, has, val=None, others=0):
    st.ghost[(p.r, eng.coff(p.off), 'um')] = Box(d)
    g = lambda f, v: eng.gset(st, p, f, v)
    xs = eng.new_region(st, d.name + ' of the key', 16 if d.kind != 'node' else 1024, 'heap', lazy=True)
    g('xs', xs)
    g('has', has)
    eng.put(st, xs.r, 0, 4, IV(32, d.key, -(1 << 31), (1 << 31) - 1))
    if d.kind == 'node':
        d.on_node(eng, st, PV(xs.r, 8), False)
    else:
        put_val(eng, st, d, xs, val if val is not None else z3.IntVal(0) if d.kind == 'cnt' else z3.RealVal(0))
    # the other key used last, if any
    os = eng.new_region(st, d.name + ' of another key', 16 if d.kind != 'node' else 1024, 'heap', lazy=True)
    eng.put(st, os.r, 0, 4, IV(32, 0))
    if d.kind == 'node':
        d.on_node(eng, st, PV(os.r, 8), True)
    else:
        put_val(eng, st, d, os, z3.IntVal(0) if d.kind == 'cnt' else z3.RealVal(0))
    g('os', os)
    g('ok', 0)
    g('okv', False)
    g('ohas', False)
    g('o0', 0)
    g('oth', others)
    g('ver', z3.Int(eng.fresh_name('ver')))
    return xs


def others_sum(eng, st, p):
    d = um_of(eng, st, p)
    t = zval(eng.gget(st, p, 'oth'))
    o = eng.gget(st, p, 'os')
    t = t + z3.If(zb(eng.gget(st, p, 'ohas')), get_val(eng, st, d, o), 0) - zval(eng.gget(st, p, 'o0'))
    return z3.simplify(t)


def key_has(eng, st, p):
    return zb(eng.gget(st, p, 'has'))


def key_val(eng, st, p):
    d = um_of(eng, st, p)
    return get_val(eng, st, d, eng.gget(st, p, 'xs'))


def total(eng, st, p):
    return z3.simplify(others_sum(eng, st, p) + z3.If(key_has(eng, st, p), key_val(eng, st, p), 0))


def unreg(eng, st, p):
    eng.gset(st, p, 'ver', z3.Int(eng.fresh_name('ver')))


def term_id(x):
    return ('t', x.get_id()) if isinstance(x, z3.ExprRef) else x


def cached(eng, st, p, field, sig, make):
    """the enumeration of a container: the same one as long as the contents are the same"""
    k = (p.r, eng.coff(p.off), field)
    b = st.ghost.get(k)
    ids = tuple(term_id(x) for x in sig)
    if b is not None and b.v[0] == ids:
        return b.v[1]
    r = make()
    st.ghost[k] = Box((ids, r, sig))
    return r


def access(eng, st, p, k):
    """[(state, element, field that says whether it is there)]"""
    d = um_of(eng, st, p)
    out = []
    for s, same in eng.fork(st, k == d.key):
        if same:
            out.append((s, eng.gget(s, p, 'xs'), 'has'))
            continue
        ok = eng.gget(s, p, 'ok')
        if not eng.valid(s, z3.And(zb(eng.gget(s, p, 'okv')), k == zval(ok))):
            if d.kind == 'cnt':
                eng.gset(s, p, 'oth', simp(others_sum(eng, s, p)))
            o = eng.gget(s, p, 'os')
            b = z3.Bool(eng.fresh_name('there'))
            eng.put(s, o.r, 0, 4, IV(32, k, -(1 << 31), (1 << 31) - 1))
            if hasattr(d, 'other'):
                d.other(eng, s, b)
            if d.kind == 'node':
                d.on_node(eng, s, PV(o.r, 8), False)
            elif d.kind == 'cnt':
                v = z3.Int(eng.fresh_name('other'))
                s.add(z3.And(v >= 0, v <= zval(eng.gget(s, p, 'oth')), z3.Implies(z3.Not(b), v == 0)))
                put_val(eng, s, d, o, v)
                eng.gset(s, p, 'o0', v)
            else:
                put_val(eng, s, d, o, z3.Real(eng.fresh_name('otherp')))
            eng.gset(s, p, 'ohas', b)
            eng.gset(s, p, 'ok', k)
            eng.gset(s, p, 'okv', True)
        out.append((s, eng.gget(s, p, 'os'), 'ohas'))
    return out


def key_arg(eng, st, a):
    return zval(eng.as_s(st, eng.load(st, a, ('i', 32))))


def insert_default(eng, s, p, d, e, f):
    """the entry is value-initialised unless it is there"""
    has = zb(eng.gget(s, p, f))
    h = simp(z3.simplify(has))
    if d.kind == 'node':
        if not eng.valid(s, has):
            if not eng.valid(s, z3.Not(has)):
                out = []
                for s2, b in eng.fork(s, has):
                    out += insert_default(eng, s2, p, d, e, f)
                return out
            d.on_node(eng, s, PV(e.r, e.off + 8), True)
    else:
        v = get_val(eng, s, d, e)
        put_val(eng, s, d, e, z3.simplify(z3.If(has, v, z3.IntVal(0) if d.kind == 'cnt' else z3.RealVal(0))))
    if not eng.valid(s, has):
        eng.gset(s, p, f, True)
        unreg(eng, s, p)
    return [s]


def m_index(eng, st, a, I, line, dd):
    p = a[0]
    d = um_of(eng, st, p)
    out = []
    for s, e, f in access(eng, st, p, key_arg(eng, st, a[1])):
        for s2 in insert_default(eng, s, p, d, e, f):
            out.append((s2, PV(e.r, e.off + 8)))
    return out


def m_at(eng, st, a, I, line, dd):
    p = a[0]
    out = []
    for s, e, f in access(eng, st, p, key_arg(eng, st, a[1])):
        for s2, b in eng.fork(s, zb(eng.gget(s, p, f))):
            if b:
                out.append((s2, PV(e.r, e.off + 8)))
            else:
                raise Unsupported('map::at() of an absent key')
    return out


def region(eng, st, p):
    d = um_of(eng, st, p)
    has, val, tot = key_has(eng, st, p), None if d.kind == 'node' else key_val(eng, st, p), total(eng, st, p) if d.kind == 'cnt' else None

    def make():
        mem = UEnum(eng, st, d, has, val, tot)
        mem.map = p
        return eng.new_region(st, d.name + ' elements', None, 'seq', handler=mem)
    return cached(eng, st, p, 'reg', (has, val, tot, eng.gget(st, p, 'ver')), make)


class UEnum(SeqMem):
    """the elements in the order of iteration; exactly one has the key if it is there"""

    def __init__(self, eng, st, d, has, val, tot=None, n=None):
        f = lambda k, s=z3.IntSort(): z3.Function(eng.fresh_name(d.name + k), z3.IntSort(), s)
        self.K, self.has, self.d, self.val, self.tot = f('K'), has, d, val, tot
        self.xat = z3.Int(eng.fresh_name(d.name + 'at'))
        if n is None:
            n = z3.Int(eng.fresh_name(d.name + 'n'))
            st.add(z3.And(n >= 0, n < (1 << 32)))
        st.add(z3.Implies(has, z3.And(self.xat >= 0, self.xat < n)))
        cols = [Col(0, 4, self.K, signed=True, on=self.facts)]
        self.C = self.PS = None
        if d.kind == 'cnt':
            self.C, self.PS = f('C'), f('PS')
            st.add(z3.And(self.PS(0) == 0, self.PS(n) == tot))
            cols.append(Col(8, 8, self.C, on=self.facts))
        elif d.kind == 'prob':
            self.C = f('P', z3.RealSort())
            cols.append(Col(8, 8, self.C, fp='double', on=self.facts))
        SeqMem.__init__(self, 1024 if d.kind == 'node' else 16, n, cols, d.name)

    def facts(self, eng, st, i):
        key = ('uenum', self.K.name(), i.get_id())
        if key in st.seqs:
            return
        st.seqs[key] = i
        st.add((self.K(i) == self.d.key) == z3.And(self.has, i == self.xat))
        if self.val is not None:
            st.add(z3.Implies(z3.And(self.has, i == self.xat), self.C(i) == self.val))
        if self.PS is not None:
            st.add(z3.And(self.C(i) >= 0, self.PS(i + 1) == self.PS(i) + self.C(i), self.PS(i) >= 0, self.PS(i + 1) <= self.PS(self.n)))
            st.add(z3.Implies(z3.And(self.has, self.xat < i), self.PS(i) >= self.val))


def m_begin(eng, st, a, I, line, dd):
    r = region(eng, st, a[0])
    mem = st.mem[r.r].handler
    return (PV(r.r, 0 if re.search(r'::c?begin\(', dd) else simp(z3.simplify(mem.stride * mem.n))),)


def m_find(eng, st, a, I, line, dd):
    p = a[0]
    out = []
    for s, e, f in access(eng, st, p, key_arg(eng, st, a[1])):
        for s2, b in eng.fork(s, zb(eng.gget(s, p, f))):
            if b:
                out.append((s2, PV(e.r, e.off)))
            else:
                r = region(eng, s2, p)
                mem = s2.mem[r.r].handler
                out.append((s2, PV(r.r, simp(z3.simplify(mem.stride * mem.n)))))
    return out


def m_count(eng, st, a, I, line, dd):
    p = a[0]
    out = []
    for s, e, f in access(eng, st, p, key_arg(eng, st, a[1])):
        b = zb(eng.gget(s, p, f))
        out.append((s, IV(64, z3.If(b, 1, 0), 0, 1)))
    return out


def m_emplace(eng, st, a, I, line, dd):
    """emplace/try_emplace(key, value)"""
    p = a[0]
    d = um_of(eng, st, p)
    if len(a) != 3:
        raise Unsupported('emplace with %d arguments' % (len(a) - 1))
    m = re.search(r'::(?:try_)?emplace<([^<>]*), (.*?)>\(', dd)
    vt = m.group(2) if m else ''
    out = []
    for s, e, f in access(eng, st, p, key_arg(eng, st, a[1])):
        for s2, b in eng.fork(s, zb(eng.gget(s, p, f))):
            if not b:
                if d.kind == 'node':
                    d.on_node(eng, s2, PV(e.r, 8), a[2])
                elif d.kind == 'cnt':
                    v = eng.load(s2, a[2], ('i', 64 if 'long' in vt else 32))
                    put_val(eng, s2, d, e, zval(eng.as_s(s2, v) if 'unsigned' not in vt else eng.as_u(s2, v)) % M64)
                else:
                    if 'double' not in vt:
                        raise Unsupported('emplace of a ' + vt)
                    put_val(eng, s2, d, e, eng.load(s2, a[2], ('double',)).r)
                eng.gset(s2, p, f, True)
                unreg(eng, s2, p)
            out.append((s2, Agg([PV(e.r, e.off), BoolV(not b)])))
    return out


def m_size(eng, st, a, I, line, dd):
    r = region(eng, st, a[0])
    n = st.mem[r.r].handler.n
    if '::empty(' in dd:
        return (BoolV(n == 0),)
    return (IV(64, n, 0, M64 - 1),)


def m_clear(eng, st, a, I, line, dd):
    p = a[0]
    d = um_of(eng, st, p)
    eng.gset(st, p, 'has', False)
    for f, v in (('okv', False), ('ohas', False), ('o0', 0), ('oth', 0)):
        eng.gset(st, p, f, v)
    unreg(eng, st, p)
    r = region(eng, st, p)
    st.add(st.mem[r.r].handler.n == 0)
    return (None,)


def m_next(eng, st, a, I, line, dd):
    p = eng.load(st, a[0], ('ptr',))
    r = st.mem.get(p.r)
    if r is None or not isinstance(r.handler, UEnum):
        raise Unsupported('increment of an iterator')
    q = PV(p.r, simp(z3.simplify(zval(p.off) + r.handler.stride)))
    eng.store(st, a[0], ('ptr',), q, line)
    return (a[0] if '(int)' not in dd else p,)


def m_deref(eng, st, a, I, line, dd):
    return (eng.load(st, a[0], ('ptr',)),)


# ---- vectors of pairs
def v_attach(eng, st, p, d, n, has, val):
    """a vector of n pairs; exactly one has the key if has"""
    st.ghost[(p.r, eng.coff(p.off), 'vd')] = Box(d)
    for f, v in (('vlen', n), ('vhas', has), ('vval', val), ('vver', z3.Int(eng.fresh_name('ver')))):
        eng.gset(st, p, f, v)


def vd_of(eng, st, p):
    b = eng.gget(st, p, 'vd')
    if b is None:
        raise Unsupported('unknown vector')
    return b.v


def v_region(eng, st, p):
    d = vd_of(eng, st, p)
    has, val, n = zb(eng.gget(st, p, 'vhas')), zval(eng.gget(st, p, 'vval')), zval(eng.gget(st, p, 'vlen'))

    def make():
        mem = UEnum(eng, st, d, has, val, None, n)
        mem.vec = p
        return eng.new_region(st, d.name + ' pairs', None, 'seq', handler=mem)
    return cached(eng, st, p, 'vreg', (has, val, n, eng.gget(st, p, 'vver')), make)


def v_unreg(eng, st, p):
    eng.gset(st, p, 'vver', z3.Int(eng.fresh_name('ver')))


def v_begin(eng, st, a, I, line, dd):
    r = v_region(eng, st, a[0])
    mem = st.mem[r.r].handler
    return (PV(r.r, 0 if re.search(r'::c?begin\(', dd) else simp(z3.simplify(mem.stride * mem.n))),)


def v_size(eng, st, a, I, line, dd):
    vd_of(eng, st, a[0])
    n = zval(eng.gget(st, a[0], 'vlen'))
    return (BoolV(n == 0) if '::empty(' in dd else IV(64, simp(n), 0, M64 - 1),)


def v_resize(eng, st, a, I, line, dd):
    p = a[0]
    vd_of(eng, st, p)
    n = zval(eng.as_u(st, a[1]))
    eng.gset(st, p, 'vlen', simp(n))
    # value-initialised or former pairs: unknown
    eng.gset(st, p, 'vhas', z3.Bool(eng.fresh_name('vhas')))
    eng.gset(st, p, 'vval', z3.Real(eng.fresh_name('vval')))
    v_unreg(eng, st, p)
    return (None,)


def v_clear(eng, st, a, I, line, dd):
    p = a[0]
    vd_of(eng, st, p)
    eng.gset(st, p, 'vlen', 0)
    eng.gset(st, p, 'vhas', False)
    v_unreg(eng, st, p)
    return (None,)


def whole_map(eng, st, f, l):
    h = st.mem[f.r].handler if f.r in st.mem else None
    if not isinstance(h, UEnum) or not hasattr(h, 'map') or l.r != f.r or not eng.valid(st, z3.And(zval(f.off) == 0, zval(l.off) == h.stride * h.n)):
        raise Unsupported('copy of something else than a whole map')
    return h


def v_take(eng, st, p, h):
    if vd_of(eng, st, p).key is not h.d.key:
        raise Unsupported('copy between different kinds of symbols')
    eng.gset(st, p, 'vlen', h.n)
    eng.gset(st, p, 'vhas', h.has)
    eng.gset(st, p, 'vval', h.val)
    v_unreg(eng, st, p)


def v_copy(eng, st, a, I, line, dd):
    """std::copy(map.begin(), map.end(), vector.begin())"""
    h = whole_map(eng, st, a[0], a[1])
    t = st.mem[a[2].r].handler if a[2].r in st.mem else None
    if not isinstance(t, UEnum) or not hasattr(t, 'vec') or not eng.valid(st, zval(a[2].off) == 0):
        raise Unsupported('copy to something else than a vector')
    p = t.vec
    eng.oblige(st, 'the vector has room for what is copied to it', zval(eng.gget(st, p, 'vlen')) >= h.n, line)
    if not eng.valid(st, zval(eng.gget(st, p, 'vlen')) == h.n):
        raise Unsupported('copy into a part of a vector')
    v_take(eng, st, p, h)
    return (PV(a[2].r, simp(z3.simplify(16 * h.n))),)


def v_assign(eng, st, a, I, line, dd):
    v_take(eng, st, a[0], whole_map(eng, st, a[1], a[2]))
    return (None,)


def v_sort(eng, st, a, I, line, dd):
    f, l = a[0], a[1]
    h = st.mem[f.r].handler if f.r in st.mem else None
    if not isinstance(h, UEnum) or not hasattr(h, 'vec') or l.r != f.r or not eng.valid(st, z3.And(zval(f.off) == 0, zval(l.off) == 16 * h.n)):
        raise Unsupported('sorting something else than a whole vector')
    v_unreg(eng, st, h.vec)
    return (None,)


# ---- std::wstring: pointer to the characters at 0, length at 8
def w_attach(eng, st, p, W, n, name='word'):
    mem = SeqMem(4, n, [Col(0, 4, W, signed=True)], name)
    r = eng.new_region(st, name, None, 'seq', handler=mem)
    eng.put(st, p.r, p.off, 8, r)
    eng.put(st, p.r, p.off + 8, 8, IV(64, simp(n) if isinstance(n, z3.ExprRef) else n, 0, M64 - 1))


def w_len(eng, st, p):
    return zval(eng.as_u(st, eng.load(st, PV(p.r, p.off + 8), ('i', 64))))


def w_size(eng, st, a, I, line, dd):
    n = w_len(eng, st, a[0])
    return (BoolV(n == 0) if '::empty(' in dd else IV(64, simp(n), 0, M64 - 1),)


def w_at(eng, st, a, I, line, dd):
    b = eng.load(st, a[0], ('ptr',))
    n = w_len(eng, st, a[0])
    if '::front(' in dd:
        i = z3.IntVal(0)
    elif '::back(' in dd:
        i = n - 1
    else:
        i = zval(eng.as_u(st, a[1]))
    eng.oblige(st, 'index of a character inside the word', z3.And(i >= 0, i < n), line)
    return (PV(b.r, simp(z3.simplify(zval(b.off) + 4 * i))),)


def w_begin(eng, st, a, I, line, dd):
    b = eng.load(st, a[0], ('ptr',))
    return (PV(b.r, b.off if re.search(r'::c?begin\(', dd) else simp(z3.simplify(zval(b.off) + 4 * w_len(eng, st, a[0])))),)


UMAP = r'std::unordered_map<wchar_t, (?:unsigned long|double|pwned::markov::Node<wchar_t, double, unsigned long>), .*>::'
PVEC = r'std::vector<std::pair<wchar_t, double>, std::allocator<std::pair<wchar_t, double> > >::'
WSTR = r'std::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >::'
UIT = r'std::__detail::_Node_(const_)?iterator<std::pair<wchar_t const, .*>, false, false>::'
MODELS = [
    (UMAP + r'operator\[\]\(', m_index), (UMAP + r'at\(', m_at), (UMAP + r'find\(', m_find), (UMAP + r'(count|contains)\(', m_count),
    (r'(.* )?' + UMAP + r'(try_)?emplace<', m_emplace), (UMAP + r'(size|empty)\(\) const$', m_size), (UMAP + r'clear\(\)$', m_clear),
    (UMAP + r'c?(begin|end)\(\)( const)?$', m_begin), (UMAP + r'reserve\(', m_void),
    (UIT + r'operator\+\+\((int)?\)$', m_next), (UIT + r'operator(\*|->)\(\) const$', m_deref),
    (PVEC + r'c?(begin|end)\(\)( const)?$', v_begin), (PVEC + r'(size|empty)\(\) const$', v_size), (PVEC + r'resize\(', v_resize),
    (PVEC + r'clear\(\)$', v_clear), (PVEC + r'reserve\(', m_void), (r'(.* )?' + PVEC + r'assign<', v_assign),
    (r'__gnu_cxx::__normal_iterator<std::pair<wchar_t, double>\*, .*> std::copy<std::__detail::_Node_(const_)?iterator<', v_copy),
    (r'void std::(stable_)?sort<__gnu_cxx::__normal_iterator<std::pair<wchar_t, double>\*,', v_sort),
    (WSTR + r'(size|length|empty)\(\) const$', w_size), (WSTR + r'(at|operator\[\])\(unsigned long\)( const)?$', w_at),
    (WSTR + r'(front|back)\(\)( const)?$', w_at), (WSTR + r'c?(begin|end)\(\)( const)?$', w_begin), (WSTR + r'~basic_string\(\)$', m_void),
]
