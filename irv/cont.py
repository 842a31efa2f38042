"""Contracts of standard containers (trusted)."""
import re
import z3
from .engine import IV, PV, BoolV, And, Or, Not, zval, zb, simp, NULL
from .ir import Unsupported
from .lib import Box, m_void


# ---- std::vector<char/int...> from an initializer list: three pointers, as in libstdc++
def m_vec_il(eng, st, a, I, line, d):
    m = re.match(r'std::vector<(char|unsigned char|int|unsigned int|unsigned long|long), ', d)
    if not m:
        raise Unsupported('vector from a list')
    w = {'char': 1, 'unsigned char': 1, 'int': 4, 'unsigned int': 4}.get(m.group(1), 8)
    this, src, n = a[0], a[1], simp(eng.as_u(st, a[2]))
    if not isinstance(n, int):
        raise Unsupported('vector from a list')
    p = eng.new_region(st, 'elements', n * w, 'heap', lazy=True)
    for i in range(n):
        eng.store(st, PV(p.r, i * w), ('i', 8 * w), eng.load(st, PV(src.r, src.off + i * w), ('i', 8 * w), line), line)
    for o, x in ((0, 0), (8, n * w), (16, n * w)):
        eng.store(st, PV(this.r, this.off + o), ('ptr',), PV(p.r, x), line)
    return (None,)


# ---- std::map<char, int>: one node per key the unit foresees
class CharMap:
    """keys: the only keys that may be used. Ghost 'has_<k>' says whether a key is present; its value is in its node"""

    def __init__(self, keys):
        self.keys = sorted(keys, key=lambda k: k - 256 if k > 127 else k)
        self.nodes = {}


def cm_of(eng, st, p):
    b = eng.gget(st, p, 'charmap')
    if b is None:
        raise Unsupported('map')
    return b.v


def m_cm_ctor(eng, st, a, I, line, d):
    keys = getattr(eng.cur, 'map_keys', None)
    if keys is None:
        raise Unsupported('map')
    cm = CharMap(keys)
    for k in cm.keys:
        n = eng.new_region(st, 'node_%d' % k, 40, 'heap', lazy=True)
        cm.nodes[k] = n
        eng.put(st, n.r, 32, 1, IV(8, k))
        eng.store(st, PV(n.r, 36), ('i', 32), IV(32, 0), line)
        st.ghost[(n.r, 0, 'map')] = Box((a[0], k))
        eng.gset(st, n, 'has', False)
    st.ghost[(a[0].r, eng.coff(a[0].off), 'charmap')] = Box(cm)
    eng.cur.the_map = cm
    return (None,)


def m_cm_index(eng, st, a, I, line, d):
    cm = cm_of(eng, st, a[0])
    k = eng.as_u(st, eng.load(st, a[1], ('i', 8), line))
    if not isinstance(k, int) or k not in cm.nodes:
        raise Unsupported('key of a map')
    n = cm.nodes[k]
    # a new entry has the value 0, which absent entries keep
    eng.gset(st, n, 'has', True)
    return (PV(n.r, 36),)


def present(eng, st, cm, k):
    return eng.gget(st, cm.nodes[k], 'has')


def m_cm_empty(eng, st, a, I, line, d):
    cm = cm_of(eng, st, a[0])
    return (BoolV(And(*[Not(present(eng, st, cm, k)) for k in cm.keys])),)


def m_cm_size(eng, st, a, I, line, d):
    cm = cm_of(eng, st, a[0])
    return (IV(64, simp(sum(z3.If(zb(present(eng, st, cm, k)), 1, 0) for k in cm.keys)), 0, len(cm.keys)),)


def m_cm_count(eng, st, a, I, line, d):
    cm = cm_of(eng, st, a[0])
    k = eng.as_u(st, eng.load(st, a[1], ('i', 8), line))
    if not isinstance(k, int) or k not in cm.nodes:
        raise Unsupported('key of a map')
    return (IV(64, z3.If(zb(present(eng, st, cm, k)), 1, 0), 0, 1),)


def from_key(eng, st, this, cm, i):
    """iterator to the first present key from number i on"""
    out = []
    for j in range(i, len(cm.keys)):
        n = cm.nodes[cm.keys[j]]
        nxt = None
        for s, h in eng.fork(st, present(eng, st, cm, cm.keys[j])):
            if h:
                out.append((s, PV(n.r, 0)))
            else:
                nxt = s
        if nxt is None:
            return out
        st = nxt
    out.append((st, PV(this.r, eng.coff(this.off) + 8)))
    return out


def m_cm_begin(eng, st, a, I, line, d):
    return from_key(eng, st, a[0], cm_of(eng, st, a[0]), 0)


def m_cm_end(eng, st, a, I, line, d):
    cm_of(eng, st, a[0])
    return (PV(a[0].r, eng.coff(a[0].off) + 8),)


def m_increment(eng, st, a, I, line, d):
    b = eng.gget(st, PV(a[0].r, 0), 'map')
    if b is None:
        raise Unsupported('iterator of a map')
    this, k = b.v
    cm = cm_of(eng, st, this)
    return from_key(eng, st, this, cm, cm.keys.index(k) + 1)


def m_max_element(eng, st, a, I, line, d):
    """the first entry to which no other one is greater"""
    m = re.match(r'.* std::(max|min)_element<std::_Rb_tree_iterator<std::pair<char const, int> ?>(, (.*))?>\(', d)
    if not m:
        raise Unsupported('max_element')
    cmpn = m.group(3)
    fn = None
    if cmpn:
        cmpn = cmpn.strip()
        for n, f in eng.mod.functions.items():
            if not f.decl and eng.dem(n).startswith(cmpn + '::operator()('):
                fn = f
    if fn is None:
        raise Unsupported('comparison of max_element')
    b = eng.gget(st, PV(a[0].r, 0), 'map')
    if b is None:        # the range is empty
        return (a[1],)
    this, k0 = b.v
    cm = cm_of(eng, st, this)
    lam = eng.new_region(st, 'comparison', 8, 'obj', lazy=True)
    states = [(st, k0)]
    for k in cm.keys[cm.keys.index(k0) + 1:]:
        nxt = []
        for s, best in states:
            for s1, h in eng.fork(s, present(eng, s, cm, k)):
                if not h:
                    nxt.append((s1, best))
                    continue
                x, y = (best, k) if m.group(1) == 'max' else (k, best)
                for s2, r in eng.call_function(fn, s1, [lam, PV(cm.nodes[x].r, 32), PV(cm.nodes[y].r, 32)]):
                    for s3, less in eng.fork(s2, r.b):
                        nxt.append((s3, k if less else best))
        states = nxt
    return [(s, PV(cm.nodes[k].r, 0)) for s, k in states]


MAP = r'std::map<char, int, std::less<char>, std::allocator<std::pair<char const, int> ?> ?>'
MODELS = [
    (r'std::vector<[a-z ]+, std::allocator<[a-z ]+> ?>::vector\(std::initializer_list<', m_vec_il),
    (r'std::vector<[a-z ]+, std::allocator<[a-z ]+> ?>::~vector\(\)$', m_void),
    (MAP + r'::map\(\)$', m_cm_ctor),
    (MAP + r'::~map\(\)$', m_void),
    (MAP + r'::operator\[\]\(char(&&| const&)\)$', m_cm_index),
    (MAP + r'::empty\(\) const$', m_cm_empty),
    (MAP + r'::size\(\) const$', m_cm_size),
    (MAP + r'::count\(char const&\) const$', m_cm_count),
    (MAP + r'::c?begin\(\)( const)?$', m_cm_begin),
    (MAP + r'::c?end\(\)( const)?$', m_cm_end),
    (r'std::_Rb_tree_increment\(', m_increment),
    (r'std::_Rb_tree_iterator<std::pair<char const, int> ?> std::(max|min)_element<', m_max_element),
]


# ---- boost::split at one character: the pieces of a text, as a vector of strings
from .lib import S, SV, getstr, setstr, find_char, slen, EMPTY, m_void

piece_start = z3.Function('piece_start', S, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
pieces = z3.Function('pieces', S, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
SZ = 32     # sizeof(std::string)


class Pieces:
    """the elements of a vector that boost::split has filled; piece k starts behind the k-th delimiter and reaches
    to the next one (or to the end of the text)"""

    def __init__(self, sv, c):
        sv1 = sv if len(sv.parts) == 1 and isinstance(sv.parts[0], tuple) else SV([(sv.term(), 0, sv.length())])
        self.b, self.o, self.len = sv1.parts[0]
        self.c = c
        self.end = simp(zval(self.o) + zval(self.len))
        self.n = pieces(self.b, zval(c), zval(self.o), zval(self.len))

    def start(self, k):
        return zval(self.o) if isinstance(k, int) and k == 0 else piece_start(self.b, zval(self.c), zval(self.o), zval(k))

    def stop(self, eng, st, k):
        s = self.start(k)
        r = zval(find_char(eng, st, SV([(self.b, self.o, self.len)]), self.c, simp(s - zval(self.o))))
        return simp(z3.If(r == -1, zval(self.end), zval(self.o) + r))

    def facts(self, eng, st, k):
        """piece k exists: where it ends, and where the next one starts"""
        s, e = self.start(k), zval(self.stop(eng, st, k))
        inside = z3.And(zval(k) >= 0, zval(k) < self.n)
        st.add(self.n >= 1)
        st.add(z3.Implies(inside, z3.And(s >= zval(self.o), s <= e, e <= zval(self.end), (zval(k) == self.n - 1) == (e == zval(self.end)),
                                         zval(self.start(simp(zval(k) + 1))) == e + 1)))
        st.add(piece_start(self.b, zval(self.c), zval(self.o), 0) == zval(self.o))

    def load(self, eng, st, r, off, ty, line):
        raise Unsupported('bytes of a string object')

    def store(self, eng, st, r, off, ty, v, line):
        raise Unsupported('bytes of a string object')

    def index(self, eng, st, off):
        if isinstance(off, int):
            if off % SZ:
                raise Unsupported('pointer into a string object')
            return off // SZ
        k = simp(zval(off) / SZ)
        eng.oblige_safe(st, 'reference to an element', zval(off) % SZ == 0, None)
        return k

    def get_str(self, eng, st, p):
        k = self.index(eng, st, p.off)
        eng.oblige_safe(st, 'element of the vector exists', z3.And(zval(k) >= 0, zval(k) < self.n), None)
        self.facts(eng, st, k)
        s = self.start(k)
        # the delimiter is found (or not) from the start of the piece on
        sv = SV([(self.b, s, simp(zval(self.stop(eng, st, k)) - s))])
        sv.facts(st)
        st.add(zval(sv.length()) >= 0)
        return sv

    def set_str(self, eng, st, p, sv):
        raise Unsupported('assignment to a piece')


VS = r'std::vector<std::string, std::allocator<std::string ?> ?>'


def m_anyof(eng, st, a, I, line, d):
    from .lib import cstr
    g = cstr(eng, st, a[-1]).is_lit()
    if g is None or len(g) != 1:
        raise Unsupported('set of delimiters')
    # returned by value, in a register or through a hidden pointer
    if len(a) != 2:
        raise Unsupported('is_any_of')
    st.ghost[(a[0].r, eng.coff(a[0].off), 'anyof')] = Box(g[0])
    return (None,)


def m_anyof_copy(eng, st, a, I, line, d):
    b = eng.gget(st, a[1], 'anyof')
    if b is None:
        raise Unsupported('is_any_of')
    st.ghost[(a[0].r, eng.coff(a[0].off), 'anyof')] = b
    return (None,)


def m_split(eng, st, a, I, line, d):
    vec, text, pred = a[0], a[1], a[2]
    if len(a) > 3 and eng.as_u(st, a[3]) != 1:       # token_compress_off
        raise Unsupported('split with compression')
    b = eng.gget(st, pred, 'anyof')
    if b is None:
        raise Unsupported('delimiters of split')
    sv = getstr(eng, st, text)
    sv.facts(st)
    h = Pieces(sv, b.v)
    st.add(z3.And(h.n >= 1, h.n <= zval(h.len) + 1))
    for k in (0, 1):
        h.facts(eng, st, k)
    E = eng.new_region(st, 'pieces', None, 'heap', handler=h)
    seen = getattr(eng.cur, 'vectors', None)
    if seen is not None and not any(x.n.eq(h.n) for x in seen):
        seen.append(h)
    for o, x in ((0, 0), (8, simp(SZ * h.n)), (16, simp(SZ * h.n))):
        eng.store(st, PV(vec.r, vec.off + o), ('ptr',), PV(E.r, x), line)
    return (vec,)


def pieces_of(eng, st, v, line):
    p = eng.load(st, v, ('ptr',), line)
    h = st.mem[p.r].handler if isinstance(p, PV) and p.r in st.mem else None
    if not isinstance(h, Pieces):
        raise Unsupported('vector of strings')
    return p, h


def m_vs_ctor(eng, st, a, I, line, d):
    for o in (0, 8, 16):
        eng.store(st, PV(a[0].r, a[0].off + o), ('ptr',), NULL, line)
    return (None,)


def m_vs_size(eng, st, a, I, line, d):
    p, h = pieces_of(eng, st, a[0], line)
    return (IV(64, h.n, 1, (1 << 62)),)


def m_vs_empty(eng, st, a, I, line, d):
    p, h = pieces_of(eng, st, a[0], line)
    return (BoolV(False),)


def m_vs_at(eng, st, a, I, line, d):
    p, h = pieces_of(eng, st, a[0], line)
    k = eng.as_u(st, a[1])
    ok = z3.And(zval(k) >= 0, zval(k) < h.n)
    if '::at(' in d:
        eng.oblige(st, 'std::vector::at() does not throw', ok, line)
    else:
        eng.oblige_safe(st, 'index inside the vector', ok, line)
    return (PV(p.r, simp(zval(k) * SZ)),)


def m_vs_front(eng, st, a, I, line, d):
    p, h = pieces_of(eng, st, a[0], line)
    return (PV(p.r, 0 if '::front(' in d else simp((h.n - 1) * SZ)),)


# ---- std::map<string, string>: the whole map is one ghost value
Opt = z3.Datatype('OptText')
Opt.declare('none')
Opt.declare('some', ('text', S))
Opt = Opt.create()
EMPTY_MAP = z3.K(S, Opt.none)


class Slot:
    """the mapped value of a key"""

    def __init__(self, m, key):
        self.m, self.key = m, key

    def load(self, eng, st, r, off, ty, line):
        raise Unsupported('bytes of a string object')

    def store(self, eng, st, r, off, ty, v, line):
        raise Unsupported('bytes of a string object')

    def get_str(self, eng, st, p):
        v = eng.gget(st, self.m, 'smap')
        sv = SV.base(Opt.text(z3.Select(v, self.key)))
        st.add(zval(sv.length()) >= 0)
        return sv

    def set_str(self, eng, st, p, sv):
        sv.facts(st)
        v = eng.gget(st, self.m, 'smap')
        eng.gset(st, self.m, 'smap', z3.Store(v, self.key, Opt.some(sv.term())))


def smap_of(eng, st, p):
    v = eng.gget(st, p, 'smap')
    if v is None:
        raise Unsupported('map')
    return v


def m_sm_clear(eng, st, a, I, line, d):
    eng.gset(st, a[0], 'smap', EMPTY_MAP)
    return (None,)


def m_sm_index(eng, st, a, I, line, d):
    v = smap_of(eng, st, a[0])
    ks = getstr(eng, st, a[1])
    ks.facts(st)
    k = ks.term()
    old = z3.Select(v, k)
    eng.gset(st, a[0], 'smap', z3.Store(v, k, z3.If(Opt.is_none(old), Opt.some(EMPTY), old)))
    E = eng.new_region(st, 'mapped', SZ, 'heap', handler=Slot(a[0], k))
    return (PV(E.r, 0),)


def m_sm_count(eng, st, a, I, line, d):
    v = smap_of(eng, st, a[0])
    ks = getstr(eng, st, a[1])
    ks.facts(st)
    return (IV(64, z3.If(Opt.is_none(z3.Select(v, ks.term())), 0, 1), 0, 1),)


SM = r'std::map<std::string, std::string, std::less<std::string ?>, std::allocator<std::pair<std::string const, std::string ?> ?> ?>'
ANY = r'boost::algorithm::detail::is_any_ofF<char>'
SPLIT = [
    (r'.*boost::algorithm::is_any_of<', m_anyof),
    (ANY + r'::is_any_ofF\(' + ANY + r'( const&|&&)\)$', m_anyof_copy),
    (ANY + r'::~is_any_ofF\(\)$', m_void),
    (VS + r'& boost::algorithm::split<', m_split),
    (VS + r'::vector\(\)$', m_vs_ctor),
    (VS + r'::~vector\(\)$', m_void),
    (VS + r'::size\(\) const$', m_vs_size),
    (VS + r'::empty\(\) const$', m_vs_empty),
    (VS + r'::(at|operator\[\])\(unsigned long\)( const)?$', m_vs_at),
    (VS + r'::(front|back)\(\)( const)?$', m_vs_front),
    (SM + r'::(clear|map)\(\)$', m_sm_clear),
    (SM + r'::~map\(\)$', m_void),
    (SM + r'::operator\[\]\(', m_sm_index),
    (SM + r'::count\(', m_sm_count),
]
MODELS += SPLIT
