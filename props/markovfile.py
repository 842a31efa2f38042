"""Contracts on saving and loading a Markov model.

A model: nf first symbols FK(i) with probability bits FB(i); nn nodes with symbol NK(i), each with ns(i) successors SK(i,j) with
probability bits SB(i,j). Symbols are distinct among the first symbols, the nodes and the successors of a node. LE4, LE8: the
little-endian words of the file. The file of the model is 'MRKV', 2, nf, the first symbols, nn, the nodes one after the other;
node i starts at NS(i). K is a fixed arbitrary index of a first symbol, X and Y are fixed arbitrary symbols."""
import re
from .common import *
from .markov import NODE, CHAIN
from .markovcount import X, Y, symbols, real, NodeDtor
from .merger import get_obj
from irv import umap
from irv.umap import UM, attach, key_has, v_attach
from irv.seq import SeqMem, Col, vector_of, seq_candidates, positions
from irv.engine import Missing

I, R = z3.IntSort(), z3.RealSort()
FN = lambda n, *s: z3.Function(n, *s)
FK, FB, NK, ns, NS = FN('FK', I, I), FN('FB', I, I), FN('NK', I, I), FN('ns', I, I), FN('NS', I, I)
SK, SB = FN('SK', I, I, I), FN('SB', I, I, I)
DBL = FN('of_bits', I, R)
BITS = FN('bits_of', R, I)
nf, nn, K, XAT, YAT, PB = z3.Ints('nf nn K xat yat pb')
HASX, HASY = z3.Bools('hasx hasy')
M32, B31 = 1 << 32, 1 << 31
u32 = lambda x: z3.If(x < 0, x + M32, x)
inside = lambda x, n: z3.And(x >= 0, x < n)


def counters(eng, st):
    """the values of the integer variables that loops change"""
    ts = {}
    for r in st.mem.values():
        if r.handler is None and r.size in (4, 8):
            for o, (n, v) in r.cells.items():
                if isinstance(v, IV) and n in (4, 8) and isinstance(v.t, z3.ExprRef) and z3.is_const(v.t) and v.t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    t = zval(eng.as_u(st, v))
                    ts[t.get_id()] = t
    return list(ts.values())


class ModelFile(FileSrc):
    def read(self, eng, st, pos, n, dst, line):
        self.relate(eng, st)
        FileSrc.read(self, eng, st, pos, n, dst, line)

    def start(self, st):
        """the facts that mention no index, and the model's own"""
        le1, le4, le8 = self.le[1], self.le[4], self.le[8]
        st.add(z3.And(nf >= 0, nf < M32, nn >= 0, nn < M32, NS(0) == 13 + 12 * nf))
        st.add(z3.Implies(HASX, inside(XAT, nn)))
        st.add(z3.Implies(HASY, z3.And(HASX, inside(YAT, ns(XAT)))))
        st.add(z3.And(le4(0) == int.from_bytes(b'MRKV', 'little'), le1(4) == 2, le4(5) == nf, le4(9 + 12 * nf) == nn))
        st.add(z3.And(PB >= 0, PB < M64))
        self.facts(st, z3.IntVal(0))
        self.facts(st, z3.IntVal(0), z3.IntVal(0))

    def facts(self, st, i, j=None):
        key = ('mf', i.get_id(), j.get_id() if j is not None else None)
        if key in st.seqs:
            return
        st.seqs[key] = (i, j)
        le4, le8 = self.le[4], self.le[8]
        if j is None:
            st.add(z3.Implies(inside(i, nf), z3.And(le4(9 + 12 * i) == u32(FK(i)), le8(13 + 12 * i) == FB(i))))
            st.add(z3.Implies(inside(i, nn), z3.And(le4(NS(i)) == u32(NK(i)), le4(NS(i) + 4) == ns(i), NS(i + 1) == NS(i) + 8 + 12 * ns(i),
                                                    NS(i) >= 13 + 12 * nf, NS(i + 1) <= NS(nn), (NK(i) == X) == z3.And(HASX, i == XAT))))
            st.add(z3.And(inside(ns(i), M32), inside(FB(i), M64), FK(i) >= -B31, FK(i) < B31, NK(i) >= -B31, NK(i) < B31))
        else:
            p = NS(i) + 8 + 12 * j
            st.add(z3.Implies(z3.And(inside(i, nn), inside(j, ns(i))), z3.And(le4(p) == u32(SK(i, j)), le8(p + 4) == SB(i, j))))
            st.add(z3.Implies(z3.And(HASX, i == XAT, inside(j, ns(i))),
                              z3.And((SK(i, j) == Y) == z3.And(HASY, j == YAT), z3.Implies(z3.And(HASY, j == YAT), SB(i, j) == PB))))
            st.add(z3.And(inside(SB(i, j), M64), SK(i, j) >= -B31, SK(i, j) < B31))

    def relate(self, eng, st):
        """the facts at the integer variables of the functions being executed"""
        ts = {t.get_id(): t for t in counters(eng, st)}
        ts = list(ts.values())
        for t in ts:
            self.facts(st, t)
            self.facts(st, t, z3.IntVal(0))
            self.facts(st, z3.IntVal(0), t)
            for t2 in ts:
                if t2 is not t:
                    self.facts(st, t, t2)


# ---- saving
class Expect:
    """an output file whose words must be those of the model's file"""

    def __init__(self, file):
        self.file = file

    def write(self, eng, st, q, p, n, line):
        if not isinstance(n, int):
            raise Unsupported('write of a symbolic number of bytes')
        i = 0
        pos = zval(eng.gget(st, q, 'opos'))
        while i < n:
            w = 8 if n == 8 else 4 if i + 4 <= n else 1
            t = zval(eng.as_u(st, eng.load(st, PV(p.r, p.off + i), ('i', 8 * w), line)))
            eng.oblige(st, 'ensures the file has the bytes of the format', t == self.file.le[w](z3.simplify(pos + i)), line)
            i += w
        eng.gset(st, q, 'opos', simp(z3.simplify(pos + n)))


class SuccC:
    """Node::sortedSuccessors: the pairs of the node"""

    def matches(self, d, name):
        return re.match(NODE + r'sortedSuccessors\(', d)

    def apply(self, eng, st, a, I_, line):
        u = eng.cur
        if a[0].r != u.noder.r:
            raise Unsupported('successors of an unknown node')
        i = z3.simplify((zval(a[0].off) - 8) / 1024)
        if not eng.valid(st, zval(a[0].off) == 1024 * i + 8):
            raise Unsupported('successors of an unknown node')
        eng.oblige(st, 'the node is one of the map', inside(i, nn), line)
        u.file.facts(st, i)
        on = lambda eng, st, j: u.file.facts(st, i, j)
        mem = SeqMem(16, ns(i), [Col(0, 4, lambda j: SK(i, j), signed=True, on=on), Col(8, 8, lambda j: DBL(SB(i, j)), fp='double', on=u.bits(on, lambda j: SB(i, j)))], 'successor')
        mem.node = i
        v = eng.new_region(st, 'successors', 24, 'heap', lazy=True)
        vector_of(eng, st, v, mem)
        return [(st, v)]


class Save(Unit):
    title = 'Chain::saveBinary'
    tu = 'markov.cpp'
    reals = True
    fp_uf = True
    fp_tokens = True
    contracts = (SuccC(),)

    def __init__(self):
        self.candgens = (self.cands, seq_candidates(None))
        um = umap.UMAP
        self.lib = [(um + r'c?(begin|end)\(\)( const)?$', self.node_begin), (um + r'(size|empty)\(\) const$', self.node_size),
                    (umap.UIT + r'operator\+\+\((int)?\)$', self.node_next), (umap.UIT + r'operator(\*|->)\(\) const$', umap.m_deref)]

    def bounds(self, eng):
        return [zval(nf), zval(nn)] + [zval(ns(i)) for i in self.used]

    def bits(self, on, f):
        def g(eng, st, j):
            on(eng, st, j)
            st.add(BITS(DBL(f(j))) == f(j))
        return g

    def is_nodes(self, eng, p):
        if p.r != self.nodes.r or eng.coff(p.off) != eng.coff(self.nodes.off):
            raise Unsupported('unknown map')

    def node_begin(self, eng, st, a, I_, line, d):
        self.is_nodes(eng, a[0])
        return (PV(self.noder.r, 0 if re.search(r'::c?begin\(', d) else simp(1024 * nn)),)

    def node_size(self, eng, st, a, I_, line, d):
        self.is_nodes(eng, a[0])
        return (BoolV(nn == 0) if '::empty(' in d else IV(64, nn, 0, M64 - 1),)

    def node_next(self, eng, st, a, I_, line, d):
        p = eng.load(st, a[0], ('ptr',))
        if p.r != self.noder.r:
            raise Unsupported('increment of an iterator')
        eng.store(st, a[0], ('ptr',), PV(p.r, simp(z3.simplify(zval(p.off) + 1024))), line)
        return (a[0] if '(int)' not in d else p,)

    def cands(self, ctx):
        eng = ctx.eng
        out = []
        its = []
        opos = lambda s: zval(eng.gget(s, self.os, 'opos'))
        pt = [(ctx.nm(m), m, eng.get_item(ctx.st0, m)) for m in sorted(ctx.mods, key=repr)]
        for nm, m, v in pt:
            if not isinstance(v, PV) or v.r not in ctx.st0.mem:
                continue
            h = ctx.st0.mem[v.r].handler

            def off(s, m=m):
                x = eng.get_item(s, m)
                if not isinstance(x, PV):
                    raise Missing()
                return zval(x.off)

            def ix(s, off=off, k=getattr(h, 'stride', 1)):
                i = z3.simplify(off(s) / k)
                self.file.facts(s, i)
                return i
            if h is self.firsts:
                out.append(('position == 9 + 12 %s' % nm, lambda s, ix=ix: opos(s) == 9 + 12 * ix(s)))
            elif h is self.nodem:
                out.append(('position == NS(%s)' % nm, lambda s, ix=ix: opos(s) == NS(ix(s))))
            elif isinstance(h, SeqMem) and hasattr(h, 'node'):
                self.used.append(h.node)
                out.append(('position inside the node', lambda s, ix=ix, h=h: opos(s) == NS(h.node) + 8 + 12 * ix(s)))
        return out

    def run(self, eng):
        self.used = []
        st = State()
        symbols(st)
        self.file = file = ModelFile('file')
        file.start(st)
        self.o = obj(eng, st, 'this', const(eng, 'vt_chain_size'))
        self.os = obj(eng, st, 'os', 512)
        make_ostream(eng, st, self.os, Expect(file))
        eng.gset(st, self.os, 'opos', 0)
        on = lambda eng, st, i: file.facts(st, i)
        self.firsts = SeqMem(16, nf, [Col(0, 4, FK, signed=True, on=on), Col(8, 8, lambda i: DBL(FB(i)), fp='double', on=self.bits(on, FB))], 'first symbol')
        self.nodem = SeqMem(1024, nn, [Col(0, 4, NK, signed=True, on=on)], 'node')
        self.noder = eng.new_region(st, 'nodes', None, 'seq', handler=self.nodem)
        st, self.nodes = get_obj(eng, st, 'vt_chain_nodes', self.o)
        st, v = get_obj(eng, st, 'vt_chain_sorted', self.o)
        vector_of(eng, st, v, self.firsts)
        st, hdr = get_obj(eng, st, 'vt_chain_header', self.o)
        for k, c in enumerate(b'MRKV'):
            eng.put(st, hdr.r, hdr.off + k, 1, IV(8, c))
        st.add(z3.Or(nf > 0, nn > 0))
        for s, r in eng.call_function(self.fn(eng, CHAIN + r'saveBinary\('), st, [self.o, self.os]):
            eng.oblige(s, 'ensures the file ends behind the last node', zval(eng.gget(s, self.os, 'opos')) == NS(nn))


# ---- loading
def on_node(eng, st, p, how):
    """ghost fields of a node: sh Y is a successor, sp its probability, pp whether it has been sorted"""
    if how is True:
        v = (False, z3.RealVal(0), False)
    elif how is False:
        v = (z3.Bool(eng.fresh_name('sh')), z3.Real(eng.fresh_name('sp')), z3.Bool(eng.fresh_name('pp')))
    else:
        v = tuple(eng.gget(st, how, f) for f in ('sh', 'sp', 'pp'))
        if v[0] is None:
            raise Unsupported('copy of an unknown node')
    for f, x in zip(('sh', 'sp', 'pp'), v):
        eng.gset(st, p, f, x)


class NodeCtor:
    """a new node has no successors, a copied or moved one those of the other"""

    def matches(self, d, name):
        return re.match(NODE + r'Node\(', d)

    def apply(self, eng, st, a, I_, line):
        on_node(eng, st, a[0], a[1] if len(a) > 1 else True)
        return [(st, None)]


class AddSuccessorC:
    """Node::addSuccessor (unit below)"""

    def matches(self, d, name):
        return re.match(NODE + r'addSuccessor\(', d)

    def apply(self, eng, st, a, I_, line):
        h, p = eng.gget(st, a[0], 'sh'), eng.gget(st, a[0], 'sp')
        if h is None:
            raise Unsupported('successor of an unknown node')
        c, v = zval(eng.as_s(st, a[1])), real(eng, a[2])
        eng.gset(st, a[0], 'sh', z3.simplify(z3.Or(zb(h), c == Y)))
        eng.gset(st, a[0], 'sp', z3.simplify(z3.If(c == Y, v, p)))
        return [(st, None)]


class SortC:
    """Node::postprocess (unit of P15): the sorted successors become the successors"""

    def matches(self, d, name):
        return re.match(NODE + r'postprocess\(', d)

    def apply(self, eng, st, a, I_, line):
        h = st.mem[a[0].r].handler if a[0].r in st.mem else None
        if not isinstance(h, umap.UEnum) or h.d.kind != 'node':
            raise Unsupported('sorting an unknown node')
        i = z3.simplify((zval(a[0].off) - 8) / 1024)
        if not eng.valid(st, zval(a[0].off) == 1024 * i + 8):
            raise Unsupported('sorting an unknown node')
        eng.oblige(st, 'the node is one of the map', z3.And(i >= 0, i < h.n), line)
        h.facts(eng, st, i)
        o = eng.cur.o
        eng.gset(st, o, 'upd', z3.Or(zb(eng.gget(st, o, 'upd')), h.K(i) == X))
        return [(st, None)]


def gv(eng, st, p):
    if eng.gget(st, p, 'glen') is None:
        raise Unsupported('unknown vector')
    return p


def gv_push(eng, st, p, k, v):
    gv(eng, st, p)
    n = zval(eng.gget(st, p, 'glen'))
    eng.gset(st, p, 'gk', z3.simplify(z3.If(n == K, k, zval(eng.gget(st, p, 'gk')))))
    eng.gset(st, p, 'gp', z3.simplify(z3.If(n == K, v, eng.gget(st, p, 'gp'))))
    eng.gset(st, p, 'glen', z3.simplify(n + 1))


def gv_emplace(eng, st, a, I_, line, d):
    if len(a) != 3:
        raise Unsupported('emplace_back with %d arguments' % (len(a) - 1))
    gv_push(eng, st, a[0], zval(eng.as_s(st, eng.load(st, a[1], ('i', 32), line))), real(eng, eng.load(st, a[2], ('double',), line)))
    return (a[0],)


def gv_pushback(eng, st, a, I_, line, d):
    gv_push(eng, st, a[0], zval(eng.as_s(st, eng.load(st, a[1], ('i', 32), line))), real(eng, eng.load(st, PV(a[1].r, a[1].off + 8), ('double',), line)))
    return (a[0],)


def gv_clear(eng, st, a, I_, line, d):
    eng.gset(st, gv(eng, st, a[0]), 'glen', 0)
    return (None,)


def gv_size(eng, st, a, I_, line, d):
    n = zval(eng.gget(st, gv(eng, st, a[0]), 'glen'))
    return (BoolV(n == 0) if '::empty(' in d else IV(64, simp(n), 0, M64 - 1),)


class Load(Unit):
    """requires a stream with the file of a model or a prefix of it"""
    title = 'Chain::loadBinary of a saved model and of its prefixes'
    tu = 'markov.cpp'
    reals = True
    fp_uf = True
    fp_tokens = True
    contracts = (NodeCtor(), NodeDtor(), AddSuccessorC(), SortC())
    saved = True

    def __init__(self):
        self.candgens = (self.cands, seq_candidates(None))
        v = umap.PVEC
        self.lib = [(r'(.* )?' + v + r'emplace_back<', gv_emplace), (v + r'push_back\(', gv_pushback), (v + r'clear\(\)$', gv_clear),
                    (v + r'(size|empty)\(\) const$', gv_size), (v + r'reserve\(', lib.m_void)] + umap.MODELS

    def bounds(self, eng):
        return [self.file.F]

    def cands(self, ctx):
        eng = ctx.eng
        out = []
        pos = lambda s: zval(eng.gget(s, self.istr, 'pos'))
        g = lambda s, f: zval(eng.gget(s, self.vec, f))
        pt = [(ctx.nm(m), m, eng.get_item(ctx.st0, m)) for m in sorted(ctx.mods, key=repr)]
        outer = [z3.IntVal(0)] + counters(eng, ctx.st0)

        def chain(s, bound, part=None):
            """what the map holds once the nodes before 'bound' and part of the successors of node 'bound' are loaded"""
            has = key_has(eng, s, self.nodes)
            x = eng.gget(s, self.nodes, 'xs')
            sh, sp = zb(eng.gget(s, PV(x.r, 8), 'sh')), eng.gget(s, PV(x.r, 8), 'sp')
            done = z3.And(HASX, XAT < bound)
            now = z3.BoolVal(False) if part is None else z3.And(HASX, XAT == bound)
            y = z3.And(HASY, z3.Or(done, z3.And(now, YAT < (part if part is not None else 0))))
            return z3.And(has == z3.Or(done, now), z3.Implies(has, sh == y), z3.Implies(z3.And(has, y), sp == DBL(PB)))
        for nm, m, v in pt:
            if isinstance(v, IV) and v.w >= 32:
                def f(s, m=m):
                    x = eng.get_item(s, m)
                    if not isinstance(x, IV):
                        raise Missing()
                    i = zval(eng.as_u(s, x))
                    self.file.facts(s, i)
                    return i
                first = f(ctx.st0)
                # counting up from 0, or down from the first value
                for nm, f in ((nm, f), ('(first - %s)' % nm, lambda s, f=f: self.at(s, z3.simplify(first - f(s)), outer))):
                    out.append(('position == 9 + 12 %s' % nm, lambda s, f=f: pos(s) == 9 + 12 * f(s)))
                    out.append(('%s <= nf' % nm, lambda s, f=f: f(s) <= nf))
                    out.append(('%s <= nn' % nm, lambda s, f=f: f(s) <= nn))
                    out.append(('size == %s' % nm, lambda s, f=f: g(s, 'glen') == f(s)))
                    out.append(('the first %s pairs are those of the file' % nm,
                                lambda s, f=f: z3.Implies(inside(K, f(s)), z3.And(g(s, 'gk') == FK(K), eng.gget(s, self.vec, 'gp') == DBL(FB(K))))))
                    out.append(('position == NS(%s)' % nm, lambda s, f=f: pos(s) == NS(f(s))))
                    out.append(('the map holds the first %s nodes' % nm, lambda s, f=f: chain(s, f(s))))
                    for t in outer:
                        out.append(('position inside node %s: %s' % (t, nm), lambda s, f=f, t=t: pos(s) == NS(t) + 8 + 12 * f(s)))
                        out.append(('%s <= ns(%s)' % (nm, t), lambda s, f=f, t=t: f(s) <= ns(t)))
                        out.append(('the map holds the nodes before %s and a part of it: %s' % (t, nm), lambda s, f=f, t=t: chain(s, t, f(s))))
            if isinstance(v, PV) and v.r in ctx.st0.mem and isinstance(ctx.st0.mem[v.r].handler, umap.UEnum):
                h = ctx.st0.mem[v.r].handler

                def upd(s, m=m, h=h):
                    x = eng.get_item(s, m)
                    if not isinstance(x, PV):
                        raise Missing()
                    return zb(eng.gget(s, self.o, 'upd')) == z3.And(h.has, h.xat < zval(x.off) / h.stride)
                out.append(('sorted exactly the nodes before ' + nm, upd))
        out.append(('position <= length', lambda s: pos(s) <= self.file.F))
        return out

    def at(self, s, i, outer):
        self.file.facts(s, i)
        for t in outer:
            self.file.facts(s, t, i)
        return i

    def contents(self, st):
        self.file = ModelFile('file')
        self.file.start(st)
        st.add(z3.And(self.file.F >= 0, self.file.F <= NS(nn)))
        st.add(z3.And(NS(nn) >= 13 + 12 * nf, NS(nn) < 1 << 60))

    def run(self, eng):
        st = State()
        symbols(st)
        st.add(K >= 0)
        self.o = obj(eng, st, 'this', const(eng, 'vt_chain_size'))
        self.contents(st)
        self.istr = obj(eng, st, 'is', 512)
        make_stream(eng, st, self.istr, self.file, pos=0, open=z3.Bool('open'))
        ok = z3.And(z3.Not(zb(eng.gget(st, self.istr, 'eof'))), z3.Not(zb(eng.gget(st, self.istr, 'fail'))))
        st, self.nodes = get_obj(eng, st, 'vt_chain_nodes', self.o)
        um = UM('nodes', X, 'node', on_node)
        um.other = self.other
        attach(eng, st, self.nodes, um, z3.Bool('oldx'))
        eng.gset(st, self.o, 'dup', False)
        for f, k in (('counts', 'cnt'), ('probs', 'prob')):
            st, p = get_obj(eng, st, 'vt_chain_' + f, self.o)
            attach(eng, st, p, UM(f, X, k), z3.Bool('old' + f), z3.Int('oldc') if k == 'cnt' else z3.Real('oldp'))
        st.add(z3.Int('oldc') >= 0)
        st, self.vec = get_obj(eng, st, 'vt_chain_sorted', self.o)
        eng.gset(st, self.vec, 'glen', z3.Int('oldlen'))
        eng.gset(st, self.vec, 'gk', z3.Int('oldk'))
        eng.gset(st, self.vec, 'gp', z3.Real('oldq'))
        st.add(z3.And(z3.Int('oldlen') >= 0, z3.Int('oldlen') < M32))
        st, hdr = get_obj(eng, st, 'vt_chain_header', self.o)
        for k, c in enumerate(b'MRKV'):
            eng.put(st, hdr.r, hdr.off + k, 1, IV(8, c))
        eng.gset(st, self.o, 'upd', False)
        for s, r in eng.call_function(self.fn(eng, CHAIN + r'loadBinary\('), st, [self.o, self.istr, BoolV(True)]):
            good = zval(eng.as_u(s, r)) == 0
            self.ensures(eng, s, good, z3.And(ok, z3.Bool('open')))

    def other(self, eng, st, b):
        """the node of another symbol is looked up for the first time and is there. No claim is made then: the one for X, which is
        any symbol, says that the node of a symbol is not there when its record is read, so this does not happen"""
        eng.gset(st, self.o, 'dup', z3.simplify(z3.Or(zb(eng.gget(st, self.o, 'dup')), b)))

    def ensures(self, eng, s, good, ok):
        x = eng.gget(s, self.nodes, 'xs')
        has, sh, sp = key_has(eng, s, self.nodes), zb(eng.gget(s, PV(x.r, 8), 'sh')), eng.gget(s, PV(x.r, 8), 'sp')
        eng.oblige(s, 'ensures success exactly for a readable complete file', z3.Or(good == z3.And(ok, self.file.F == NS(nn)), z3.And(z3.Not(good), zb(eng.gget(s, self.o, 'dup')))))
        g = lambda f: eng.gget(s, self.vec, f)
        eng.oblige(s, 'ensures as many first symbols as saved', z3.Implies(good, zval(g('glen')) == nf))
        eng.oblige(s, 'ensures the first symbols and their probabilities are those saved',
                   z3.Implies(z3.And(good, K < nf), z3.And(zval(g('gk')) == FK(K), g('gp') == DBL(FB(K)))))
        eng.oblige(s, 'ensures a symbol has a node exactly if saved with one', z3.Implies(good, has == HASX))
        eng.oblige(s, 'ensures a transition exists exactly if saved', z3.Implies(z3.And(good, HASX), sh == HASY))
        eng.oblige(s, 'ensures the probability of a transition is that saved', z3.Implies(z3.And(good, HASY), sp == DBL(PB)))
        eng.oblige(s, 'ensures the successors of every node are sorted', z3.Implies(good, zb(eng.gget(s, self.o, 'upd')) == HASX))


class LoadDamaged(Load):
    """requires any contents whose header or version is another"""
    title = 'Chain::loadBinary of other data'

    def contents(self, st):
        self.file = FileSrc('file')
        st.add(z3.And(self.file.F >= 0, self.file.F < 1 << 60))
        self.file.facts = lambda *a: None

    def ensures(self, eng, s, good, ok):
        f = self.file
        same = z3.And(f.le_at(s, 4, 0) == int.from_bytes(b'MRKV', 'little'), f.le_at(s, 1, 4) == 2)
        eng.oblige(s, 'ensures no success with another header or version', z3.Implies(z3.Not(same), z3.Not(good)))


class AddSuccessor(Unit):
    title = 'Node::addSuccessor'
    tu = 'markov.cpp'
    reals = True
    fp_uf = True
    lib = umap.MODELS

    def run(self, eng):
        st = State()
        symbols(st)
        o = obj(eng, st, 'this', const(eng, 'vt_node_size'))
        st, m = get_obj(eng, st, 'vt_node_probs', o)
        has, v, p = z3.Bool('has'), z3.Real('v'), z3.Real('p')
        attach(eng, st, m, UM('probs', Y, 'prob'), has, v)
        c = eng.iv_sfresh(st, 32, 'c')
        for s, r in eng.call_function(self.fn(eng, NODE + r'addSuccessor\('), st, [o, c, umap.fv(eng, p)]):
            eng.oblige(s, 'ensures the symbol is a successor', key_has(eng, s, m) == z3.Or(has, c.t == Y))
            eng.oblige(s, 'ensures it has the probability', z3.Implies(c.t == Y, umap.key_val(eng, s, m) == p))
            eng.oblige(s, 'ensures other probabilities are unchanged', z3.Implies(z3.And(has, c.t != Y), umap.key_val(eng, s, m) == v))


def vec_il(eng, st, a, I_, line, d):
    """std::vector<std::string> from an initializer list of a constant number of strings"""
    n = simp(eng.as_u(st, a[2]))
    if not isinstance(n, int) or n > 1000:
        raise Unsupported('initializer list')
    r = eng.new_region(st, 'strings', 32 * n, 'heap', lazy=True)
    for i in range(n):
        setstr(eng, st, PV(r.r, 32 * i), lib.getstr(eng, st, PV(a[1].r, a[1].off + 32 * i)))
    for k, o in ((0, 0), (8, 32 * n), (16, 32 * n)):
        eng.put(st, a[0].r, a[0].off + k, 8, PV(r.r, o))
    return (None,)


class ErrTexts(Unit):
    """every error code of ErrCode, all of them tried"""
    title = 'Chain::errString'
    tu = 'markov.cpp'
    reals = True
    lib = [(r'std::vector<std::string, std::allocator<std::string ?> ?>::vector\(std::initializer_list', vec_il),
           (r'std::unordered_map<wchar_t, .*>::(~?unordered_map)\(', lib.m_void), (umap.PVEC + r'~?vector\(', lib.m_void)]

    def run(self, eng):
        st = State()
        o = obj(eng, st, 'this', const(eng, 'vt_chain_size'))
        last = const(eng, 'vt_err_last')
        texts = {}
        for s, r in eng.call_function(self.fn(eng, '@vt_chain_make'), st, [o]):
            for e in range(last + 1):
                s2 = s.copy()
                for s3, r in eng.call_function(self.fn(eng, CHAIN + r'errString\('), s2, [o, IV(32, e)]):
                    t = lib.getstr(eng, s3, r).is_lit()
                    if t is None:
                        raise Unsupported('text that is not constant')
                    eng.oblige(s3, 'ensures the code %d has a text' % e, len(t) > 0)
                    eng.oblige(s3, 'ensures no other code than %d has the text' % e, t not in texts)
                    texts[t] = e


FILES = [Save, Load, LoadDamaged, AddSuccessor, ErrTexts]


def file_units():
    return [c() for c in FILES]
