"""Contracts on counting and on probabilities of the Markov model. X and Y are fixed arbitrary symbols."""
import re
from .common import *
from .markov import NODE, CHAIN
from .merger import get_obj
from irv import umap
from irv.umap import UM, attach, v_attach, key_has, key_val, total, w_attach
from irv.seq import SeqMem, Col, seq_candidates, positions

X, Y = z3.Ints('x y')
R = z3.RealSort()
QUOT = lambda c, s: z3.Function('fdiv_double', R, R, R)(z3.Function('of_int_double', z3.IntSort(), R)(c), z3.Function('of_int_double', z3.IntSort(), R)(s))
PROD = lambda a, b: z3.Function('fmul_double', R, R, R)(a, b)


def symbols(st):
    for s in (X, Y):
        st.add(z3.And(s >= -(1 << 31), s < (1 << 31)))


def real(eng, v):
    if not isinstance(v, FV) or v.r is None:
        raise Unsupported('result is not a number')
    return v.r


def on_node(eng, st, p, how):
    """ghost fields of a node: cy transitions to Y, tot all transitions, upd whether it has been updated"""
    if how is True:
        c, t = 0, 0
    elif how is False:
        c, t = z3.Int(eng.fresh_name('cy')), z3.Int(eng.fresh_name('tot'))
        st.add(z3.And(c >= 0, t >= c, t < M64 - 1))
    else:
        c, t = eng.gget(st, how, 'cy'), eng.gget(st, how, 'tot')
        if c is None:
            raise Unsupported('copy of an unknown node')
    eng.gset(st, p, 'cy', c)
    eng.gset(st, p, 'tot', t)


# ---- contracts used by callers
class NodeCtor:
    def matches(self, d, name):
        return re.match(NODE + r'(Node|~Node)\(', d)

    def apply(self, eng, st, a, I, line):
        d = eng.dem(I.fields()['callee'] if hasattr(I, 'fields') else '') if False else ''
        if len(a) == 1:
            on_node(eng, st, a[0], True)
        else:
            on_node(eng, st, a[0], a[1])
        return [(st, None)]


class NodeDtor:
    def matches(self, d, name):
        return re.match(NODE + r'~Node\(', d)

    def apply(self, eng, st, a, I, line):
        return [(st, None)]


class IncrementC:
    """Node::increment (unit below)"""

    def matches(self, d, name):
        return re.match(NODE + r'increment\(', d)

    def apply(self, eng, st, a, I, line):
        c, t = eng.gget(st, a[0], 'cy'), eng.gget(st, a[0], 'tot')
        if c is None:
            raise Unsupported('increment of an unknown node')
        y = zval(eng.as_s(st, a[1]))
        eng.gset(st, a[0], 'cy', simp(z3.simplify(zval(c) + z3.If(y == Y, 1, 0))))
        eng.gset(st, a[0], 'tot', simp(z3.simplify(zval(t) + 1)))
        return [(st, None)]


class NodeUpdateC:
    """Node::update (unit below)"""

    def matches(self, d, name):
        return re.match(NODE + r'update\(', d)

    def apply(self, eng, st, a, I, line):
        h = st.mem[a[0].r].handler if a[0].r in st.mem else None
        if not isinstance(h, umap.UEnum) or h.d.kind != 'node':
            raise Unsupported('update of an unknown node')
        i = z3.simplify((zval(a[0].off) - 8) / 1024)
        if not eng.valid(st, zval(a[0].off) == 1024 * i + 8):
            raise Unsupported('update of an unknown node')
        eng.oblige(st, 'the node is one of the map', z3.And(i >= 0, i < h.n), line)
        h.facts(eng, st, i)
        o = eng.cur.o
        eng.gset(st, o, 'upd', z3.Or(zb(eng.gget(st, o, 'upd')), h.K(i) == X))
        return [(st, None)]


class NodeSizeC:
    """Node::size of a node of the map: its number of counted successors, any number"""
    SIZE = staticmethod(z3.Function('SIZE', z3.IntSort(), z3.IntSort()))

    def matches(self, d, name):
        return re.match(NODE + r'size\(', d)

    def apply(self, eng, st, a, I, line):
        h = st.mem[a[0].r].handler if a[0].r in st.mem else None
        if not isinstance(h, umap.UEnum) or h.d.kind != 'node':
            raise Unsupported('size of an unknown node')
        i = z3.simplify((zval(a[0].off) - 8) / 1024)
        h.facts(eng, st, i)
        v = self.SIZE(h.K(i))
        st.add(z3.And(v >= 0, v < M64))
        return [(st, IV(64, v, 0, M64 - 1))]


class PostprocessC:
    """Node::postprocess (unit below): the sorted vector becomes the contents of mProbs"""

    def matches(self, d, name):
        return re.match(NODE + r'postprocess\(', d)

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        if a[0].r != u.o.r:
            raise Unsupported('postprocess of another node')
        r = umap.region(eng, st, u.probs)
        umap.v_take(eng, st, u.sorted, st.mem[r.r].handler)
        return [(st, None)]


class AddFirstC:
    def matches(self, d, name):
        return re.match(CHAIN + r'addFirst\(', d)

    def apply(self, eng, st, a, I, line):
        s = zval(eng.as_s(st, a[1]))
        o = a[0]
        eng.gset(st, o, 'fx', simp(z3.simplify(zval(eng.gget(st, o, 'fx')) + z3.If(s == X, 1, 0))))
        eng.gset(st, o, 'ft', simp(z3.simplify(zval(eng.gget(st, o, 'ft')) + 1)))
        return [(st, None)]


class AddPairC:
    def matches(self, d, name):
        return re.match(CHAIN + r'addPair\(', d)

    def apply(self, eng, st, a, I, line):
        s, t = zval(eng.as_s(st, a[1])), zval(eng.as_s(st, a[2]))
        o = a[0]
        eng.gset(st, o, 'pxy', simp(z3.simplify(zval(eng.gget(st, o, 'pxy')) + z3.If(z3.And(s == X, t == Y), 1, 0))))
        eng.gset(st, o, 'px', simp(z3.simplify(zval(eng.gget(st, o, 'px')) + z3.If(s == X, 1, 0))))
        return [(st, None)]


class ProbabilityC:
    """Node::probability (unit below) of the node of the symbol whose node this is"""

    def matches(self, d, name):
        return re.match(NODE + r'probability\(', d)

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        if a[0].r != u.noder.r:
            raise Unsupported('probability of an unknown node')
        k = z3.simplify((zval(a[0].off) - 8) / 1024 - (1 << 31))
        if not eng.valid(st, zval(a[0].off) == 1024 * (k + (1 << 31)) + 8):
            raise Unsupported('probability of an unknown node')
        eng.oblige(st, 'the symbol has a node', u.HASN(k), line)
        return [(st, umap.fv(eng, u.Q(k, zval(eng.as_s(st, a[1])))))]


# ---- units
class Markov(Unit):
    tu = 'markov.cpp'
    reals = True
    fp_uf = True
    lib = umap.MODELS

    def __init__(self):
        self.candgens = (self.cands, seq_candidates(None))

    def bounds(self, eng):
        return []

    def cands(self, ctx):
        return []

    def start(self, eng, size):
        st = State()
        symbols(st)
        self.o = obj(eng, st, 'this', const(eng, size))
        return st

    def sym(self, eng, st, nm):
        v = eng.iv_sfresh(st, 32, nm)
        return v, v.t


class Increment(Markov):
    title = 'Node::increment'

    def run(self, eng):
        st = self.start(eng, 'vt_node_size')
        c, t = self.sym(eng, st, 'c')
        st, m = get_obj(eng, st, 'vt_node_counts', self.o)
        has, n, oth = z3.Bool('has'), z3.Int('count'), z3.Int('others')
        st.add(z3.And(n >= 0, z3.Implies(z3.Not(has), n == 0), oth >= 0, n + oth < M64 - 1))
        attach(eng, st, m, UM('counts', Y, 'cnt'), has, n, oth)
        for s, r in eng.call_function(self.fn(eng, NODE + r'increment\(wchar_t\)$'), st, [self.o, c]):
            eng.oblige(s, 'ensures the transition is counted once', key_val(eng, s, m) == n + z3.If(t == Y, 1, 0))
            eng.oblige(s, 'ensures the symbol is a successor exactly if it was or is the one counted', key_has(eng, s, m) == z3.Or(has, t == Y))
            eng.oblige(s, 'ensures the sum of all transitions grows by one', total(eng, s, m) == n + oth + 1)


class Probability(Markov):
    title = 'Node::probability'

    def run(self, eng):
        st = self.start(eng, 'vt_node_size')
        c = IV(32, Y, -(1 << 31), (1 << 31) - 1)
        st, m = get_obj(eng, st, 'vt_node_probs', self.o)
        has, p = z3.Bool('has'), z3.Real('p')
        attach(eng, st, m, UM('probs', Y, 'prob'), has, p)
        for s, r in eng.call_function(self.fn(eng, NODE + r'probability\(wchar_t\) const$'), st, [self.o, c]):
            eng.oblige(s, 'ensures the stored probability, or 0 of a symbol never seen', real(eng, r) == z3.If(has, p, 0))
            eng.oblige(s, 'ensures no symbol is added', z3.And(key_has(eng, s, m) == has, z3.Implies(has, key_val(eng, s, m) == p)))


def sorted_matches(eng, s, vec, probs):
    g = lambda f: eng.gget(s, vec, f)
    return z3.And(zb(g('vhas')) == key_has(eng, s, probs), z3.Implies(key_has(eng, s, probs), zval(g('vval')) == key_val(eng, s, probs)))


class Postprocess(Markov):
    title = 'Node::postprocess'

    def run(self, eng):
        st = self.start(eng, 'vt_node_size')
        st, m = get_obj(eng, st, 'vt_node_probs', self.o)
        st, v = get_obj(eng, st, 'vt_node_sorted', self.o)
        has, p, n = z3.Bool('has'), z3.Real('p'), z3.Int('n')
        d = UM('probs', Y, 'prob')
        attach(eng, st, m, d, has, p)
        st.add(z3.And(n >= 0, n < 1 << 32))
        v_attach(eng, st, v, UM('sorted', Y, 'prob'), n, z3.Bool('vhas0'), z3.Real('vval0'))
        for s, r in eng.call_function(self.fn(eng, NODE + r'postprocess\(\)$'), st, [self.o]):
            eng.oblige(s, 'ensures the probabilities are unchanged', z3.And(key_has(eng, s, m) == has, z3.Implies(has, key_val(eng, s, m) == p)))
            eng.oblige(s, 'ensures the sorted successors are the successors', sorted_matches(eng, s, v, m))
            eng.oblige(s, 'ensures there are as many', zval(eng.gget(s, v, 'vlen')) == s.mem[umap.region(eng, s, m).r].handler.n)


def sum_cands(ctx, counts, probs, has, n, tot, has0, p0):
    """loops over the counts: an integer is the sum so far; the probability of the key is set once its turn has come"""
    eng = ctx.eng
    out = []
    its = []
    for m in sorted(ctx.mods, key=repr):
        v = eng.get_item(ctx.st0, m)
        if isinstance(v, PV) and v.r in ctx.st0.mem and isinstance(ctx.st0.mem[v.r].handler, umap.UEnum):
            h = ctx.st0.mem[v.r].handler

            def ix(s, m=m, h=h):
                x = eng.get_item(s, m)
                if not isinstance(x, PV):
                    raise Missing()
                return zval(x.off) / h.stride
            its.append((ctx.nm(m), ix, h))
    for nm, ix, h in its:
        if h.PS is not None:
            for im, f, w in ctx.ints():
                out.append(('%s == sum of the counts before %s' % (im, nm), lambda s, f=f, ix=ix, h=h: f(s) % M64 == h.PS(ix(s))))
            turn = lambda s, ix=ix, h=h: z3.And(h.has, h.xat < ix(s))
            if probs is not None:
                out += [(nm + ': in the probabilities', lambda s, turn=turn: key_has(eng, s, probs) == z3.Or(has0, turn(s))),
                        (nm + ': probability', lambda s, turn=turn: key_val(eng, s, probs) == z3.If(turn(s), QUOT(n, tot), p0))]
        if h.d.kind == 'node':
            o = eng.cur.o
            out.append((nm + ': updated', lambda s, ix=ix, h=h: zb(eng.gget(s, o, 'upd')) == z3.And(h.has, h.xat < ix(s))))
    return out


class NodeUpdate(Markov):
    title = 'Node::update'
    contracts = (PostprocessC(),)

    def cands(self, ctx):
        return sum_cands(ctx, self.counts, self.probs, self.has, self.n, self.tot, self.has0, self.p0)

    def run(self, eng):
        st = self.start(eng, 'vt_node_size')
        st, self.counts = get_obj(eng, st, 'vt_node_counts', self.o)
        st, self.probs = get_obj(eng, st, 'vt_node_probs', self.o)
        st, self.sorted = get_obj(eng, st, 'vt_node_sorted', self.o)
        self.has, self.n, self.has0, self.p0, oth = z3.Bool('has'), z3.Int('count'), z3.Bool('has0'), z3.Real('p0'), z3.Int('others')
        st.add(z3.And(self.n >= 0, z3.Implies(z3.Not(self.has), self.n == 0), oth >= 0, self.n + oth < M64))
        self.tot = z3.simplify(self.n + oth)
        attach(eng, st, self.counts, UM('counts', Y, 'cnt'), self.has, self.n, oth)
        attach(eng, st, self.probs, UM('probs', Y, 'prob'), self.has0, self.p0)
        v_attach(eng, st, self.sorted, UM('sorted', Y, 'prob'), z3.Int('n'), z3.Bool('vhas0'), z3.Real('vval0'))
        st.add(z3.And(z3.Int('n') >= 0, z3.Int('n') < 1 << 32))
        for s, r in eng.call_function(self.fn(eng, NODE + r'update\(\)$'), st, [self.o]):
            eng.oblige(s, 'ensures the symbol has a probability exactly if it was counted or had one', key_has(eng, s, self.probs) == z3.Or(self.has, self.has0))
            eng.oblige(s, 'ensures the probability is the count divided by the sum of all counts',
                       key_val(eng, s, self.probs) == z3.If(self.has, QUOT(self.n, self.tot), self.p0))
            eng.oblige(s, 'ensures the sorted successors are the successors', sorted_matches(eng, s, self.sorted, self.probs))
            eng.oblige(s, 'ensures the counts are unchanged', z3.And(key_has(eng, s, self.counts) == self.has, key_val(eng, s, self.counts) == self.n, total(eng, s, self.counts) == self.tot))


class AddFirst(Markov):
    title = 'Chain::addFirst'

    def run(self, eng):
        st = self.start(eng, 'vt_chain_size')
        c, t = self.sym(eng, st, 'c')
        st, m = get_obj(eng, st, 'vt_chain_counts', self.o)
        has, n, oth = z3.Bool('has'), z3.Int('count'), z3.Int('others')
        st.add(z3.And(n >= 0, z3.Implies(z3.Not(has), n == 0), oth >= 0, n + oth < M64 - 1))
        attach(eng, st, m, UM('counts', X, 'cnt'), has, n, oth)
        for s, r in eng.call_function(self.fn(eng, CHAIN + r'addFirst\(wchar_t\)$'), st, [self.o, c]):
            eng.oblige(s, 'ensures the first symbol is counted once', key_val(eng, s, m) == n + z3.If(t == X, 1, 0))
            eng.oblige(s, 'ensures the symbol is a first symbol exactly if it was or is the one counted', key_has(eng, s, m) == z3.Or(has, t == X))
            eng.oblige(s, 'ensures the number of words grows by one', total(eng, s, m) == n + oth + 1)


class AddPair(Markov):
    title = 'Chain::addPair'
    contracts = (NodeDtor(), NodeCtor(), IncrementC())

    def run(self, eng):
        st = self.start(eng, 'vt_chain_size')
        c, t = self.sym(eng, st, 'c')
        d, u = self.sym(eng, st, 'd')
        st, m = get_obj(eng, st, 'vt_chain_nodes', self.o)
        has = z3.Bool('has')
        xs = attach(eng, st, m, UM('nodes', X, 'node', on_node), has)
        g = lambda s, f: zval(eng.gget(s, PV(xs.r, 8), f))
        c0, t0 = z3.If(has, g(st, 'cy'), 0), z3.If(has, g(st, 'tot'), 0)
        for s, r in eng.call_function(self.fn(eng, CHAIN + r'addPair\(wchar_t, wchar_t\)$'), st, [self.o, c, d]):
            h = key_has(eng, s, m)
            eng.oblige(s, 'ensures the transition is counted once', z3.If(h, g(s, 'cy'), 0) == c0 + z3.If(z3.And(t == X, u == Y), 1, 0))
            eng.oblige(s, 'ensures the transitions from the symbol are counted', z3.If(h, g(s, 'tot'), 0) == t0 + z3.If(t == X, 1, 0))
            eng.oblige(s, 'ensures the symbol has a node exactly if it had one or is the one counted', h == z3.Or(has, t == X))


class Train(Markov):
    """W: the symbols of the word; PC, PX: occurrences of XY and of X before a position"""
    title = 'Chain::train'
    contracts = (AddFirstC(), AddPairC())
    W, PC, PX = (z3.Function(k, z3.IntSort(), z3.IntSort()) for k in ('W', 'PC', 'PX'))

    def __init__(self):
        Markov.__init__(self)
        self.lib = umap.MODELS + [(r'std::basic_string<wchar_t, .*> boost::locale::conv::utf_to_utf<wchar_t, char>\(std::string const&', self.to_wide)]

    def bounds(self, eng):
        return [zval(self.n)]

    def facts(self, eng, st, i):
        key = ('pc', i.get_id())
        if key in st.seqs:
            return
        st.seqs[key] = i
        for k in (i, z3.simplify(i - 1)):
            st.add(self.PX(k + 1) == self.PX(k) + z3.If(self.W(k) == X, 1, 0))
            st.add(self.PC(k + 1) == self.PC(k) + z3.If(z3.And(self.W(k) == X, self.W(k + 1) == Y), 1, 0))

    def cands(self, ctx):
        eng, o = ctx.eng, self.o
        out = []
        for nm, f, w in ctx.ints():
            out += [('%s: pairs counted' % nm, lambda s, f=f: zval(eng.gget(s, o, 'pxy')) == self.pxy0 + self.PC(f(s))),
                    ('%s: first of pairs counted' % nm, lambda s, f=f: zval(eng.gget(s, o, 'px')) == self.px0 + self.PX(f(s))),
                    ('%s-1: pairs counted' % nm, lambda s, f=f: zval(eng.gget(s, o, 'pxy')) == self.pxy0 + self.PC(f(s) - 1)),
                    ('%s-1: first of pairs counted' % nm, lambda s, f=f: zval(eng.gget(s, o, 'px')) == self.px0 + self.PX(f(s) - 1)),
                    ('%s <= n' % nm, lambda s, f=f: f(s) <= self.n), ('%s < n' % nm, lambda s, f=f: f(s) < self.n)]
        return out

    def to_wide(self, eng, st, a, I, line, d):
        eng.oblige(st, 'ensures the symbols are those of the word', a[1].r == self.word.r and a[1].off == self.word.off, line)
        mem = SeqMem(4, self.n, [Col(0, 4, self.W, signed=True, on=self.facts)], 'symbol')
        r = eng.new_region(st, 'symbols', None, 'seq', handler=mem)
        eng.put(st, a[0].r, a[0].off, 8, r)
        eng.put(st, a[0].r, a[0].off + 8, 8, IV(64, self.n, 0, M64 - 1))
        return (None,)

    def run(self, eng):
        st = self.start(eng, 'vt_chain_size')
        self.n = n = z3.Int('n')
        self.word = obj(eng, st, 'word', 32)
        w = SV.const(st, 'word')
        setstr(eng, st, self.word, w)
        st.add(z3.And(n >= 0, n < 1 << 40, self.PC(0) == 0, self.PX(0) == 0, z3.Implies(zval(w.length()) == 0, n == 0)))
        v0 = {}
        for f in ('fx', 'ft', 'pxy', 'px'):
            v0[f] = z3.Int(f + '0')
            eng.gset(st, self.o, f, v0[f])
        self.pxy0, self.px0 = v0['pxy'], v0['px']
        for s, r in eng.call_function(self.fn(eng, CHAIN + r'train\(std::string const&\)$'), st, [self.o, self.word]):
            g = lambda f: zval(eng.gget(s, self.o, f))
            self.facts(eng, s, n - 1)
            eng.oblige(s, 'ensures the first symbol of the word is counted', z3.And(g('fx') == v0['fx'] + z3.If(z3.And(n > 0, self.W(0) == X), 1, 0), g('ft') == v0['ft'] + z3.If(n > 0, 1, 0)))
            eng.oblige(s, 'ensures every transition is counted once', g('pxy') == v0['pxy'] + z3.If(n > 1, self.PC(n - 1), 0))
            eng.oblige(s, 'ensures every transition from a symbol is counted once', g('px') == v0['px'] + z3.If(n > 1, self.PX(n - 1), 0))
            eng.oblige(s, 'ensures whether something was trained', bool_of(r) == (n > 0))


class ChainUpdate(Markov):
    title = 'Chain::update'
    contracts = (NodeUpdateC(), NodeSizeC())

    def cands(self, ctx):
        return sum_cands(ctx, self.counts, self.probs, self.has, self.n, self.tot, self.has0, self.p0)

    def run(self, eng):
        st = self.start(eng, 'vt_chain_size')
        st, self.counts = get_obj(eng, st, 'vt_chain_counts', self.o)
        st, self.probs = get_obj(eng, st, 'vt_chain_probs', self.o)
        st, self.sorted = get_obj(eng, st, 'vt_chain_sorted', self.o)
        st, nodes = get_obj(eng, st, 'vt_chain_nodes', self.o)
        self.has, self.n, self.has0, self.p0, oth = z3.Bool('has'), z3.Int('count'), z3.Bool('has0'), z3.Real('p0'), z3.Int('others')
        st.add(z3.And(self.n >= 0, z3.Implies(z3.Not(self.has), self.n == 0), oth >= 0, self.n + oth < M64))
        self.tot = z3.simplify(self.n + oth)
        attach(eng, st, self.counts, UM('counts', X, 'cnt'), self.has, self.n, oth)
        attach(eng, st, self.probs, UM('probs', X, 'prob'), self.has0, self.p0)
        v_attach(eng, st, self.sorted, UM('sorted', X, 'prob'), z3.Int('n'), z3.Bool('vhas0'), z3.Real('vval0'))
        st.add(z3.And(z3.Int('n') >= 0, z3.Int('n') < 1 << 32))
        hasn = z3.Bool('hasnode')
        attach(eng, st, nodes, UM('nodes', X, 'node', on_node), hasn)
        eng.gset(st, self.o, 'upd', False)
        for s, r in eng.call_function(self.fn(eng, CHAIN + r'update\(\)$'), st, [self.o]):
            eng.oblige(s, 'ensures the symbol has a probability exactly if it was counted or had one', key_has(eng, s, self.probs) == z3.Or(self.has, self.has0))
            eng.oblige(s, 'ensures the probability is the count divided by the number of words',
                       key_val(eng, s, self.probs) == z3.If(self.has, QUOT(self.n, self.tot), self.p0))
            eng.oblige(s, 'ensures the sorted first symbols are the first symbols', sorted_matches(eng, s, self.sorted, self.probs))
            eng.oblige(s, 'ensures the counts are unchanged', z3.And(key_has(eng, s, self.counts) == self.has, key_val(eng, s, self.counts) == self.n, total(eng, s, self.counts) == self.tot))
            upd = zb(eng.gget(s, self.o, 'upd'))
            # the update of a node without counts changes nothing
            eng.oblige(s, 'ensures every node is updated', z3.And(z3.Implies(upd, hasn), z3.Implies(z3.And(hasn, NodeSizeC.SIZE(X) > 0), upd)))


class Total(Markov):
    """Q(a, b): the probability of b after a; HASN(a): a has successors; FP: the first symbol's probability; T(i): the product over the first i symbols"""
    title = 'Chain::totalProbability'
    contracts = (ProbabilityC(),)
    W = z3.Function('W', z3.IntSort(), z3.IntSort())
    Q = staticmethod(z3.Function('Q', z3.IntSort(), z3.IntSort(), R))
    HASN = staticmethod(z3.Function('HASN', z3.IntSort(), z3.BoolSort()))
    T = z3.Function('T', z3.IntSort(), R)
    A = z3.Function('A', z3.IntSort(), z3.BoolSort())
    END = 1024 << 33

    def __init__(self):
        Markov.__init__(self)
        um = r'std::unordered_map<wchar_t, pwned::markov::Node<wchar_t, double, unsigned long>, .*>::'
        self.lib = [(um + r'find\(', self.node_find), (um + r'c?end\(\)( const)?$', self.node_end)] + umap.MODELS

    def bounds(self, eng):
        return [4 * zval(self.n)]

    def node_find(self, eng, st, a, I, line, d):
        k = umap.key_arg(eng, st, a[1])
        return (PV(self.noder.r, z3.If(self.HASN(k), 1024 * (k + (1 << 31)), self.END)),)

    def node_end(self, eng, st, a, I, line, d):
        return (PV(self.noder.r, self.END),)

    def facts(self, eng, st, i):
        key = ('t', i.get_id())
        if key in st.seqs:
            return
        st.seqs[key] = i
        for k in (i, z3.simplify(i - 1)):
            # A: the symbols before have successors (once false, false for the whole word)
            st.add(z3.Implies(k >= 1, self.A(k + 1) == z3.And(self.A(k), self.HASN(self.W(k - 1)))))
            st.add(z3.And(*[z3.Implies(z3.And(j >= 1, j <= self.n, self.A(self.n)), self.A(j)) for j in (k, k + 1)]))
            st.add(z3.Implies(k >= 1, self.T(k + 1) == PROD(self.T(k), self.Q(self.W(k - 1), self.W(k)))))
            st.add(z3.And(self.W(k) >= -(1 << 31), self.W(k) < (1 << 31)))

    def cands(self, ctx):
        eng = ctx.eng
        out = []
        for m in sorted(ctx.mods, key=repr):
            v = eng.get_item(ctx.st0, m)
            if isinstance(v, IV) and v.w >= 32:
                h = None
            elif not isinstance(v, PV) or v.r not in ctx.st0.mem:
                continue
            else:
                h = ctx.st0.mem[v.r].handler

            def off(s, m=m):
                x = eng.get_item(s, m)
                if not isinstance(x, PV):
                    raise Missing()
                return zval(x.off)
            nm = ctx.nm(m)
            if isinstance(h, umap.UEnum):
                out.append((nm + ': not found yet', lambda s, off=off, h=h: z3.Implies(h.has, h.xat >= off(s) / h.stride)))
                for im, f, w in ctx.ints():
                    # std::find_if tests four elements per iteration
                    out.append(('%s + 4 %s <= end' % (nm, im), lambda s, off=off, f=f, h=h: off(s) + 4 * h.stride * f(s) <= h.stride * h.n))
                    out.append(('%s + 4 %s + 3 >= end' % (nm, im), lambda s, off=off, f=f, h=h: off(s) + 4 * h.stride * f(s) + 3 * h.stride >= h.stride * h.n))
                out.append((nm + ' rest', lambda s, off=off, h=h: off(s) % h.stride == 0))
            elif h is self.wmem or h is None:
                def ix(s, m=m):
                    x = eng.get_item(s, m)
                    if not isinstance(x, IV):
                        raise Missing()
                    return zval(eng.as_u(s, x))
                i = (lambda s, off=off: off(s) / 4) if h is not None else ix
                out.append((nm + ' >= 1', lambda s, i=i: i(s) >= 1))

                def alive(s, i=i):
                    self.facts(eng, s, z3.simplify(i(s)))
                    return self.A(i(s))
                out.append((nm + ': every symbol before had a successor', alive))
                for m2 in sorted(ctx.mods, key=repr):
                    w = eng.get_item(ctx.st0, m2)
                    if isinstance(w, FV) and w.r is not None:
                        def fr(s, m2=m2):
                            x = eng.get_item(s, m2)
                            if not isinstance(x, FV) or x.r is None:
                                raise Missing()
                            return x.r
                        out.append(('%s == T(%s)' % (ctx.nm(m2), nm), lambda s, i=i, fr=fr: fr(s) == self.T(i(s))))
                    if isinstance(w, PV) and w.r == self.noder.r:
                        def nd(s, m2=m2):
                            x = eng.get_item(s, m2)
                            if not isinstance(x, PV):
                                raise Missing()
                            return zval(x.off)
                        out.append(('%s is the node of the symbol before %s' % (ctx.nm(m2), nm),
                                    lambda s, i=i, nd=nd: nd(s) == z3.If(self.HASN(self.W(i(s) - 1)), 1024 * (self.W(i(s) - 1) + (1 << 31)), self.END)))
        return out

    def run(self, eng):
        st = self.start(eng, 'vt_chain_size')
        self.n = n = z3.Int('n')
        st.add(z3.And(n >= 0, n < 1 << 40))
        # X is the first symbol of the word
        st.add(z3.Implies(n > 0, self.W(0) == X))
        word = obj(eng, st, 'word', 32)
        self.wmem = SeqMem(4, n, [Col(0, 4, self.W, signed=True, on=self.facts)], 'symbol')
        r = eng.new_region(st, 'symbols', None, 'seq', handler=self.wmem)
        eng.put(st, word.r, 0, 8, r)
        eng.put(st, word.r, 8, 8, IV(64, n, 0, M64 - 1))
        self.noder = eng.new_region(st, 'nodes', None, 'heap', lazy=True)
        st, self.sorted = get_obj(eng, st, 'vt_chain_sorted', self.o)
        has, p = z3.Bool('has'), z3.Real('p')
        v_attach(eng, st, self.sorted, UM('sorted', X, 'prob'), z3.Int('m'), has, p)
        st.add(z3.And(z3.Int('m') >= 0, z3.Int('m') < 1 << 32))
        st.add(z3.And(self.T(1) == p, self.A(1)))
        for s, r in eng.call_function(self.fn(eng, CHAIN + r'totalProbability\(std::basic_string<wchar_t[^()]*\)$'), st, [self.o, word]):
            self.facts(eng, s, n - 1)
            v = real(eng, r)
            eng.oblige(s, 'ensures a negative result for the empty word', z3.Implies(n == 0, v < 0))
            eng.oblige(s, 'ensures 0 for an unseen first symbol', z3.Implies(z3.And(n > 0, z3.Not(has)), v == 0))
            eng.oblige(s, 'ensures the product of the probabilities, 0 if a symbol inside the word never had a successor',
                       z3.Implies(z3.And(n > 0, has), v == z3.If(self.A(n), self.T(n), 0)))


COUNTS = [Increment, Probability, Postprocess, NodeUpdate, AddFirst, AddPair, Train, ChainUpdate, Total]


def count_units():
    return [c() for c in COUNTS]
