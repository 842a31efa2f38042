"""Contracts on the Markov model (pwned-lib/markovchain.hpp, markovnode.hpp)"""
import re
from .common import *
from irv.seq import SeqMem, Col, vector_of, seq_candidates, positions
from irv import fp

NODE = r'pwned::markov::Node<wchar_t, double, unsigned long>::'
CHAIN = r'pwned::markov::Chain<wchar_t, double, unsigned long>::'


class Random:
    """random(): a number in [0, 1)"""

    def matches(self, d, name):
        return re.match(r'double pwned::random<', d)

    def apply(self, eng, st, args, I, line):
        u = eng.cur
        u.draws += 1
        eng.oblige(st, 'exactly one random number is drawn', u.draws == 1, line)
        p = z3.Real('random')
        st.add(z3.And(p >= 0, p < 1))
        return [(st, FV(z3.Const('random_f', FSORT), 'double', None, p))]


class Draw(Unit):
    """requires 0 <= probabilities; S(k) is the sum of the first k probabilities as double arithmetic adds them"""
    tu = 'markov.cpp'
    reals = True
    contracts = (Random(),)

    def __init__(self, title, pat, vec, size):
        self.title, self.pat, self.vec, self.size = title, pat, vec, size
        self.candgens = (self.cands, seq_candidates(None))

    def bounds(self, eng):
        return [zval(self.n), 16 * zval(self.n)]

    def S(self, k):
        return z3.Function('S', z3.IntSort(), z3.RealSort())(k)

    def P(self, k):
        return z3.Function('P', z3.IntSort(), z3.RealSort())(k)

    def Y(self, k):
        return z3.Function('Y', z3.IntSort(), z3.IntSort())(k)

    def on_prob(self, eng, st, i):
        st.add(self.P(i) >= 0)
        key = ('sum', i.get_id())
        if key in st.seqs:
            return
        st.seqs[key] = i
        st.add(self.S(i + 1) == fp.binop(eng, st, 'fadd', self.S(i), self.P(i), 'double'))
        # adding 0 changes nothing; rounding is monotone
        st.add(z3.Implies(self.P(i) == 0, self.S(i + 1) == self.S(i)))
        st.add(self.S(i + 1) >= self.S(i))

    def cands(self, ctx):
        eng = ctx.eng
        out = []
        p = z3.Real('random')
        for nm, g, w, stride, n in positions(ctx):
            ix = (lambda s, g=g: g(s)) if stride == 1 else (lambda s, g=g, k=stride: g(s) / k)
            out.append(('random >= S(%s)' % nm, lambda s, ix=ix: p >= self.S(ix(s))))
            for m in sorted(ctx.mods, key=repr):
                v = eng.get_item(ctx.st0, m)
                if isinstance(v, FV) and v.r is not None:
                    def f(s, m=m, ix=ix):
                        x = eng.get_item(s, m)
                        if not isinstance(x, FV) or x.r is None:
                            raise Missing()
                        return x.r == self.S(ix(s))
                    out.append(('%s == S(%s)' % (ctx.nm(m), nm), f))
        return out

    def run(self, eng):
        st = State()
        self.draws = 0
        o = obj(eng, st, 'this', const(eng, self.size))
        self.n = n = z3.Int('n')
        st.add(z3.And(n >= 0, n < 1 << 32))
        st.add(self.S(0) == 0)
        mem = SeqMem(16, n, [Col(0, 4, self.Y, signed=True), Col(8, 8, self.P, fp='double', on=self.on_prob)])
        (s, v), = eng.call_function(self.fn(eng, '@' + self.vec), st, [o])
        vector_of(eng, s, v, mem)
        s.pc = list(s.pc)
        self.s0 = s
        n_before = dict(s.mem[o.r].cells)
        for s, r in eng.call_function(self.fn(eng, self.pat), s, [o]):
            eng.oblige(s, 'ensures a random number is drawn', self.draws == 1)
            t = zval(eng.as_s(s, r))
            p = z3.Real('random')
            w = None
            if z3.is_app(t) and t.decl().name() == 'Y':
                w = t.arg(0)
            if w is not None:
                eng.oblige(s, 'ensures the symbol is one of the model', z3.And(w >= 0, w < n))
                eng.oblige(s, 'ensures the interval of the symbol contains the random number', z3.And(self.S(w) <= p, p < self.S(w + 1)))
                eng.oblige(s, 'ensures the symbol has a probability above 0', self.P(w) > 0)
            else:
                eng.oblige(s, 'ensures no symbol is drawn only above all intervals', p >= self.S(n))
                eng.oblige(s, 'ensures the result is NUL then', t == 0)
            after = s.mem[o.r].cells
            eng.oblige(s, 'assigns nothing', all(after.get(k) == c for k, c in n_before.items()) and len(after) == len(n_before))


DRAWS = [Draw('Chain::randomFirstSymbol', CHAIN + r'randomFirstSymbol\(\) const', 'vt_chain_sorted', 'vt_chain_size'),
         Draw('Node::randomSuccessor', NODE + r'randomSuccessor\(\) const', 'vt_node_sorted', 'vt_node_size')]
