"""Sequences of structures of symbolic length: the storage of a std::vector whose members are inlined from libstdc++'s own code."""
import z3
from .ir import Unsupported
from .engine import *
from .engine import Missing


class Col:
    """one field of the elements: fn(i) is its value (an integer term, or a real term for floating point)"""

    def __init__(self, off, size, fn, fp=None, signed=False, on=None):
        self.off, self.size, self.fn, self.fp, self.signed, self.on = off, size, fn, fp, signed, on


class SeqMem:
    """elements 0..n-1; cols describe their fields"""

    def __init__(self, stride, n, cols, name='element'):
        self.stride, self.n, self.cols, self.name = stride, n, cols, name

    def index(self, eng, st, off, size):
        for c in self.cols:
            if c.size != size:
                continue
            d = z3.simplify(zval(off) - c.off)
            if z3.is_int_value(d):
                if d.as_long() % self.stride == 0:
                    return c, z3.IntVal(d.as_long() // self.stride)
                continue
            i = simp(z3.simplify(d / self.stride))
            i = zval(i)
            if eng.valid(st, d == self.stride * i):
                return c, i
        raise Unsupported('access to %s at offset %s' % (self.name, off))

    def load(self, eng, st, r, off, ty, line):
        n = eng.mod.sizeof(ty)[0] if ty[0] != 'struct' else None
        if n is None:
            return None
        if ty[0] == 'ptr':
            raise Unsupported('pointer in a sequence')
        c, i = self.index(eng, st, off, n)
        eng.oblige(st, 'access inside the sequence of %ss' % self.name, z3.And(i >= 0, i < zval(self.n)), line)
        v = c.fn(i)
        if c.on:
            c.on(eng, st, i)
        if c.fp:
            return FV(z3.Const(eng.fresh_name('seqf'), FSORT), c.fp, None, v)
        w = 8 * c.size
        if c.signed:
            st.add(z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1))))
            return IV(w, v, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        st.add(z3.And(v >= 0, v < (1 << w)))
        return IV(w, v, 0, (1 << w) - 1)

    def copy(self, eng, st, r, off, n, line, out):
        """the fields among the n bytes at off (the bytes between fields are padding)"""
        for b in sorted({c.off for c in self.cols} | {0}):
            if eng.valid(st, zval(off) % self.stride == b):
                break
        else:
            raise Unsupported('copy of %s at offset %s' % (self.name, off))
        for c in self.cols:
            if b <= c.off and c.off + c.size <= b + n:
                ty = ('i', 8 * c.size) if not c.fp else ('double',) if c.size == 8 else ('float',)
                out.append((c.off - b, c.size, self.load(eng, st, r, simp(z3.simplify(zval(off) + (c.off - b))), ty, line)))
        if b + n > self.stride:
            raise Unsupported('copy over several %ss' % self.name)

    def store(self, eng, st, r, off, ty, v, line):
        raise Unsupported('store into a read-only sequence')

    def off_facts(self, eng, st, r, off, old):
        pass


def vector_of(eng, st, p, mem, cap=None):
    """makes the std::vector at p hold the elements of mem (layout of libstdc++: first, last, end of storage)"""
    reg = eng.new_region(st, mem.name + 's', None, 'seq', handler=mem)
    end = simp(z3.simplify(mem.stride * zval(mem.n)))
    for k, o in ((0, 0), (8, end), (16, end)):
        eng.put(st, p.r, p.off + k, 8, PV(reg.r, o))
    return reg


def seq_candidates(handlers):
    """bounds and alignment of pointers into sequences and of indices"""
    def gen(ctx):
        eng = ctx.eng
        out = []
        for nm, g, w, stride, n in positions(ctx):
            if stride != 1:
                out.append(('%s %% %d == 0' % (nm, stride), lambda s, g=g, k=stride: g(s) % k == 0))
            out.append(('%s <= end' % nm, lambda s, g=g, k=stride, n=n: g(s) <= k * zval(n)))
        return out
    return gen


def positions(ctx, extra=()):
    """(name, getter, width, stride, length) of loop variables that are pointers into sequences, or indices"""
    eng = ctx.eng
    out = []
    seqs = []
    for rid, r in ctx.st0.mem.items():
        if isinstance(r.handler, SeqMem):
            seqs.append(r.handler)
    for m in sorted(ctx.mods, key=repr):
        v = eng.get_item(ctx.st0, m)
        if isinstance(v, PV) and v.r is not None:
            r = ctx.st0.mem.get(v.r)
            if r is not None and isinstance(r.handler, SeqMem):
                def g(s, m=m):
                    x = eng.get_item(s, m)
                    if not isinstance(x, PV):
                        raise Missing()
                    return zval(x.off)
                out.append((ctx.nm(m), g, 64, r.handler.stride, r.handler.n))
        elif isinstance(v, IV) and v.w >= 32:
            def g(s, m=m):
                x = eng.get_item(s, m)
                if not isinstance(x, IV):
                    raise Missing()
                return zval(eng.as_u(s, x))
            for h in seqs:
                out.append((ctx.nm(m), g, v.w, 1, h.n))
    return out
