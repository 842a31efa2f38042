from .common import *
from irv.lib import ByteSink, ByteFile, make_argv, sv_same

REC = 20


def candidates(ctx):
    u = ctx.eng.cur
    out = []
    ints = ctx.ints()
    for nm, g, w in ints:
        out.append((nm + ' % 20 == 0', lambda s, g=g: g(s) % REC == 0))
        out.append((nm + ' <= F', lambda s, g=g: g(s) <= u.src.F))
        out.append((nm + ' <= 20 * (F / 20)', lambda s, g=g: g(s) <= u.src.F - u.src.F % REC))
    return out


class Main(Unit):
    """main of be2le: the byte at every position of the output, for every input file"""
    tu = 'be2le.cpp'
    title = 'main of be2le'
    candgens = (candidates,)

    def bounds(self, eng):
        return [self.src.F + REC]

    def open_source(self, eng, st, nm):
        eng.oblige(st, 'the input is the file named first', sv_same(eng, st, nm, self.iname))
        return self.src, True

    def open_sink(self, eng, st, nm, mode):
        eng.oblige(st, 'the output is the file named second', sv_same(eng, st, nm, self.oname))
        eng.oblige(st, 'old contents of the output are dropped', isinstance(mode, int) and mode & 1 == 0 and (mode & 8 == 0 or mode & 32 != 0))
        self.opened += 1
        return ByteSink(self.expect), True

    def expect(self, eng, st, q, pos, got, line):
        self.out = q
        src = self.src
        n = len(got)
        if n not in (4, 8, 16, 20):
            raise Unsupported('write of %d bytes' % n)
        p = zval(pos)
        eng.oblige(st, 'ensures nothing is written beyond the complete records', p + n <= src.F - src.F % REC, line)
        byte = lambda k: src.byte(st, at + k)
        i = 0
        while i < n:
            at = p + i
            # byte i of a record: the halves are reversed, the count stays
            if n - i >= 8 and eng.valid(st, z3.Or(at % REC == 0, at % REC == 8)):
                want, k, name = [byte(7 - j) for j in range(8)], 8, 'ensures each half of the hash is reversed'
            elif eng.valid(st, at % REC == 16):
                want, k, name = [byte(j) for j in range(4)], 4, 'ensures the count is unchanged'
            else:
                eng.oblige(st, 'ensures records are written whole and in place', z3.Or(at % REC == 0, at % REC == 8, at % REC == 16), line)
                raise Unsupported('write position')
            eng.oblige(st, name, z3.And(*[zval(g) == w for g, w in zip(got[i:i + k], want)]), line)
            i += k

    def run(self, eng):
        st = State()
        self.src = src = ByteFile('file')
        st.pc += src.axioms()
        st.add(z3.And(src.F >= 0, src.F < (1 << 60)))
        self.iname, self.oname = SV.const(st, 'iname'), SV.const(st, 'oname')
        prog = SV.const(st, 'prog')
        argc, argv = make_argv(eng, st, [prog, self.iname, self.oname])
        self.out, self.opened = None, 0
        for s, r in eng.call_function(self.fn(eng, '@main'), st, [argc, argv]):
            eng.oblige(s, 'ensures one output file is opened', self.opened == 1)
            eng.oblige(s, 'ensures success is reported', zval(eng.as_u(s, r)) == 0)
            if self.out is not None:
                eng.oblige(s, 'ensures every complete record is written', zval(eng.gget(s, self.out, 'opos')) == src.F - src.F % REC)


class Involution(Unit):
    """reversing the halves twice gives the input back; the output of the conversion has only complete records"""
    tu = 'be2le.cpp'
    title = 'lemma: converting twice is the identity'

    def run(self, eng):
        st = State()
        bs = [z3.Int('b%d' % i) for i in range(REC)]
        f = lambda l: l[7::-1] + l[15:7:-1] + l[16:]
        eng.oblige(st, 'ensures converting twice is the identity', z3.And(*[x == y for x, y in zip(f(f(bs)), bs)]))
        F = z3.Int('F')
        st.add(F >= 0)
        G = F - F % REC
        eng.oblige(st, 'ensures converted files consist of complete records', z3.And(G % REC == 0, G <= F, F - G < REC))


def units(tier):
    return [Main(), Involution()]


harness = dict(src='P20.cpp', repo=[], libs=[], bins=[('be2le', ['deprecated/be2le/be2le.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp'], [])])

assumptions = ['file streams by their contracts (irv/lib.py): seekg clears eof, a read of n bytes delivers the n bytes at the position, or what is left and sets eof and fail',
               'the input and output files can be opened and written']
