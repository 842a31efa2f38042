from .common import *


class ByteSink:
    """records the bytes written, in order"""

    def write(self, eng, st, q, p, n, line):
        if not isinstance(n, int):
            raise Unsupported('write of symbolic length')
        out = list(eng.gget(st, q, 'bytes').v)
        for i in range(n):
            v = eng.load(st, PV(p.r, p.off + i), ('i', 8), line)
            out.append(eng.bytes_of(st, v)[0])
        st.ghost[(q.r, eng.coff(q.off), 'bytes')] = Box(out)

    def piece(self, eng, st, q, sv):
        raise Unsupported('text output to a record file')


class Dump(Unit):
    tu = 'hash.cpp'
    title = 'PasswordHashAndCount::dump'

    def run(self, eng):
        st = State()
        h, f = obj(eng, st, 'rec', 32), obj(eng, st, 'f', 512)
        u, l, v = fresh_hash(eng, st, h, 'r')
        c = cell_iv(eng, st, PV(h.r, 24), 32, 'count')
        make_ostream(eng, st, f, ByteSink())
        st.ghost[(f.r, 0, 'bytes')] = Box([])
        for s, r in eng.call_function(self.fn(eng, '@vt_dump'), st, [h, f]):
            bs = s.ghost[(f.r, 0, 'bytes')].v
            eng.oblige(s, 'ensures a record occupies exactly 20 bytes', len(bs) == 20)
            if len(bs) == 20:
                for nm, x, o, n in (('upper', u, 0, 8), ('lower', l, 8, 8), ('count', c, 16, 4)):
                    eng.oblige(s, 'ensures bytes %d..%d are %s, little-endian' % (o, o + n - 1, nm),
                               zval(sum(b * (1 << (8 * i)) for i, b in enumerate(bs[o:o + n]))) == x)
            u2, l2, v2 = hash_at(eng, s, h)
            eng.oblige(s, 'assigns nothing of the record', z3.And(u2 == u, l2 == l, v2 == v))


class Read(Unit):
    """read(f) and read(f, pos) of Hash and PasswordHashAndCount"""
    tu = 'hash.cpp'

    def __init__(self, sym, title, phc, seek):
        self.sym, self.title, self.phc, self.seek = sym, title, phc, seek

    def run(self, eng):
        st = State()
        h, f = obj(eng, st, 'rec', 32), obj(eng, st, 'f', 600)
        fresh_hash(eng, st, h, 'old')
        cell_iv(eng, st, PV(h.r, 24), 32, 'old_count')
        src = FileSrc('file')
        st.pc += src.axioms()
        st.add(src.F < (1 << 60))
        make_stream(eng, st, f, src)
        old = {k: eng.gget(st, f, k) for k in ('pos', 'eof', 'fail', 'bad')}
        args = [h, f]
        p = old['pos']
        N = 20 if self.phc else 16
        st.add(p < (1 << 60))
        okstate = z3.Not(z3.Or(old['eof'], old['fail']))
        if self.seek:
            v = eng.iv_sfresh(st, 64, 'at')
            p = v.t
            st.add(p < (1 << 60))
            args.append(v)
            okstate = p >= 0
        U, L, C = src.le_at(st, 8, p), src.le_at(st, 8, p + 8), src.le_at(st, 4, p + 16)
        want = z3.And(okstate, p + N <= src.F)
        for s, r in eng.call_function(self.fn(eng, '@' + self.sym), st, args):
            b = bool_of(r)
            eng.oblige(s, 'ensures success is reported exactly if a complete record was available', b == want)
            u, l, _ = hash_at(eng, s, h)
            eng.oblige(s, 'ensures the hash is the one stored', z3.Implies(b, z3.And(u == U, l == L)))
            if self.phc:
                eng.oblige(s, 'ensures the count is the one stored', z3.Implies(b, rd(eng, s, PV(h.r, 24), 32) == C))
            eng.oblige(s, 'ensures reading advances by one record',
                       z3.Implies(b, z3.And(zval(eng.gget(s, f, 'pos')) == p + N, z3.Not(zb(eng.gget(s, f, 'fail'))),
                                            z3.Not(zb(eng.gget(s, f, 'eof'))))))


class RoundTrip(Unit):
    tu = 'hash.cpp'
    title = 'lemma: the bytes dump() writes are the ones read() decodes'

    def run(self, eng):
        st = State()
        for w, nm in ((8, 'u64'), (4, 'u32')):
            bs = [z3.Int('%s_b%d' % (nm, i)) for i in range(w)]
            for b in bs:
                st.add(z3.And(b >= 0, b < 256))
            x = z3.Int(nm)
            le = sum(b * (1 << (8 * i)) for i, b in enumerate(bs))
            ms = z3.Int(nm + '_other')
            st.add(x == le)
            # a decoder for little-endian content returns x; the value determines the bytes
            cs = [z3.Int('%s_c%d' % (nm, i)) for i in range(w)]
            for b in cs:
                st.add(z3.And(b >= 0, b < 256))
            st.add(sum(b * (1 << (8 * i)) for i, b in enumerate(cs)) == x)
            eng.oblige(st, 'ensures little-endian %s is injective' % nm, z3.And(*[p == q for p, q in zip(bs, cs)]))


def units(tier):
    return [
        Dump(),
        Read('vt_hread', 'Hash::read(istream)', False, False),
        Read('vt_hreadpos', 'Hash::read(istream, pos)', False, True),
        Read('vt_read', 'PasswordHashAndCount::read(istream)', True, False),
        Read('vt_readpos', 'PasswordHashAndCount::read(istream, pos)', True, True),
        RoundTrip(),
    ]


harness = dict(src='P08.cpp', repo=['pwned-lib/hash.cpp', 'pwned-lib/util.cpp'])

assumptions = ['file streams by their contracts (irv/lib.py): seekg clears eof, a read of n bytes delivers the n bytes at the position, or what is left and sets eof and fail',
               'little-endian machine']
