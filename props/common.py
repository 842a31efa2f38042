"""Shared specification vocabulary."""
import z3
from irv.engine import *
from irv.engine import Missing
from irv.ir import Unsupported
from irv import lib
from irv.lib import SV, S, slen, sat, getstr, setstr, FileSrc, make_stream, make_ostream, Box
from irv.run import Unit, compile_tu, obj

M64 = 1 << 64


def fresh_hash(eng, st, p, nm, valid=None):
    """a hash object with arbitrary contents at p; returns (upper, lower, valid)"""
    u, l = z3.Int(nm + '_upper'), z3.Int(nm + '_lower')
    for x in (u, l):
        st.add(z3.And(x >= 0, x < M64))
    v = z3.Bool(nm + '_valid') if valid is None else valid
    eng.put(st, p.r, p.off, 8, IV(64, u, 0, M64 - 1))
    eng.put(st, p.r, p.off + 8, 8, IV(64, l, 0, M64 - 1))
    eng.put(st, p.r, p.off + 16, 1, IV(8, z3.If(v, 1, 0) if isinstance(v, z3.ExprRef) else int(v), 0, 1, bool=v))
    return u, l, v


def rd(eng, st, p, w):
    """unsigned integer at p"""
    return zval(eng.as_u(st, eng.load(st, p, ('i', w))))


def rdb(eng, st, p):
    v = eng.load(st, p, ('i', 8))
    if isinstance(v, BoolV):
        return zb(v.b)
    if isinstance(v, IV) and v.bool is not None:
        return zb(v.bool)
    return zb(Not(Eq(eng.as_u(st, v), 0)))


def hash_at(eng, st, p):
    return rd(eng, st, p, 64), rd(eng, st, PV(p.r, p.off + 8), 64), rdb(eng, st, PV(p.r, p.off + 16))


def bool_of(v):
    if isinstance(v, BoolV):
        return zb(v.b)
    raise Unsupported('boolean result')


def num128(u, l):
    return u * M64 + l


def cell_iv(eng, st, p, w, nm):
    v = eng.iv_fresh(st, w, nm)
    eng.put(st, p.r, p.off, w // 8, v)
    return v.t


def const(eng, name):
    """value of a constant exported by the translation unit"""
    ty, init, c = eng.mod.global_init('@' + name)
    v = eng.val(State(), ty, init)
    return v.t
