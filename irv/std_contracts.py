"""Contracts assumed of the C++ standard library (each is listed in the evidence)."""
import re
import z3
from .dom import *
from .mem import *

W = 66   # numbers are handed to DEC as 66-bit values, so every integer type embeds


def wide(d, v, w, signed):
    v = d.mk(v, w)
    return z3.simplify(z3.SignExt(W - w, v) if signed else z3.ZeroExt(W - w, v))


DECLEN = z3.Function("declen", z3.BitVecSort(W), z3.BitVecSort(64))
DECCHR = z3.Function("decchr", z3.BitVecSort(W), z3.BitVecSort(64), z3.BitVecSort(8))


def dec_axioms(st, v, bits=64):
    """what is assumed about the decimal form of v: length and sign"""
    n = DECLEN(v)
    neg = v < 0
    mag = z3.If(neg, -v, v)
    st.add(z3.And(z3.UGE(n, z3.If(neg, z3.BitVecVal(2, 64), z3.BitVecVal(1, 64))), z3.ULE(n, 20 if bits > 32 else 11)))
    st.add(z3.Implies(z3.ULT(mag, 1 << 32), z3.ULE(n, z3.If(neg, z3.BitVecVal(11, 64), z3.BitVecVal(10, 64)))))
    st.add(z3.Implies(z3.ULT(mag, 10), n == z3.If(neg, z3.BitVecVal(2, 64), z3.BitVecVal(1, 64))))
    st.add((DECCHR(v, z3.BitVecVal(0, 64)) == 45) == neg)
    st.add(z3.Implies(z3.ULT(mag, 10), DECCHR(v, n - 1) == z3.Extract(7, 0, mag) + 48))


def to_chars(ex, st, a, inst):
    """std::to_chars(first,last,value): writes the decimal form of value when it fits in
    [first,last) and returns its end; otherwise returns {last, value_too_large} and leaves
    unspecified bytes in [first,last)"""
    d = ex.d
    first, last, v, base = a
    ty = inst.ops[2].ty.bits
    dn = inst.callee.dname
    signed = re.match(r"std::to_chars\(char\*, char\*, (int|long|long long|short|signed char),", dn) is not None
    if not (isc(base) and base == 10):
        raise Unsupported("to_chars base")
    if not isinstance(first, Ptr) or not isinstance(last, Ptr) or first.r != last.r or first.r is None:
        raise Unsupported("to_chars range")
    if not ex.oblige(st, d.icmp("ule", first.off, last.off, 64), "pre:to_chars range", inst):
        return []
    r = ex.regions[first.r]
    room = d.off_sub(last.off, first.off)
    c = b_or(d.icmp("eq", room, 0, 64), d.off_in(first.off, room, 0, r.size))
    if c is not True and not ex.oblige(st, c, "bounds-write", inst, r.name):
        return []
    V = wide(d, v, ty, signed)
    dec_axioms(st, V, ty)
    n = DECLEN(V)
    for j in ex.K.get(r.id, []):
        rel = d.off_sub(j, first.off)
        ch = DECCHR(V, d.mkoff(rel))
        st.add(z3.Implies(z3.And(d.mkoff(rel) != 0, z3.ULT(d.mkoff(rel), n)), z3.And(z3.UGE(ch, 48), z3.ULE(ch, 57))))
    out = []
    fit = d.icmp("ule", n, room, 64)
    ok, bad = ex.feasible(st, fit), ex.feasible(st, b_not(fit))
    s2 = st.fork() if ok and bad else st
    if ok:
        s = st
        s.add(tobool(fit))
        rm = ex.wmem(s, r.id)
        ex.flush(rm, 0, r.size)
        fo = first.off
        rm.log = Fn(rm.log, fo, n, lambda off, fo=fo, V=V: DECCHR(V, d.mkoff(d.off_sub(off, fo))))
        if ex.wr_log is not None:
            ex.wr_log.append((r.id, fo, n, None))
        out.append((s, (Ptr(first.r, d.off_add(fo, n)), 0)))
    if bad:
        s = s2
        s.add(tobool(b_not(fit)))
        rm = ex.wmem(s, r.id)
        ex.flush(rm, 0, r.size)
        junk = Base("junk", d)
        rm.log = Fn(rm.log, first.off, room, lambda off, junk=junk: ex.byte_read(s, junk, off))
        if ex.wr_log is not None:
            ex.wr_log.append((r.id, first.off, room, None))
        out.append((s, (Ptr(last.r, last.off), 75)))
    return out


CONTRACTS = [(r"^std::to_chars\(", to_chars)]
