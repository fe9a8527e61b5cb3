"""Contracts of MemoryView (M01) and the endianness conversions (E01)."""
import z3
from irv.dom import *
from irv.mem import *
from irv.exec import State
from irv.verify import call, query, post, canary

HARNESS = "h_core.cpp"
FLAGS = []
MAXN = 1 << 31
B64 = lambda x: z3.BitVecVal(x, 64)


def tru(v):
    return z3.BoolVal(bool(v)) if isinstance(v, int) else v


def fam(sfx, es):
    def f(ex):
        ex.no_merge = True
        st = State()
        ex.cur = st
        n, o, c, i = (z3.BitVec(x, 64) for x in ("n", "offset", "count", "index"))
        ex.inputs = {"n": n, "offset": o, "count": c, "index": i}
        st.add(z3.ULE(n, MAXN))
        R = ex.new_region(st, "mem", n * es)
        p = Ptr(R.id, 0)

        def num(fn, want, *a, pre=True):
            s = st.fork()
            s.add(tobool(pre))
            for t, v in call(ex, s, fn + sfx, [p, n] + list(a)):
                post(ex, t, fn[:-1], ex.d.mk(v, 64) == want)

        def ptr(fn, want, *a, pre=True, base=None):
            s = st.fork()
            s.add(tobool(pre))
            for t, v in call(ex, s, fn + sfx, ([p, n] if base is None else [base]) + list(a)):
                w = want(t) if callable(want) else want
                if not isinstance(v, Ptr) or v.r != (p if base is None else base).r:
                    post(ex, t, fn[:-1] + " points into the original memory", False if w is None else b_not(w[1]) if isinstance(w, tuple) else False)
                    continue
                w, cond = w if isinstance(w, tuple) else (w, True)
                post(ex, t, fn[:-1], b_implies(cond, ex.d.mk(v.off, 64) == w))
        mn = lambda a, b: z3.If(z3.ULE(a, b), a, b)
        npos = B64((1 << 64) - 1)
        sub = z3.If(z3.UGE(o, n), B64(0), mn(n - o, c))
        num("sub_n_", sub, o, c)
        ptr("sub_p_", lambda t: (o * es, sub != 0), o, c)
        sub1 = z3.If(z3.UGE(o, n), B64(0), n - o)
        num("sub1_n_", sub1, o)
        ptr("sub1_p_", lambda t: (o * es, sub1 != 0), o)
        num("first_n_", mn(n, c), c)
        ptr("first_p_", lambda t: (B64(0), mn(n, c) != 0), c)
        num("last_n_", mn(n, c), c)
        ptr("last_p_", lambda t: ((n - mn(n, c)) * es, mn(n, c) != 0), c)
        num("bytes_n_", n * es)
        ptr("bytes_p_", B64(0))
        ptr("at_", i * es, i, pre=z3.ULT(i, n))
        ne = n != 0
        ptr("front_", B64(0), pre=ne)
        ptr("back_", (n - 1) * es, pre=ne)
        for x in ("begin_", "cbegin_", "data_", "range_p_", "conv_p_", "rend_", "crend_"):
            ptr(x, B64(0))
        for x in ("end_", "cend_"):
            ptr(x, n * es)
        for x in ("rlast_", "crlast_"):
            ptr(x, (n - 1) * es, pre=ne)
        for x in ("size_", "range_n_", "conv_n_"):
            num(x, n)
        num("sizeb_", n * es)
        for t, v in call(ex, st, "empty_" + sfx, [p, n]):
            post(ex, t, "empty", tru(v) == (n == 0))
        A = ex.new_region(st, "arr", 7 * es)
        q = Ptr(A.id, 0)
        for x, k in (("carr", 5), ("sarr", 7)):
            ptr(x + "_p_", B64(0), base=q)
            for t, v in call(ex, st, x + "_n_" + sfx, [q]):
                post(ex, t, x + "_n", ex.d.mk(v, 64) == k)
        for t, v in call(ex, st, "dflt_n_" + sfx, []):
            post(ex, t, "default view is empty", ex.d.mk(v, 64) == 0)
        for t, v in call(ex, st, "dflt_e_" + sfx, []):
            post(ex, t, "default view says empty", tru(v))
        canary(ex, st, "views " + sfx)
    return f


def t_text(ex):
    ex.no_merge = True
    st = State()
    ex.cur = st
    n = z3.BitVec("n", 64)
    ex.inputs = {"n": n}
    st.add(z3.ULE(n, MAXN))
    R = ex.new_region(st, "mem", n * 4)
    p = Ptr(R.id, 0)
    for f, k in (("sv", 1), ("csv", 1), ("wb", 4)):
        for t, v in call(ex, st, f + "_p", [p, n]):
            post(ex, t, f + " designates the same memory", isinstance(v, Ptr) and v.r == R.id and ex.d.icmp("eq", v.off, 0, 64))
        for t, v in call(ex, st, f + "_n", [p, n]):
            post(ex, t, f + " length", ex.d.mk(v, 64) == n * k)
    canary(ex, st, "text")


def rev(x):
    w = x.size()
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)])


def t_endian(ex):
    st = State()
    ex.cur = st
    x, y = z3.BitVec("x16", 16), z3.BitVec("x32", 32)
    ex.inputs = {"x16": x, "x32": y}
    q = lambda f, a: query(ex, st, f, [a])
    m = lambda v, w: ex.d.mk(v, w)
    r = m(q("e16", x), 16)
    post(ex, st, "16 bit value reversed", r == rev(x))
    post(ex, st, "16 bit twice gives the value", m(q("e16", r), 16) == x)
    r = m(q("e32", y), 32)
    post(ex, st, "32 bit value reversed", r == rev(y))
    post(ex, st, "32 bit twice gives the value", m(q("e32", r), 32) == y)
    post(ex, st, "float has the reversed bit pattern", m(q("ef", y), 32) == rev(y))
    a = z3.BitVec("before", 64)
    R = ex.new_region(st, "word", 4)
    k = z3.BitVec("k", 64)
    st.add(z3.ULT(k, 4))
    s0 = [m(ex.reg_byte(st, st.mem[R.id], i), 8) for i in range(4)]
    for t, _ in call(ex, st, "e16x2", [Ptr(R.id, 0)]):
        for i in range(4):
            post(ex, t, "byte %d of the register pair" % i, m(ex.reg_byte(t, t.mem[R.id], i), 8) == s0[i ^ 1])
    canary(ex, st, "endian")


PROPS = {
    "M01": lambda: [("views:" + s, fam(s, es)) for s, es in (("c", 1), ("b", 1), ("w", 4), ("o", 6))] + [("text", t_text)],
    "E01": lambda: [("endian", t_endian)],
}
NATIVE = ("n_core.cpp", [])
TRUSTED = []
ASSUMPTIONS = ["views designate at most 2^31 elements of existing memory", "element types of 1, 4 and 6 bytes stand for the template parameter",
               "little-endian target for the in-memory byte order of a register pair (the value-level statement does not depend on it)"]
