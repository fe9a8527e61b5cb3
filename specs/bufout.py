"""Contracts of BufferedOut's public operations (properties B01..B06)."""
import z3
from irv.dom import *
from irv.mem import *
from irv.exec import State
from irv.verify import Task, call, query, post, canary, assume, ObjInv
from irv import std_contracts as sc
from irv import flt

MAXN = 1 << 31
INTS = [("w_int", 32, True), ("w_uint", 32, False), ("w_long", 64, True), ("w_ulong", 64, False), ("w_ll", 64, True),
        ("w_ull", 64, False)]


class Ctx:
    pass


def setup(ex):
    c = Ctx()
    c.ex = ex
    ex.contracts = list(sc.CONTRACTS)
    st = State()
    ex.cur = st
    d = ex.d
    c.d = d
    c.n = z3.BitVec("cap", 64)
    st.add(z3.ULE(c.n, MAXN))
    ex.inputs = {"cap": c.n}
    c.B = ex.new_region(st, "buf", c.n)
    c.kk = z3.BitVec("k", 64)
    ex.K = {c.B.id: [c.kk]}
    ex.J = z3.BitVec("jj", 64)
    g = ex.m.globals.get("g_obj")
    c.O = ex.region_of_type(st, "obj", g.vty)
    c.o = Ptr(c.O.id, 0)
    ex.bound_terms = [(c.n, 64)]
    c.st = st
    return c


def construct(c):
    ex = c.ex
    outs = call(ex, c.st, "w_ctor", [c.o, Ptr(c.B.id, 0), c.n])
    if len(outs) != 1:
        raise Unsupported("constructor forks")
    c.st1 = outs[0][0]
    return c.st1


def src_region(c, st, name, size):
    r = c.ex.new_region(st, name, size, writable=False)
    c.ex.bound_terms.append((size, 64))
    return r


def mk_ops(c):
    """every public operation with arbitrary arguments: name -> f(ex, st) -> [(state, args)]"""
    ex, d = c.ex, c.d
    ops = []

    def op(name, *argf):
        def run(ex, st):
            args = [f(st) if callable(f) else f for f in argf]
            return [(s, args) for s, _ in call(ex, st, name, [c.o] + args)]
        ops.append((name, run))
    for nm, w, sg in INTS:
        op(nm, z3.BitVec("v_" + nm, w))
    zlen = z3.BitVec("slen", 64)
    src = {}

    def cstr(st):
        r = src.get("s")
        if r is None or r.id not in st.mem:
            st.add(z3.ULE(zlen, MAXN))
            r = src_region(c, st, "str", zlen + 1)
            c.ex.bound_terms.append((zlen, 64))
            src["s"] = r
            c.S = r

            def ax(ex, st, off, size):
                o = d.mkoff(off)
                b = ex.byte_read(st, st.mem[r.id].log, off)
                st.add(z3.Implies(z3.ULT(o, zlen), b != 0))
                st.add(z3.Implies(o == zlen, b == 0))
            ex.load_axioms[r.id] = ax
            ax(ex, st, ex.J, 1)
            ax(ex, st, zlen, 1)
        return Ptr(r.id, 0)
    c.zlen = zlen
    op("w_str", cstr)
    svn = z3.BitVec("svn", 64)
    c.svn = svn

    def mem(key):
        def f(st):
            r = src.get(key)
            if r is None or r.id not in st.mem:
                st.add(z3.ULE(svn, MAXN))
                r = src_region(c, st, key, svn)
                src[key] = r
                c.S = r
            return Ptr(r.id, 0)
        return f
    op("w_sv", mem("sv"), svn)
    op("w_bytes", mem("bytes"), svn)
    op("w_char", z3.BitVec("v_c", 8))
    op("w_addchar", z3.BitVec("v_ac", 8))
    op("w_byte", z3.BitVec("v_b", 8))
    op("w_float", fconst("v_f", 32))
    op("w_prec", z3.BitVec("v_p", 32))
    op("w_width", z3.BitVec("v_w", 32))
    op("w_fill", z3.BitVec("v_fill", 8))
    op("w_clear")
    return ops



HARNESS = "h_bufout.cpp"
FLAGS = []


# ---------------------------------------------------------------- class invariant
PARAMS = [("width", 32), ("fill", 8), ("precision", 32)]
RESET = {"width": z3.BitVecVal(0, 32), "fill": z3.BitVecVal(32, 8), "precision": z3.BitVecVal(0, 32)}


def mkinv(c, st):
    c.inv = ObjInv(c.ex, st, c.O.id, [c.B.id], [("cap", c.n, 64)], PARAMS)
    c.P = c.inv.P
    c.ex.inputs.update(c.P)
    return c.inv


def candidates(ex):
    c = setup(ex)
    st = construct(c)
    inv = mkinv(c, st)
    return [n for n, f in inv.facts(st, RESET) if ex.valid(st, f)]


def with_inv(ex, names, check_init=False):
    c = setup(ex)
    st = construct(c)
    c.ops = dict(mk_ops(c))
    mkinv(c, st).keep(names)
    if check_init:
        for n, f in c.inv.facts(st, RESET):
            post(ex, st, "class-invariant-init:" + n, f)
    return c


def op_names():
    return [n for n, _, _ in INTS] + ["w_str", "w_sv", "w_bytes", "w_char", "w_addchar", "w_byte", "w_float", "w_prec",
                                      "w_width", "w_fill", "w_clear"]


def after(c, op, o, args, n1):
    """the settings an operation leaves behind: list of alternatives"""
    P = dict(c.P)
    if op == "w_clear":
        return [dict(RESET)]
    if op == "w_width":
        P["width"] = args[0]
    elif op == "w_fill":
        P["fill"] = args[0]
    elif op == "w_prec":
        P["precision"] = args[0]
    elif op in [x[0] for x in INTS]:
        Q = dict(P)
        Q["width"] = z3.BitVecVal(0, 32)
        R = dict(P)
        # a refused integer may keep the width; a width <= 0 is no width
        R["width"] = z3.If(z3.And(n1 != c.n0, P["width"] > 0), z3.BitVecVal(0, 32), P["width"])
        return [Q, R]
    return [P]


def inv_post(c, op, o, args, n1):
    alts = [c.inv.facts(o, P) for P in after(c, op, o, args, n1)]
    return [(alts[0][i][0], b_or(*[a[i][1] for a in alts])) for i in range(len(alts[0]))], alts


def infer_op(op):
    def f(ex, names):
        c = start(ex, names)
        ex.silent += 1
        try:
            outs = c.ops[op](ex, c.s)
        finally:
            ex.silent -= 1
        ok = set(names)
        for o, args in outs:
            for n, fc in inv_post(c, op, o, args, size(c, o))[0]:
                if n in ok and not ex.valid(o, fc, 8000):
                    ok.discard(n)
        return sorted(ok)
    return f


# ---------------------------------------------------------------- observers
def q1(ex, st, f, c):
    return query(ex, st, f, [c.o])


def size(c, st):
    return c.d.mk(q1(c.ex, st, "q_size", c), 64)


def byte(c, st, k):
    return c.d.mk(c.ex.reg_byte(st, st.mem[c.B.id], k), 8)


def run_op(c, st, op, *args):
    return call(c.ex, st, op, [c.o] + list(args))


U64 = lambda x: z3.BitVecVal(x, 64)


def umin(a, b):
    return z3.If(z3.ULE(a, b), a, b)


def start(ex, names):
    c = with_inv(ex, names)
    c.s = c.inv.head()
    c.n0 = size(c, c.s)
    ex.inputs["size"] = c.n0
    c.room = c.n - c.n0
    c.old = byte(c, c.s, c.kk)
    return c


def frame(c, o, n1, tag=""):
    """append-only and inside the buffer"""
    post(c.ex, o, "size grows within capacity" + tag, z3.And(z3.ULE(c.n0, n1), z3.ULE(n1, c.n)))
    post(c.ex, o, "existing content unchanged" + tag, z3.Implies(z3.ULT(c.kk, c.n0), byte(c, o, c.kk) == c.old))


# ---------------------------------------------------------------- B01
def t_op(op):
    def f(ex, names):
        c = start(ex, names)
        outs = c.ops[op](ex, c.s)
        for o, args in outs:
            n1 = size(c, o)
            fs, alts = inv_post(c, op, o, args, n1)
            if len(alts) == 1:
                for n, fc in fs:
                    post(ex, o, "class-invariant:" + n, fc)
            else:
                post(ex, o, "class-invariant (settings kept or width consumed)",
                     b_or(*[b_and(*[fc for _, fc in a]) for a in alts]))
            if op == "w_clear":
                post(ex, o, "clear empties the buffer", n1 == 0)
            else:
                frame(c, o, n1)
                if op in ("w_prec", "w_width", "w_fill"):
                    post(ex, o, "setting appends nothing", n1 == c.n0)
        canary(ex, outs[0][0], op)
    return f


def t_ctor(ex, names):
    c = with_inv(ex, names, True)
    post(ex, c.st1, "a new buffer is empty", size(c, c.st1) == 0)
    post(ex, c.st1, "capacity", q1(ex, c.st1, "q_cap", c) == c.n)


def inv_tasks():
    return [("ctor", t_ctor)] + [("op:" + o, t_op(o)) for o in op_names()]


# ---------------------------------------------------------------- B02 integers
def t_int(nm, wbits, sg):
    """appending v under the pending width and fill character"""
    def f(ex, names):
        c = start(ex, names)
        v = z3.BitVec("v", wbits)
        ex.inputs["value"] = v
        V = sc.wide(c.d, v, wbits, sg)
        L = sc.DECLEN(V)
        w64 = z3.SignExt(32, c.P["width"])
        T = z3.If(L < w64, w64, L)
        fits = z3.ULE(T, c.room)
        k = c.kk
        outs = run_op(c, c.s, nm, v)
        for o, _ in outs:
            n1 = size(c, o)
            b = byte(c, o, k)
            post(ex, o, "appended completely or not at all", n1 == z3.If(fits, c.n0 + T, c.n0))
            inr = z3.And(fits, z3.ULE(c.n0, k), z3.ULT(k, c.n0 + T))
            pad = T - L
            post(ex, o, "left padding is the fill character",
                 z3.Implies(z3.And(inr, z3.ULT(k - c.n0, pad)), b == c.P["fill"]))
            post(ex, o, "exact decimal digits, right-aligned",
                 z3.Implies(z3.And(inr, z3.UGE(k - c.n0, pad)), b == sc.DECCHR(V, k - c.n0 - pad)))
            post(ex, o, "existing content unchanged", z3.Implies(z3.ULT(k, c.n0), b == c.old))
        canary(ex, outs[0][0], nm)
    return f


def b02():
    return [("int:" + nm, t_int(nm, wb, sg)) for nm, wb, sg in INTS]


# ---------------------------------------------------------------- B03 text
def t_text(op):
    def f(ex, names):
        c = start(ex, names)
        outs = c.ops[op](ex, c.s)
        k = c.kk
        for o, args in outs:
            n1 = size(c, o)
            if op in ("w_char", "w_addchar"):
                ln = U64(1)
                at = lambda i: args[0]
            else:
                ln = c.zlen if op == "w_str" else c.svn
                at = lambda i: c.d.mk(ex.byte_read(o, o.mem[c.S.id].log, i), 8)
            m = umin(ln, c.room)
            post(ex, o, "longest prefix that fits", n1 == c.n0 + m)
            post(ex, o, "text copied", z3.Implies(z3.And(z3.ULE(c.n0, k), z3.ULT(k, c.n0 + m)), byte(c, o, k) == at(k - c.n0)))
            frame(c, o, n1)
        canary(ex, outs[0][0], op)
    return f


# ---------------------------------------------------------------- B04 hex
def hexd(x):
    x = z3.ZeroExt(4, x)
    return z3.If(z3.ULT(x, 10), x + 48, x + 55)


def t_hex(op):
    def f(ex, names):
        c = start(ex, names)
        k = c.kk
        outs = c.ops[op](ex, c.s)
        for o, args in outs:
            n1 = size(c, o)
            if op == "w_byte":
                ln = U64(1)
                at = lambda i: args[0]
            else:
                ln = c.svn
                at = lambda i: c.d.mk(ex.byte_read(o, o.mem[c.S.id].log, i), 8)
            m = umin(ln, z3.LShR(c.room, 1))
            rel = k - c.n0
            b = at(z3.LShR(rel, 1))
            post(ex, o, "whole bytes only, as many as fit", n1 == c.n0 + 2 * m)
            post(ex, o, "two upper-case hex digits, high nibble first",
                 z3.Implies(z3.And(z3.ULE(c.n0, k), z3.ULT(k, c.n0 + 2 * m)),
                            byte(c, o, k) == z3.If(z3.Extract(0, 0, rel) == 0, hexd(z3.Extract(7, 4, b)),
                                                   hexd(z3.Extract(3, 0, b)))))
            frame(c, o, n1)
        canary(ex, outs[0][0], op)
    return f


# ---------------------------------------------------------------- B05 floats
def float_spec(v):
    """(printable, negative, integer part, ghost fraction sequence)"""
    av = flt.f1("fabs", v)
    fits = flt.fcmp("flt", av, flit(2147483648.0, 32))
    ip = flt.to_int(v, 32, True)[0]
    neg = flt.fcmp("flt", v, flit(0.0, 32))
    init = flt.f2("fsub", av, flt.f1("fabs", flt.of_int(ip, 32, 32, True)))
    ten = flit(10.0, 32)

    def step(f):
        m = flt.f2("fmul", f, ten)
        return flt.f2("fsub", m, flt.of_int(flt.to_int(m, 32, True)[0], 32, 32, True))
    G = flt.FloatRec("frac", init, step)
    digit = lambda j: z3.Extract(7, 0, flt.to_int(flt.f2("fmul", G.at(j), ten), 32, True)[0]) + 48
    return fits, neg, ip, G, digit


def t_float(case):
    def f(ex, names):
        ex.no_merge = True
        c = start(ex, names)
        v = fconst("v_f", 32)
        fits, neg, ip, G, digit = float_spec(v)
        ex.float_recs = [G]
        p = c.P["precision"]
        ex.inputs.update({"value": flt.fbits(v)})
        c.s.add(p >= 0)
        if case == "nofrac":
            c.s.add(p == 0)
        else:
            c.s.add(p > 0)
            c.s.add({"frac-sign": z3.And(neg, ip == 0), "frac-neg": z3.And(neg, ip != 0), "frac-pos": z3.Not(neg)}[case])
        k = c.kk
        outs = run_op(c, c.s, "w_float", v)
        for o, _ in outs:
            n1 = size(c, o)
            o.add(G.base())
            V = sc.wide(c.d, ip, 32, True)
            L = sc.DECLEN(V)
            sc.dec_axioms(o, V, 32)
            sign = z3.If(z3.And(neg, ip == 0, p > 0), U64(1), U64(0))
            H = L + sign
            ok = z3.And(fits, z3.ULE(H, c.room))
            left = c.room - H
            p64 = z3.ZeroExt(32, p)
            F = z3.If(z3.And(p > 0, left != 0), 1 + umin(p64, left - 1), U64(0))
            post(ex, o, "not representable or no room: nothing appended", z3.Implies(z3.Not(ok), n1 == c.n0))
            post(ex, o, "length: sign, integer part, point and as many digits as asked for and fit",
                 z3.Implies(ok, n1 == c.n0 + H + F))
            b = byte(c, o, k)
            r = k - c.n0
            inr = z3.And(ok, z3.ULE(c.n0, k), z3.ULT(k, n1))
            post(ex, o, "sign of (-1,0)", z3.Implies(z3.And(inr, sign == 1, r == 0), b == 45))
            post(ex, o, "truncated integer part",
                 z3.Implies(z3.And(inr, z3.UGE(r, sign), z3.ULT(r, H)), b == sc.DECCHR(V, r - sign)))
            post(ex, o, "decimal point", z3.Implies(z3.And(inr, r == H), b == 46))
            post(ex, o, "fraction digits", z3.Implies(z3.And(inr, z3.UGT(r, H)), b == digit(r - H - 1)))
            frame(c, o, n1)
        canary(ex, outs[0][0], "float")
    return f


def b05():
    return [("float:" + k, t_float(k)) for k in ("nofrac", "frac-sign", "frac-neg", "frac-pos")]


# ---------------------------------------------------------------- B06 views
def t_views(ex, names):
    c = start(ex, names)

    def same_view(st, tag):
        n = size(c, st)
        post(ex, st, "capacity is the buffer size" + tag, q1(ex, st, "q_cap", c) == c.n)
        for f in ("q_sv_data", "q_data_begin", "q_mdata_begin", "q_conv", "q_cconv"):
            p = q1(ex, st, f, c)
            ok = isinstance(p, Ptr) and p.r == c.B.id
            post(ex, st, "%s is the start of the buffer%s" % (f, tag), c.d.icmp("eq", p.off, 0, 64) if ok else False)
        for f in ("q_sv_size", "q_data_size", "q_mdata_size"):
            post(ex, st, "%s is the number of appended characters%s" % (f, tag), q1(ex, st, f, c) == n)
        post(ex, st, "size within capacity" + tag, z3.ULE(n, c.n))
    same_view(c.s, "")
    same_view(c.st1, " (new)")
    s = run_op(c, c.s, "w_clear")[0][0]
    same_view(s, " (cleared)")
    post(ex, s, "clear empties the buffer", size(c, s) == 0)
    canary(ex, c.s, "views")


PROPS = {
    "B01": lambda: [],
    "B02": b02,
    "B03": lambda: [("text:" + o, t_text(o)) for o in ("w_str", "w_sv", "w_char", "w_addchar")],
    "B04": lambda: [("hex:" + o, t_hex(o)) for o in ("w_byte", "w_bytes")],
    "B05": b05,
    "B06": lambda: [("views", t_views)],
}

NATIVE = ("n_bufout.cpp", [])
TRUSTED = ["contract of std::to_chars(char*, char*, integer): writes the decimal form when it fits, otherwise reports "
           "value_too_large having possibly overwritten [first,last)",
           "contracts of strlen/memcpy/memmove/memset (irv/exec.py)"]
ASSUMPTIONS = ["the buffer and source texts are at most 2^31 bytes", "source texts do not overlap the buffer",
               "float precision settings are >= 0 for the content clauses (memory safety is proved for every setting)"]
