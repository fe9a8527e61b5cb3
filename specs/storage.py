"""Contracts of PersistentStorage (K01..K04).

Abstract state: a chain of N records occupying [0, F) of the region.  Record t starts at P(t), where P(0) = 0 and
P(t+1) = P(t) + (16-bit size stored at P(t)); every size is at least 6 (the header) and record t ends at or before F = P(N).
The object's fields represent F (invariant inferred and proved inductive over the constructor and every operation)."""
import z3
from irv.dom import *
from irv.mem import *
from irv.exec import State
from irv.verify import call, query, post, canary, canary_any, ObjInv
from irv.loops import Cand

HARNESS = "h_storage.cpp"
FLAGS = []
MAXN = 1 << 31
HDR = 6
SIZES = (1, 4, 16)
LENS = {1: (0, 1, 2, 3, 4, "long"), 4: (1, 4, "long"), 16: (2, 3, "long")}     # name lengths covered per object size
B64 = lambda x: z3.BitVecVal(x, 64)
B8 = z3.BitVecSort(8)
B64S = z3.BitVecSort(64)
P = z3.Function("P", B64S, B64S)      # start of record t (defined by the recursion in unfold)


class Bytes8:
    """bytes of the region as a function of the offset"""

    def __init__(s, f):
        s.f = f

    def __call__(s, o):
        return s.f(o)

    def size(s, p):
        return z3.ZeroExt(48, z3.Concat(s(p + 1), s(p)))

    def match(s, p, key, es):
        return z3.And(s.size(p) == HDR + es, *[s(p + 2 + i) == key[i] for i in range(4)])


class Chain:
    """the loop sequence pos(t) = P(t) and the facts known about the records"""

    def __init__(s, bs, N=None, F=None, n=None, M=None, key=None, es=None, arbitrary=False):
        s.bs, s.N, s.F, s.n, s.M, s.key, s.es, s.arb = bs, N, F, n, M, key, es, arbitrary

    def unfold(s, t):
        return P(t + 1) == P(t) + s.bs.size(P(t))

    def rec(s, t):
        return z3.Implies(z3.ULT(t, s.N), z3.And(z3.UGE(s.bs.size(P(t)), HDR), z3.ULE(P(t), s.F),
                                                 z3.ULE(P(t) + s.bs.size(P(t)), s.F)))

    def base(s):
        r = [P(B64(0)) == 0]
        if not s.arb:
            r += [P(s.N) == s.F, z3.ULE(s.F, s.n), s.unfold(s.N), z3.ULE(s.N, s.F)]
        return r

    def nomatch(s, t):
        """M is the first matching record (or N)"""
        return z3.Implies(z3.ULT(t, s.M), z3.Not(s.bs.match(P(t), s.key, s.es)))

    def first(s):
        return [z3.ULE(s.M, s.N), z3.Implies(z3.ULT(s.M, s.N), s.bs.match(P(s.M), s.key, s.es)), s.rec(s.M), s.unfold(s.M)]

    def at_facts(s, t):
        r = [s.unfold(t)]
        if not s.arb:
            r.append(s.rec(t))
        if s.M is not None:
            r.append(s.nomatch(t))
        return r

    # interface used by the loop engine
    def matches(s, ex, st, l):
        return isc(l.init) and l.init == 0

    def at(s, t, w):
        return P(t) if w == 64 else z3.Extract(w - 1, 0, P(t))

    def head_facts(s, ex, t):
        return s.at_facts(t)

    def hints(s, ex, L):
        t = L.tvar
        if s.arb:
            J = ex.J
            return [Cand("P(t) <= n", lambda v: z3.ULE(P(v.t), s.n)),
                    Cand("t <= P(t)", lambda v: z3.ULE(v.t, P(v.t))),
                    Cand("records below t are well formed", lambda v: z3.Implies(z3.ULT(J, v.t), z3.And(
                        z3.UGE(s.bs.size(P(J)), HDR), z3.ULE(P(J), s.n), z3.ULE(P(J) + s.bs.size(P(J)), P(v.t)))))]
        r = [Cand("t <= N", lambda v: z3.ULE(v.t, s.N)), Cand("P(t) <= F", lambda v: z3.ULE(P(v.t), s.F))]
        if s.M is not None:
            r.append(Cand("t <= M", lambda v: z3.ULE(v.t, s.M)))
        return r

    def measures(s, v):
        return (s.n if s.arb else s.F) - P(v.t)


class C:
    pass


def setup(ex, init=True):
    c = C()
    c.ex, c.d = ex, ex.d
    st = State()
    ex.cur = st
    c.n = z3.BitVec("capacity", 64)
    st.add(z3.ULE(c.n, MAXN))
    c.R = ex.new_region(st, "region", c.n)
    c.k = z3.BitVec("k", 64)
    ex.K = {c.R.id: [c.k]}
    ex.J = z3.BitVec("jj", 64)
    c.O = ex.region_of_type(st, "obj", ex.m.globals["g_obj"].vty)
    c.o = Ptr(c.O.id, 0)
    ex.bound_terms = [(c.n, 64)]
    ex.inputs = {"capacity": c.n}
    c.st = st
    c.bs0 = basebytes(ex, st, c.R.id)
    c.F = z3.BitVec("F", 64)
    return c


def basebytes(ex, st, rid):
    log = st.mem[rid].log
    return Bytes8(lambda o: ex.d.mk(ex.byte_read(st, log, o), 8))


def curbytes(ex, st, rid):
    return Bytes8(lambda o: ex.d.mk(ex.reg_byte(st, st.mem[rid], o), 8))


def construct(c, init):
    return call(c.ex, c.st, "w_ctor", [c.o, Ptr(c.R.id, 0), c.n, 1 if init else 0])


def vals(F):
    return {"free64": F, "free": z3.Extract(31, 0, F)}


def mkinv(c, st):
    c.inv = ObjInv(c.ex, st, c.O.id, [c.R.id], [("cap", c.n, 64)], [("free", 32), ("free64", 64)])
    c.inv.P = vals(c.F)
    return c.inv


def candidates(ex):
    c = setup(ex)
    outs = construct(c, True)
    inv = mkinv(c, outs[0][0])
    return [n for n, f in inv.facts(outs[0][0], vals(B64(0))) if "init" in n or "free" in n if ex.valid(outs[0][0], f)]


def op_names():
    return ["w_%s_%d" % (o, s) for o in ("set", "get") for s in SIZES]


def start(ex, names, op, L, arbitrary=False):
    """an arbitrary well-formed storage, a key of length L and an object size"""
    c = setup(ex)
    ex.no_merge = True
    s0 = construct(c, True)[0][0]
    mkinv(c, s0).keep(names)
    ex.bound_terms += [(c.F, 64), (vals(c.F)["free"], 32)]
    c.s = s = c.inv.head()
    c.isset = "set" in op
    c.es = int(op.split("_")[2])
    c.bs = basebytes(ex, s, c.R.id)
    c.N, c.M = z3.BitVec("N", 64), z3.BitVec("M", 64)
    if L == "long":
        c.L = z3.BitVec("keylen", 64)
        s.add(z3.And(z3.UGT(c.L, 4), z3.ULE(c.L, MAXN)))
        ex.inputs["keylen"] = c.L
    else:
        c.L = L
    kr = ex.new_region(s, "key", c.L, writable=False)
    kb = basebytes(ex, s, kr.id)
    c.key = [kb(B64(i)) if L == "long" or i < L else z3.BitVecVal(0, 8) for i in range(4)]
    for i in range(4):
        ex.inputs["key%d" % i] = c.key[i]
    vr = ex.new_region(s, "value", c.es, writable=not c.isset)
    c.val = basebytes(ex, s, vr.id)
    c.V = vr
    c.G = G = Chain(c.bs, c.N, c.F, c.n, c.M, c.key, c.es)
    for f in G.base() + G.first():
        s.add(f)
    if L == "long":
        s.add(c.M == c.N)         # no record can carry such a name
        G.nomatch = lambda t: z3.BoolVal(True)
    ex.inputs.update({"F": c.F})
    ex.int_recs = [G]
    ex.loop_hints = [G.hints]
    ex.measures = [G.measures]
    c.op = op
    c.args = [c.o, Ptr(kr.id, 0), c.L, Ptr(vr.id, 0)]
    return c


def run(c):
    return call(c.ex, c.s, c.op, c.args)


def tru(v):
    return z3.BoolVal(bool(v)) if isinstance(v, int) else v


# ---- the contract of set as a formula over (old bytes, new bytes); used by the verification of the code and by the lemmas
def set_result(M, N, F, n, L, es):
    room = z3.ULE(F + HDR + es, n)
    short = z3.BoolVal(L != "long")
    hit = z3.ULT(M, N)
    app = z3.And(z3.Not(hit), short, room)
    return hit, app


def set_byte(k, old, hit, app, M, F, es, key, val):
    """content of byte k after set"""
    d0 = P(M) + HDR
    rec = [z3.BitVecVal((HDR + es) & 255, 8), z3.BitVecVal((HDR + es) >> 8, 8)] + list(key)

    def body(j):
        e = val(j - HDR)
        for i in range(HDR):
            e = z3.If(j == i, rec[i], e)
        return e
    return z3.If(z3.And(hit, z3.UGE(k, d0), z3.ULT(k, d0 + es)), val(k - d0),
                 z3.If(z3.And(app, z3.UGE(k, F), z3.ULT(k, F + HDR + es)), body(k - F), old(k)))


def set_free(F, app, es):
    return z3.If(app, F + HDR + es, F)


def clauses(c, o, v):
    """(name, formula) for the outcome (o, v) of the operation"""
    out = []
    new = curbytes(c.ex, o, c.R.id)
    L = "long" if not isinstance(c.L, int) else c.L
    inr = z3.ULT(c.k, c.n)
    if c.isset:
        hit, app = set_result(c.M, c.N, c.F, c.n, L, c.es)
        F1 = set_free(c.F, app, c.es)
        out.append(("set succeeds exactly when the entry exists or fits", tru(v) == z3.Or(hit, app)))
        want = set_byte(c.k, c.bs, hit, app, c.M, c.F, c.es, c.key, c.val)
        out.append(("set: exactly the value (and for a new entry its header) is written",
                    z3.Implies(inr, new(c.k) == want)))
    else:
        F1 = c.F
        hit = z3.ULT(c.M, c.N)
        out.append(("get finds exactly the stored entries", tru(v) == hit))
        out.append(("get changes nothing", z3.Implies(inr, new(c.k) == c.bs(c.k))))
        vb = curbytes(c.ex, o, c.V.id)
        for i in range(c.es):
            out.append(("get returns the stored bytes", z3.Implies(hit, vb(B64(i)) == c.bs(P(c.M) + HDR + i))))
    for n, f in c.inv.facts(o, vals(F1)):
        out.append(("class-invariant:" + n, f))
    return out


def infer_op(op):
    def f(ex, names):
        ok = set(names)
        for L in (4, "long"):
            c = start(ex, names, op, L)
            ex.silent += 1
            try:
                outs = run(c)
            finally:
                ex.silent -= 1
            for o, v in outs:
                for n, fc in clauses(c, o, v):
                    if n.startswith("class-invariant:") and n[16:] in ok and not ex.valid(o, fc, 8000):
                        ok.discard(n[16:])
        return sorted(ok)
    return f


def t_op(op, L):
    def f(ex, names):
        c = start(ex, names, op, L)
        outs = run(c)
        for o, v in outs:
            for n, fc in clauses(c, o, v):
                post(ex, o, n, fc)
        canary_any(ex, outs, op)
    return f


# ---- constructor
def t_init(ex, names):
    c = setup(ex)
    ex.no_merge = True
    ex.loop_hints = []
    for o, _ in construct(c, True):
        mkinv(c, o).keep(names)
        for n, f in c.inv.facts(o, vals(B64(0))):
            post(ex, o, "initialised storage is empty:" + n, f)
        post(ex, o, "initialising zeroes the region", z3.Implies(z3.ULT(c.k, c.n), curbytes(ex, o, c.R.id)(c.k) == 0))
        canary(ex, o, "init")


def t_reopen(ex, names):
    """region left by a storage: chain of records, then zero bytes"""
    c = setup(ex)
    ex.no_merge = True
    st = c.st
    N = z3.BitVec("N", 64)
    G = Chain(c.bs0, N, c.F, c.n)
    for f in G.base():
        st.add(f)
    ex.inputs.update({"F": c.F})

    def tail(ex, s, off, size):
        o = ex.d.mkoff(off)
        for i in range(size if isc(size) and size <= 8 else 0):
            s.add(z3.Implies(z3.And(z3.UGE(o + i, c.F), z3.ULT(o + i, c.n)), c.bs0(o + i) == 0))
    ex.load_axioms[c.R.id] = tail
    ex.int_recs, ex.loop_hints, ex.measures = [G], [G.hints], [G.measures]
    ex.bound_terms += [(c.F, 64), (vals(c.F)["free"], 32)]
    outs = construct(c, False)
    for o, _ in outs:
        mkinv(c, o).keep(names)
        c.inv.P = vals(c.F)
        fix_init(c, names)
        for n, f in c.inv.facts(o):
            post(ex, o, "reopening restores the state:" + n, f)
        post(ex, o, "reopening changes nothing", z3.Implies(z3.ULT(c.k, c.n), curbytes(ex, o, c.R.id)(c.k) == c.bs0(c.k)))
    canary_any(ex, outs, "reopen")


def fix_init(c, names):
    """'field == init' refers to the value the initialising constructor gives"""
    i0 = construct(c, True)[0][0]
    ref = ObjInv(c.ex, i0, c.O.id, [c.R.id], [("cap", c.n, 64)], [("free", 32), ("free64", 64)])
    ref.P = vals(c.F)
    ref.keep(names)
    c.inv = ref


def pterms(x, out, seen):
    if x.get_id() in seen:
        return
    seen.add(x.get_id())
    if z3.is_app(x) and x.decl().name() == "P":
        out[x.arg(0).get_id()] = x.arg(0)
    for ch in x.children():
        pterms(ch, out, seen)


def t_open(ex, names):
    """region with arbitrary bytes"""
    c = setup(ex)
    ex.no_merge = True
    G = Chain(c.bs0, n=c.n, arbitrary=True)
    for f in G.base():
        c.st.add(f)
    c.st.add(G.unfold(ex.J))
    ex.int_recs, ex.loop_hints, ex.measures = [G], [G.hints], [G.measures]
    outs = construct(c, False)
    for o, _ in outs:
        fix_init(c, names)
        ts, seen = {}, set()
        for f in o.pc:
            pterms(tobool(f), ts, seen)
        wit = None
        for t in [B64(0)] + list(ts.values()):
            if t.eq(ex.J):
                continue
            fs = c.inv.facts(o, vals(P(t)))
            if all(ex.valid(o, f) for _, f in fs):
                wit = t
                break
        post(ex, o, "opening arbitrary memory yields a position in the record chain", wit is not None)
        if wit is not None:
            F, J = P(wit), ex.J
            for n, f in c.inv.facts(o, vals(F)):
                post(ex, o, "opened:" + n, f)
            post(ex, o, "opened chain lies inside the region", z3.And(z3.ULE(F, c.n), z3.ULE(wit, F)))
            post(ex, o, "every record of the opened chain is well formed",
                 z3.Implies(z3.ULT(J, wit), z3.And(z3.UGE(c.bs0.size(P(J)), HDR), z3.ULE(P(J), F),
                                                   z3.ULE(P(J) + c.bs0.size(P(J)), F))))
        post(ex, o, "opening changes nothing", z3.Implies(z3.ULT(c.k, c.n), curbytes(ex, o, c.R.id)(c.k) == c.bs0(c.k)))
    canary_any(ex, outs, "open")


# ---- lemmas over the contracts (no code involved)
def lem_setup(ex, es):
    st = State()
    ex.cur = st
    a = z3.Array("oldbytes", B64S, B8)
    vv = z3.Array("valbytes", B64S, B8)
    old = Bytes8(lambda o: z3.Select(a, o))
    val = lambda i: z3.Select(vv, i)
    N, M, F, n = (z3.BitVec(x, 64) for x in "NMFn")
    key = [z3.BitVec("key%d" % i, 8) for i in range(4)]
    st.add(z3.ULE(n, MAXN))
    G = Chain(old, N, F, n, M, key, es)
    for f in G.base() + G.first():
        st.add(f)
    return st, G, val


def pair(G, a, b):
    """a < b <= N: record a ends at or before record b starts (proved by lem_pair)"""
    return z3.Implies(z3.And(z3.ULT(a, b), z3.ULE(b, G.N)), z3.ULE(P(a) + G.bs.size(P(a)), P(b)))


def lem_pair(ex, names):
    st, G, val = lem_setup(ex, 4)
    a, b = z3.BitVec("a", 64), z3.BitVec("b", 64)
    for f in G.at_facts(a) + G.at_facts(b):
        st.add(f)
    s = st.fork()
    s.add(b == a + 1)
    post(ex, s, "records are disjoint (base)", pair(G, a, b))
    s = st.fork()
    s.add(z3.ULT(b, G.N))
    s.add(z3.ULT(a, b))
    s.add(pair(G, a, b))
    post(ex, s, "records are disjoint (step)", pair(G, a, b + 1))
    canary(ex, s, "pair")


def lem_set(es, es2):
    """set preserves the chain and every other lookup; the stored entry is found with its value"""
    def f(ex, names):
        st, G, val = lem_setup(ex, es)
        N, M, F, n, old, key = G.N, G.M, G.F, G.n, G.bs, G.key
        hit, app = set_result(M, N, F, n, 4, es)
        st.add(z3.Or(hit, app))
        new = Bytes8(lambda k: set_byte(k, old, hit, app, M, F, es, key, val))
        N1, F1 = z3.If(app, N + 1, N), set_free(F, app, es)
        t = z3.BitVec("t", 64)
        P1 = lambda x: z3.If(x == N + 1, F1, P(x))     # starts of the new chain: old ones, plus the new end
        inst = [t, M, N, z3.BitVec("M2", 64)]
        for x in inst:
            for fct in G.at_facts(x) + [G.unfold(x)]:
                st.add(fct)
            for y in inst:
                st.add(pair(G, x, y))
        s = st.fork()
        s.add(z3.ULT(t, N1))
        post(ex, s, "sizes of existing records are unchanged", z3.Implies(z3.ULT(t, N), new.size(P(t)) == old.size(P(t))))
        post(ex, s, "chain recursion holds in the new region", P1(t + 1) == P1(t) + new.size(P1(t)))
        post(ex, s, "records of the new region are well formed", z3.And(z3.UGE(new.size(P1(t)), HDR),
                                                                    z3.ULE(P1(t) + new.size(P1(t)), F1)))
        post(ex, s, "chain ends at the new free position", z3.And(P1(N1) == F1, z3.ULE(F1, n), z3.ULE(N1, F1)))
        k = z3.BitVec("k", 64)
        s = st.fork()
        s.add(z3.Implies(z3.And(z3.UGE(k, F), z3.ULT(k, n)), old(k) == 0))
        post(ex, s, "bytes behind the chain stay zero", z3.Implies(z3.And(z3.UGE(k, F1), z3.ULT(k, n)), new(k) == 0))
        # lookups of (key2, es2): M2 first match before
        M2 = inst[3]
        key2 = [z3.BitVec("kk%d" % i, 8) for i in range(4)]
        s = st.fork()
        m2 = lambda x, bs: bs.match(x, key2, es2)
        s.add(z3.ULE(M2, N))
        s.add(z3.Implies(z3.ULT(M2, N), m2(P(M2), old)))
        for x in (t, M):
            s.add(z3.Implies(z3.ULT(x, M2), z3.Not(m2(P(x), old))))
        same = z3.And(*[a == b for a, b in zip(key, key2)]) if es == es2 else z3.BoolVal(False)
        o = s.fork()
        o.add(z3.Not(same))
        post(ex, o, "other entries: not found before the old position", z3.Implies(z3.ULT(t, M2), z3.Not(m2(P1(t), new))))
        post(ex, o, "other entries: still found", z3.Implies(z3.ULT(M2, N), m2(P1(M2), new)))
        post(ex, o, "other entries: absent ones stay absent", z3.Implies(z3.And(M2 == N, app), z3.Not(m2(P1(N), new))))
        i = z3.BitVec("i", 64)
        post(ex, o, "other entries: value unchanged", z3.Implies(z3.And(z3.ULT(M2, N), z3.ULT(i, es2)),
                                                               new(P1(M2) + HDR + i) == old(P(M2) + HDR + i)))
        if es == es2:
            o = s.fork()
            o.add(same)
            o.add(M2 == M)
            post(ex, o, "stored entry: found", m2(P1(M), new))
            post(ex, o, "stored entry: first match", z3.Implies(z3.ULT(t, M), z3.Not(m2(P1(t), new))))
            post(ex, o, "stored entry: value", z3.Implies(z3.ULT(i, es), new(P1(M) + HDR + i) == val(i)))
            post(ex, o, "replacing uses no space", z3.Implies(hit, F1 == F))
        canary(ex, st, "set lemma")
    return f


def lemmas():
    return [("lemma:pair", lem_pair)] + [("lemma:set-%d-%d" % (a, b), lem_set(a, b)) for a in SIZES for b in SIZES]


def ops(kind=("set", "get"), lens=None):
    return [("op:w_%s_%d:%s" % (o, s, L), t_op("w_%s_%d" % (o, s), L)) for o in kind for s in SIZES for L in lens or LENS[s]]


def inv_tasks():
    return [("init", t_init)]


PROPS = {
    "K01": lambda: ops() + lemmas(),
    "K02": lambda: ops(("set",)),
    "K03": lambda: [("reopen", t_reopen)] + ops(("set", "get"), (4,)) + lemmas(),
    "K04": lambda: [("open", t_open)] + ops() + lemmas(),
}
NATIVE = ("n_storage.cpp", ["-fno-sanitize=alignment"])
TRUSTED = ["contracts of memcpy/memmove/memset/memcmp (irv/exec.py)"]
ASSUMPTIONS = ["regions and names are at most 2^31 bytes; the name and the value do not overlap the region",
               "objects of 1, 4 and 16 bytes stand for the template parameter",
               "object sizes do not exceed what a record can hold (rejected at compile time)"]
