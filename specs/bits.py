"""Contracts of BitStream (T01): exactly the bits written come out, most significant first."""
import z3
from irv.dom import *
from irv.mem import *
from irv.exec import State
from irv.verify import call, post, canary, canary_any, ObjInv

HARNESS = "h_bits.cpp"
FLAGS = []
OPS = ["w_bit", "w_byte", "w_flush"]
BV = z3.BitVecVal
# abstract state: n bits wait (0..7), held in the top bits of the byte p, the rest of p is 0
ABS = {"n": 8, "p": 8}


class C:
    pass


def views(n, p):
    """forms in which a representation may keep the abstract state"""
    V = {}
    for w in (8, 16, 32, 64):
        z = (lambda x: x) if w == 8 else (lambda x: z3.ZeroExt(w - 8, x))
        V["n%d" % w] = z(n)
        V["free%d" % w] = 8 - z(n)
        V["last%d" % w] = 7 - z(n)
        V["top%d" % w] = z(p)
        V["low%d" % w] = z3.LShR(z(p), 8 - z(n))
        V["mask%d" % w] = z3.LShR(BV(0x80, w), z(n))
    return V


class Inv(ObjInv):
    def __init__(self, ex, st, rid):
        super().__init__(ex, st, rid, [], [])
        self.n, self.p = z3.BitVec("waiting", 8), z3.BitVec("bits", 8)
        V = views(self.n, self.p)
        for l in self.loci:
            if l[0] != "int":
                continue
            for k, e in V.items():
                if e.size() == l[2] * 8:
                    self.cands.append(("%d==%s" % (l[1], k), lambda g, P, off=l[1], k=k, w=l[2] * 8: P[k] == ex.d.mk(g(off), w)))
        self.P = V


def start(ex, names=None):
    c = C()
    c.ex = ex
    st = State()
    ex.cur = st
    c.O = ex.region_of_type(st, "obj", ex.m.globals["g_obj"].vty)
    c.S = ex.new_region(st, "sink", 4)
    c.o = Ptr(c.O.id, 0)

    def emit(ex, s, a, inst):
        ex.oblige(s, isinstance(a[0], Ptr) and a[0].r == c.S.id, "bytes go to the stream", inst)
        s.gh["out"] = s.gh.get("out", ()) + (ex.d.mk(a[1], 8),)
        return [(s, None)]
    ex.contracts = [(r"^emit$", emit)]
    outs = call(ex, st, "w_ctor", [c.o, Ptr(c.S.id, 0)])
    if len(outs) != 1:
        raise Unsupported("constructor forks")
    c.st1 = outs[0][0]
    c.inv = Inv(ex, c.st1, c.O.id)
    c.n, c.p = c.inv.n, c.inv.p
    c.reset = views(BV(0, 8), BV(0, 8))
    if names is not None:
        c.inv.keep(names)
        c.s = c.inv.head()
        c.s.gh.pop("out", None)
        c.s.add(z3.And(z3.ULE(c.n, 7), c.p & z3.LShR(BV(0xFF, 8), c.n) == 0))
        ex.inputs = {"bits waiting": c.n, "their values (top-aligned)": c.p}
    return c


def candidates(ex):
    c = start(ex)
    return [n for n, f in c.inv.facts(c.st1, c.reset) if ex.valid(c.st1, f)]


def op_names():
    return OPS


def step(c, op, s):
    """run op; [(state, want: bytes that must come out as (count, value), next abstract state)]"""
    ex = c.ex
    n, p = c.n, c.p
    if op == "w_bit":
        b = z3.Bool("bit")
        ex.inputs["bit"] = b
        q = p | z3.LShR(z3.If(b, BV(0x80, 8), BV(0, 8)), n)
        full = n == 7
        return call(ex, s, op, [c.o, b]), full, q, z3.If(full, BV(0, 8), n + 1), z3.If(full, BV(0, 8), q)
    if op == "w_byte":
        b = z3.BitVec("byte", 8)
        ex.inputs["byte"] = b
        return call(ex, s, op, [c.o, b]), z3.BoolVal(True), p | z3.LShR(b, n), n, z3.If(n == 0, BV(0, 8), b << (8 - n))
    return call(ex, s, op, [c.o]), n != 0, p, BV(0, 8), BV(0, 8)


def infer_op(op):
    def f(ex, names):
        c = start(ex, names)
        ex.silent += 1
        try:
            outs, _, _, n1, p1 = step(c, op, c.s)
        finally:
            ex.silent -= 1
        ok = set(names)
        V = views(n1, p1)
        for o, _ in outs:
            for nm, fc in c.inv.facts(o, V):
                if nm in ok and not ex.valid(o, fc, 8000):
                    ok.discard(nm)
        return sorted(ok)
    return f


def t_op(op):
    def f(ex, names):
        c = start(ex, names)
        outs, emits, val, n1, p1 = step(c, op, c.s)
        V = views(n1, p1)
        for o, _ in outs:
            out = o.gh.get("out", ())
            post(ex, o, "emits a byte exactly when eight bits are complete", emits if len(out) == 1 else z3.Not(emits) if not out else False)
            if len(out) == 1:
                post(ex, o, "the byte is the earliest eight bits, most significant first", out[0] == val)
            for nm, fc in c.inv.facts(o, V):
                post(ex, o, "class-invariant (the remaining bits wait):" + nm, fc)
        canary_any(ex, outs, op)
    return f


def t_ret(op, v0):
    def f(ex, names):
        c = start(ex, names)
        for o, v in call(ex, c.s, op, [c.o, v0]):
            post(ex, o, "writes can be chained", isinstance(v, Ptr) and v.r == c.O.id and same(v.off, 0))
    return f


def t_ctor(ex, names):
    c = start(ex, names)
    post(ex, c.st1, "a new packer emits nothing", not c.st1.gh.get("out"))
    for nm, fc in c.inv.facts(c.st1, c.reset):
        post(ex, c.st1, "class-invariant-init:" + nm, fc)


def inv_tasks():
    return [("ctor", t_ctor)] + [("op:" + o, t_op(o)) for o in OPS]


PROPS = {"T01": lambda: [("ret:r_bit", t_ret("r_bit", z3.Bool("v"))), ("ret:r_byte", t_ret("r_byte", z3.BitVec("v", 8)))]}
NATIVE = ("n_bits.cpp", [])
TRUSTED = ["contract of the underlying stream: inserting a byte appends it and does not modify the packer"]
ASSUMPTIONS = []
