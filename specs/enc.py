"""Contracts of EncodingConverter (T02): every character is converted from its own bytes only."""
import itertools
import z3
from irv.dom import *
from irv.mem import *
from irv.exec import State
from irv.verify import call, post, query, canary_any, ObjInv

HARNESS = "h_enc.cpp"
FLAGS = []
BV = z3.BitVecVal


class C:
    pass


def one(outs):
    if len(outs) != 1:
        raise Unsupported("forks")
    return outs[0][0]


def peek(ex, s, p, kind="int"):
    return ex.read(s, ex.regions[p.r], p.off, 8, kind)


def setup(ex):
    c = C()
    c.ex, d = ex, ex.d
    ex.inputs = {}
    st = State()
    ex.cur = st
    c.O = ex.region_of_type(st, "obj", ex.m.globals["g_obj"].vty)
    c.o = Ptr(c.O.id, 0)
    c.D = ex.new_region(st, "descriptor", 8)
    c.E = ex.new_region(st, "errno", 4)
    c.F, c.T = ex.new_region(st, "from", 16, writable=False), ex.new_region(st, "to", 16, writable=False)
    c.einval = query(ex, st, "w_einval", [])

    def iopen(ex, s, a, inst):
        ex.oblige(s, isinstance(a[0], Ptr) and a[0].r == c.T.id and isinstance(a[1], Ptr) and a[1].r == c.F.id,
                  "opens a conversion from the first encoding to the second", inst)
        s.gh["opened"] = s.gh.get("opened", 0) + 1
        return [(s, Ptr(c.D.id, 0))]

    def iclose(ex, s, a, inst):
        ex.oblige(s, isinstance(a[0], Ptr) and a[0].r == c.D.id, "closes its own descriptor", inst)
        s.gh["closed"] = s.gh.get("closed", 0) + 1
        return [(s, 0)]

    def iconv(ex, s, a, inst):
        ex.oblige(s, isinstance(a[0], Ptr) and a[0].r == c.D.id, "uses its own descriptor", inst)
        if isinstance(a[1], Ptr) and a[1].r is None:
            return [(s, BV(0, 64))]         # resets the conversion state
        want = s.gh["want"]
        src, n = peek(ex, s, a[1], "ptr"), peek(ex, s, a[2])
        dst, room = peek(ex, s, a[3], "ptr"), peek(ex, s, a[4])
        ex.oblige(s, d.icmp("eq", n, len(want), 64), "converts exactly the pending bytes and the new one (count)", inst)
        s.add(d.mk(n, 64) == len(want))
        for i, w in enumerate(want):
            b = ex.read(s, ex.regions[src.r], d.off_add(src.off, i), 1, "int")
            ex.oblige(s, d.icmp("eq", b, w, 8), "converts exactly the pending bytes and the new one (byte %d)" % i, inst)
        ex.oblige(s, d.icmp("uge", room, 4, 64), "has room for any character", inst)
        s.gh["calls"] = s.gh.get("calls", 0) + 1
        mode = s.gh["mode"]
        if mode != "ok":
            e = z3.BitVec(fresh_name("errno"), 32)
            s.add((e == c.einval) if mode == "incomplete" else (e != c.einval))
            ex.write(s, c.E, 0, 4, e)
            return [(s, BV((1 << 64) - 1, 64))]
        r = d.fresh("irreversible", 64)
        s.add(r != (1 << 64) - 1)
        m = z3.BitVec("produced", 64)
        s.add(z3.ULE(m, 4))
        ex.write(s, ex.regions[a[1].r], a[1].off, 8, Ptr(src.r, d.off_add(src.off, len(want))))
        ex.write(s, ex.regions[a[2].r], a[2].off, 8, 0)
        ex.write(s, ex.regions[a[3].r], a[3].off, 8, Ptr(dst.r, d.off_add(dst.off, m)))
        ex.write(s, ex.regions[a[4].r], a[4].off, 8, d.mk(room, 64) - m)
        R = ex.regions[dst.r]
        for i in range(4):
            o = d.off_add(dst.off, i)
            old = d.mk(ex.read(s, R, o, 1, "int"), 8)
            ex.write(s, R, o, 1, z3.If(z3.ULT(BV(i, 64), m), z3.BitVec("result%d" % i, 8), old))
        return [(s, r)]

    def str_n(ex, s, a, inst):
        p, n = a[1], d.mk(a[2], 64)
        ex.oblige(s, z3.ULE(n, 4), "returns at most one character", inst)
        bs = []
        for i in range(4):
            t = s.fork()
            t.add(z3.ULT(BV(i, 64), n))
            bs.append(d.mk(ex.read(t, ex.regions[p.r], d.off_add(p.off, i), 1, "int"), 8) if ex.feasible(t, True) else BV(0, 8))
        s.gh["str"] = s.gh.get("str", ()) + ((n, tuple(bs)),)
        return [(s, None)]

    def str_0(ex, s, a, inst):
        s.gh["str"] = s.gh.get("str", ()) + ((BV(0, 64), (BV(0, 8),) * 4),)
        return [(s, None)]
    S = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::basic_string"
    none = lambda ex, s, a, inst: [(s, a[0] if a else None)]
    ex.contracts = [(r"^iconv_open$", iopen), (r"^iconv_close$", iclose), (r"^iconv$", iconv),
                    (r"^__errno_location$", lambda ex, s, a, inst: [(s, Ptr(c.E.id, 0))]),
                    (S + r"\(char const\*, unsigned long, ", str_n), (S + r"\(\)", str_0),
                    (r"basic_stringstream|std::ostream::operator|std::operator<<", none)]
    ex.write(st, c.E, 0, 4, d.fresh("errno0", 32))
    c.st1 = one(call(ex, st, "w_ctor", [c.o, Ptr(c.F.id, 0), Ptr(c.T.id, 0)]))
    c.inv = ObjInv(ex, c.st1, c.O.id, [], [])
    return c


def start(ex, names):
    c = setup(ex)
    c.inv.keep(names)
    c.s = c.inv.head()
    return c


# a chain: bytes that leave the character incomplete, then the one that settles it
CHAINS = {}
for k in range(4):
    for ops in itertools.product(("c", "r"), repeat=k + 1):
        for end in ("ok", "invalid") + (("incomplete",) if k == 3 else ()):
            CHAINS["%s-%s" % ("".join(ops), end)] = (ops, end)


def result(c, o, v, op, ok, tag):
    ex = c.ex
    m = z3.BitVec("produced", 64)
    rs = [z3.BitVec("result%d" % i, 8) for i in range(4)]
    if op == "c":
        s = o.gh.get("str", ())
        post(ex, o, "returns one string" + tag, len(s) == 1)
        if len(s) == 1:
            n, bs = s[0]
            post(ex, o, "the text is what the conversion of this character produced" + tag if ok else "nothing is returned" + tag,
                 z3.And(n == m, *[z3.Implies(z3.ULT(BV(i, 64), m), bs[i] == rs[i]) for i in range(4)]) if ok else n == 0)
    else:
        b = lambda i: z3.Extract(8 * i + 7, 8 * i, ex.d.mk(v, 32))
        post(ex, o, "the value is what the conversion of this character produced" + tag if ok else "nothing is returned" + tag,
             z3.And(*[b(i) == z3.If(z3.ULT(BV(i, 64), m), rs[i], BV(0, 8)) for i in range(4)]) if ok else ex.d.mk(v, 32) == 0)


def run(c, chain, check):
    ex = c.ex
    ops, end = CHAINS[chain]
    sts = [c.s]
    want = ()
    for i, op in enumerate(ops):
        x = z3.BitVec("byte%d" % i, 8)
        ex.inputs["byte%d" % i] = x
        want += (x,)
        mode = end if i == len(ops) - 1 else "incomplete"
        nxt = []
        for s in sts:
            s.gh["mode"], s.gh["want"], s.gh["str"], s.gh["calls"] = mode, want, (), 0
            if op == "c":
                S = ex.new_region(s, "string", 32)
                outs = call(ex, s, "w_conv", [c.o, x, Ptr(S.id, 0)])
            else:
                outs = call(ex, s, "w_raw", [c.o, x])
            for o, v in outs:
                if check:
                    post(ex, o, "asks the conversion once", o.gh.get("calls") == 1)
                    result(c, o, v, op, mode == "ok", " (%s)" % mode)
                nxt.append(o)
        sts = nxt
    return sts


def candidates(ex):
    c = setup(ex)
    return [n for n, f in c.inv.facts(c.st1) if ex.valid(c.st1, f)]


def op_names():
    return list(CHAINS)


def infer_op(ch):
    def f(ex, names):
        c = start(ex, names)
        ex.silent += 1
        try:
            outs = run(c, ch, False)
        finally:
            ex.silent -= 1
        ok = set(names)
        for o in outs:
            for n, fc in c.inv.facts(o):
                if n in ok and not ex.valid(o, fc, 8000):
                    ok.discard(n)
        return sorted(ok)
    return f


def t_chain(ch):
    def f(ex, names):
        c = start(ex, names)
        outs = run(c, ch, True)
        for o in outs:
            for n, fc in c.inv.facts(o):
                post(ex, o, "nothing of the character is left over: " + n, fc)
        canary_any(ex, [(o, None) for o in outs], ch)
    return f


def t_life(ex, names):
    c = setup(ex)
    c.inv.keep(names)
    for n, fc in c.inv.facts(c.st1):
        post(ex, c.st1, "nothing is pending at first: " + n, fc)
    post(ex, c.st1, "opens one conversion", c.st1.gh.get("opened") == 1)
    s = c.inv.head()
    for o, _ in call(ex, s, "w_dtor", [c.o]):
        post(ex, o, "closes the conversion once", o.gh.get("closed") == 1)


def inv_tasks():
    return [("life", t_life)] + [("char:" + ch, t_chain(ch)) for ch in CHAINS]


PROPS = {"T02": lambda: []}
NATIVE = ("n_enc.cpp", [])
TRUSTED = ["contracts of iconv_open, iconv, iconv_close and errno: an incomplete character is reported with EINVAL and not consumed, a complete one is consumed and yields at most 4 bytes",
           "contract of std::string construction from a character range"]
ASSUMPTIONS = ["characters have at most four bytes (the size of the converter's buffer); a fourth byte that leaves the character incomplete ends it",
               "the throw statement of the constructor is dropped (compiled without exceptions); only successfully opened converters are considered",
               "the contents of std::stringstream messages are not modelled"]
