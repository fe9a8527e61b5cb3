"""Contracts of EmbeddedFont: glyph lookup (F01) and text bounds (F02)."""
import z3
from irv.dom import *
from irv.mem import *
from irv.exec import State
from irv.loops import Cand
from irv.verify import call, query, post, canary, canary_any

HARNESS = "h_font.cpp"
FLAGS = []
B64 = lambda v: z3.BitVecVal(v, 64)


class C:
    pass


def one(outs):
    if len(outs) != 1:
        raise Unsupported("forks")
    return outs[0][0]


# ---------------------------------------------------------------- F01 (bit-vectors)
def t_lookup(ex):
    d = ex.d
    st = State()
    ex.cur = st
    n, m = z3.BitVec("glyphs", 64), z3.BitVec("bytes", 64)
    first, last, ch = z3.BitVec("first", 8), z3.BitVec("last", 8), z3.BitVec("char", 8)
    ex.inputs = {"glyphs": n, "bytes": m, "first": first, "last": last, "char": ch}
    st.add(z3.And(z3.UGE(n, 1), z3.ULE(n, 256), z3.ULE(m, 65535), z3.ULE(first, 0x7E), z3.ULE(first, last)))
    sz = query(ex, st, "g_bytes", [])
    if not isc(sz):
        raise Unsupported("glyph size")
    B = ex.new_region(st, "bitmap", m, writable=False)
    T = ex.new_region(st, "glyphs", n * sz, writable=False)
    D = ex.region_of_type(st, "desc", ex.m.globals["g_desc"].vty)
    F = ex.region_of_type(st, "font", ex.m.globals["g_font"].vty)
    G = ex.region_of_type(st, "glyph", ex.m.globals["g_glyph"].vty)
    P = lambda r: Ptr(r.id, 0)
    st = one(call(ex, st, "mk_desc", [P(D), P(B), m, P(T), n, first, last]))
    st = one(call(ex, st, "mk_font", [P(F), P(D)]))
    ex.cur = st
    # the entry the character must yield: its own, or the first
    z = lambda v: z3.ZeroExt(56, v)
    c, f = z(ch), z(first)
    pos = z3.If(z3.UGT(ch, 0x7E), c - f - 0x21, c - f)
    has = z3.And(z3.UGE(ch, first), z3.ULE(ch, last), z3.Not(z3.And(z3.UGE(ch, 0x7F), z3.ULE(ch, 0x9F))), z3.ULT(pos, n))
    i = z3.BitVec("entry", 64)
    st.add(i == z3.If(has, pos, B64(0)))
    # that entry and its successor describe bytes inside the bitmap data (well-formed font)
    e = Ptr(T.id, d.off_mulc(i, sz))
    q = lambda s, nm, p: d.mk(query(ex, s, nm, [p]), {"g_off": 16}.get(nm, 8))
    a = {k: q(st, "g_" + k, e) for k in ("off", "w", "h", "ox", "oy", "adv")}
    s2 = st.fork()
    s2.add(z3.ULT(i + 1, n))
    nxt = z3.ZeroExt(48, z3.Concat(*[d.mk(ex.byte_read(st, st.mem[T.id].log, (i + 1) * sz + k), 8) for k in (1, 0)]))
    off = z3.ZeroExt(48, a["off"])
    end = z3.If(z3.ULT(i + 1, n), nxt, m)
    bits = z(a["w"]) * z(a["h"])
    st.add(z3.And(z3.ULE(off, end), z3.ULE(end, m), z3.UGE((end - off) << 3, bits)))
    outs = call(ex, st, "w_lookup", [P(F), ch, P(G)])
    for o, _ in outs:
        b = query(ex, o, "q_begin", [P(G)])
        s = d.mk(query(ex, o, "q_size", [P(G)]), 64)
        inb = isinstance(b, Ptr) and b.r == B.id
        post(ex, o, "the bitmap belongs to the font", inb)
        if inb:
            bo = d.mk(b.off, 64)
            post(ex, o, "the bitmap starts at the glyph's offset", bo == off)
            post(ex, o, "the bitmap lies inside the font's data", z3.And(z3.ULE(s, m), z3.ULE(bo, m - s)))
            post(ex, o, "the bitmap is long enough for the glyph", z3.UGE(s << 3, bits))
        for nm, k in (("q_w", "w"), ("q_h", "h"), ("q_ox", "ox"), ("q_oy", "oy"), ("q_adv", "adv")):
            post(ex, o, "glyph of the character, or the first one (%s)" % k, d.mk(query(ex, o, nm, [P(G)]), 8) == a[k])
    canary_any(ex, outs, "lookup")


def t_builtin(ex):
    """the font shipped with the library satisfies what F01 assumes of a font (evaluated on its constants)"""
    ex.init_globals = True
    st = State()
    ex.cur = st
    q = lambda nm, *a: query(ex, st, nm, list(a))
    n, m = q("s_glyphs"), q("s_bytes")
    first, last = q("s_first"), q("s_last")
    if not (isc(n) and isc(m) and isc(first) and isc(last)):
        raise Unsupported("the font is not constant")
    want = last - first + 1 - (33 if last > 0x9F else 0)
    post(ex, st, "one glyph per character", n == want and 0 < first <= 0x7E and last in range(first, 256) and not 0x7E < last < 0xA0)
    ok = True
    for i in range(n):
        a, end, area = q("s_off", i), (q("s_off", i + 1) if i + 1 < n else m), q("s_area", i)
        ok = ok and a <= end <= m and 8 * (end - a) >= area
    post(ex, st, "glyph bitmaps lie one after another inside the data", bool(ok))
    canary(ex, st, "built-in font")


# ---------------------------------------------------------------- F02 (integers)
I = z3.IntVal
MAXLEN = 1 << 22


class Pen:
    def __init__(s, S, step):
        s.S, s.step = S, step

    def matches(s, ex, st, l):
        return isc(l.init) and l.init == 0 and l.vk == "int" and l.w == 32

    def at(s, t, w):
        return s.S(t)

    def head_facts(s, ex, t):
        return [s.step(t)]


def t_bounds(part):
    def f(ex):
        d = ex.d
        st = State()
        ex.cur = st
        n = z3.Int("length")
        d.setrange(n, 0, MAXLEN)
        st.add(z3.And(n >= 0, n <= MAXLEN))
        ex.inputs = {"length": n}
        T = ex.new_region(st, "text", n, writable=False)
        F = ex.region_of_type(st, "font", ex.m.globals["g_font"].vty)
        D = ex.region_of_type(st, "desc", ex.m.globals["g_desc"].vty)
        R = ex.new_region(st, "rect", 16)
        X = ex.new_region(st, "somebits", 1 << 16, writable=False)
        st = one(call(ex, st, "mk_font", [Ptr(F.id, 0), Ptr(D.id, 0)]))
        ex.cur = st
        B8 = z3.BitVecSort(8)
        fn = {k: z3.Function(k, B8, z3.IntSort()) for k in ("gw", "gh", "ox", "oy", "adv")}
        S = z3.Function("pen", z3.IntSort(), z3.IntSort())
        log = st.mem[T.id].log
        ch = lambda t: d.bits(ex.byte_read(st, log, t), 8)
        RNG = {"gw": (0, 255), "gh": (0, 255), "ox": (-128, 127), "oy": (-128, 127), "adv": (0, 255)}
        at = lambda k, t: fn[k](ch(t))
        left = lambda t: S(t) + at("ox", t)
        right = lambda t: left(t) + at("gw", t)
        top = lambda t: at("oy", t)
        bottom = lambda t: at("oy", t) + at("gh", t)
        # arbitrary bounds that hold for every glyph of the text, and an arbitrary glyph
        ml, mr, mt, mb, k = z3.Ints("ml mr mt mb k")
        st.add(z3.And(k >= 0, k < n)) if part == "inside" else None
        st.add(z3.And(mt <= 0))

        def step(t):
            cs = [S(t + 1) == S(t) + at("adv", t)]
            cs += [z3.And(at(q, t) >= lo, at(q, t) <= hi) for q, (lo, hi) in RNG.items()]
            if part == "tight":
                cs.append(z3.Implies(z3.And(t >= 0, t < n), z3.And(left(t) >= ml, right(t) <= mr, top(t) >= mt, bottom(t) <= mb)))
            return z3.And(*cs)
        st.add(S(I(0)) == 0)
        st.add(step(k))
        if part == "tight":
            st.add(n >= 1)
            st.add(step(I(0)))
        ex.int_recs = [Pen(S, step)]

        def lookup(ex, s, a, inst):
            ok = isinstance(a[1], Ptr) and a[1].r == F.id and same(a[1].off, 0)
            ex.oblige(s, ok, "looks the glyphs up in this font", inst)
            b = d.bits(a[2], 8)
            b = z3.BitVecVal(b, 8) if isc(b) else b
            v = {q: fn[q](b) for q in fn}
            for q, (lo, hi) in RNG.items():
                d.setrange(v[q], lo, hi)
                s.add(z3.And(v[q] >= lo, v[q] <= hi))
            u8 = lambda z: d.uval(z, 8)
            return [(s2, None) for s2, _ in call(ex, s, "mk_bitmap", [a[0], Ptr(X.id, 0), 8192, u8(v["gw"]), u8(v["gh"]), v["ox"], v["oy"], u8(v["adv"])])]
        ex.contracts = [(r"EmbeddedFont::getBitmap", lookup)]
        tt = lambda v: I(v.t) if isc(v.t) else v.t

        def hints(ex, L):
            out = [Cand("t <= n", lambda v: tt(v) <= n), Cand("0 <= S(t) <= 255 t", lambda v: z3.And(S(tt(v)) >= 0, S(tt(v)) <= 255 * tt(v)))]
            for l in L.loci:
                if l.kind not in ("phi", "slot") or l.vk != "int" or l.w != 32 or l.uninit:
                    continue
                z = lambda v, l=l: d.mk(v.num(l), 32)
                if isc(l.init):
                    out.append(Cand("%r start" % l, lambda v, z=z, l=l: z3.Implies(tt(v) == 0, z(v) == l.init)))
                # machine range: small at first, then within the reach of the pen
                out.append(Cand("%r range" % l, lambda v, z=z: z3.And(z(v) >= -(1 << 31), z(v) <= (1 << 31) - 1)))
                out.append(Cand("%r reach" % l, lambda v, z=z: z3.Implies(tt(v) > 0, z3.And(z(v) >= -255, z(v) <= 255 * tt(v) + 512))))
                out.append(Cand("%r depth" % l, lambda v, z=z: z3.Implies(tt(v) > 0, z3.And(z(v) >= -255, z(v) <= 512))))
                for sg in (1, -1):
                    if part == "inside":
                        out += [Cand("%r left %d" % (l, sg), lambda v, z=z, sg=sg: z3.Implies(k < tt(v), sg * z(v) <= left(k))),
                                Cand("%r right %d" % (l, sg), lambda v, z=z, sg=sg: z3.Implies(k < tt(v), sg * z(v) >= right(k))),
                                Cand("%r top %d" % (l, sg), lambda v, z=z, sg=sg: z3.Implies(k < tt(v), sg * z(v) <= top(k))),
                                Cand("%r bottom %d" % (l, sg), lambda v, z=z, sg=sg: z3.Implies(k < tt(v), sg * z(v) >= bottom(k)))]
                    else:
                        out += [Cand("%r left %d" % (l, sg), lambda v, z=z, sg=sg: z3.Implies(tt(v) > 0, sg * z(v) >= ml)),
                                Cand("%r right %d" % (l, sg), lambda v, z=z, sg=sg: z3.Implies(tt(v) > 0, sg * z(v) <= mr)),
                                Cand("%r top %d" % (l, sg), lambda v, z=z, sg=sg: sg * z(v) >= mt),
                                Cand("%r bottom %d" % (l, sg), lambda v, z=z, sg=sg: z3.Implies(tt(v) > 0, sg * z(v) <= mb))]
                    out.append(Cand("%r above the base line %d" % (l, sg), lambda v, z=z, sg=sg: sg * z(v) <= 0))
            return out
        ex.loop_hints = [hints]
        outs = call(ex, st, "w_bounds", [Ptr(F.id, 0), Ptr(T.id, 0), n, Ptr(R.id, 0)])
        for o, _ in outs:
            x, y, w, h = [d.mk(ex.read(o, R, 4 * i, 4, "int"), 32) for i in range(4)]
            if part == "inside":
                post(ex, o, "drawn at the reported corner, no glyph reaches left of 0", x + left(k) >= 0)
                post(ex, o, "... nor right of the reported width", x + right(k) <= w)
                post(ex, o, "... nor above 0", y + top(k) >= 0)
                post(ex, o, "... nor below the reported height", y + bottom(k) <= h)
                post(ex, o, "the base line is inside", y >= 0)
            elif part == "tight":
                post(ex, o, "the corner is the leftmost glyph edge", x <= -ml)
                post(ex, o, "the corner is the topmost glyph edge or the base line", y <= -mt)
                post(ex, o, "the box ends at the rightmost glyph edge", w <= mr + x)
                post(ex, o, "the box ends at the lowest glyph edge", h <= mb + y)
            else:
                post(ex, o, "an empty text has empty bounds", z3.Implies(n == 0, z3.And(w == 0, h == 0)))
        canary_any(ex, outs, "bounds")
    return f


PROPS = {
    "F01": lambda: [("lookup", t_lookup), ("built-in font", t_builtin)],
    "F02": lambda: [("bounds:" + p, t_bounds(p), {"dom": "int"}) for p in ("inside", "tight", "empty")],
}
NATIVE = ("n_font.cpp", [])
TRUSTED = ["contract of EmbeddedFont::getBitmap inside getTextBounds (yields the glyph of the character asked for, a function of the character alone; F01 proves which)"]
ASSUMPTIONS = ["fonts have 1 to 256 glyphs, a first code of at most 0x7E and not above the last one, and at most 65535 bytes of bitmap data",
               "well-formed fonts: the looked-up glyph's bitmap lies inside the font's data and ends where the next glyph's begins (checked for the font shipped with the library)",
               "texts have at most 2^22 characters"]
