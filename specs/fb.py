"""Contracts of SimpleFrameBuffer (G01, G02), for each color depth and several sizes."""
import z3
from irv.dom import *
from irv.mem import *
from irv.exec import State
from irv.loops import Cand
from irv.verify import call, query, post, canary, canary_any

HARNESS = "h_fb.cpp"
FLAGS = []
CFG = [(128, 300, 1), (8, 3, 1), (296, 160, 2), (4, 5, 2), (64, 400, 4), (2, 3, 4), (33, 290, 8), (1, 1, 8), (240, 320, 16),
       (3, 2, 16), (16, 270, 24), (1, 3, 24), (264, 65, 32), (2, 2, 32)]
B32 = lambda x: z3.BitVecVal(x, 32)
B64 = lambda x: z3.BitVecVal(x, 64)


def tru(v):
    return z3.BoolVal(bool(v)) if isinstance(v, int) else v


class C:
    pass


def setup(ex, w, h, depth):
    c = C()
    c.ex, c.d, c.w, c.h, c.depth = ex, ex.d, w, h, depth
    c.sfx = "_%d_%d_%d" % (w, h, depth)
    c.n = w * h * depth // 8
    ex.unroll_max = 24 if w * h <= 24 else 2
    st = State()
    ex.cur = st
    c.O = ex.region_of_type(st, "fb", ex.m.globals["g" + c.sfx].vty)
    c.o = Ptr(c.O.id, 0)
    st = one(c, call(ex, st, "ctor" + c.sfx, [c.o]))
    ex.cur = st
    p = query(ex, st, "imgp" + c.sfx, [c.o])
    if not isinstance(p, Ptr) or p.r != c.O.id or not isc(p.off):
        raise Unsupported("image is not inside the frame buffer object")
    c.img = p.off
    ex.kiv = {c.O.id: (c.img, c.img + c.n)}
    # an arbitrary earlier content and an arbitrary selected color
    c.sel = z3.BitVec("selected", 32)
    s = st.fork()
    rm = ex.wmem(s, c.O.id)
    ex.flush(rm, c.img, c.img + c.n)
    rm.log = Base("image", ex.d)
    s = one(c, call(ex, s, "color" + c.sfx, [c.o, c.sel]))
    c.st = s
    ex.cur = s
    c.x, c.y = z3.BitVec("x", 32), z3.BitVec("y", 32)
    for v, m in ((c.x, w), (c.y, h)):
        s.add(z3.And(v >= 0, v < m))
    ex.inputs = {"selected": c.sel, "x": c.x, "y": c.y}
    c.k = z3.BitVec("k", 64)
    s.add(z3.ULT(c.k, c.n))
    ex.K = {c.O.id: [c.k + c.img]}
    return c


def one(c, outs):
    if len(outs) != 1:
        raise Unsupported("forks")
    return outs[0][0]


def byte(c, st, k):
    """byte k of the image"""
    return c.d.mk(c.ex.read(st, c.ex.regions[c.O.id], k + c.img, 1, "int", (c.img, c.img + c.n)), 8)


def addr(c, x, y):
    """bit address of a pixel"""
    return (y * c.w + x) * c.depth


def pixel(c, st, x, y):
    """stored value of a pixel (color-depth bits)"""
    a = addr(c, x, y)
    b = z3.ZeroExt(32, z3.LShR(a, 3))
    if c.depth >= 8:
        bs = [byte(c, st, b + i) for i in range(c.depth // 8)]
        return bs[0] if len(bs) == 1 else z3.Concat(*bs)
    sh = 8 - c.depth - z3.Extract(7, 0, a & 7)
    return z3.Extract(c.depth - 1, 0, z3.LShR(byte(c, st, b), sh))


def stored(c, color):
    """what drawing with this color stores"""
    if c.depth == 1:
        return z3.If(color != 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return z3.Extract(c.depth - 1, 0, color)


def low(c, color):
    """selecting a color keeps its low bits"""
    return color if c.depth == 32 else color & ((1 << c.depth) - 1)


def drawn(c, old, o, x, y, color, tag):
    """exactly that pixel changes"""
    post(c.ex, o, tag + "the pixel has the color", pixel(c, o, x, y) == stored(c, color))
    a = addr(c, x, y)
    b = z3.ZeroExt(32, z3.LShR(a, 3))
    if c.depth >= 8:
        keep = z3.Implies(z3.Not(z3.And(z3.UGE(c.k, b), z3.ULT(c.k, b + c.depth // 8))), byte(c, o, c.k) == byte(c, old, c.k))
    else:
        m = z3.BitVecVal((1 << c.depth) - 1, 8) << (8 - c.depth - z3.Extract(7, 0, a & 7))
        keep = byte(c, o, c.k) & z3.If(c.k == b, ~m, z3.BitVecVal(255, 8)) == byte(c, old, c.k) & z3.If(c.k == b, ~m, z3.BitVecVal(255, 8))
    post(c.ex, o, tag + "every other bit of the image is unchanged", keep)


def t_draw(w, h, depth):
    def f(ex):
        ex.no_merge = True
        c = setup(ex, w, h, depth)
        col = z3.BitVec("color", 32)
        ex.inputs["color"] = col
        x2, y2 = z3.BitVec("x2", 32), z3.BitVec("y2", 32)
        ops = [("draw3", [c.x, c.y, col], col), ("draw", [c.x, c.y], low(c, c.sel))]
        for op, args, color in ops:
            outs = call(ex, c.st, op + c.sfx, [c.o] + args)
            for o, _ in outs:
                drawn(c, c.st, o, c.x, c.y, color, op + ": ")
                # the selected color survives
                s = o.fork()
                s.add(z3.And(x2 >= 0, x2 < w, y2 >= 0, y2 < h))
                for q, _ in call(ex, s, "draw" + c.sfx, [c.o, x2, y2]):
                    drawn(c, o, q, x2, y2, low(c, c.sel), op + ", then with the selected color: ")
            canary_any(ex, outs, op)
        # selecting a color changes nothing else
        for o, _ in call(ex, c.st, "color" + c.sfx, [c.o, col]):
            post(ex, o, "selecting a color leaves the image", byte(c, o, c.k) == byte(c, c.st, c.k))
            for q, _ in call(ex, o, "draw" + c.sfx, [c.o, c.x, c.y]):
                drawn(c, o, q, c.x, c.y, low(c, col), "after selecting: ")
    return f


def t_clear(w, h, depth):
    def f(ex):
        ex.no_merge = True
        c = setup(ex, w, h, depth)
        col = z3.BitVec("color", 32)
        ex.inputs["color"] = col
        a = z3.ZeroExt(32, z3.LShR(addr(c, c.x, c.y), 3)) + c.img
        ex.K = {c.O.id: [a + i for i in range(max(1, depth // 8))]}
        want = stored(c, col)
        done = lambda v: pixel(c, v.st, c.x, c.y) == want
        outer = []

        def hints(ex, L):
            X, Y, t = c.x, c.y, z3.Extract(31, 0, L.tvar)
            r = [("X<t", lambda v, z=X: z3.ULT(z, z3.Extract(31, 0, ex.d.mkoff(v.t)))), ("Y<t", lambda v, z=Y: z3.ULT(z, z3.Extract(31, 0, ex.d.mkoff(v.t))))]
            base = [x for x in r]
            for n, z in (("Y*w+X<t", Y * w + X), ("X*h+Y<t", X * h + Y)) if not outer and not L.nested else ():
                r.append((n, lambda v, z=z: z3.ULT(z, z3.Extract(31, 0, ex.d.mkoff(v.t)))))
            out = [Cand("%s -> painted" % n, lambda v, g=g: z3.Implies(g(v), done(v))) for n, g in r]
            for i, tv in enumerate(outer):
                if tv is L.tvar:
                    continue
                tt = z3.Extract(31, 0, tv)
                for n, z in (("X", X), ("Y", Y)):
                    out.append(Cand("%s<outer%d -> painted" % (n, i), lambda v, z=z, tt=tt: z3.Implies(z3.ULT(z, tt), done(v))))
                    for m, g in base:
                        if m[0] != n:
                            out.append(Cand("%s==outer%d,%s -> painted" % (n, i, m), lambda v, z=z, tt=tt, g=g: z3.Implies(z3.And(z == tt, g(v)), done(v))))
            if not any(x is L.tvar for x in outer):
                outer.append(L.tvar)
                del outer[:-6]
            return out
        ex.loop_hints = [hints]
        outs = call(ex, c.st, "clear" + c.sfx, [c.o, col])
        for o, _ in outs:
            post(ex, o, "every pixel has the requested color", done(type("V", (), {"st": o})))
            s = o.fork()
            x2, y2 = z3.BitVec("x2", 32), z3.BitVec("y2", 32)
            s.add(z3.And(x2 >= 0, x2 < w, y2 >= 0, y2 < h))
            for q, _ in call(ex, s, "draw" + c.sfx, [c.o, x2, y2]):
                post(ex, q, "the selected color survives", pixel(c, q, x2, y2) == stored(c, low(c, c.sel)))
            dims(c, s, "after clear: ")
        canary_any(ex, outs, "clear")
        dims(c, c.st, "")
    return f


def dims(c, st, tag):
    q = lambda n: query(c.ex, st, n + c.sfx, [c.o])
    post(c.ex, st, tag + "width", c.d.mk(q("width"), 32) == c.w)
    post(c.ex, st, tag + "height", c.d.mk(q("height"), 32) == c.h)
    for n in ("imgn", "cimgn"):
        post(c.ex, st, tag + n + ": exactly the image", c.d.mk(q(n), 64) == c.n)
    for n in ("imgp", "cimgp"):
        p = q(n)
        post(c.ex, st, tag + n + ": the image", isinstance(p, Ptr) and p.r == c.O.id and isc(p.off) and p.off == c.img)


PROPS = {
    "G01": lambda: [("draw:%dx%dx%d" % k, t_draw(*k)) for k in CFG],
    "G02": lambda: [("clear:%dx%dx%d" % k, t_clear(*k)) for k in CFG],
}
NATIVE = ("n_fb.cpp", [])
TRUSTED = []
ASSUMPTIONS = ["each color depth is checked for one large and one small image size; sizes are template parameters"]
