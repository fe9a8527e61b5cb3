"""Contracts of points, sizes, rectangles and matrices (A01), over mathematical integers with overflow obligations."""
import z3
from irv.dom import *
from irv.exec import State
from irv.verify import call, post, canary

HARNESS = "h_geo.cpp"
FLAGS = []
DOM = "int"
M = 1 << 29
RANGE = {"i": (-M, M), "s": (-2 ** 15, 2 ** 15 - 1), "c": (-128, 127), "b": (0, 255)}


def quot(a, b):
    """quotient rounded towards zero"""
    q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
    return z3.If((a >= 0) == (b >= 0), q, -q)


def fam(T):
    lo, hi = RANGE[T]

    def f(ex):
        st = State()
        ex.cur = st
        V = [z3.Int(n) for n in "xywhuv"]
        ex.inputs = {str(v): v for v in V}
        x, y, w, h, u, v = V
        for q in V:
            st.add(z3.And(q >= lo, q <= hi))
        box = [x, y, w, h]

        # iN values are the signed canonical ones: an unsigned byte argument 200 is passed as -56
        can = lambda q: z3.If(q >= 128, q - 256, q) if T == "b" else q

        def chk(name, text, args, want, pre=True, conv=True):
            for k, e in enumerate(want):
                s = st.fork()
                s.add(tobool(pre))
                if T != "i" and not isc(e):
                    s.add(z3.And(e >= lo, e <= hi))
                for t, r in call(ex, s, "%s_%d_%s" % (name, k, T), [can(q) for q in args] if conv else args):
                    post(ex, t, text + " component %d" % k, ex.d.mk(r, 32) == e)
        chk("move", "point + size", box, [x + w, y + h])
        chk("inc", "point += size", box, [x + w, y + h])
        chk("less", "size - size", box, [x - w, y - h])
        ok = z3.And(w >= 1, h >= 1)
        chk("bl", "bottom left", box, [x, y + h - 1], ok)
        chk("br", "bottom right", box, [x + w - 1, y + h - 1], ok)
        chk("rect", "rectangle", box, box)
        chk("copy", "copy of a rectangle", box, box)
        chk("zero", "rectangle without arguments", box, [0, 0, 0, 0])
        chk("shift", "rectangle + size", V, [x + u, y + v, w, h])
        chk("incr", "rectangle += size", V, [x + u, y + v, w, h])
        chk("wide", "rectangle converted to int", box, box)
        chk("narrow", "rectangle converted from int", box, box, conv=False)
        small = z3.And(*[z3.And(p >= -M, p <= M) for p in (x * u, y * v, w * u, h * v)])
        chk("mat", "matrix * point", V, [x * u + y * v, w * u + h * v], small)
        if T == "i":
            chk("more", "size + size", box, [x + w, y + h])
            chk("mul", "size * scale", box, [x * w, y * w], z3.And(*[z3.And(p >= -M, p <= M) for p in (x * w, y * w)]))
            chk("div", "size / scale", box, [quot(x, w), quot(y, w)], w != 0)
            chk("tr", "top right", box, [x + w - 1, y], ok)
        same = z3.And(x == w, y == h)
        for n, e in (("eq", same), ("ne", z3.Not(same))):
            for t, r in call(ex, st, n + "_" + T, [can(q) for q in box]):
                post(ex, t, "point comparison " + n, tobool(ex.tobool(r) if hasattr(ex, "tobool") else r) == e)
        canary(ex, st, "geometry " + T)
    return f


PROPS = {"A01": lambda: [("geometry:" + t, fam(t)) for t in RANGE]}
NATIVE = ("n_geo.cpp", [])
TRUSTED = []
ASSUMPTIONS = ["components of type int have magnitude at most 2^29 and products at most 2^29, so that no order of evaluation overflows",
               "int, int16_t, int8_t and uint8_t stand for the template parameter"]
