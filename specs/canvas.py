"""Contracts of Canvas (C01..C05) over an arbitrary frame buffer.

The frame buffer's virtual functions are given by contracts: its width and height are arbitrary (1..32767) and constant;
drawPixel obliges 0 <= x < W and 0 <= y < H (C01) and records, in ghost state, whether the skolem pixel (X, Y) was drawn.
All geometry is stated on frame-buffer coordinates; rot() is the specification of the rotation (C02)."""
import itertools
import re
import time
import z3
from irv.dom import *
from irv.mem import *
from irv.exec import State, Executor, Budget
from irv.loops import Cand
from irv.verify import call, query, post, canary, canary_any

HARNESS = "h_canvas.cpp"
FLAGS = []
DOM = "int"
MAXC = 1 << 24
I = z3.IntVal


def tru(v):
    return z3.BoolVal(bool(v)) if isinstance(v, int) else v


class C:
    pass


def rot(r, x, y, W, H):
    return [(x, y), (W - 1 - y, x), (W - 1 - x, H - 1 - y), (y, H - 1 - x)][r]


def rotrect(r, x, y, w, h, W, H):
    """frame buffer rectangle (x0, y0, x1, y1), inclusive, of a logical rectangle"""
    a, b = rot(r, x, y, W, H), rot(r, x + w - 1, y + h - 1, W, H)
    lo = lambda p, q, s: p if s else q
    flipx, flipy = r in (1, 2), r in (2, 3)
    return (lo(b[0], a[0], flipx), lo(b[1], a[1], flipy), lo(a[0], b[0], flipx), lo(a[1], b[1], flipy))


def setup(ex, r, pixels=1):
    c = C()
    c.ex, c.d, c.r = ex, ex.d, r
    st = State()
    ex.cur = st
    c.W, c.H = z3.Int("W"), z3.Int("H")
    for v in (c.W, c.H):
        ex.d.setrange(v, 1, 32767)
        st.add(z3.And(v >= 1, v <= 32767))
    c.inputs = ex.inputs = {"width": c.W, "height": c.H, "rotation": r}
    c.pix = [(z3.Int("X%d" % i), z3.Int("Y%d" % i)) for i in range(pixels)]
    c.p0 = []
    for i in range(pixels):
        st.gh["p%d" % i] = z3.Bool("lit%d" % i)
        c.p0.append(st.gh["p%d" % i])
        ex.inputs["X%d" % i], ex.inputs["Y%d" % i] = c.pix[i]
    c.on_draw = []
    c.check_vis = False

    def const(v):
        return lambda ex, st, a, inst: [(st, v)]

    def draw(ex, st, a, inst):
        x, y = [ex.d.mk(v, 32) for v in a]
        if c.check_vis:
            ex.oblige(st, z3.And(x >= 0, x < c.W, y >= 0, y < c.H), "frame buffer drawn inside its bounds", inst)
        for f in c.on_draw:
            f(st, x, y, inst)
        for i, (X, Y) in enumerate(c.pix):
            st.gh["p%d" % i] = b_or(st.gh["p%d" % i], norm(z3.simplify(z3.And(x == X, y == Y))))
        return [(st, None)]

    def nothing(ex, st, a, inst):
        st.gh["calls"] = st.gh.get("calls", ()) + ((inst, tuple(a)),)
        return [(st, None)]
    ex.contracts = [(r"^fb_width$", const(c.W)), (r"^fb_height$", const(c.H)), (r"^fb_draw$", draw)]
    c.FB = ex.region_of_type(st, "fb", ex.m.globals["g_fb"].vty)
    c.CV = ex.region_of_type(st, "canvas", ex.m.globals["g_canvas"].vty)
    c.fb, c.cv = Ptr(c.FB.id, 0), Ptr(c.CV.id, 0)
    st = one(call(ex, st, "w_fb", [c.fb]))
    st = one(call(ex, st, "w_ctor", [c.cv, c.fb]))
    c.new = st
    st = one(call(ex, st, "w_rot", [c.cv, r]))
    c.st = st
    ex.cur = st
    return c


def one(outs):
    if len(outs) != 1:
        raise Unsupported("forks")
    return outs[0][0]


def arg(c, name, lo=-MAXC, hi=MAXC):
    v = z3.Int(name)
    c.d.setrange(v, lo, hi)
    c.st.add(z3.And(v >= lo, v <= hi))
    c.ex.inputs[name] = v
    return v


def fields(st, rid):
    rm = st.mem[rid]
    return {o: v for o, (n, v) in rm.slots.items()}


def run(c, op, *args, **kw):
    outs = call(c.ex, c.st, op, [c.cv] + list(args))
    for o, _ in outs:
        unchanged(c, o)
    canary_any(c.ex, outs, op)
    return outs


def unchanged(c, o):
    a, b = fields(c.st, c.CV.id), fields(o, c.CV.id)
    ok = set(a) == set(b) and o.mem[c.CV.id].log is c.st.mem[c.CV.id].log
    cs = []
    for k in a:
        x, y = a[k], b.get(k)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            ok = ok and isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r and same(x.off, y.off)
        elif not same(x, y):
            cs.append(tru(c.d.icmp("eq", x, y, 32)))
    post(c.ex, o, "the canvas keeps its frame buffer, size and rotation", b_and(ok, *cs) if ok else False)


def lit(c, o, i=0):
    return tru(o.gh["p%d" % i])


def vis(c, X, Y):
    return z3.And(X >= 0, X < c.W, Y >= 0, Y < c.H)


def exact(c, o, cond, tag, i=0):
    X, Y = c.pix[i]
    p, p0 = lit(c, o, i), c.p0[i]
    post(c.ex, o, tag + ": lights nothing else", z3.Implies(p, z3.Or(p0, z3.And(cond(X, Y), vis(c, X, Y)))))
    post(c.ex, o, tag + ": lights all of it", z3.Implies(z3.Or(p0, z3.And(cond(X, Y), vis(c, X, Y))), p))


# ---------------------------------------------------------------- generic loop candidates
def int_loci(L):
    return [l for l in L.loci if l.kind in ("phi", "slot") and l.vk == "int" and l.w == 32 and not l.uninit]


def region_hints(c, cond, fronts=True):
    """painted pixels satisfy cond; the pixels of cond behind a moving front are painted"""
    def f(ex, L):
        out = []
        for i, (X, Y) in enumerate(c.pix):
            k, p0 = "p%d" % i, c.p0[i]
            inn = z3.And(cond(X, Y), vis(c, X, Y))
            g = lambda v, k=k: tru(v.st.gh[k])
            out.append(Cand(k + " stays", lambda v, g=g, p0=p0: z3.Implies(p0, g(v))))
            out.append(Cand(k + " only inside", lambda v, g=g, p0=p0, inn=inn: z3.Implies(g(v), z3.Or(p0, inn))))
            if not fronts:
                continue
            for l in int_loci(L):
                for n, z in (("X", X), ("Y", Y)):
                    for m, op in (("<", lambda a, b: a < b), (">", lambda a, b: a > b)):
                        out.append(Cand("%s: %s%s%r done" % (k, n, m, l), lambda v, g=g, inn=inn, z=z, op=op, l=l:
                                        z3.Implies(z3.And(inn, op(z, c.d.mk(v.num(l), 32))), g(v))))
        return out
    return f


# ---------------------------------------------------------------- C01 / C02
def t_pixel(r, prop):
    def f(ex):
        c = setup(ex, r)
        c.check_vis = prop == "C01"
        x, y = arg(c, "x"), arg(c, "y")
        outs = run(c, "w_pixel", x, y)
        if prop == "C01":
            return
        q = rot(r, x, y, c.W, c.H)
        lw, lh = (c.H, c.W) if r % 2 else (c.W, c.H)
        for o, _ in outs:
            exact(c, o, lambda X, Y: z3.And(X == q[0], Y == q[1]), "pixel")
            post(ex, o, "visible exactly inside the logical size",
                 vis(c, *q) == z3.And(x >= 0, x < lw, y >= 0, y < lh))
        sizes(c, c.st, lw, lh, r)
        # a fresh canvas is not rotated; rotations can be set again
        sizes(c, c.new, c.W, c.H, 0)
        for r2 in range(4):
            s = one(call(ex, c.st, "w_rot", [c.cv, r2]))
            lw, lh = (c.H, c.W) if r2 % 2 else (c.W, c.H)
            sizes(c, s, lw, lh, r2)
            q2 = rot(r2, x, y, c.W, c.H)
            for o, _ in call(ex, s, "w_pixel", [c.cv, x, y]):
                exact(c, o, lambda X, Y: z3.And(X == q2[0], Y == q2[1]), "pixel after setRotation %d" % r2)
        # logical rectangles
        w, h = arg(c, "w", 1), arg(c, "h", 1)
        R = ex.new_region(c.st, "rect", 16)
        for o, _ in call(ex, c.st, "q_trect", [c.cv, Ptr(R.id, 0), x, y, w, h]):
            t = [c.d.mk(ex.read(o, R, 4 * i, 4, "int"), 32) for i in range(4)]
            b = rotrect(r, x, y, w, h, c.W, c.H)
            post(ex, o, "transformed rectangle", z3.And(t[0] == b[0], t[1] == b[1], t[0] + t[2] - 1 == b[2], t[1] + t[3] - 1 == b[3]))
    return f


def sizes(c, st, lw, lh, r):
    q = lambda n: c.d.mk(query(c.ex, st, n, [c.cv]), 32)
    post(c.ex, st, "logical width", q("q_w") == lw)
    post(c.ex, st, "logical height", q("q_h") == lh)
    post(c.ex, st, "rotation", q("q_rot") == r)


# ---------------------------------------------------------------- C03 rectangles and axis-parallel lines
def t_rect(r, op, prop):
    def f(ex):
        c = setup(ex, r)
        c.check_vis = prop == "C01"
        lo = 1 if prop == "C03" else -MAXC
        x, y, w, h = arg(c, "x"), arg(c, "y"), arg(c, "w", lo), arg(c, "h", lo)
        x0, y0, x1, y1 = rotrect(r, x, y, w, h, c.W, c.H)
        inside = lambda X, Y: z3.And(X >= x0, X <= x1, Y >= y0, Y <= y1)
        if op == "w_rect":
            cond = lambda X, Y: z3.And(inside(X, Y), z3.Or(X == x0, X == x1, Y == y0, Y == y1))
        else:
            cond = inside
        if prop == "C03":
            ex.loop_hints = [region_hints(c, cond)]
        for o, _ in run(c, op, x, y, w, h):
            if prop == "C03":
                exact(c, o, cond, "outline" if op == "w_rect" else "filled")
    return f


# ---------------------------------------------------------------- C03 lines
KINDS = ["dot", "hor+", "hor-", "ver+", "ver-"] + ["".join(k) for k in itertools.product("xy", "+-", "+-")]


def t_line(r, kind, prop):
    """kind: direction of the line on the frame buffer.  Slanted lines: longer axis, its direction, that of the other axis."""
    def f(ex):
        c = setup(ex, r)
        c.check_vis = prop == "C01"
        x1, y1, x2, y2 = [arg(c, n) for n in ("x1", "y1", "x2", "y2")]
        W, H = c.W, c.H
        A, B = rot(r, x1, y1, W, H), rot(r, x2, y2, W, H)
        dx, dy = B[0] - A[0], B[1] - A[1]
        if kind in KINDS[:5]:
            c.st.add({"dot": z3.And(dx == 0, dy == 0), "hor+": z3.And(dy == 0, dx > 0), "hor-": z3.And(dy == 0, dx < 0),
                      "ver+": z3.And(dx == 0, dy > 0), "ver-": z3.And(dx == 0, dy < 0)}[kind])
            lo = lambda i: B[i] if kind[-1] == "-" else A[i]
            hi = lambda i: A[i] if kind[-1] == "-" else B[i]
            cond = lambda X, Y: z3.And(X >= lo(0), X <= hi(0), Y >= lo(1), Y <= hi(1))
            if prop == "C03":
                ex.loop_hints = [region_hints(c, cond)]
            for o, _ in run(c, "w_line", x1, y1, x2, y2):
                if prop == "C03":
                    exact(c, o, cond, "straight line")
            return
        # canonical direction: along the longer axis upwards
        li, si = (0, 1) if kind[0] == "x" else (1, 0)
        P, Q = (A, B) if kind[1] == "+" else (B, A)
        sg = 1 if (kind[2] == "+") == (kind[1] == "+") else -1      # direction of the short axis from P to Q
        ld = z3.Int("longer")
        sd = z3.Int("shorter")
        c.st.add(z3.And(ld == Q[li] - P[li], sd == (Q[si] - P[si]) * sg, sd >= 1, ld >= sd if kind[0] == "x" else ld > sd))
        X, Y = c.pix[0]
        Z = (X, Y)
        cross = lambda p: (p[si] - P[si]) * sg * ld - (p[li] - P[li]) * sd
        # the step whose pixels are counted
        c.st.gh["n"] = I(0)
        step = z3.Int("step")

        def on_draw(st, x, y, inst):
            p = (x, y)
            if prop == "C03":
                cr = cross(p)
                ex.oblige(st, z3.And(p[li] >= P[li], p[li] <= Q[li], 2 * cr <= ld, -2 * cr <= ld),
                          "lights only pixels within half a pixel of the line", inst)
                # integer multiples of the longer side (linear instances for the solver)
                dlt = Z[si] - p[si]
                st.add(z3.Implies(dlt >= 1, dlt * ld >= ld))
                st.add(z3.Implies(dlt <= -1, dlt * ld <= -ld))
                st.gh["n"] = z3.If(p[li] == step, st.gh["n"] + 1, st.gh["n"])
        c.on_draw.append(on_draw)
        t_ = lambda v: v.t if not isc(v.t) else I(v.t)

        def hints(ex, L):
            out = []
            ints = int_loci(L)
            for s in ints:
                num = lambda v, s=s: c.d.mk(v.num(s), 32)
                for nm, off in (("", 0), ("-1", -1)):
                    out.append(Cand("%r is the long coordinate%s" % (s, nm), lambda v, num=num, off=off: num(v) == P[li] + t_(v) + off))
                k = lambda v, num=num: (num(v) - P[si]) * sg * ld
                cr = lambda v, k=k: k(v) - t_(v) * sd
                out.append(Cand("%r within half a pixel above" % s, lambda v, cr=cr: 2 * cr(v) <= ld))
                out.append(Cand("%r within half a pixel below" % s, lambda v, cr=cr: -2 * cr(v) <= ld))
                out.append(Cand("%r between" % s, lambda v, num=num: z3.And((num(v) - P[si]) * sg >= 0, (num(v) - P[si]) * sg <= t_(v))))
                for e in ints:
                    if e is s:
                        continue
                    z = lambda v, e=e: c.d.mk(v.num(e), 32)
                    for a in (1, -1, 2, -2):
                        for b in (1, 2):
                            if abs(a) == 2 and b == 2:
                                continue
                            out.append(Cand("%r is %d/%d the distance of %r" % (e, a, b, s),
                                            lambda v, z=z, cr=cr, a=a, b=b: b * (z(v) - z(L.v0)) == a * (cr(v) - cr(L.v0))))
                ee = num
                out += [Cand("%r>=0" % s, lambda v, ee=ee: ee(v) >= 0), Cand("%r<ld" % s, lambda v, ee=ee: ee(v) < ld),
                        Cand("%r<=ld" % s, lambda v, ee=ee: ee(v) <= ld), Cand("%r<2ld" % s, lambda v, ee=ee: ee(v) < 2 * ld),
                        Cand("%r>=-ld" % s, lambda v, ee=ee: ee(v) >= -ld), Cand("%r>=-2ld" % s, lambda v, ee=ee: ee(v) >= -2 * ld),
                        Cand("%r<0" % s, lambda v, ee=ee: ee(v) < 0), Cand("%r<=0" % s, lambda v, ee=ee: ee(v) <= 0)]
            out.append(Cand("t <= ld + 1", lambda v: t_(v) <= ld + 1))
            if prop == "C03":
                g = lambda v: tru(v.st.gh["p0"])
                n = lambda v: v.st.gh["n"]
                front = lambda v: P[li] + t_(v)
                out.append(Cand("lit stays", lambda v: z3.Implies(c.p0[0], g(v))))
                out.append(Cand("lit behind the front", lambda v: z3.Implies(z3.And(
                    Z[li] >= P[li], Z[li] < front(v), vis(c, X, Y), 2 * cross(Z) < ld, -2 * cross(Z) < ld), g(v))))
                out.append(Cand("n ahead", lambda v: z3.Implies(step >= front(v), n(v) == 0)))
                out.append(Cand("n at most one", lambda v: z3.And(n(v) >= 0, n(v) <= 1)))
                out.append(Cand("n behind", lambda v: z3.Implies(z3.And(vis(c, *A), vis(c, *B), step >= P[li], step < front(v)), n(v) == 1)))
            return out
        ex.loop_hints = [hints]
        for o, _ in run(c, "w_line", x1, y1, x2, y2):
            if prop == "C03":
                p = lit(c, o)
                post(ex, o, "pixels stay lit", z3.Implies(c.p0[0], p))
                post(ex, o, "every visible pixel nearer than half a pixel is lit", z3.Implies(z3.And(
                    Z[li] >= P[li], Z[li] <= Q[li], vis(c, X, Y), 2 * cross(Z) < ld, -2 * cross(Z) < ld), p))
                post(ex, o, "at most one pixel per step", z3.And(o.gh["n"] >= 0, o.gh["n"] <= 1))
                post(ex, o, "exactly one pixel per step when the line is visible", z3.Implies(z3.And(
                    vis(c, *A), vis(c, *B), step >= P[li], step <= Q[li]), o.gh["n"] == 1))
                for nm, E in (("start", A), ("end", B)):
                    post(ex, o, "the %s point is lit when visible" % nm, z3.Implies(z3.And(vis(c, *E), X == E[0], Y == E[1]), p))
    return f


# ---------------------------------------------------------------- contract of the horizontal line helper
def ghost_rows(c):
    """ghost state: was a pixel of the skolem row / column drawn?"""
    c.ln, c.cl = z3.Int("line"), z3.Int("column")
    c.st.gh["row"], c.st.gh["col"] = z3.Bool("row0"), z3.Bool("col0")

    def on_draw(st, px, py, inst):
        st.gh["row"] = b_or(st.gh["row"], norm(z3.simplify(py == c.ln)))
        st.gh["col"] = b_or(st.gh["col"], norm(z3.simplify(px == c.cl)))
    c.on_draw.append(on_draw)


def hline_effect(c, g, sx, sy, w):
    """ghost state after the visible part of the pixels (sx .. sx+w-1, sy) was drawn"""
    row = z3.And(sy >= 0, sy < c.H)
    out = {}
    for i, (X, Y) in enumerate(c.pix):
        out["p%d" % i] = b_or(g["p%d" % i], norm(z3.simplify(z3.And(Y == sy, X >= sx, X < sx + w, X >= 0, X < c.W, row))))
    if "row" in g:
        a, b = z3.If(sx >= 0, sx, 0), z3.If(sx + w <= c.W, sx + w, c.W)
        out["row"] = b_or(g["row"], norm(z3.simplify(z3.And(sy == c.ln, row, a < b))))
        out["col"] = b_or(g["col"], norm(z3.simplify(z3.And(row, a <= c.cl, c.cl < b))))
    return out


def hline_contract(c, rows, facts=()):
    """Prove that drawHorizontalLine draws exactly the visible part of its pixels and let its callers use
    that contract.  Where the helper does not exist in this form or the proof fails, callers use its body."""
    ex = c.ex
    fn = [f for f in ex.m.funcs.values() if re.match(r"(embedded::)?Canvas::drawHorizontalLine\(embedded::Point<int>, int\)$", f.dname)]
    if len(fn) != 1 or fn[0].decl:
        return
    big = 4 * MAXC

    sub = Executor(ex.m, IntDom(), deadline=min(ex.deadline or 1e18, time.time() + 120))
    sub.prefix = ex.prefix + "drawHorizontalLine:"
    sub.canary, sub.tm = [], ex.tm
    try:
        c2 = setup(sub, c.r, len(c.pix))
        c2.check_vis = True
        if rows:
            ghost_rows(c2)
        sx, sy, w = [arg(c2, n, -big, big) for n in ("start_x", "start_y", "width_")]
        g0 = dict(c2.st.gh)

        def hints(ex, L):
            t = lambda v: I(v.t) if isc(v.t) else v.t
            return [Cand("t <= width", lambda v: t(v) <= z3.If(w >= 0, w, 0)), Cand("row as far as drawn", lambda v: tru(v.st.gh["row"]) == tru(hline_effect(c2, g0, sx, sy, t(v))["row"]))]
        sub.loop_hints = [hints] if rows else []
        s = c2.st.fork()
        sub.cur = s
        outs = sub.call(s, fn[0], [c2.cv, Packed((((0, 4), sx), ((4, 4), sy)), 8), w], None)
        for o, _ in outs:
            unchanged(c2, o)
            want = hline_effect(c2, g0, sx, sy, w)
            for k in want:
                post(sub, o, "draws exactly the visible part of the line (%s)" % k, tru(o.gh[k]) == tru(want[k]))
        canary_any(sub, outs, "line")
    except (Unsupported, Budget):
        return
    if not all(o.ok for o in sub.obl.values()) or any(r == "unsat" for _, r in sub.vacuity):
        return
    ex.obl.update(sub.obl)
    ex.calls |= sub.calls
    ex.loopinfo += sub.loopinfo
    ex.vacuity += sub.vacuity
    ex.nq += sub.nq
    ex.tq += sub.tq

    def h(ex, st, a, inst):
        if not isinstance(a[1], Packed) or len(a[1].parts) != 2:
            raise Unsupported("position is not a pair")
        px, py = [c.d.mk(v, 32) for _, v in sorted(a[1].parts, key=lambda q: q[0][0])]
        w = c.d.mk(a[2], 32)
        ex.oblige(st, isinstance(a[0], Ptr) and a[0].r == c.CV.id, "draws on this canvas", inst)
        ex.oblige(st, z3.And(px >= -big, px <= big, py >= -big, py <= big, w >= -big, w <= big), "pre:drawHorizontalLine", inst)
        for f in facts:
            for b in (c.cx - px, px + w - 1 - c.cx):
                st.add(f(b))
        st.gh.update(hline_effect(c, st.gh, px, py, w))
        return [(st, None)]
    ex.contracts = ex.contracts + [("^" + re.escape(fn[0].dname) + "$", h)]


# ---------------------------------------------------------------- C04 circles
def t_circle(r, filled, prop, part):
    """part: shape (what is lit), mirror (symmetry), rows (no gaps)"""
    def f(ex):
        c = setup(ex, r, {"shape": 1, "mirror": 3, "rows": 0}[part])
        c.check_vis = prop == "C01"
        x, y = arg(c, "x"), arg(c, "y")
        R = arg(c, "radius", 0 if prop == "C04" else -MAXC)
        if prop == "C01":
            # a negative radius is drawn by the same loop; the geometry below needs R >= 0
            c.st.add(R >= 0 if part == "shape" else R < 0)
        cx, cy = rot(r, x, y, c.W, c.H)
        RR = R * R
        absz = lambda v: z3.If(v >= 0, v, -v)
        sqs = {}

        def outline(dx, dy):
            q = dx * dx + dy * dy - RR
            return z3.And(absz(dx) <= R, absz(dy) <= R, q <= absz(dx) + absz(dy), -q <= absz(dx) + absz(dy))

        def disc(dx, dy):
            return z3.And(absz(dx) <= R, absz(dy) <= R, dx * dx + dy * dy <= RR + absz(dx) + absz(dy))

        def core(dx, dy):
            return dx * dx + dy * dy + absz(dx) + absz(dy) <= RR
        posts = []
        ghosts = []
        if part == "shape" and prop == "C04":
            X, Y = c.pix[0]
            DX, DY = z3.Int("DX"), z3.Int("DY")
            c.st.add(z3.And(DX == X - cx, DY == Y - cy))
            vp = vis(c, X, Y)
            p0 = c.p0[0]
            ext = z3.Or(z3.And(DY == 0, z3.Or(DX == R, DX == -R)), z3.And(DX == 0, z3.Or(DY == R, DY == -R)))
            posts = [("lights only pixels of the circle", lambda g: z3.Implies(g, z3.Or(p0, z3.And(vp, (disc if filled else outline)(DX, DY))))),
                     ("pixels stay lit", lambda g: z3.Implies(p0, g)),
                     ("the four extreme points are lit", lambda g: z3.Implies(z3.And(vp, ext), g))]
            if filled:
                posts.append(("every pixel inside is lit", lambda g: z3.Implies(z3.And(vp, core(DX, DY)), g)))
        if part == "rows" and prop == "C04":
            ghost_rows(c)
            ln, cl = c.ln, c.cl
            c.st.add(z3.And(cx - R >= 0, cy - R >= 0, cx + R < c.W, cy + R < c.H))
        if part == "mirror":
            (X, Y), (X1, Y1), (X2, Y2) = c.pix
            c.st.add(z3.And(X1 == 2 * cx - X, Y1 == Y, X2 == X, Y2 == 2 * cy - Y))
            for i in range(3):
                c.st.add(z3.Not(c.p0[i]))

        def hints(ex, L):
            out = []
            ints = int_loci(L)
            num = lambda v, l: c.d.mk(v.num(l), 32)
            for a in ints:
                A = lambda v, a=a: num(v, a)
                out += [Cand("%r<=0" % a, lambda v, A=A: A(v) <= 0), Cand("%r>=0" % a, lambda v, A=A: A(v) >= 0),
                        Cand("%r<=R" % a, lambda v, A=A: A(v) <= R), Cand("%r>=-R" % a, lambda v, A=A: A(v) >= -R),
                        Cand("%r==-R" % a, lambda v, A=A: A(v) == -R)]
            for a, b in itertools.permutations(ints, 2):
                F = lambda v, a=a, b=b: num(v, a) * num(v, a) + num(v, b) * num(v, b) - RR
                for sa, sb in itertools.product((1, -1), repeat=2):
                    S = lambda v, a=a, b=b, sa=sa, sb=sb: sa * num(v, a) + sb * num(v, b)
                    if a is ints[min(ints.index(a), ints.index(b))]:
                        out.append(Cand("on the circle %r %r %d %d <=" % (a, b, sa, sb), lambda v, F=F, S=S: F(v) <= S(v)))
                        out.append(Cand("on the circle %r %r %d %d >=" % (a, b, sa, sb), lambda v, F=F, S=S: -F(v) <= S(v)))
                    for e in ints:
                        if e is a or e is b or ints.index(a) > ints.index(b):
                            continue
                        for m in (1, 2):
                            out.append(Cand("%r error of %r %r %d %d *%d" % (e, a, b, sa, sb, m), lambda v, F=F, S=S, e=e, m=m:
                                            num(v, e) - num(L.v0, e) == m * (F(v) - F(L.v0) + 2 * (S(v) - S(L.v0)))))
                out.append(Cand("%r on the axis: %r==R" % (a, b), lambda v, a=a, b=b: z3.Implies(num(v, a) == 0, num(v, b) == R)))
            g = lambda v, k="p0": tru(v.st.gh[k])
            if part == "shape" and prop == "C04":
                for n, q in posts[:2]:
                    out.append(Cand(n, lambda v, q=q: q(g(v))))
                for a, b in itertools.combinations(ints, 2):
                    out.append(Cand("left and right after %r %r" % (a, b), lambda v, a=a, b=b: z3.Implies(z3.And(
                        z3.Or(num(v, a) != num(L.v0, a), num(v, b) != num(L.v0, b)), vp, DY == 0, z3.Or(DX == R, DX == -R)), g(v))))
                for b in ints:
                    B = lambda v, b=b: num(v, b)
                    for s in (1, -1):
                        out.append(Cand("top and bottom when %r beyond %d" % (b, s), lambda v, B=B, s=s: z3.Implies(z3.And(
                            s * B(v) > 0, vp, DX == 0, z3.Or(DY == R, DY == -R)), g(v))))
                        if filled:
                            out.append(Cand("rows before %r %d" % (b, s), lambda v, B=B, s=s: z3.Implies(z3.And(
                                vp, core(DX, DY), absz(DY) < s * B(v)), g(v))))
            if part == "rows" and prop == "C04":
                for nm, z, z0 in (("row", ln, cy), ("col", cl, cx)):
                    out.append(Cand(nm + " stays", lambda v, nm=nm: z3.Implies(tru(c.st.gh[nm]), tru(v.st.gh[nm]))))
                    for b in ints:
                        for s in (1, -1):
                            out.append(Cand("%s nearer than %r %d" % (nm, b, s), lambda v, b=b, s=s, nm=nm, z=z, z0=z0: z3.Implies(
                                absz(z - z0) < s * num(v, b), tru(v.st.gh[nm]))))
                            out.append(Cand("%s farther than %r %d" % (nm, b, s), lambda v, b=b, s=s, nm=nm, z=z, z0=z0: z3.Implies(
                                z3.And(absz(z - z0) <= R, absz(z - z0) > s * num(v, b)), tru(v.st.gh[nm]))))
            if part == "mirror":
                for i in (1, 2):
                    m = "p%d" % i
                    out.append(Cand("mirror %d" % i, lambda v, m=m, i=i: z3.Implies(z3.And(g(v), vis(c, *c.pix[i])), g(v, m))))
            return out

        def measure(v):
            ints = int_loci(v.L)
            return None
        if filled:
            facts = []
            if part == "shape" and prop == "C04":
                # monotonicity of n^2 - n and n^2 + n, proved once and used where a row is drawn
                near = lambda a, b: z3.Implies(z3.And(absz(a) <= b), a * a - absz(a) <= b * b - b)
                far = lambda a, b: z3.Implies(z3.And(b >= 0, absz(a) > b), a * a + absz(a) >= b * b + 3 * b + 2)
                la, lb = z3.Ints("lemma_a lemma_b")
                post(ex, State(), "lemma: n^2 - n grows", near(la, lb))
                post(ex, State(), "lemma: n^2 + n grows", far(la, lb))
                facts = [lambda b: near(DX, b), lambda b: far(DX, b)]
            c.cx = cx
            hline_contract(c, "row" in c.st.gh, facts)
        ex.loop_hints = [hints]
        ex.measures = []
        for a, b in itertools.permutations(range(6), 2):
            for sa, sb in itertools.product((1, -1), repeat=2):
                def ms(v, a=a, b=b, sa=sa, sb=sb):
                    ints = int_loci(v.L)
                    if max(a, b) >= len(ints) or a > b:
                        return None
                    return sa * c.d.mk(v.num(ints[a]), 32) + sb * c.d.mk(v.num(ints[b]), 32) + 2 * R + 2
                ex.measures.append(ms)
        for o, _ in run(c, "w_circle", x, y, R, filled):
            if prop != "C04":
                continue
            if part == "shape":
                for n, q in posts:
                    post(ex, o, n, q(lit(c, o)))
            elif part == "rows":
                post(ex, o, "no gap between rows", z3.Implies(absz(ln - cy) <= R, tru(o.gh["row"])))
                post(ex, o, "no gap between columns", z3.Implies(absz(cl - cx) <= R, tru(o.gh["col"])))
            else:
                for i, n in ((1, "left-right"), (2, "up-down")):
                    post(ex, o, n + " symmetry", z3.Implies(z3.And(lit(c, o), vis(c, *c.pix[i])), lit(c, o, i)))
    return f


# ---------------------------------------------------------------- C05 characters and text
def glyph(c, st, tag=""):
    """an arbitrary glyph: row by row, unpadded, ceil(w*h/8) bytes"""
    g = C()
    for n, lo, hi in (("gw", 0, 255), ("gh", 0, 255), ("ox", -128, 127), ("oy", -128, 127), ("adv", 0, 255)):
        v = z3.Int(n + tag)
        c.d.setrange(v, lo, hi)
        st.add(z3.And(v >= lo, v <= hi))
        setattr(g, n, v)
        c.ex.inputs[n + tag] = v
    g.n = z3.Int("glyphbytes" + tag)
    c.d.setrange(g.n, 0, 8192)
    st.add(z3.And(8 * g.n >= g.gw * g.gh, 8 * g.n < g.gw * g.gh + 8, g.n >= 0, g.n <= 8192))
    g.R = c.ex.new_region(st, "bitmap" + tag, g.n, writable=False)
    return g


def lookup(c, ch, g):
    """contract of EmbeddedFont::getBitmap: the glyph of the character asked for"""
    def h(ex, st, a, inst):
        ex.oblige(st, c.d.icmp("eq", a[2], ch, 8), "looks up the character asked for", inst)
        ok = isinstance(a[1], Ptr) and a[1].r == c.font.r and same(a[1].off, c.font.off)
        ex.oblige(st, ok, "looks it up in the font asked for", inst)
        s8 = lambda v: v
        args = [a[0], Ptr(g.R.id, 0), g.n, u8(g.gw), u8(g.gh), g.ox, g.oy, u8(g.adv)]
        return [(s, None) for s, _ in call(ex, st, "mk_bitmap", args)]

    def u8(v):
        return c.d.uval(v, 8)
    return h


def t_char(r, prop, case):
    def f(ex):
        c = setup(ex, r)
        c.check_vis = prop == "C01"
        st = c.st
        g = glyph(c, st)
        # glyph sizes by case, so that products stay small in each
        c.font = ex.global_ptr(st, ex.m.globals["g_font"])
        ch = z3.Int("char")
        ex.d.setrange(ch, -128, 127)
        st.add(z3.And(ch >= -128, ch <= 127))
        ex.inputs["char"] = ch
        x, y = arg(c, "x"), arg(c, "y")
        ex.contracts = ex.contracts + [(r"EmbeddedFont::getBitmap", lookup(c, ch, g))]
        X, Y = c.pix[0]
        # logical position of the skolem pixel
        lx = [X, Y, c.W - 1 - X, c.H - 1 - Y][r]
        ly = [Y, c.W - 1 - X, c.H - 1 - Y, X][r]
        col, row, q, m = z3.Ints("col row q m")
        st.add(z3.And(col == lx - x - g.ox, row == ly - y - g.oy, row * g.gw + col == 8 * q + m, m >= 0, m < 8))
        byte = ex.byte_read(st, st.mem[g.R.id].log, q)
        bv = ex.d.bits(byte, 8)
        bit = z3.Extract(0, 0, bv)
        for k in range(7):
            bit = z3.If(m == k, z3.Extract(7 - k, 7 - k, bv), bit)
        box = z3.And(col >= 0, col < g.gw, row >= 0, row < g.gh)
        want = z3.And(box, bit == 1, vis(c, X, Y))
        p0 = c.p0[0]
        # linear consequences of the product (row * width) used by the solver
        st.add(z3.Implies(z3.And(row >= 0, g.gw >= 0), row * g.gw >= 0))
        outer = []

        def hints(ex, L):
            out = []
            lt = lambda v: tru(v.st.gh["p0"])
            T = lambda v: I(v.t) if isc(v.t) else v.t
            if prop == "C05":
                out.append(Cand("lit stays", lambda v: z3.Implies(p0, lt(v))))
                out.append(Cand("lit only set bits", lambda v: z3.Implies(lt(v), z3.Or(p0, want))))
                out.append(Cand("rows < t done", lambda v: z3.Implies(z3.And(want, row < T(v)), lt(v))))
            os = [o for o in outer if not o.eq(L.tvar)]
            pos = [("t*w", lambda v: T(v) * g.gw)] + [("t+o%d*w" % i, lambda v, o=o: T(v) + o * g.gw) for i, o in enumerate(os)]
            for i, o in enumerate(os):
                if prop == "C05":
                    out.append(Cand("rows < o%d done" % i, lambda v, o=o: z3.Implies(z3.And(want, row < o), lt(v))))
                    out.append(Cand("row o%d, columns < t done" % i, lambda v, o=o: z3.Implies(z3.And(want, row == o, col < T(v)), lt(v))))
                out.append(Cand("product", lambda v, o=o: o * g.gw >= 0))
                out.append(Cand("last row", lambda v, o=o: z3.Implies(o <= g.gh - 1, o * g.gw + g.gw <= g.gh * g.gw)))
            out.append(Cand("product", lambda v: T(v) * g.gw >= 0))
            out.append(Cand("t <= rows", lambda v: T(v) <= g.gh))
            out.append(Cand("t <= columns", lambda v: T(v) <= g.gw))
            out.append(Cand("product bound", lambda v: T(v) * g.gw <= g.gh * g.gw))
            for l in L.loci:
                if l.kind in ("phi", "slot") and l.vk == "ptr" and l.region == g.R.id:
                    for n, k in pos:
                        out.append(Cand("pointer at bit %s" % n, lambda v, k=k, l=l: z3.And(8 * c.d.mk(v.num(l), 64) <= k(v), k(v) < 8 * c.d.mk(v.num(l), 64) + 8)))
                if l.kind in ("phi", "slot") and l.vk == "int" and l.w in (32, 64) and not l.uninit:
                    for n, k in pos:
                        out.append(Cand("%r is bit %s" % (l, n), lambda v, k=k, l=l: c.d.mk(v.num(l), l.w) == k(v)))
            if not any(x.eq(L.tvar) for x in outer):
                outer.append(L.tvar)
                del outer[:-4]
            return out
        ex.loop_hints = [hints]
        outs = call(ex, c.st, "w_char", [c.cv, x, y, ch])
        for o, ret in outs:
            unchanged(c, o)
            if prop == "C05":
                post(ex, o, "returns the advance width", c.d.icmp("eq", ret, g.adv, 32))
                p = lit(c, o)
                post(ex, o, "lights only set bits of the glyph", z3.Implies(p, z3.Or(p0, want)))
                post(ex, o, "lights every visible set bit", z3.Implies(z3.Or(p0, want), p))
        canary_any(ex, outs, "char")
    return f


class Advance:
    """horizontal pen position before character t: x0 + S(t)"""

    def __init__(s, x0, S, step):
        s.x0, s.S, s.step = x0, S, step

    def matches(s, ex, st, l):
        return not isc(l.init) and l.vk == "int" and l.w == 32 and l.init.eq(s.x0)

    def at(s, t, w):
        return s.x0 + s.S(t)

    def head_facts(s, ex, t):
        return [s.step(t)]


def t_text(r, prop):
    def f(ex):
        c = setup(ex, r)
        st = c.st
        n = z3.Int("length")
        ex.d.setrange(n, 0, 65536)
        st.add(z3.And(n >= 0, n <= 65536))
        ex.inputs["length"] = n
        T = ex.new_region(st, "text", n, writable=False)
        c.font = ex.global_ptr(st, ex.m.globals["g_font"])
        x, y = arg(c, "x"), arg(c, "y")
        ADV = z3.Function("advance", z3.BitVecSort(8), z3.IntSort())
        S = z3.Function("pen", z3.IntSort(), z3.IntSort())
        log = st.mem[T.id].log
        ch = lambda t: ex.d.bits(ex.byte_read(st, log, t), 8)
        step = lambda t: z3.And(S(t + 1) == S(t) + ADV(ch(t)), ADV(ch(t)) >= 0, ADV(ch(t)) <= 255)
        st.add(S(I(0)) == 0)
        ex.int_recs = [Advance(x, S, step)]
        st.gh["calls"] = I(0)

        def draw_char(ex, s, a, inst):
            pos, code, font = a[1], a[2], a[3]
            if not isinstance(pos, Packed) or len(pos.parts) != 2:
                raise Unsupported("position is not a pair")
            px, py = [ex.d.mk(v, 32) for _, v in sorted(pos.parts, key=lambda q: q[0][0])]
            k = s.gh["calls"]
            s.add(step(k))
            same_obj = isinstance(a[0], Ptr) and a[0].r == c.CV.id and isinstance(font, Ptr) and font.r == c.font.r
            ex.oblige(s, same_obj, "draws on this canvas with this font", inst)
            ex.oblige(s, z3.And(k < n, py == y), "draws at the text's height, no more than its characters", inst)
            ex.oblige(s, px == x + S(k), "starts at the sum of the widths of the preceding characters", inst)
            b = ex.d.bits(code, 8)
            ex.oblige(s, (z3.BitVecVal(b, 8) if isc(b) else b) == ch(k), "draws the next character", inst)
            s.gh["calls"] = k + 1
            w = ADV(ch(k))
            ex.d.setrange(w, 0, 255)
            return [(s, w)]
        ex.contracts = ex.contracts + [(r"Canvas::drawCharAt", draw_char)]
        tt = lambda v: I(v.t) if isc(v.t) else v.t

        def hints(ex, L):
            return [Cand("calls == t", lambda v: v.st.gh["calls"] == tt(v)), Cand("t <= n", lambda v: tt(v) <= n),
                    Cand("0 <= S(t) <= 255 t", lambda v: z3.And(S(tt(v)) >= 0, S(tt(v)) <= 255 * tt(v)))]
        ex.loop_hints = [hints]
        outs = call(ex, st, "w_text", [c.cv, x, y, Ptr(T.id, 0), n])
        for o, _ in outs:
            unchanged(c, o)
            post(ex, o, "draws every character", o.gh["calls"] == n)
        canary_any(ex, outs, "text")
    return f


PROPS = {
    "C01": lambda: [("pixel:%d" % r, t_pixel(r, "C01")) for r in range(4)] +
                   [("%s:%d" % (n, r), t_rect(r, n, "C01")) for r in range(4) for n in ("w_rect", "w_frect")] +
                   [("line:%s:%d" % (k, r), t_line(r, k, "C01")) for r in range(4) for k in KINDS] +
                   [("circle:%s:%s:%d" % (n, "filled" if f else "outline", r), t_circle(r, f, "C01", p)) for r in range(4)
                    for f in (False, True) for p, n in (("shape", "radius>=0"), ("rows", "radius<0"))] +
                   [("char:%d" % r, t_char(r, "C01", None)) for r in range(4)] + [("text:%d" % r, t_text(r, "C01")) for r in range(4)],
    "C04": lambda: [("circle:%s:%s:%d" % (p, "filled" if f else "outline", r), t_circle(r, f, "C04", p)) for r in range(4)
                    for f in (False, True) for p in ("shape", "mirror", "rows")],
    "C05": lambda: [("char:%d" % r, t_char(r, "C05", None)) for r in range(4)] + [("text:%d" % r, t_text(r, "C05")) for r in range(4)],
    "C02": lambda: [("pixel:%d" % r, t_pixel(r, "C02")) for r in range(4)],
    "C03": lambda: [("%s:%d" % (n, r), t_rect(r, n, "C03")) for r in range(4) for n in ("w_rect", "w_frect")] +
                   [("line:%s:%d" % (k, r), t_line(r, k, "C03")) for r in range(4) for k in KINDS],
}
NATIVE = ("n_canvas.cpp", [])
TRUSTED = ["contract of the frame buffer interface: constant width and height (1..32767), drawPixel/clear/setColor do not modify the canvas",
           "contract of EmbeddedFont::getBitmap inside drawCharAt (an arbitrary glyph of the character asked for; F01 states which)"]
ASSUMPTIONS = ["coordinates, sizes and radii are within -2^24..2^24", "texts have at most 65536 characters",
               "symmetry and gap-freeness of circles are stated for a canvas whose other pixels are unlit, gap-freeness for fully visible circles"]
