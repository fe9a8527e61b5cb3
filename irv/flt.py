"""Floating point: values are terms of an uninterpreted sort built by uninterpreted
functions (cheap for the path solver); `concretise` maps a formula to the exact
IEEE-754 semantics for the obligations that need it."""
import struct
import z3

_S = {32: z3.DeclareSort("Flt32"), 64: z3.DeclareSort("Flt64")}
_D = {}
_INFO = {}      # decl name -> (op, w, w2)


def fsort(w):
    return _S[w]


def real_sort(w):
    return z3.Float32() if w == 32 else z3.Float64()


def uf(op, w, dom, rng, w2=0):
    n = "%s_%d_%d" % (op, w, w2)
    f = _D.get(n)
    if f is None:
        f = _D[n] = z3.Function(n, *(dom + [rng]))
        _INFO[n] = (op, w, w2)
    return f


class FBits:
    """a float known by its bit pattern"""
    __slots__ = ("bv", "w")

    def __init__(s, bv, w):
        s.bv, s.w = bv, w


def isfs(s):
    return s.kind() == z3.Z3_UNINTERPRETED_SORT and s.name() in ("Flt32", "Flt64")


def isflt(v):
    return isinstance(v, FBits) or (isinstance(v, z3.ExprRef) and isfs(v.sort()))


def fw(v):
    if isinstance(v, FBits):
        return v.w
    return 32 if v.sort().name() == "Flt32" else 64


def fpval(v):
    if isinstance(v, FBits):
        bv = z3.BitVecVal(v.bv, v.w) if isinstance(v.bv, int) else v.bv
        if z3.is_app(bv) and bv.decl().name() in ("bits_%d_0" % v.w,):
            return bv.arg(0)
        return uf("ofbits", v.w, [z3.BitVecSort(v.w)], _S[v.w])(bv)
    return v


def fbits(v):
    """bit pattern of a float value (int when concrete)"""
    if isinstance(v, FBits):
        return v.bv
    w = fw(v)
    if z3.is_app(v) and v.decl().name() == "ofbits_%d_0" % w:
        x = v.arg(0)
        return x.as_long() if z3.is_bv_value(x) else x
    return uf("bits", w, [_S[w]], z3.BitVecSort(w))(v)


def flit(x, w):
    b = struct.unpack("<I", struct.pack("<f", x))[0] if w == 32 else struct.unpack("<Q", struct.pack("<d", x))[0]
    return fpval(FBits(b, w))


def fconst(n, w):
    return z3.Const(n, _S[w])


def lit(v):
    """Python float of a literal or None"""
    if z3.is_app(v) and v.decl().name().startswith("ofbits_") and z3.is_bv_value(v.arg(0)):
        w = fw(v)
        x = v.arg(0).as_long()
        return struct.unpack("<f", struct.pack("<I", x))[0] if w == 32 else struct.unpack("<d", struct.pack("<Q", x))[0]
    return None


def r32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def f2(op, a, b):
    a, b = fpval(a), fpval(b)
    w = fw(a)
    x, y = lit(a), lit(b)
    if x is not None and y is not None and op in ("fadd", "fsub", "fmul"):
        r = x + y if op == "fadd" else x - y if op == "fsub" else x * y
        if r == r and abs(r) < 1e30:
            return flit(r32(r) if w == 32 else r, w)
    return uf(op, w, [_S[w], _S[w]], _S[w])(a, b)


def f1(op, a):
    a = fpval(a)
    w = fw(a)
    x = lit(a)
    if x is not None and x == x and op in ("fabs", "fneg"):
        return flit(abs(x) if op == "fabs" else -x, w)
    return uf(op, w, [_S[w]], _S[w])(a)


def fcmp(op, a, b):
    a, b = fpval(a), fpval(b)
    w = fw(a)
    x, y = lit(a), lit(b)
    if x is not None and y is not None:
        return z3.BoolVal({"flt": x < y, "fle": x <= y, "feq": x == y}[op])
    return uf(op, w, [_S[w], _S[w]], z3.BoolSort())(a, b)


def fnan(a):
    a = fpval(a)
    w = fw(a)
    x = lit(a)
    if x is not None:
        return z3.BoolVal(x != x)
    return uf("isnan", w, [_S[w]], z3.BoolSort())(a)


def to_int(a, w2, signed):
    """(value, in-range condition)"""
    a = fpval(a)
    w = fw(a)
    op = "tosi" if signed else "toui"
    x = lit(a)
    if x is not None and x == x and abs(x) < 1e30:
        i = int(x)
        lo, hi = (-(1 << (w2 - 1)), (1 << (w2 - 1)) - 1) if signed else (0, (1 << w2) - 1)
        if lo <= i <= hi:
            return z3.BitVecVal(i, w2), z3.BoolVal(True)
    return uf(op, w, [_S[w]], z3.BitVecSort(w2), w2)(a), uf("in" + op, w, [_S[w]], z3.BoolSort(), w2)(a)


def of_int(v, wi, w, signed):
    if isinstance(v, int):
        v = z3.BitVecVal(v, wi)
    v = z3.simplify(v)
    if z3.is_bv_value(v):
        x = v.as_long()
        if signed and x >> (wi - 1):
            x -= 1 << wi
        if abs(x) < (1 << 24):
            return flit(float(x), w)
    return uf("ofsi" if signed else "ofui", w, [z3.BitVecSort(wi)], _S[w], wi)(v)


def conv(a, w2):
    a = fpval(a)
    w = fw(a)
    if w == w2:
        return a
    return uf("conv", w, [_S[w]], _S[w2], w2)(a)


def mentions(e, cache={}):
    k = e.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    seen, st, res = set(), [e], False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if isfs(x.sort()) or (z3.is_app(x) and x.decl().name() in _INFO):
            res = True
            break
        st.extend(x.children())
    cache[k] = (e, res)
    return res


def predicates(e, cache={}):
    """does e contain a floating-point predicate (comparison, range, NaN test)?"""
    k = e.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    seen, st, res = set(), [e], False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_bool(x) and z3.is_app(x) and (x.decl().name() in _INFO or
                                               (x.num_args() and isfs(x.arg(0).sort()))):
            res = True
            break
        st.extend(x.children())
    cache[k] = (e, res)
    return res


def concretise(fs):
    memo = {}
    keep = []

    def one(op, w, w2, a):
        R = z3.RNE()
        S = real_sort(w)
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            return {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](R, a[0], a[1])
        if op == "fneg":
            return z3.fpNeg(a[0])
        if op == "fabs":
            return z3.fpAbs(a[0])
        if op == "trunc":
            return z3.fpRoundToIntegral(z3.RTZ(), a[0])
        if op == "isnan":
            return z3.fpIsNaN(a[0])
        if op in ("flt", "fle", "feq"):
            return {"flt": z3.fpLT, "fle": z3.fpLEQ, "feq": z3.fpEQ}[op](a[0], a[1])
        if op in ("tosi", "toui"):
            return (z3.fpToSBV if op == "tosi" else z3.fpToUBV)(z3.RTZ(), a[0], z3.BitVecSort(w2))
        if op in ("intosi", "intoui"):
            lo, hi = (float(-(1 << (w2 - 1))), float(1 << (w2 - 1))) if op == "intosi" else (0.0, float(1 << w2))
            t = z3.fpRoundToIntegral(z3.RTZ(), a[0])
            return z3.And(z3.Not(z3.fpIsNaN(a[0])), z3.fpGEQ(t, z3.FPVal(lo, S)), z3.fpLT(t, z3.FPVal(hi, S)))
        if op in ("ofsi", "ofui"):
            return (z3.fpSignedToFP if op == "ofsi" else z3.fpUnsignedToFP)(R, a[0], S)
        if op == "ofbits":
            return z3.fpBVToFP(a[0], S)
        if op == "bits":
            return z3.fpToIEEEBV(a[0])
        if op == "conv":
            return z3.fpFPToFP(R, a[0], real_sort(w2))
        raise KeyError(op)

    def rec(e):
        st = [e]
        while st:
            x = st[-1]
            k = x.get_id()
            if k in memo:
                st.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            a = [memo[c.get_id()] for c in ch]
            if z3.is_app(x):
                n = x.decl().name()
                if n in _INFO:
                    op, w, w2 = _INFO[n]
                    r = one(op, w, w2, a)
                elif isfs(x.sort()):
                    if not ch:
                        r = z3.FP("real_" + n, real_sort(fw(x)))
                    elif x.decl().kind() == z3.Z3_OP_ITE:
                        r = z3.If(a[0], a[1], a[2])
                    else:
                        f = z3.Function("real_" + n, *([y.sort() for y in a] + [real_sort(fw(x))]))
                        r = f(*a)
                elif any(not p.eq(q) for p, q in zip(a, ch)):
                    if x.decl().kind() == z3.Z3_OP_EQ:
                        r = a[0] == a[1]
                    elif x.decl().kind() == z3.Z3_OP_DISTINCT:
                        r = z3.Distinct(*a)
                    elif x.decl().kind() == z3.Z3_OP_ITE:
                        r = z3.If(*a)
                    elif any(y.sort() != c.sort() for y, c in zip(a, ch)):
                        f = z3.Function("real_" + n, *([y.sort() for y in a] + [x.sort()]))
                        r = f(*a)
                    else:
                        r = x.decl()(*a)
                else:
                    r = x
            else:
                r = x
            keep.append((x, r))
            memo[k] = r
        return memo[e.get_id()]
    return [rec(f) for f in fs]


class FloatRec:
    """ghost sequence G(0)=init, G(j+1)=step(G(j)) that a float loop variable may follow"""

    def __init__(s, name, init, step):
        s.name, s.init, s.step, s.w = name, init, step, fw(init)
        s.f = z3.Function(name, z3.BitVecSort(64), _S[s.w])

    def at(s, t):
        t = z3.simplify(z3.BitVecVal(t, 64) if isinstance(t, int) else t)
        if z3.is_bv_value(t) and t.as_long() == 0:
            return s.init
        return s.f(t)

    def base(s):
        return s.f(z3.BitVecVal(0, 64)) == s.init

    def unfold(s, t):
        return z3.And(s.base(), s.at(t + 1) == s.step(s.f(t)))
