"""Value domains.  A scalar is a Python int/bool when concrete, else a z3 term.
BV: iN is the unsigned canonical value, terms are z3 bit-vectors.
INT: iN is the signed canonical value, terms are z3 integers (mathematical),
     every nsw operation carries a no-overflow obligation."""
import z3

B = z3.BoolVal


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ("r", "off")

    def __init__(s, r, off):
        s.r, s.off = r, off

    def __repr__(s):
        return "Ptr(%s,%s)" % (s.r, s.off)


class FuncPtr:
    __slots__ = ("name",)

    def __init__(s, n):
        s.name = n

    def __repr__(s):
        return "&" + s.name


class PtrInt:
    """ptrtoint of a pointer; only subtraction/comparison keep it symbolic"""
    __slots__ = ("p",)

    def __init__(s, p):
        s.p = p


class Packed:
    """a multi-slot load (coerced aggregate) that is only moved around: ((off,size,val),...)"""
    __slots__ = ("parts", "size")

    def __init__(s, parts, size):
        s.parts, s.size = parts, size


class Undef:
    def __repr__(s):
        return "undef"


UNDEF = Undef()

_fresh = [0]


def fresh_name(n):
    _fresh[0] += 1
    return "%s!%d" % (n, _fresh[0])


def isc(v):
    return isinstance(v, (int, bool))


def tobool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def b_and(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return z3.Not(x)


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    return z3.If(c, tobool(a), tobool(b))


def norm(v):
    """fold z3 numerals to Python"""
    if isinstance(v, (int, bool)) or v is None:
        return v
    if z3.is_bool(v):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return v
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_int_value(v):
        return v.as_long()
    return v


class BVDom:
    name = "bv"

    def mk(self, v, w):
        if w == 1:
            return tobool(v)
        return z3.BitVecVal(v, w) if isinstance(v, int) else v

    def fresh(self, n, w):
        if w == 1:
            return z3.Bool(fresh_name(n))
        return z3.BitVec(fresh_name(n), w)

    def const(self, v, w):
        if w == 1:
            return bool(v & 1)
        return v & ((1 << w) - 1)

    def sgn(self, v, w):
        return v - (1 << w) if v >> (w - 1) else v

    def eq(self, a, b, w):
        return self.icmp("eq", a, b, w)

    def icmp(self, p, a, b, w):
        if w == 1:
            if p == "eq":
                if isc(a) and isc(b):
                    return a == b
                if isc(b):
                    return a if b else b_not(a)
                if isc(a):
                    return b if a else b_not(b)
                return a == b
            if p == "ne":
                return b_not(self.icmp("eq", a, b, 1))
            a2 = z3.If(tobool(a), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            b2 = z3.If(tobool(b), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            return norm(z3.simplify({"ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE}[p](a2, b2)))
        if isc(a) and isc(b):
            if p[0] == "s":
                a, b = self.sgn(a, w), self.sgn(b, w)
            q = p[-2:]
            return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[q]
        if not isc(a) and not isc(b) and a.eq(b):
            return p in ("eq", "uge", "ule", "sge", "sle")
        A, Bv = self.mk(a, w), self.mk(b, w)
        r = {"eq": lambda: A == Bv, "ne": lambda: A != Bv, "ugt": lambda: z3.UGT(A, Bv), "uge": lambda: z3.UGE(A, Bv),
             "ult": lambda: z3.ULT(A, Bv), "ule": lambda: z3.ULE(A, Bv), "sgt": lambda: A > Bv, "sge": lambda: A >= Bv,
             "slt": lambda: A < Bv, "sle": lambda: A <= Bv}[p]()
        return norm(z3.simplify(r)) if z3.is_true(z3.simplify(r)) or z3.is_false(z3.simplify(r)) else r

    def bin(self, op, a, b, w, nsw=False, nuw=False):
        """-> (value, [(kind, condition)]) ; the conditions are obligations"""
        ob = []
        if w == 1:
            if op == "and":
                return b_and(a, b), ob
            if op == "or":
                return b_or(a, b), ob
            if op == "xor":
                if isc(b):
                    return (b_not(a) if b else a), ob
                if isc(a):
                    return (b_not(b) if a else b), ob
                return z3.Xor(a, b), ob
            raise Unsupported("i1 " + op)
        M = (1 << w) - 1
        if isc(a) and isc(b):
            sa, sb = self.sgn(a, w), self.sgn(b, w)
            if op in ("add", "sub", "mul"):
                s = {"add": sa + sb, "sub": sa - sb, "mul": sa * sb}[op]
                u = {"add": a + b, "sub": a - b, "mul": a * b}[op]
                if nsw and not (-(1 << (w - 1)) <= s < (1 << (w - 1))):
                    ob.append(("signed-overflow", False))
                if nuw and not (0 <= u <= M):
                    ob.append(("unsigned-overflow", False))
                return u & M, ob
            if op in ("udiv", "urem"):
                if b == 0:
                    return 0, [("div-zero", False)]
                return (a // b if op == "udiv" else a % b), ob
            if op in ("sdiv", "srem"):
                if sb == 0 or (sa == -(1 << (w - 1)) and sb == -1):
                    return 0, [("div-zero", False)]
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return (q if op == "sdiv" else sa - q * sb) & M, ob
            if op in ("shl", "lshr", "ashr"):
                if b >= w:
                    return 0, [("shift-range", False)]
                if op == "shl":
                    return (a << b) & M, ob
                return ((a >> b) if op == "lshr" else (sa >> b)) & M, ob
            return {"and": a & b, "or": a | b, "xor": a ^ b}[op], ob
        A, Bv = self.mk(a, w), self.mk(b, w)
        if op in ("add", "sub"):
            if isc(b) and b == 0:
                return a, ob
            if op == "add" and isc(a) and a == 0:
                return b, ob
            r = A + Bv if op == "add" else A - Bv
            if nsw:
                if op == "add":
                    ob.append(("signed-overflow", z3.And(z3.BVAddNoOverflow(A, Bv, True), z3.BVAddNoUnderflow(A, Bv))))
                else:
                    ob.append(("signed-overflow", z3.And(z3.BVSubNoOverflow(A, Bv), z3.BVSubNoUnderflow(A, Bv, True))))
            if nuw:
                ob.append(("unsigned-overflow", z3.BVAddNoOverflow(A, Bv, False) if op == "add"
                           else z3.BVSubNoUnderflow(A, Bv, False)))
            return norm(z3.simplify(r)), ob
        if op == "mul":
            r = A * Bv
            if nsw:
                ob.append(("signed-overflow", z3.And(z3.BVMulNoOverflow(A, Bv, True), z3.BVMulNoUnderflow(A, Bv))))
            return norm(z3.simplify(r)), ob
        if op in ("udiv", "urem", "sdiv", "srem"):
            if not isc(b):
                ob.append(("div-zero", Bv != 0))
            elif b == 0:
                ob.append(("div-zero", False))
            if op[0] == "s" and (not isc(b) or b == M):
                ob.append(("div-overflow", z3.Not(z3.And(A == (1 << (w - 1)), Bv == M))))
            if isc(b) and b > 1 and b & (b - 1) == 0 and b < (1 << (w - 1)):
                k = b.bit_length() - 1
                if op[0] == "u":
                    q = z3.LShR(A, k)
                    return norm(z3.simplify(q if op == "udiv" else A & (b - 1))), ob
                ex = getattr(self, "ex", None)
                if ex is not None and ex.quick_valid(A >= 0):
                    return norm(z3.simplify(z3.LShR(A, k) if op == "sdiv" else A & (b - 1))), ob
                q = (A + z3.LShR(A >> (w - 1), w - k)) >> k
                return norm(z3.simplify(q if op == "sdiv" else A - (q << k))), ob
            r = {"udiv": lambda: z3.UDiv(A, Bv), "urem": lambda: z3.URem(A, Bv), "sdiv": lambda: A / Bv,
                 "srem": lambda: z3.SRem(A, Bv)}[op]()
            return norm(z3.simplify(r)), ob
        if op in ("shl", "lshr", "ashr"):
            if not isc(b):
                ob.append(("shift-range", z3.ULT(Bv, w)))
            elif b >= w:
                ob.append(("shift-range", False))
            r = {"shl": lambda: A << Bv, "lshr": lambda: z3.LShR(A, Bv), "ashr": lambda: A >> Bv}[op]()
            if op == "shl" and nsw:
                ob.append(("signed-overflow", (r >> Bv) == A))
            return norm(z3.simplify(r)), ob
        r = {"and": lambda: A & Bv, "or": lambda: A | Bv, "xor": lambda: A ^ Bv}[op]()
        return norm(z3.simplify(r)), ob

    def zext(self, v, w, w2):
        if w == 1:
            if isc(v):
                return 1 if v else 0
            return z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
        if isc(v):
            return v
        return z3.ZeroExt(w2 - w, v)

    def sext(self, v, w, w2):
        if w == 1:
            M = (1 << w2) - 1
            if isc(v):
                return M if v else 0
            return z3.If(v, z3.BitVecVal(M, w2), z3.BitVecVal(0, w2))
        if isc(v):
            return self.sgn(v, w) & ((1 << w2) - 1)
        return z3.SignExt(w2 - w, v)

    def trunc(self, v, w, w2):
        if isc(v):
            return bool(v & 1) if w2 == 1 else v & ((1 << w2) - 1)
        if w2 == 1:
            return norm(z3.simplify(z3.Extract(0, 0, v) == 1))
        return norm(z3.simplify(z3.Extract(w2 - 1, 0, v)))

    def ite(self, c, a, b, w):
        if c is True:
            return a
        if c is False:
            return b
        if w == 1:
            return b_ite(c, a, b)
        if isc(a) and isc(b) and a == b:
            return a
        if not isc(a) and not isc(b) and a.eq(b):
            return a
        return z3.If(c, self.mk(a, w), self.mk(b, w))

    # offsets (pointer arithmetic) are 64-bit
    def off(self, v):
        return v

    def off_add(self, a, b):
        return self.bin("add", a, b, 64)[0]

    def off_sub(self, a, b):
        return self.bin("sub", a, b, 64)[0]

    def off_mulc(self, a, c):
        return self.bin("mul", a, c & (2**64 - 1), 64)[0]

    def off_ult(self, a, b):
        return self.icmp("ult", a, b, 64)

    def off_in(self, off, n, lo, hi):
        """lo <= off, off+n <= hi, as a condition on unsigned 64-bit offsets (hi < 2^62)"""
        a = self.icmp("ule", lo, off, 64) if not (isc(lo) and lo == 0) else True
        if isc(n) and isc(hi):
            if n > hi:
                return False
            return b_and(a, self.icmp("ule", off, hi - n, 64))
        if isc(n) and n == 1:
            return b_and(a, self.icmp("ult", off, hi, 64))
        return b_and(a, self.icmp("ule", n, hi, 64),
                     self.icmp("ule", off, self.bin("sub", hi, n, 64)[0], 64))

    def byte(self, v, i, w):
        """i-th little-endian byte of a w-bit value"""
        if isc(v):
            return (v >> (8 * i)) & 255
        if w == 8:
            return v
        return norm(z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)))

    def unbytes(self, bs):
        if all(isc(b) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if len(bs) == 1:
            return bs[0]
        return norm(z3.simplify(z3.Concat(*[self.mk(b, 8) for b in reversed(bs)])))

    def idx_sort(self):
        return z3.BitVecSort(64)

    def byte_sort(self):
        return z3.BitVecSort(8)

    def mkoff(self, v):
        return z3.BitVecVal(v, 64) if isc(v) else v


class IntDom(BVDom):
    """Mathematical integers with machine ranges as obligations (nsw) or wraps."""
    name = "int"

    def __init__(self):
        self.uform = {}     # ast id of signed canonical term -> unsigned term
        self.bvform = {}    # ast id -> bit-vector term of a byte
        self.keep = []
        self.range = {}     # ast id -> (lo,hi) known
        self.ex = None

    def mk(self, v, w):
        if w == 1:
            return tobool(v)
        return z3.IntVal(v) if isinstance(v, int) else v

    def fresh(self, n, w):
        if w == 1:
            return z3.Bool(fresh_name(n))
        v = z3.Int(fresh_name(n))
        self.setrange(v, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return v

    def setrange(self, v, lo, hi):
        self.keep.append(v)
        self.range[v.get_id()] = (lo, hi)

    def const(self, v, w):
        if w == 1:
            return bool(v & 1)
        v &= (1 << w) - 1
        return self.sgn(v, w)

    def frombits(self, bv, w):
        """value whose bits are the given z3 bit-vector of width w<=8 (memory bytes)"""
        u = z3.BV2Int(bv)
        s = z3.If(u >= (1 << (w - 1)), u - (1 << w), u)
        self.keep += [u, s, bv]
        self.uform[s.get_id()] = u
        self.bvform[s.get_id()] = bv
        self.bvform[u.get_id()] = bv
        self.range[u.get_id()] = (0, (1 << w) - 1)
        self.range[s.get_id()] = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return s

    def uval(self, u, w):
        """value given by its unsigned term 0<=u<2^w"""
        s = z3.If(u >= (1 << (w - 1)), u - (1 << w), u)
        self.keep += [u, s]
        self.uform[s.get_id()] = u
        self.range[u.get_id()] = (0, (1 << w) - 1)
        self.range[s.get_id()] = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return s

    def u(self, v, w):
        """unsigned reading of a signed canonical value"""
        if isc(v):
            return v & ((1 << w) - 1)
        r = self.uform.get(v.get_id())
        if r is not None:
            return r
        lo, hi = self.range.get(v.get_id(), (None, None))
        if lo is not None and lo >= 0:
            return v
        if self.ex is not None and self.ex.quick_valid(v >= 0):
            return v
        t = z3.If(v < 0, v + (1 << w), v)
        self.keep += [v, t]
        self.uform[v.get_id()] = t
        return t

    def fromu(self, u, w):
        if isc(u):
            return self.const(u, w)
        lo, hi = self.range.get(u.get_id(), (None, None))
        if hi is not None and lo >= 0 and hi < (1 << (w - 1)):
            return u
        if self.ex is not None and self.ex.quick_valid(z3.And(u >= 0, u < (1 << (w - 1)))):
            return u
        return self.uval(u, w)

    def icmp(self, p, a, b, w):
        if w == 1:
            return BVDom.icmp(self, p, a, b, 1)
        if p[0] == "u":
            a, b = self.u(a, w), self.u(b, w)
        if isc(a) and isc(b):
            q = p[-2:]
            return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[q]
        # bit tests
        if p in ("eq", "ne") and isc(b) and not isc(a):
            bv = self.bvform.get(a.get_id())
            if bv is not None:
                k = b & ((1 << bv.size()) - 1)
                r = norm(z3.simplify(bv == k))
                if 0 <= b < (1 << bv.size()) or b < 0:
                    return r if p == "eq" else b_not(r)
        A, Bv = self.mk(a, w), self.mk(b, w)
        q = p[-2:]
        r = {"eq": lambda: A == Bv, "ne": lambda: A != Bv, "gt": lambda: A > Bv, "ge": lambda: A >= Bv,
             "lt": lambda: A < Bv, "le": lambda: A <= Bv}[q]()
        s = z3.simplify(r)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return r

    def inrange(self, r, w):
        return z3.And(r >= -(1 << (w - 1)), r < (1 << (w - 1)))

    def bin(self, op, a, b, w, nsw=False, nuw=False):
        ob = []
        if w == 1:
            return BVDom.bin(self, op, a, b, 1)
        if isc(a) and isc(b):
            v, ob = BVDom.bin(self, op, a & ((1 << w) - 1), b & ((1 << w) - 1), w, nsw, nuw)
            return self.sgn(v, w), ob
        if op in ("add", "sub", "mul"):
            if isc(b) and b == 0:
                return (0 if op == "mul" else a), ob
            if isc(a) and a == 0 and op in ("add", "mul"):
                return (0 if op == "mul" else b), ob
            if op == "mul" and isc(b) and b == 1:
                return a, ob
            A, Bv = self.mk(a, w), self.mk(b, w)
            r = z3.simplify({"add": lambda: A + Bv, "sub": lambda: A - Bv, "mul": lambda: A * Bv}[op]())
            if isinstance(norm(r), int):
                r = norm(r)
                if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                    if nsw:
                        return 0, [("signed-overflow", False)]
                    return self.const(r, w), ob
                return r, ob
            if nsw:
                ob.append(("signed-overflow", self.inrange(r, w)))
                return r, ob
            if self.ex is not None and self.ex.quick_valid(self.inrange(r, w)):
                return r, ob
            # wrapping arithmetic on unsigned values
            u = None
            ua, ub = self.u(a, w), self.u(b, w)
            UA, UB = self.mk(ua, w), self.mk(ub, w)
            ru = z3.simplify({"add": lambda: UA + UB, "sub": lambda: UA - UB, "mul": lambda: UA * UB}[op]())
            if self.ex is not None and self.ex.quick_valid(z3.And(ru >= 0, ru < (1 << w))):
                return self.fromu(norm(ru), w), ob
            return self.fromu(ru % (1 << w), w), ob
        if op in ("sdiv", "srem"):
            A, Bv = self.mk(a, w), self.mk(b, w)
            if not isc(b):
                ob.append(("div-zero", Bv != 0))
                ob.append(("div-overflow", z3.Not(z3.And(A == -(1 << (w - 1)), Bv == -1))))
            elif b == 0:
                return 0, [("div-zero", False)]
            elif b == -1:
                ob.append(("div-overflow", A != -(1 << (w - 1))))
            if self.ex is not None and self.ex.quick_valid(z3.And(A >= 0, Bv > 0)):
                q = A / Bv
                r = A % Bv
            else:
                absa = z3.If(A >= 0, A, -A)
                absb = z3.If(Bv >= 0, Bv, -Bv)
                q0 = absa / absb
                q = z3.If((A >= 0) == (Bv >= 0), q0, -q0)
                r = z3.If(A >= 0, absa % absb, -(absa % absb))
            res = q if op == "sdiv" else r
            res = norm(z3.simplify(res))
            if isc(b) and op == "srem" and not isc(res):
                self.setrange(res, -abs(b) + 1, abs(b) - 1)
            return res, ob
        if op in ("udiv", "urem"):
            ua, ub = self.mk(self.u(a, w), w), self.mk(self.u(b, w), w)
            ob.append(("div-zero", ub != 0))
            return self.fromu(norm(z3.simplify(ua / ub if op == "udiv" else ua % ub)), w), ob
        if op in ("shl", "lshr", "ashr"):
            if not isc(b):
                # case split on the shift amount
                if self.ex is None:
                    raise Unsupported("symbolic shift")
                return self.ex.split_shift(self, op, a, b, w, nsw)
            if b >= w or b < 0:
                return 0, [("shift-range", False)]
            if op == "shl":
                return self.bin("mul", a, 1 << b, w, nsw, nuw) if b < w - 1 else (_ for _ in ()).throw(Unsupported("shl"))
            if op == "lshr":
                return self.fromu(norm(z3.simplify(self.mk(self.u(a, w), w) / (1 << b))), w), ob
            return norm(z3.simplify(self.mk(a, w) / (1 << b))), ob   # z3 int div floors for positive divisor
        # bitwise on values that still have a bit form
        ba, bb = self.bits(a, w), self.bits(b, w)
        if ba is not None and bb is not None and op in ("and", "or", "xor"):
            n = max(x.size() for x in (ba, bb) if not isc(x))
            if (isc(ba) and ba >> n) or (isc(bb) and bb >> n):
                if op == "and":
                    ba = ba & ((1 << n) - 1) if isc(ba) else ba
                    bb = bb & ((1 << n) - 1) if isc(bb) else bb
                else:
                    raise Unsupported("bitwise")
            ext = lambda x: z3.BitVecVal(x, n) if isc(x) else (z3.ZeroExt(n - x.size(), x) if x.size() < n else x)
            x, y = ext(ba), ext(bb)
            r = z3.simplify({"and": x & y, "or": x | y, "xor": x ^ y}[op])
            if z3.is_bv_value(r):
                return r.as_long(), ob
            u = z3.BV2Int(r)
            self.keep += [u, r]
            self.bvform[u.get_id()] = r
            self.range[u.get_id()] = (0, (1 << n) - 1)
            if w > n:
                return u, ob
            return self.frombits(r, w), ob
        if op == "and" and isc(b) and b > 0 and (b & (b + 1)) == 0:
            return self.fromu(norm(z3.simplify(self.mk(self.u(a, w), w) % (b + 1))), w), ob
        if op == "and" and isc(a):
            return self.bin("and", b, a, w)
        if op == "xor" and isc(b) and b == -1:
            return norm(z3.simplify(-1 - self.mk(a, w))), ob
        raise Unsupported("bitwise %s in integer domain" % op)

    def bits(self, v, w):
        if isc(v):
            return v & ((1 << w) - 1)
        return self.bvform.get(v.get_id())

    def zext(self, v, w, w2):
        if w == 1:
            if isc(v):
                return 1 if v else 0
            r = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            self.setrange(r, 0, 1)
            return r
        if isc(v):
            return v & ((1 << w) - 1)
        u = self.u(v, w)
        return u

    def sext(self, v, w, w2):
        if w == 1:
            if isc(v):
                return -1 if v else 0
            return z3.If(v, z3.IntVal(-1), z3.IntVal(0))
        return v

    def trunc(self, v, w, w2):
        if isc(v):
            return bool(v & 1) if w2 == 1 else self.const(v, w2)
        if w2 == 1:
            return norm(z3.simplify(self.mk(self.u(v, w), w) % 2 == 1))
        lo, hi = self.range.get(v.get_id(), (None, None))
        if lo is not None and lo >= -(1 << (w2 - 1)) and hi < (1 << (w2 - 1)):
            return v
        if lo is not None and lo >= 0 and hi < (1 << w2):
            return self.uval(v, w2)
        if self.ex is not None:
            if self.ex.quick_valid(self.inrange(v, w2)):
                return v
            if self.ex.quick_valid(z3.And(v >= 0, v < (1 << w2))):
                return self.uval(v, w2)
        return self.uval(z3.simplify(self.mk(v, w) % (1 << w2)), w2)

    def ite(self, c, a, b, w):
        if c is True:
            return a
        if c is False:
            return b
        if w == 1:
            return b_ite(c, a, b)
        if isc(a) and isc(b) and a == b:
            return a
        if not isc(a) and not isc(b) and a.eq(b):
            return a
        r = z3.If(c, self.mk(a, w), self.mk(b, w))
        ra = (a, a) if isc(a) else self.range.get(a.get_id())
        rb = (b, b) if isc(b) else self.range.get(b.get_id())
        if ra and rb:
            self.setrange(r, min(ra[0], rb[0]), max(ra[1], rb[1]))
        return r

    def off_add(self, a, b):
        if isc(a) and isc(b):
            return a + b
        return norm(z3.simplify(self.mk(a, 64) + self.mk(b, 64)))

    def off_sub(self, a, b):
        if isc(a) and isc(b):
            return a - b
        return norm(z3.simplify(self.mk(a, 64) - self.mk(b, 64)))

    def off_mulc(self, a, c):
        if isc(a):
            return a * c
        return norm(z3.simplify(a * c))

    def off_in(self, off, n, lo, hi):
        M = lambda x: z3.IntVal(x) if isc(x) else x
        if isc(off) and isc(n) and isc(lo) and isc(hi):
            return lo <= off and off + n <= hi
        r = z3.simplify(z3.And(M(lo) <= M(off), M(off) + M(n) <= M(hi)))
        return norm(r)

    def byte(self, v, i, w):
        if isc(v):
            return self.const((v >> (8 * i)) & 255, 8)
        if w == 8:
            return v
        raise Unsupported("byte view of wide integer (int domain)")

    def unbytes(self, bs):
        if all(isc(b) for b in bs):
            return self.const(sum((b & 255) << (8 * i) for i, b in enumerate(bs)), 8 * len(bs))
        if len(bs) == 1:
            return bs[0]
        t = z3.IntVal(0)
        for i, b in enumerate(bs):
            t = t + self.mk(self.u(b, 8), 8) * (1 << (8 * i))
        t = z3.simplify(t)
        self.setrange(t, 0, (1 << (8 * len(bs))) - 1)
        return self.fromu(t, 8 * len(bs))

    def idx_sort(self):
        return z3.IntSort()

    def mkoff(self, v):
        return z3.IntVal(v) if isc(v) else v
