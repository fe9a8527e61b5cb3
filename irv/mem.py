"""Region memory: typed slots at concrete offsets over a functional write log."""
import z3
from .dom import *
from .flt import FBits, fpval, fsort, isflt, fbits, fw, flit, fconst


class Node:
    __slots__ = ()


class Base(Node):
    """unknown initial bytes (array theory); bits: bytes keep bit structure in the INT domain"""
    __slots__ = ("name", "arr", "cache", "ufs", "bits")

    def __init__(s, name, dom, bits=True):
        s.name = fresh_name(name)
        s.arr = z3.Array(s.name, dom.idx_sort(), z3.BitVecSort(8)) if bits else None
        s.cache = {}
        s.ufs = {}
        s.bits = bits


class Bytes(Node):
    __slots__ = ("data", "arr", "cache")

    def __init__(s, data):
        s.data, s.arr, s.cache = data, None, {}


class Wr(Node):
    __slots__ = ("p", "off", "size", "val")

    def __init__(s, p, off, size, val):
        s.p, s.off, s.size, s.val = p, off, size, val


class Copy(Node):
    __slots__ = ("p", "off", "n", "src", "soff")

    def __init__(s, p, off, n, src, soff):
        s.p, s.off, s.n, s.src, s.soff = p, off, n, src, soff


class Fill(Node):
    __slots__ = ("p", "off", "n", "val")

    def __init__(s, p, off, n, val):
        s.p, s.off, s.n, s.val = p, off, n, val


class Fn(Node):
    """bytes [off,off+n) given by a Python function index->byte value"""
    __slots__ = ("p", "off", "n", "f")

    def __init__(s, p, off, n, f):
        s.p, s.off, s.n, s.f = p, off, n, f


class IteN(Node):
    __slots__ = ("c", "a", "b")

    def __init__(s, c, a, b):
        s.c, s.a, s.b = c, a, b


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        return type(a) == type(b) and a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r == b.r and same(a.off, b.off)
    if isinstance(a, FuncPtr) and isinstance(b, FuncPtr):
        return a.name == b.name
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Packed) and isinstance(b, Packed):
        return a.size == b.size and same(tuple(v for _, v in a.parts), tuple(v for _, v in b.parts)) and \
            tuple(k for k, _ in a.parts) == tuple(k for k, _ in b.parts)
    if isinstance(a, FBits) and isinstance(b, FBits):
        return same(a.bv, b.bv)
    return False


class Region:
    """static description of an object"""
    __slots__ = ("id", "name", "size", "arrays", "layout", "writable", "kind", "bits", "user", "base", "align")

    def __init__(s, rid, name, size, arrays=None, layout=None, writable=True, kind="obj", bits=True):
        s.id, s.name, s.size = rid, name, size
        s.arrays = arrays          # list of (lo,hi) array intervals; None: whole region is one byte array
        s.layout = layout          # {off: (size, kind)} scalar fields
        s.writable, s.kind, s.bits = writable, kind, bits
        s.user = None
        s.base = None


class RegMem:
    __slots__ = ("slots", "log", "owner")

    def __init__(s, slots, log, owner):
        s.slots, s.log, s.owner = slots, log, owner


def flatten(ty, off=0, scal=None, arrs=None):
    """type -> scalar fields {off:(size,kind)} and array intervals [(lo,hi)]"""
    if scal is None:
        scal, arrs = {}, []
    if ty.k == "struct":
        for e, o in zip(ty.elems, ty.offs):
            flatten(e, off + o, scal, arrs)
    elif ty.k == "array":
        if ty.n:
            arrs.append((off, off + ty.size))
            if ty.elems[0].k == "ptr" or (ty.n <= 8 and ty.elems[0].k != "int"):
                for i in range(ty.n):
                    a2 = []
                    flatten(ty.elems[0], off + i * ty.elems[0].size, scal, a2)
            elif ty.elems[0].k == "int" and ty.elems[0].bits > 8 and ty.n <= 64:
                for i in range(ty.n):
                    scal[off + i * ty.elems[0].size] = (ty.elems[0].size, "int")
    elif ty.k in ("int", "ptr", "float", "double"):
        scal[off] = (ty.size, ty.k)
    return scal, arrs
