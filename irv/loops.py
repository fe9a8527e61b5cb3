"""Loops: complete unrolling when it terminates by itself, otherwise inductive
invariants (Houdini over templates built from what the body actually does: step
sizes, comparisons, writes, ghost updates) plus a ranking measure."""
import os
import re
import sys
import time
import z3
from . import llvm
from . import flt
from .dom import *
from .mem import *
from .exec import Abort, Budget, State
from .flt import fcmp, fpval, lit as _lit

DEBUG = os.environ.get("IRV_DEBUG")


def dbg(*a):
    if DEBUG:
        print(*a, file=sys.stderr)


class Locus:
    __slots__ = ("kind", "key", "size", "vk", "var", "init", "slope", "w", "region", "param", "rec", "uninit")

    def __init__(s, kind, key, vk=None, w=None):
        s.kind, s.key, s.vk, s.w = kind, key, vk, w
        s.var = s.init = s.slope = s.region = s.param = s.rec = None
        s.uninit = False

    def __repr__(s):
        return "%s:%s" % (s.kind, s.key.id if s.kind == "phi" else s.key)


class Cand:
    __slots__ = ("desc", "f", "group")

    def __init__(s, desc, f, group=""):
        s.desc, s.f, s.group = desc, f, group


class View:
    """values of the loop's loci in one state"""

    def __init__(s, L, st, phis, t):
        s.L, s.st, s.phis, s.t = L, st, phis, t
        s._sub = None

    def get(s, l):
        ex = s.L.ex
        if l.kind == "phi":
            return s.phis[l.key.id]
        if l.kind == "slot":
            rid, off = l.key
            return ex.read(s.st, ex.regions[rid], off, l.size, l.vk)
        if l.kind == "gh":
            return s.st.gh.get(l.key)
        return None

    def num(s, l):
        """scalar (offset for pointers)"""
        v = s.get(l)
        if isinstance(v, PtrInt):
            v = v.p
        if isinstance(v, Ptr):
            return v.off
        if isinstance(v, FBits):
            return fpval(v)
        return v

    def byte(s, rid, off):
        ex = s.L.ex
        r = ex.regions[rid]
        rm = s.st.mem[rid]
        iv = ex.kiv.get(rid)
        if iv is not None:
            return ex.read(s.st, r, off, 1, "int", iv)
        return ex.reg_byte(s.st, rm, off)

    def subs(s):
        if s._sub is None:
            out = []
            L = s.L
            for l in L.loci:
                if l.param is not None:
                    continue
                if l.kind == "log" or l.var is None:
                    continue
                v = s.num(l)
                if v is None or v is UNDEF:
                    continue
                out.append((l.var, L.toz(v, l)))
            out.append((L.tvar, L.ex.d.mkoff(s.t)))
            s._sub = out
        return s._sub

    def term(s, e):
        """evaluate a z3 term over head variables in this view"""
        if isc(e):
            return e
        return norm(z3.simplify(z3.substitute(e, *s.subs())))


class Loop:
    def __init__(self, ex):
        self.ex = ex
        self.loci = []
        self.tvar = None
        self.marker = 0

    def toz(self, v, l):
        if isinstance(v, z3.ExprRef):
            return v
        d = self.ex.d
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if l.kind == "gh":
            if z3.is_bv(l.var):
                return z3.BitVecVal(v, l.var.size())
            if z3.is_bool(l.var):
                return z3.BoolVal(bool(v))
            return z3.IntVal(v)
        w = 64 if l.vk == "ptr" else l.w
        return d.mk(v, w)


def fresh_ids(e, cache={}):
    """largest fresh-name index among the uninterpreted symbols of e"""
    k = e.get_id()
    if k in cache and cache[k][0].eq(e):
        return cache[k][1]
    seen = set()
    best = 0
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            dcl = x.decl()
            if dcl.kind() == z3.Z3_OP_UNINTERPRETED:
                m = re.search(r"!(\d+)", dcl.name())
                if m:
                    best = max(best, int(m.group(1)))
            st.extend(x.children())
    cache[k] = (e, best)
    return best


def syms(e):
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    return out


def phis_of(hdr):
    out = []
    for i in hdr.insts:
        if i.op != "phi":
            break
        out.append(i)
    return out


def phi_vals(ex, hdr, prev, env, st):
    new = {}
    for i in phis_of(hdr):
        for b, v in i.cases:
            if b is prev:
                new[i.id] = ex.val(st, env, v)
                break
    return new


def run_loop(ex, fn, hdr, prev, env, st, body):
    env = dict(env)
    env.update(phi_vals(ex, hdr, prev, env, st))
    r = try_unroll(ex, fn, hdr, env, st, body)
    if r is not None:
        return r
    try:
        return by_invariant(ex, fn, hdr, env, st, body)
    except ChangesObject:
        if ex.bmc:
            raise
    # a pointer that only gets its object in the first pass: peel that pass
    rets, exits, backs = ex.run(fn, [(hdr, None, dict(env), st.fork())], (hdr.id, body))
    rets, exits = list(rets), list(exits)
    for bs, be, bp in backs:
        be = dict(be)
        be.update(phi_vals(ex, hdr, bp, be, bs))
        r, x = by_invariant(ex, fn, hdr, be, bs, body)
        rets += r
        exits += x
    return rets, exits


class ChangesObject(Unsupported):
    pass


def short_trip(hdr, env, most=8):
    """number of passes of a counting loop with constant bounds, if it is small (else 0)"""
    phis = {i.id: i for i in phis_of(hdr)}

    def num(c, w):
        if getattr(c, "k", None) != "int":
            return None
        v = c.v & ((1 << w) - 1)
        return v - (1 << w) if v >> (w - 1) else v
    for c in hdr.insts:
        if c.op != "icmp":
            continue
        for x, y in (c.ops, c.ops[::-1]):
            i = phis.get(getattr(x, "id", None))
            if i is None or i.ty.k != "int":
                continue
            w = i.ty.bits
            end, a = num(y, w), env.get(i.id)
            if end is None or not isinstance(a, int) or isinstance(a, bool):
                continue
            a &= (1 << w) - 1
            a = a - (1 << w) if a >> (w - 1) else a
            for _, v in i.cases:
                if getattr(v, "op", None) == "add" and getattr(v.ops[0], "id", None) == i.id:
                    k = num(v.ops[1], w)
                    if k and 0 <= (end - a) // k <= most:
                        return (end - a) // k + 2
    return 0


def try_unroll(ex, fn, hdr, env, st, body):
    items = [(dict(env), st.fork())]
    rets, exits = [], []
    sink0 = ex.sink
    ex.sink = {}
    sym = 0
    it = 0
    ok = ex.bmc or not any(isflt(env.get(p.id)) and not flt_lit(env[p.id]) for p in phis_of(hdr))
    if not ok:
        ex.sink = sink0
        return None
    limit = ex.unroll_sym if not ex.bmc else ex.bmc
    most = ex.unroll_max if ex.unroll_max > 16 else max(ex.unroll_max, short_trip(hdr, env))
    try:
        while items:
            it += 1
            if it > most:
                ok = False
                break
            nxt = []
            forked = False
            for e, s in items:
                n0 = len(s.pc)
                ne, nr = len(exits), len(rets)
                r, x, b = ex.run(fn, [(hdr, None, e, s)], (hdr.id, body))
                rets += r
                exits += x
                for bs, be, bp in b:
                    if len(b) > 1 or ((x or r) and True):
                        forked = True
                    be.update(phi_vals(ex, hdr, bp, be, bs))
                    nxt.append((be, bs))
            if forked:
                sym += 1
            items = nxt
            if items and (sym > limit or len(items) > 16):
                if ex.bmc:
                    ex.bmc_cut = True
                    if sym > limit:
                        items = []
                        break
                    items = items[:48]
                    continue
                ok = False
                break
    except Budget:
        raise
    except Unsupported:
        if ex.bmc:
            raise
        ok = False
    finally:
        mine = ex.sink
        ex.sink = sink0
    if not ok:
        return None
    tgt = ex.sink if ex.sink is not None else ex.obl
    for k, o in mine.items():
        p = tgt.get(k)
        if p is None:
            tgt[k] = o
        else:
            p.n += o.n
            p.ok = p.ok and o.ok
            p.undecided = p.undecided or o.undecided
            p.t += o.t
            if p.model is None and o.model is not None:
                p.model, p.detail = o.model, o.detail
            for b, c in o.backend.items():
                p.backend[b] = p.backend.get(b, 0) + c
    if not ex.silent:
        ex.stats["loops_unrolled"] += 1
        if ex.check_term:
            note(ex, "termination", hdr, "unrolled")
    return rets, exits


def flt_lit(v):
    return _lit(fpval(v)) is not None


def note(ex, kind, hdr, backend, ok=True, n=1, detail=""):
    from .exec import Oblig
    ins = next((i for i in hdr.insts if i.line), None)
    name = ex.prefix + "%s@%s" % (kind, ex.where(ins))
    tgt = ex.sink if ex.sink is not None else ex.obl
    o = tgt.get(name)
    if o is None:
        o = tgt[name] = Oblig(name, kind)
    o.n += n
    if ok:
        o.backend[backend] = o.backend.get(backend, 0) + n
    else:
        o.ok = False
        o.undecided = True
        o.detail = detail


def mk_head(L, st, env, base):
    """state with every locus havocked"""
    ex, d = L.ex, L.ex.d
    s = st.fork()
    e = dict(env)
    for l in L.loci:
        if l.kind == "log":
            rid, lo, hi = l.key
            rm = ex.wmem(s, rid)
            ex.flush(rm, lo, hi)
            bits = ex.regions[rid].bits
            rm.log = l.var
            continue
        if l.kind == "dead":
            ex.wmem(s, l.key[0]).slots.pop(l.key[1], None)
            continue
        if l.param is not None:
            v = l.param
        else:
            v = l.var
        if l.vk == "ptr":
            v = Ptr(l.region, norm(v))
        if l.kind == "phi":
            e[l.key.id] = v
        elif l.kind == "slot":
            rid, off = l.key
            ex.write(s, ex.regions[rid], off, l.size, v)
        elif l.kind == "gh":
            s.gh[l.key] = v
        if d.name == "int" and l.vk == "int" and l.kind != "gh" and not isc(v) and l.w > 1:
            s.add(z3.And(v >= -(1 << (l.w - 1)), v < (1 << (l.w - 1))))
            d.setrange(v, -(1 << (l.w - 1)), (1 << (l.w - 1)) - 1)
    tz = L.tvar
    if d.name == "int":
        s.add(tz >= 0)
    return s, e


def init_locus(L, l, st, env):
    ex, d = L.ex, L.ex.d
    if l.kind == "log":
        rid = l.key[0]
        l.var = Base(ex.regions[rid].name, d, ex.regions[rid].bits)
        return True
    if l.kind == "phi":
        v = env[l.key.id]
        ty = l.key.ty
        l.vk = ty.k
        l.w = ty.bits if ty.k == "int" else 64
        if v is UNDEF:
            v = None
    elif l.kind == "slot":
        rid, off = l.key
        l.uninit = ex.regions[rid].kind == "stack" and off not in st.mem[rid].slots and isinstance(st.mem[rid].log, Base)
        try:
            v = ex.read(st, ex.regions[rid], off, l.size, l.vk)
        except Unsupported:
            v = None
        l.w = l.size * 8
    else:
        v = st.gh.get(l.key)
        l.vk = "gh"
    if isinstance(v, PtrInt):
        raise Unsupported("integer pointer in loop")
    if isinstance(v, (FuncPtr, Packed, tuple)):
        raise Unsupported("loop-carried special value")
    if l.vk == "ptr":
        if v is None and l.uninit:
            # a pointer temporary of the body: unknown (unreadable) at the head
            l.kind = l.vk = "dead"
            return True
        if v is None:
            raise Unsupported("uninitialised loop pointer")
        if not isinstance(v, Ptr):
            raise Unsupported("loop pointer")
        l.region = v.r
        l.init = v.off
        l.var = d.fresh("lp", 64)
        return True
    l.init = fpval(v) if isinstance(v, FBits) else v
    if l.kind == "gh":
        if isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)):
            l.var = z3.Bool(fresh_name("gh"))
        elif isinstance(v, z3.ExprRef):
            l.var = z3.Const(fresh_name("gh"), v.sort())
        elif isinstance(v, int):
            l.var = d.fresh("gh", 64) if d.name == "bv" else z3.Int(fresh_name("gh"))
        else:
            raise Unsupported("ghost in loop")
        return True
    if l.vk in ("float", "double"):
        l.var = fconst(fresh_name("lf"), l.w if l.w in (32, 64) and l.kind == "slot" else (32 if l.vk == "float" else 64))
        return True
    l.var = d.fresh("lv", l.w)
    return True


def discover(ex, fn, hdr, env, st, body):
    L = Loop(ex)
    L.nested = any(b is not hdr and b.id in llvm.analyse_loops(fn) for b in fn.blocks if b.id in body)
    d = ex.d
    L.hdr, L.fn, L.body = hdr, fn, body
    L.st0, L.env0 = st, env
    keys = set()
    for p in phis_of(hdr):
        L.loci.append(Locus("phi", p))
    L.tvar = d.fresh("t", 64)
    pend = list(L.loci)
    for rnd in range(12):
        for l in pend:
            init_locus(L, l, st, env)
        L.marker = int(fresh_name("m").split("!")[1])
        s, e = mk_head(L, st, env, None)
        save = (ex.cmp_log, ex.wr_log)
        ex.cmp_log, ex.wr_log = [], []
        ex.silent += 1
        try:
            rets, exits, backs = ex.run(fn, [(hdr, None, e, s.fork())], (hdr.id, body))
        finally:
            ex.silent -= 1
            L.cmps, L.wrs = ex.cmp_log, ex.wr_log
            ex.cmp_log, ex.wr_log = save
            if ex.wr_log is not None:
                ex.wr_log.extend(L.wrs)
        L.rets, L.exits, L.backs = rets, exits, backs
        L.head = (s, e)
        pend = []
        symw = {}
        for rid, off, size, v in L.wrs:
            if rid not in st.mem:
                continue
            if not isc(off):
                r = ex.regions[rid]
                iv = (0, r.size)
                if r.arrays is not None:
                    # interval proven when the write was made; recover it
                    iv = None
                    for lo, hi in r.arrays:
                        iv = (lo, hi) if iv is None else iv
                    if len(r.arrays) > 1:
                        iv = (min(a for a, _ in r.arrays), max(b for _, b in r.arrays))
                    iv = iv or (0, r.size)
                    kn = ex.wr_iv.get((rid, off.get_id()))
                    if kn is not None:
                        iv = kn[1]
                    if rid in symw:
                        o = symw[rid]
                        iv = (min(iv[0], o[0]), max(iv[1], o[1])) if isc(iv[1]) and isc(o[1]) else (0, r.size)
                symw[rid] = iv
        def widen(rid, iv):
            """the log locus of a region has to cover every interval written"""
            for x in L.loci:
                if x.kind == "log" and x.key[0] == rid:
                    lo, hi = x.key[1:]
                    if isc(lo) and isc(hi) and isc(iv[0]) and isc(iv[1]):
                        if lo <= iv[0] and iv[1] <= hi:
                            return
                        n = (rid, min(lo, iv[0]), max(hi, iv[1]))
                    else:
                        n = (rid, 0, ex.regions[rid].size)
                        if same(n[1], lo) and same(n[2], hi):
                            return
                    x.key = n
                    L.loci = [y for y in L.loci if not (y.kind in ("slot", "dead") and y.key[0] == rid and in_iv(y.key[1], n[1:]))]
                    pend.append(x)
        for rid, iv in symw.items():
            if ("log", rid) in keys:
                widen(rid, iv)
            if ("log", rid) not in keys:
                keys.add(("log", rid))
                l = Locus("log", (rid,) + iv)
                pend.append(l)
                # slot loci inside become part of the log
                L.loci = [x for x in L.loci if not (x.kind in ("slot", "dead") and x.key[0] == rid and
                                                    in_iv(x.key[1], iv))]
        for rid, off, size, v in L.wrs:
            if rid not in st.mem or not isc(off):
                continue
            o = d.sgn(off, 64) if d.name == "bv" else off
            if rid in symw and in_iv(o, symw[rid]):
                continue
            if v is None and ("log", rid) in keys:
                widen(rid, (0, ex.regions[rid].size))
            if any(x.kind == "log" and x.key[0] == rid and in_iv(o, x.key[1:]) for x in L.loci):
                continue
            if v is None:
                # bulk write at a concrete place
                if ("log", rid) not in keys:
                    keys.add(("log", rid))
                    pend.append(Locus("log", (rid, 0, ex.regions[rid].size)))
                continue
            if ("slot", rid, o) in keys or isinstance(v, Packed):
                continue            # the parts of a packed write are logged one by one
            keys.add(("slot", rid, o))
            l = Locus("slot", (rid, o))
            l.size = size
            l.vk = "ptr" if isinstance(v, Ptr) else (("float" if size == 4 else "double")
                                                     if isflt(v) else "int")
            if isinstance(v, FuncPtr):
                raise Unsupported("function pointer loop slot")
            pend.append(l)
        for bs, be, bp in backs:
            for g in bs.gh:
                if ("gh", g) in keys:
                    continue
                if not same(bs.gh.get(g), s.gh.get(g)):
                    keys.add(("gh", g))
                    pend.append(Locus("gh", g))
        if not pend:
            break
        L.loci += [x for x in pend if not any(x is y for y in L.loci)]
    else:
        raise Unsupported("loop loci do not stabilise")
    return L


def covered(L, st):
    """every write of the body concerns a locus of the loop (guard)"""
    ex, d = L.ex, L.ex.d
    logs = {l.key[0]: l.key[1:] for l in L.loci if l.kind == "log"}
    slots = {l.key for l in L.loci if l.kind in ("slot", "dead")}
    for rid, off, size, v in L.wrs2:
        if rid not in st.mem:
            continue
        whole = (0, ex.regions[rid].size)
        iv = logs.get(rid)
        if not isc(off):
            kn = ex.wr_iv.get((rid, off.get_id()))
            w = kn[1] if kn else whole
        else:
            o = d.sgn(off, 64) if d.name == "bv" else off
            if (rid, o) in slots and v is not None:
                continue
            w = (o, o + size) if isc(size) else (o, whole[1])
            if isinstance(v, Packed):
                continue        # its parts are listed as well
        if iv is None:
            raise Unsupported("loop writes memory outside its loci")
        for a, b, lt in ((iv[0], w[0], True), (w[1], iv[1], True)):
            if not (same(a, b) or isc(a) and isc(b) and a <= b):
                raise Unsupported("loop writes memory outside its loci")


def in_iv(o, iv):
    lo, hi = iv
    return (not isc(lo) or o >= lo) and (not isc(hi) or o < hi)


def back_view(L, bs, be, bp, t):
    return View(L, bs, phi_vals(L.ex, L.hdr, bp, be, bs), t)


def set_params(L, st, env):
    """find constant step sizes and express those loci through the iteration count"""
    ex, d = L.ex, L.ex.d
    L.slope_c = {}
    for l in L.loci:
        l.param = None
        l.slope = None
        if l.kind in ("log",) or l.var is None or l.init is None:
            continue
        if l.vk not in ("int", "ptr") or (l.vk == "int" and l.w == 1):
            continue
        deltas = set()
        for bs, be, bp in L.backs:
            v = back_view(L, bs, be, bp, 0).get(l)
            if isinstance(v, Ptr):
                if v.r != l.region:
                    raise ChangesObject("loop pointer changes object")
                v = v.off
            if isinstance(v, (PtrInt, Packed)) or v is UNDEF:
                deltas.add(None)
                continue
            w = 64 if l.vk == "ptr" else l.w
            dv = norm(z3.simplify(d.mk(v, w) - l.var))
            if isc(dv):
                deltas.add(d.sgn(dv, w) if d.name == "bv" else dv)
            else:
                inv = step_inv(L, dv)
                if inv is None:
                    lv = set()
                    ite_leaves(dv, lv)
                    lv = {(d.sgn(x, w) if d.name == "bv" else x) for x in lv}
                    lv.discard(0)
                    if len(lv) == 1:
                        inv = next(iter(lv))
                deltas.add(inv)
        if len(deltas) > 1 and None not in deltas and all(isc(x) for x in deltas):
            nz = {x for x in deltas if x != 0}
            if len(nz) == 1:
                deltas = nz      # optimistic: the other path may be excluded by the invariants
        if len(deltas) == 1 and None not in deltas:
            l.slope = next(iter(deltas))
        else:
            L.slope_c[l] = [x for x in deltas if x is not None and isc(x)]
    for l in L.loci:
        if l.slope is not None:
            l.param = at_t(L, l, L.tvar)
        elif l.vk in ("int", "ptr") and l.kind in ("phi", "slot") and l.init is not None and ex.int_recs and \
                not (l.vk == "int" and l.w == 1) and l not in L.norec:
            for G in ex.int_recs:
                if G.matches(ex, st, l):
                    l.rec = G
                    l.param = at_t(L, l, L.tvar)
                    break
        elif l.vk in ("float", "double") and l.kind in ("phi", "slot") and l.init is not None and isflt(l.init):
            for G in ex.float_recs:
                if G.w != fw(l.var) or l in getattr(L, "norec", ()):
                    continue
                if ex.valid(st, l.init == G.init):
                    l.rec = G
                    l.param = at_t(L, l, L.tvar)
                    break


def ite_leaves(e, out, depth=0):
    """constant leaves of an if-then-else term"""
    if depth < 8 and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        ite_leaves(z3.simplify(e.arg(1)), out, depth + 1)
        ite_leaves(z3.simplify(e.arg(2)), out, depth + 1)
        return
    c = norm(e)
    if isc(c):
        out.add(c)
    elif depth < 8 and z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_ADD):
        for i in range(e.num_args()):
            a = e.arg(i)
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
                rest = [e.arg(j) for j in range(e.num_args()) if j != i]
                for br in (a.arg(1), a.arg(2)):
                    x = br
                    for y in rest:
                        x = x + y
                    ite_leaves(z3.simplify(x), out, depth + 1)
                return


def step_inv(L, dv):
    """a symbolic step made of loop-invariant terms"""
    if fresh_ids(dv) > L.marker:
        return None
    names = syms(dv)
    for l in L.loci:
        if l.kind == "log":
            if l.var.name in names:
                return None
        elif l.var is not None and l.var.decl().name() in names:
            return None
    if L.tvar.decl().name() in names:
        return None
    return dv


def at_t(L, l, t):
    d = L.ex.d
    if l.rec is not None:
        if l.vk in ("int", "ptr"):
            return norm(z3.simplify(l.rec.at(d.mkoff(t), 64 if l.vk == "ptr" else l.w)))
        return l.rec.at(t)
    w = 64 if l.vk == "ptr" else l.w
    if d.name == "bv":
        tt = t if isc(t) else (t if w == 64 else (z3.Extract(w - 1, 0, t) if w < 64 else z3.ZeroExt(w - 64, t)))
        if isc(l.slope):
            return norm(z3.simplify(d.mk(l.init, w) + (l.slope & ((1 << w) - 1)) * (d.mk(tt & ((1 << w) - 1), w) if isc(tt) else tt)))
        return norm(z3.simplify(d.mk(l.init, w) + l.slope * (d.mk(tt, w) if isc(tt) else tt)))
    return norm(z3.simplify(d.mk(l.init, w) + l.slope * (z3.IntVal(t) if isc(t) else t)))


def cmp_cands(L, cmps):
    """bounds suggested by the comparisons the body executes"""
    ex, d = L.ex, L.ex.d
    out = {}
    tn = L.tvar.decl().name()
    lnames = {l.var.decl().name() for l in L.loci if l.kind != "log" and l.var is not None}
    lnames.add(tn)
    lognames = {l.var.name for l in L.loci if l.kind == "log"}
    for pred, a, b, w, r in cmps:
        ok = True
        dep = False
        for x in (a, b, r):
            if isc(x):
                continue
            if not isinstance(x, z3.ExprRef):
                ok = False
                break
            if fresh_ids(x) > L.marker2:
                ok = False
                break
            nm = syms(x)
            if nm & lnames:
                dep = True
            if nm & lognames:
                ok = False
        if not ok or not dep or isc(r):
            continue
        preds = []
        if d.name == "int":
            preds = ["sle", "sge", "slt", "sgt", "eq", "ne"]
            if pred[0] == "u":
                a, b = d.u(a, w), d.u(b, w)
        else:
            preds = ["ule", "uge", "sle", "sge", "ult", "ugt", "slt", "sgt", "eq", "ne"]
        if w == 1:
            continue
        for p in preds:
            f = d.icmp(p, a, b, w)
            if isc(f):
                continue
            key = z3.simplify(f).get_id()
            if key in out:
                continue
            L.keep.append(f)
            out[key] = Cand("%s: %s" % (p, str(f)[:200].replace("\n", " ")), (lambda v, f=f: v.term(f)), "cmp")
        # data-dependent exits: the same comparison at every earlier iteration
        if ex.J is not None and not isc(r) and tn in syms(r) and not ((syms(r) & lnames) - {tn}):
            for pol in (r, b_not(r)):
                key = ("J", z3.simplify(pol).get_id())
                if key in out:
                    continue
                L.keep.append(pol)

                def f(v, pol=pol):
                    J = ex.J
                    at = z3.substitute(pol, (L.tvar, d.mkoff(J)))
                    return b_implies(d.icmp("ult", J, v.t, 64) if d.name == "bv" else
                                     b_and(J >= 0, d.icmp("slt", J, v.t, 64)), at)
                out[key] = Cand("forall j<t: %s" % str(pol)[:160].replace("\n", " "), f, "J")
    return list(out.values())


def bound_cands(L):
    ex, d = L.ex, L.ex.d
    out = []
    for l in L.loci:
        if l.kind in ("log",) or l.init is None or l.vk not in ("int", "ptr") or (l.vk == "int" and l.w == 1):
            continue
        w = 64 if l.vk == "ptr" else l.w
        if l.slope is not None and isc(l.slope) and l.slope == 0:
            continue
        for p in (["sge", "sle"] if d.name == "int" else ["uge", "ule", "sge", "sle"]):
            if l.slope is not None and d.name == "int" and isc(l.slope):
                continue   # follows from t >= 0
            out.append(Cand("%r %s init" % (l, p), (lambda v, l=l, p=p, w=w: d.icmp(p, v.num(l), l.init, w)), "bound"))
        for bt in getattr(ex, "bound_terms", []):
            term, bw = bt
            if bw != w:
                continue
            for p in (["sge", "sle"] if d.name == "int" else ["uge", "ule"]):
                out.append(Cand("%r %s %s" % (l, p, str(term)[:40]),
                                (lambda v, l=l, p=p, term=term, w=w: d.icmp(p, v.num(l), term, w)), "bound"))
        for dl in L.slope_c.get(l, []):
            def f(v, l=l, dl=dl):
                l.slope = dl
                e = at_t(L, l, v.t)
                l.slope = None
                w = 64 if l.vk == "ptr" else l.w
                return d.icmp("eq", v.num(l), e, w)
            out.append(Cand("%r = init + %s*t" % (l, dl), f, "slope"))
    for l in L.loci:
        if l.vk in ("float", "double") and l.kind in ("phi", "slot") and l.var is not None:
            w = fw(l.var)
            z, o = flit(0.0, w), flit(1.0, w)
            out.append(Cand("%r in [0,1)" % l, (lambda v, l=l: z3.And(fcmp("fle", z, v.num(l)), fcmp("flt", v.num(l), o))),
                            "float"))
    return out


def flag_cands(L):
    """values that are constant after the first iteration ("first time" flags), or one of two constants"""
    ex, d = L.ex, L.ex.d
    out = []
    for l in L.loci:
        if l.kind == "log" or l.vk != "int" or l.init is None or l.param is not None or not L.backs2:
            continue
        cs, unchanged = set(), False
        for bs, be, bp in L.backs2:
            try:
                a = back_view(L, bs, be, bp, L.tvar).get(l)
            except (Unsupported, KeyError):
                cs = set()
                break
            a = norm(z3.simplify(a)) if isinstance(a, z3.ExprRef) else a
            if isinstance(a, (int, bool)):
                cs.add(a)
            elif isinstance(a, z3.ExprRef) and l.var is not None and a.eq(l.var):
                unchanged = True
            else:
                cs = set()
                break
        if len(cs) != 1:
            continue
        c, = cs
        eq = lambda v, x, l=l: d.icmp("eq", v.num(l), x, l.w)
        if not unchanged:
            def f(v, l=l, c=c, eq=eq):
                z = d.icmp("eq", v.t, 0, 64)
                return b_and(b_implies(z, eq(v, l.init)), b_implies(b_not(z), eq(v, c)))
            out.append(Cand("%r = %s after the first time" % (l, c), f, "flag"))
        out.append(Cand("%r = init or %s" % (l, c), (lambda v, l=l, c=c, eq=eq: b_or(eq(v, l.init), eq(v, c))), "flag"))
    return out


def log_cands(L):
    ex, d = L.ex, L.ex.d
    out = []
    v0 = View(L, L.st0, {p.id: L.env0[p.id] for p in phis_of(L.hdr)}, 0)
    lnames = {l.var.decl().name(): l for l in L.loci if l.kind != "log" and l.var is not None}
    lognames = {l.var.name for l in L.loci if l.kind == "log"}
    tn = L.tvar.decl().name()
    for l in L.loci:
        if l.kind != "log":
            continue
        rid = l.key[0]
        ks = ex.K.get(rid, [])
        if not ks:
            continue
        wrs = []
        for r2, off, size, val in L.wrs2:
            if r2 != rid:
                continue
            if not isc(off) and fresh_ids(off) > L.marker2:
                continue
            if any(same(off, o2) and size is s2 or (same(off, o2) and isc(size) and isc(s2) and size == s2) and
                   (val is v2 or (val is not None and v2 is not None and same(val, v2)))
                   for o2, s2, v2 in wrs):
                continue
            wrs.append((off, size, val))
        for k in ks:
            old = v0.byte(rid, k)
            eqold = lambda v, k=k, old=old: d.icmp("eq", v.byte(rid, k), old, 8)
            out.append(Cand("mem[%d][K] unchanged" % rid, eqold, "frame"))
            # union of written ranges
            ranges = []
            for off, size, val in wrs:
                o0 = v0.term(off)
                if isc(off):
                    continue
                stepv = z3.simplify(z3.substitute(off, (L.tvar, L.tvar + 1)) - off)
                step = norm(stepv)
                dep = syms(off) & set(lnames)
                dep.discard(tn)
                if isc(step) and not dep and isc(size):
                    s = d.sgn(step, 64) if d.name == "bv" else step
                    if s == 0:
                        continue
                    ranges.append((off, o0, s, size, val))

                    def inr(v, off=off, o0=o0, s=s, size=size, k=k):
                        oT = v.term(off)
                        if s > 0:
                            if d.name == "bv":
                                return d.icmp("ult", d.off_sub(k, o0), d.off_sub(oT, o0), 64)
                            return b_and(d.icmp("sle", o0, k, 64), d.icmp("slt", k, oT, 64))
                        top = d.off_add(o0, size - 1)
                        if d.name == "bv":
                            return d.icmp("ult", d.off_sub(top, k), d.off_sub(o0, oT), 64)
                        return b_and(d.icmp("sle", k, top, 64), d.icmp("slt", d.off_add(oT, size - 1), k, 64))
                    out.append(Cand("mem[%d] unchanged outside written range" % rid,
                                    lambda v, inr=inr, eqold=eqold: b_or(inr(v), eqold(v)), "frame"))
                    if val is not None and not isinstance(val, (Ptr, FuncPtr, Packed)) and not isflt(val):
                        names = set() if isc(val) else syms(val)
                        bad = (names & set(lnames)) - {tn}
                        if not bad and not (names & lognames) and (isc(val) or fresh_ids(val) <= L.marker2):
                            def content(v, off=off, o0=o0, s=s, size=size, val=val, k=k, inr=inr):
                                if s > 0:
                                    rel = d.off_sub(k, o0)
                                else:
                                    rel = d.off_sub(d.off_add(o0, size - 1), k)
                                a = abs(s)
                                if a == 1:
                                    j, rem = rel, 0
                                else:
                                    j = d.bin("udiv" if d.name == "bv" else "sdiv", rel, a, 64)[0]
                                    rem = d.bin("urem" if d.name == "bv" else "srem", rel, a, 64)[0]
                                vj = val if isc(val) else norm(z3.simplify(
                                    z3.substitute(val, (L.tvar, d.mkoff(j)))))
                                cur = v.byte(rid, k)
                                cs = []
                                for i in range(size):
                                    bi = ex.val_byte(vj, i if s > 0 else size - 1 - i, size)
                                    cs.append(b_or(b_not(d.icmp("eq", rem, i, 64)), d.icmp("eq", cur, bi, 8))
                                              if a > 1 else d.icmp("eq", cur, bi, 8))
                                return b_or(b_not(inr(v)), b_and(*cs))
                            out.append(Cand("mem[%d] content of written range" % rid, content, "content"))
                # weak frames
                for nm, g in (("K<o0", lambda v, o0=o0, k=k: d.icmp("ult" if d.name == "bv" else "slt", k, o0, 64)),
                              ("K>=o", lambda v, off=off, k=k: d.icmp("uge" if d.name == "bv" else "sge", k, v.term(off), 64)),
                              ("K>=o0", lambda v, o0=o0, k=k: d.icmp("uge" if d.name == "bv" else "sge", k, o0, 64)),
                              ("K<o", lambda v, off=off, k=k: d.icmp("ult" if d.name == "bv" else "slt", k, v.term(off), 64))):
                    out.append(Cand("mem[%d] unchanged where %s" % (rid, nm),
                                    lambda v, g=g, eqold=eqold: b_or(b_not(g(v)), eqold(v)), "frame"))
            if len(ranges) > 1:
                # several interleaved writes: unchanged below the first and above the running front
                o0s = [r[1] for r in ranges]
                for off, o0, s, size, val in ranges:
                    if s > 0:
                        out.append(Cand("mem[%d] unchanged outside joint range" % rid,
                                        lambda v, off=off, o0=o0, eqold=eqold, k=k: b_or(
                                            d.icmp("ult", d.off_sub(k, o0), d.off_sub(v.term(off), o0), 64)
                                            if d.name == "bv" else
                                            b_and(d.icmp("sle", o0, k, 64), d.icmp("slt", k, v.term(off), 64)),
                                            eqold(v)), "frame"))
    return out


def atoms(e, out, seen):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_eq(e) and not z3.is_bool(e.arg(0)):
        out.append(e)
    for c in e.children():
        if z3.is_bool(c):
            atoms(c, out, seen)


def ghost_cands(L):
    ex, d = L.ex, L.ex.d
    out = []
    lnames = {l.var.decl().name() for l in L.loci if l.kind != "log" and l.var is not None and l.param is None}
    lognames = {l.var.name for l in L.loci if l.kind == "log"}
    hs, he = L.head
    nbase = len(hs.pc)
    for l in L.loci:
        if l.kind != "gh":
            continue
        isb = z3.is_bool(l.var)
        out.append(Cand("ghost %s unchanged" % l.key, lambda v, l=l: eq_gh(L, v.st.gh.get(l.key), l.init, l), "gh"))
        phi = False
        ok = True
        for bs, be, bp in L.backs2:
            g = bs.gh.get(l.key)
            if g is l.var or (isinstance(g, z3.ExprRef) and g.eq(l.var)):
                continue
            suffix = [c for c in bs.pc[L.nbase2:]]
            if isb:
                if isinstance(g, bool):
                    ok = ok and g
                    p = g
                else:
                    hi = z3.simplify(z3.substitute(g, (l.var, z3.BoolVal(True))))
                    if not z3.is_true(hi):
                        ok = False
                    p = norm(z3.simplify(z3.substitute(g, (l.var, z3.BoolVal(False)))))
            else:
                dlt = norm(z3.simplify((g if isinstance(g, z3.ExprRef) else L.toz(g, l)) - l.var))
                p = True if isc(dlt) and dlt == 1 else None
                if p is None:
                    if isc(dlt) and dlt == 0:
                        continue
                    if isc(dlt):
                        ok = False
                        continue
                    p = norm(z3.simplify(dlt == 1))
            phi = b_or(phi, b_and(p, *suffix))
        if not ok or phi is False:
            continue
        phi = phi if isc(phi) else z3.simplify(phi)
        if isc(phi):
            continue
        names = syms(phi)
        if (names & lnames) or (names & lognames) or fresh_ids(phi) > L.marker2:
            continue
        ats = []
        atoms(phi, ats, set())
        sols = {}
        for a in ats:
            e = z3.simplify(a.arg(0) - a.arg(1)) if z3.is_bv(a.arg(0)) or z3.is_int(a.arg(0)) else None
            if e is None or z3.is_bv(e) != (d.name == "bv"):
                continue
            if L.tvar.decl().name() not in syms(e):
                continue
            one = lambda n: z3.substitute(e, (L.tvar, d.mkoff(n)))
            c = norm(z3.simplify(one(1) - one(0)))
            c2 = norm(z3.simplify(one(2) - one(1)))
            if not isc(c) or c != c2:
                continue
            cs = d.sgn(c, e.size()) if z3.is_bv(e) else c
            if cs not in (1, -1):
                continue
            j = norm(z3.simplify(-one(0) if cs == 1 else one(0)))
            if isc(j):
                j = d.mkoff(j)
            sols[j.get_id()] = j
            L.keep.append(j)
        if not sols:
            continue

        def closed(v, sols=list(sols.values()), phi=phi):
            cs = []
            for j in sols:
                at = norm(z3.simplify(z3.substitute(phi, (L.tvar, j))))
                rng = b_and(j >= 0, d.icmp("slt", j, v.t, 64)) if d.name == "int" else d.icmp("ult", j, v.t, 64)
                cs.append(b_and(rng, at))
            return b_or(*cs)
        if isb:
            out.append(Cand("ghost %s closed form <=" % l.key,
                            lambda v, l=l, closed=closed: b_implies(v.st.gh[l.key], b_or(l.init, closed(v))), "gh"))
            out.append(Cand("ghost %s closed form >=" % l.key,
                            lambda v, l=l, closed=closed: b_implies(b_or(l.init, closed(v)), v.st.gh[l.key]), "gh"))
        else:
            def cnt(v, l=l, closed=closed):
                c = closed(v)
                g = L.toz(v.st.gh[l.key], l)
                i0 = L.toz(l.init, l)
                return g == z3.If(tobool(c), i0 + 1, i0)
            out.append(Cand("ghost %s counts at most one" % l.key, cnt, "gh"))
    return out


def eq_gh(L, a, b, l):
    if same(a, b):
        return True
    return L.toz(a, l) == L.toz(b, l)


def hint_key(ex, fn, hdr):
    return "%s|%s|%d" % (">".join(ex.fnstack), fn.name, hdr.id)


def stable(desc):
    return re.sub(r"!\d+", "", desc)


def by_invariant(ex, fn, hdr, env, st, body):
    d = ex.d
    # invariants found before for exactly this code are tried first (they are checked like any other)
    known = ex.loop_known.get(hint_key(ex, fn, hdr)) if ex.loop_known else None
    known = None if known is None else set(known)
    pick = (lambda cs: cs) if known is None else (lambda cs: [c for c in cs if stable(c.desc) in known])
    t0 = time.time()
    L = discover(ex, fn, hdr, env, st, body)
    if not L.backs:
        # body never reaches the back edge
        return ex.run(fn, [(hdr, None, dict(env), st)], (hdr.id, body))[:2]
    L.keep = []
    L.norec = set()
    set_params(L, st, env)
    dbg("loop", fn.dname[:60], "loci", [(l, l.slope, l.init) for l in L.loci])
    # second look with the parametrised loci: comparisons, writes, ghost updates
    def execute(cands, silent=True):
        s, e = mk_head(L, st, env, None)
        L.nbase2 = len(s.pc)
        for G in ex.int_recs:
            for f in G.head_facts(ex, L.tvar):
                s.add(f)
        v = View(L, s, {p.id: e[p.id] for p in phis_of(hdr)}, L.tvar)
        for c in cands:
            f = c.f(v)
            if f is True:
                continue
            s.add(tobool(f))
        L.marker2 = int(fresh_name("m").split("!")[1])
        save = (ex.cmp_log, ex.wr_log)
        ex.cmp_log, ex.wr_log = [], []
        if silent:
            ex.silent += 1
        L.nb = len(s.pc)
        hs, he = s.fork(), dict(e)
        if ex.sat(s) == "unsat":
            r = ([], [], [])
            L.cmps2, L.wrs2 = [], []
            ex.cmp_log, ex.wr_log = save
            if silent:
                ex.silent -= 1
        else:
            try:
                r = ex.run(fn, [(hdr, None, e, s)], (hdr.id, body))
            finally:
                if silent:
                    ex.silent -= 1
                L.cmps2, L.wrs2 = ex.cmp_log, ex.wr_log
                ex.cmp_log, ex.wr_log = save
        L.head2 = (hs, he)
        covered(L, st)
        return r
    rets, exits, L.backs2 = execute([])
    # values of parametrised loci are recomputed: drop wrong slopes
    changed = True
    cands = cmp_cands(L, L.cmps2) + bound_cands(L) + flag_cands(L)
    L.v0 = View(L, st, {p.id: env[p.id] for p in phis_of(hdr)}, 0)
    cands += log_cands(L) + ghost_cands(L)
    for h in ex.loop_hints:
        cands += h(ex, L) or []
    v0 = L.v0
    live = []
    cands = pick(cands)
    for c in cands:
        try:
            f = c.f(v0)
        except Unsupported:
            continue
        if f is True:
            live.append(c)
            continue
        if f is False:
            continue
        if ex.valid(st, f, 3000):
            live.append(c)
    dbg("  cands", len(cands), "initially true", len(live))
    rounds = 0
    back_backs = L.backs2
    while True:
        rounds += 1
        if rounds > 60:
            raise Unsupported("invariant inference diverges")
        rets, exits, backs = execute(live)
        drop = set()
        slope_bad = set()
        for bs, be, bp in backs:
            t1 = d.off_add(L.tvar, 1) if d.name == "bv" else L.tvar + 1
            v = back_view(L, bs, be, bp, t1)
            for l in L.loci:
                if l.param is None or l in slope_bad:
                    continue
                a = v.get(l)
                if l.vk == "ptr":
                    if not isinstance(a, Ptr) or a.r != l.region:
                        raise ChangesObject("loop pointer changes object")
                    a = a.off
                w = 64 if l.vk == "ptr" else l.w
                if l.rec is not None and l.vk in ("int", "ptr"):
                    c = d.icmp("eq", a, at_t(L, l, t1), w)
                elif l.rec is not None:
                    bs.add(l.rec.unfold(L.tvar))
                    c = fpval(a) == at_t(L, l, t1)
                else:
                    c = d.icmp("eq", a, at_t(L, l, t1), w)
                if c is not True and (c is False or not ex.valid(bs, c, 4000)):
                    slope_bad.add(l)
            for l in L.loci:
                if l.vk == "ptr" and l.param is None:
                    a = v.get(l)
                    if not isinstance(a, Ptr) or a.r != l.region:
                        raise ChangesObject("loop pointer changes object")
            todo = []
            for i, c in enumerate(live):
                if i in drop:
                    continue
                try:
                    f = c.f(v)
                except Unsupported:
                    drop.add(i)
                    continue
                if f is True:
                    continue
                if f is False:
                    drop.add(i)
                    continue
                if flt.predicates(f):
                    if not ex.valid(bs, f, 5000):
                        drop.add(i)
                    continue
                todo.append((i, f))
            # batch check, then peel
            while todo:
                conj = z3.And(*[f for _, f in todo]) if len(todo) > 1 else todo[0][1]
                r = ex.sat(bs, z3.Not(conj), 3000, True)
                if r == "unsat":
                    break
                if r == "sat":
                    m = ex.last_model
                    bad = [i for i, f in todo if z3.is_false(m.eval(f, model_completion=True))]
                    if bad:
                        drop.update(bad)
                        todo = [(i, f) for i, f in todo if i not in bad]
                        continue
                # unknown, or quantifier-free evaluation undecided: one at a time
                rest = []
                for i, f in todo:
                    if ex.valid(bs, f, 4000):
                        rest.append((i, f))
                    else:
                        drop.add(i)
                todo = []
        if slope_bad:
            dbg("  bad slopes", slope_bad)
            for l in slope_bad:
                L.slope_c.setdefault(l, [])
                l.param = None
                l.slope = None
                if l.rec is not None:
                    l.rec = None
                    L.norec.add(l)
            rets, exits, L.backs2 = execute([])
            cands = cmp_cands(L, L.cmps2) + bound_cands(L) + flag_cands(L) + log_cands(L) + ghost_cands(L)
            for h in ex.loop_hints:
                cands += h(ex, L) or []
            cands = pick(cands)
            live = []
            for c in cands:
                try:
                    f = c.f(v0)
                except Unsupported:
                    continue
                if f is True or (f is not False and ex.valid(st, f, 3000)):
                    live.append(c)
            continue
        if not drop:
            break
        live = [c for i, c in enumerate(live) if i not in drop]
    dbg("  kept", len(live), "rounds", rounds, "%.1fs" % (time.time() - t0))
    for c in live:
        dbg("     ", c.desc)
    # final pass with obligations
    rets, exits, backs = execute(live, silent=False)
    if not ex.silent:
        ex.loop_found.setdefault(hint_key(ex, fn, hdr), set()).update(stable(c.desc) for c in live)
        ex.stats["loops_inv"] += 1
        n = len(live) + sum(1 for l in L.loci if l.param is not None)
        note(ex, "loop-invariant", hdr, "z3", True, 2 * n)
        ex.loopinfo.append({"function": re.sub(r"\(.*", "", fn.dname), "line": next((i.line for i in hdr.insts if i.line), 0),
                            "invariants": n, "rounds": rounds})
        if ex.check_term and backs:
            ok = find_measure(ex, L, backs)
            note(ex, "termination", hdr, "z3", ok, 1, "no ranking measure found")
    return rets, exits


def find_measure(ex, L, backs):
    d = ex.d
    hs, he = L.head2
    v = View(L, hs, {p.id: he[p.id] for p in phis_of(L.hdr)}, L.tvar)
    cands = []
    seen = set()
    for m in getattr(ex, "measures", []):
        cands.append(("hint", m))
    for pred, a, b, w, r in L.cmps2:
        if isc(r) or w == 1:
            continue
        for x in (a, b):
            if not isc(x) and (not isinstance(x, z3.ExprRef) or fresh_ids(x) > L.marker2):
                break
        else:
            for e in (d.mk(a, w) - d.mk(b, w), d.mk(b, w) - d.mk(a, w)):
                e = z3.simplify(e)
                if e.get_id() not in seen and not isc(norm(e)):
                    seen.add(e.get_id())
                    L.keep.append(e)
                    cands.append(("cmp", lambda vv, e=e: vv.term(e)))
    for l in L.loci:
        if l.kind in ("log", "gh") or l.vk not in ("int", "ptr") or (l.vk == "int" and l.w == 1):
            continue
        cands.append(("locus", lambda vv, l=l: vv.num(l)))
        if d.name == "bv":
            cands.append(("locus", lambda vv, l=l: d.bin("sub", 0, vv.num(l), 64 if l.vk == "ptr" else l.w)[0]))
    for kind, m in cands:
        good = True
        m0 = m(v)
        if m0 is None:
            continue
        for bs, be, bp in backs:
            t1 = d.off_add(L.tvar, 1) if d.name == "bv" else L.tvar + 1
            bv = back_view(L, bs, be, bp, t1)
            m1 = m(bv)
            if d.name == "bv":
                A = m1 if not isc(m1) else None
                if isc(m0) or m0 is None:
                    good = False
                    break
                w = m0.size()
                c = d.icmp("ult", m1, m0, w)
            else:
                c = b_and(d.icmp("sge", m0, 0, 64), d.icmp("slt", m1, m0, 64))
            if c is not True and (c is False or not ex.valid(bs, c, 3000)):
                good = False
                break
        if good:
            return True
    return False
