"""Symbolic execution of LLVM IR with contracts: the verification-condition
generator.  Every obligation goes through Executor.oblige()."""
import re
import resource
import time
import z3
from . import llvm
from . import flt
from .dom import *
from .mem import *

import os
loops_debug = os.environ.get("IRV_DEBUG")


class State:
    _n = [0]
    __slots__ = ("pc", "mem", "gh", "id", "dead")

    def __init__(s):
        s.pc, s.mem, s.gh = [], {}, {}
        State._n[0] += 1
        s.id = State._n[0]

    def fork(s):
        t = State()
        t.pc = list(s.pc)
        t.mem = dict(s.mem)
        t.gh = dict(s.gh)
        State._n[0] += 1
        s.id = State._n[0]     # both lose in-place ownership
        return t

    def add(s, c):
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        s.pc.append(c)


class Oblig:
    __slots__ = ("name", "ok", "backend", "t", "model", "detail", "n", "kind", "line", "undecided")

    def __init__(s, name, kind):
        s.name, s.kind = name, kind
        s.ok, s.backend, s.t, s.model, s.detail, s.n, s.undecided = True, {}, 0.0, None, "", 0, False


class Budget(Exception):
    pass


class Abort(Exception):
    """unroll attempt given up"""


def _slow():
    """how much slower than the machine the limits were chosen on"""
    best = 1e9
    for _ in range(3):
        t = time.process_time()
        x = 0
        for i in range(60000):
            x = (x * 31 + i) & 0xFFFF
        best = min(best, time.process_time() - t)
    return max(1.0, min(3.0, best / BASE))


BASE = 0.009
SLOW = _slow()


class Executor:
    def __init__(self, module, dom, deadline=None):
        self.m = module
        self.d = dom
        dom.ex = self
        self.regions = {}
        self.nreg = 0
        self.contracts = []
        self.ccache = {}
        self.hooks = {}
        self.obl = {}
        self.silent = 0          # >0: obligations are assumed, not recorded
        self.sink = None
        self.prefix = ""
        self.greg = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", 4000)
        self.stack = []
        self.nq = 0
        self.tq = 0.0
        self.cur = None
        self.calls = set()       # functions of /repo executed (under contract)
        self.depth = 0
        self.maxdepth = 40
        self.deadline = deadline
        self.loop_hints = []     # extra candidate templates: f(ex, L) -> [Cand]
        self.K = {}              # region id -> skolem index terms
        self.J = None            # skolem iteration
        self.load_axioms = {}    # region id -> f(ex, st, off, size)
        self.cmp_log = None
        self.wr_log = None
        self.unroll_sym = 5
        self.unroll_max = 2000000
        self.wr_iv = {}
        self.kiv = {}            # region id -> byte interval the skolem indices of K lie in
        self.stats = {"paths": 0, "insts": 0, "loops_inv": 0, "loops_unrolled": 0}
        self.loopinfo = []
        self.fnstack = []
        self.check_term = True
        self.no_merge = False
        self.vacuity = []
        self.assumed = set()
        self.ob_timeout = 20000
        self._tm = 1
        self._t0, self._c0, self._load = time.time(), time.process_time(), (0, 1.0)
        self.float_recs = []
        self.int_recs = []
        self.bmc = False
        self.seed_store = {}
        self.loop_known, self.loop_found = None, {}

    # ---------- solver ----------
    @property
    def tm(self):
        """factor on every solver time limit: the unit's own, times how much slower than usual this process runs"""
        now = time.time()
        if now - self._load[0] > 1:
            r = resource.getrusage(resource.RUSAGE_CHILDREN)
            cpu = time.process_time() + r.ru_utime + r.ru_stime
            self._load = (now, max(1.0, min(4.0, (now - self._t0) / max(cpu - self._c0, 0.2)) if now - self._t0 > 3 else 1.0))
        return self._tm * self._load[1] * SLOW

    @tm.setter
    def tm(self, v):
        self._tm = v

    def sync(self, pc):
        i = 0
        st = self.stack
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        while len(st) > i:
            self.solver.pop()
            st.pop()
        for c in pc[i:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def sat(self, st, extra=None, timeout=4000, hard=False):
        """'sat' | 'unsat' | 'unknown' for pc /\\ extra"""
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget")
        self.sync(st.pc)
        self.nq += 1
        t = time.time()
        timeout = int(timeout * self.tm)
        self.solver.set("timeout", int(min(timeout, 600 * self.tm)))
        if extra is None:
            r = self.solver.check()
        else:
            self.solver.push()
            self.solver.add(extra)
            r = self.solver.check()
            self.last_model = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        if extra is None:
            self.last_model = self.solver.model() if r == z3.sat else None
        if r == z3.unknown and timeout > 600 * self.tm:
            s = z3.SimpleSolver()
            for c in st.pc:
                s.add(c)
            if extra is not None:
                s.add(extra)
            c15 = int(1500 * self.tm)
            for cap in ((c15, timeout) if hard else (timeout,)):
                s.set("timeout", min(cap, timeout))
                r = s.check()
                if r != z3.unknown:
                    self.last_model = s.model() if r == z3.sat else None
                    break
                if hard and cap == c15 and self.cvc5(s, timeout) == "unsat":
                    r = z3.unsat
                    break
        self.tq += time.time() - t
        if loops_debug and time.time() - t > 0.7:
            if os.environ.get("IRV_DUMP"):
                x = z3.Solver()
                for c in st.pc:
                    x.add(c)
                if extra is not None:
                    x.add(extra)
                Executor.ndump = getattr(Executor, "ndump", 0) + 1
                open("/tmp/dump/%d_%s.smt2" % (Executor.ndump, r), "w").write("(set-logic ALL)\n" + x.to_smt2())
            print("SLOW %.1f %s npc=%d %s" % (time.time() - t, r, len(st.pc), str(extra)[:700].replace("\n", " ")))
        return str(r)

    def feasible(self, st, c):
        if c is True:
            return True
        if c is False:
            return False
        for x in reversed(st.pc[-12:]):
            if x.eq(c):
                return True
        n = b_not(c)
        if not isc(n):
            for x in reversed(st.pc[-12:]):
                if x.eq(n):
                    return False
        return self.sat(st, c) != "unsat"

    def valid(self, st, c, timeout=4000):
        if c is True:
            return True
        if c is False:
            return self.sat(st, None, timeout) == "unsat"
        n = b_not(c) if not isc(b_not(c)) else z3.BoolVal(b_not(c))
        r = self.sat(st, n, timeout, True)
        if r == "unsat":
            return True
        if flt.predicates(c):
            return self.real_check(st, n, timeout)[0] == "unsat"
        return False

    def real_check(self, st, n, timeout):
        """exact floating-point semantics: first on the float-related facts only, then on everything"""
        from .loops import syms
        rel = [c for c in st.pc if flt.mentions(c)]
        gs = {x for x in syms(n) if x not in flt._INFO}
        pure = [c for c in rel if {x for x in syms(c) if x not in flt._INFO} <= gs]
        last = ("unknown", None)
        timeout = int(max(timeout, 10000) * self.tm)
        for facts in ((pure,) if len(pure) < len(rel) else ()) + ((rel, st.pc) if len(rel) < len(st.pc) else (rel,)):
            try:
                fs = flt.concretise(list(facts) + [n])
            except KeyError:
                return "unknown", None
            s = z3.Solver()
            s.set("timeout", timeout)
            for f in fs:
                s.add(f)
            self.nq += 1
            t = time.time()
            r = str(s.check())
            self.tq += time.time() - t
            if loops_debug and time.time() - t > 1:
                print("SLOWFP %.1f %s %d facts=%d" % (time.time() - t, r, len(fs), len(rel)), str(n)[:300])
            if r == "unsat":
                return "unsat", None
            last = (r, s.model() if r == "sat" else None)
        return last

    def quick_valid(self, c):
        if self.cur is None:
            return False
        c = norm(z3.simplify(c))
        if isc(c):
            return c
        return self.valid(self.cur, c, 1500)

    # ---------- obligations ----------
    def where(self, inst):
        fn = self.fnstack[-1] if self.fnstack else "?"
        fn = re.sub(r"\(.*", "", fn) if fn else fn
        return "%s:%s" % (fn, inst.line if inst is not None else "-")

    def oblige(self, st, cond, kind, inst=None, detail=""):
        """obligation; afterwards the condition is assumed.  Returns False if the path dies."""
        if not isc(cond):
            s = z3.simplify(cond)
            if z3.is_true(s):
                cond = True
            elif z3.is_false(s):
                cond = False
        if self.silent:
            if cond is False:
                return False
            st.add(cond)
            if cond is not True and self.sat(st) == "unsat":
                return False
            return True
        name = kind if inst is None else "%s@%s" % (kind, self.where(inst))
        name = self.prefix + name
        tgt = self.sink if self.sink is not None else self.obl
        o = tgt.get(name)
        if o is None:
            o = tgt[name] = Oblig(name, kind)
        o.n += 1
        if cond is True:
            o.backend["simplifier"] = o.backend.get("simplifier", 0) + 1
            return True
        t = time.time()
        res, be, model = self.prove(st, cond)
        o.t += time.time() - t
        if res == "valid":
            o.backend[be] = o.backend.get(be, 0) + 1
            st.add(cond)
            return True
        o.ok = False
        if res == "unknown":
            o.undecided = True
        if o.model is None:
            o.model = model
            o.detail = "%s %s: %s" % (res, detail, str(cond)[:600])
        st.add(cond)
        if cond is False or self.sat(st) == "unsat":
            return False
        return True

    def prove(self, st, cond):
        """-> (valid|sat|unknown, backend, model)"""
        neg = b_not(cond)
        if isc(neg):
            neg = z3.BoolVal(neg)
        r = self.sat(st, neg, 5000)
        if r == "unsat":
            return "valid", "z3", None
        if r == "sat" and flt.mentions(neg) or (r == "sat" and any(flt.mentions(c) for c in st.pc)):
            r, m = self.real_check(st, neg, self.ob_timeout)
            if r == "unsat":
                return "valid", "z3-fp", None
            return ("sat" if r == "sat" else "unknown"), "z3-fp", m
        if r == "sat":
            return "sat", "z3", self.last_model
        # fresh solver
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget")
        s = z3.Solver()
        s.set("timeout", int(self.ob_timeout * self.tm))
        for c in st.pc:
            s.add(c)
        s.add(neg)
        r = str(s.check())
        if r == "unsat":
            return "valid", "z3-fresh", None
        if r == "sat":
            return "sat", "z3-fresh", s.model()
        r = self.cvc5(s)
        if r == "unsat":
            return "valid", "cvc5", None
        return "unknown", "none", None

    def cvc5(self, s, tmo=None):
        import subprocess, tempfile, os
        tmo = tmo or int(self.ob_timeout * self.tm)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % tmo, "--lang=smt2", "-"], input=txt, text=True,
                               capture_output=True, timeout=tmo / 1000 + 10)
            return p.stdout.strip().split("\n")[0]
        except Exception:
            return "unknown"

    # ---------- regions ----------
    def new_region(self, st, name, size, arrays=None, layout=None, writable=True, kind="obj", bits=True, log=None):
        self.nreg += 1
        r = Region(self.nreg, name, size, arrays, layout, writable, kind, bits)
        self.regions[r.id] = r
        st.mem[r.id] = RegMem({}, log if log is not None else Base(name, self.d, bits), st.id)
        return r

    def region_of_type(self, st, name, ty, **kw):
        scal, arrs = flatten(ty)
        return self.new_region(st, name, ty.size, arrs, scal, **kw)

    def wmem(self, st, rid):
        rm = st.mem[rid]
        if rm.owner != st.id:
            rm = RegMem(dict(rm.slots), rm.log, st.id)
            st.mem[rid] = rm
        return rm

    def global_ptr(self, st, g):
        if g.name in self.greg:
            rid = self.greg[g.name]
            if rid not in st.mem:
                r = self.regions[rid]
                self.init_global(st, r, g)
            return Ptr(rid, 0)
        scal, arrs = flatten(g.vty)
        self.nreg += 1
        r = Region(self.nreg, "@" + g.name, g.vty.size, arrs, scal, not g.const, "global")
        self.regions[r.id] = r
        self.greg[g.name] = r.id
        self.init_global(st, r, g)
        return Ptr(r.id, 0)

    def init_global(self, st, r, g):
        rm = RegMem({}, None, st.id)
        st.mem[r.id] = rm
        if g.init is None or not (g.const or getattr(self, "init_globals", False)):
            rm.log = Base(g.name, self.d)
            return
        data = bytearray(g.vty.size)
        self.fill_const(st, rm, data, 0, g.init)
        rm.log = Bytes(bytes(data))

    def fill_const(self, st, rm, data, off, c):
        if isinstance(c, llvm.Const):
            if c.k in ("zero", "undef"):
                if c.ty.k == "ptr":
                    rm.slots[off] = (8, Ptr(None, 0))
                elif c.ty.k in ("struct", "array"):
                    scal, _ = flatten(c.ty)
                    for o, (sz, k) in scal.items():
                        if k == "ptr":
                            rm.slots[off + o] = (8, Ptr(None, 0))
                return
            if c.k == "str":
                data[off:off + len(c.v)] = c.v
                return
            if c.k == "int":
                data[off:off + c.ty.size] = (c.v & ((1 << (8 * c.ty.size)) - 1)).to_bytes(c.ty.size, "little")
                return
            if c.k == "agg":
                for i, e in enumerate(c.ops):
                    o = c.ty.offs[i] if c.ty.k == "struct" else i * c.ty.elems[0].size
                    self.fill_const(st, rm, data, off + o, e)
                return
            if c.k == "fp":
                import struct
                data[off:off + c.ty.size] = struct.pack("<f" if c.ty.k == "float" else "<d", c.v)
                return
        v = self.val(st, None, c)
        rm.slots[off] = (8, v)

    # ---------- log reads ----------
    def log_read(self, st, node, off, size, kind):
        """typed read; returns a domain value / pointer / float"""
        n = node
        while True:
            if isinstance(n, Wr):
                if same(n.off, off) and n.size == size:
                    return self.cast_kind(n.val, size, kind)
                if isc(n.off) and isc(off) and (n.off + n.size <= off or off + size <= n.off):
                    n = n.p
                    continue
                dlt = self.d.off_sub(n.off, off)
                if isc(dlt):
                    dl = self.d.sgn(dlt, 64) if self.d.name == "bv" else dlt
                    if dl >= size or dl <= -n.size:
                        n = n.p
                        continue
                break
            if isinstance(n, IteN):
                a = self.log_read(st, n.a, off, size, kind)
                b = self.log_read(st, n.b, off, size, kind)
                return self.ite_val(n.c, a, b, size * 8)
            break
        if isinstance(n, Base) and not n.bits and kind == "int":
            return self.uf_read(st, n, off, size)
        if kind == "ptr":
            raise Unsupported("pointer read from byte memory")
        bs = [self.byte_read(st, n, self.d.off_add(off, i)) for i in range(size)]
        return self.cast_kind(self.d.unbytes(bs), size, kind)

    def uf_read(self, st, n, off, size):
        f = n.ufs.get(size)
        if f is None:
            f = n.ufs[size] = z3.Function("%s_%d" % (n.name, size), z3.IntSort(), z3.IntSort())
        o = z3.simplify(self.d.mkoff(off))
        key = (size, o.get_id())
        if key not in n.cache:
            u = f(o)
            self.d.keep += [u, o]
            n.cache[key] = (u, self.d.uval(u, 8 * size))
        u, v = n.cache[key]
        fact = z3.And(u >= 0, u < (1 << (8 * size)))
        st.add(fact)
        return v

    def byte_read(self, st, n, off):
        d = self.d
        chain = []
        while True:
            if isinstance(n, Wr):
                dlt = d.off_sub(off, n.off)
                if isc(dlt):
                    dl = d.sgn(dlt, 64) if d.name == "bv" else dlt
                    if 0 <= dl < n.size:
                        v = self.val_byte(n.val, dl, n.size)
                        break
                    n = n.p
                    continue
                if n.size == 1:
                    chain.append((d.icmp("eq", off, n.off, 64), self.val_byte(n.val, 0, 1)))
                else:
                    for i in range(n.size):
                        chain.append((d.icmp("eq", off, d.off_add(n.off, i), 64), self.val_byte(n.val, i, n.size)))
                n = n.p
                continue
            if isinstance(n, (Copy, Fill, Fn)):
                rel = d.off_sub(off, n.off)
                if d.name == "bv":
                    c = d.icmp("ult", rel, n.n, 64)
                else:
                    c = b_and(d.icmp("sge", rel, 0, 64), d.icmp("slt", rel, n.n, 64))
                if c is not False:
                    if isinstance(n, Copy):
                        v = self.reg_byte(st, n.src, d.off_add(n.soff, rel))
                    elif isinstance(n, Fill):
                        v = n.val
                    else:
                        v = n.f(off)
                    if c is True:
                        break
                    chain.append((c, v))
                n = n.p
                continue
            if isinstance(n, IteN):
                v = d.ite(n.c, self.byte_read(st, n.a, off), self.byte_read(st, n.b, off), 8)
                break
            if isinstance(n, Bytes):
                if isc(off):
                    o = d.sgn(off, 64) if d.name == "bv" else off
                    v = d.const(n.data[o], 8) if 0 <= o < len(n.data) else 0
                elif len(n.data) <= 64:
                    v = d.const(n.data[-1], 8) if n.data else 0
                    for i in range(len(n.data) - 2, -1, -1):
                        v = d.ite(d.icmp("eq", off, i, 64), d.const(n.data[i], 8), v, 8)
                else:
                    if n.arr is None:
                        a = z3.K(d.idx_sort(), z3.BitVecVal(0, 8))
                        for i, x in enumerate(n.data):
                            a = z3.Store(a, d.mkoff(i), z3.BitVecVal(x, 8))
                        n.arr = a
                    t = z3.Select(n.arr, d.mkoff(off))
                    v = t if d.name == "bv" else d.frombits(t, 8)
                break
            if isinstance(n, Base):
                if not n.bits:
                    v = self.uf_read(st, n, off, 1)
                    break
                o = z3.simplify(d.mkoff(off))
                k = o.get_id()
                if k not in n.cache:
                    t = z3.Select(n.arr, o)
                    n.cache[k] = (o, t if d.name == "bv" else d.frombits(t, 8))
                v = n.cache[k][1]
                break
            raise Unsupported("log node")
        for c, x in reversed(chain):
            v = d.ite(c, x, v, 8)
        return v

    def reg_byte(self, st, rm, off):
        """byte of a region snapshot (slots + log)"""
        if not rm.slots:
            return self.byte_read(st, rm.log, off)
        n = rm.log
        for o, (sz, v) in sorted(rm.slots.items()):
            n = Wr(n, o, sz, v)
        return self.byte_read(st, n, off)

    def val_byte(self, v, i, size):
        if isinstance(v, (Ptr, FuncPtr, PtrInt)):
            raise Unsupported("byte of a pointer")
        if isinstance(v, Packed):
            o = 0
            for (po, ps), pv in v.parts:
                if po <= i < po + ps:
                    return self.val_byte(pv, i - po, ps)
            raise Unsupported("packed byte")
        if isinstance(v, FBits):
            return self.d.byte(v.bv, i, v.w)
        if isflt(v):
            return self.d.byte(fbits(v), i, size * 8)
        return self.d.byte(v, i, size * 8)

    def cast_kind(self, v, size, kind):
        if kind in ("float", "double"):
            if isflt(v):
                return v
            if isinstance(v, (Ptr, Packed)):
                raise Unsupported("float from pointer")
            return FBits(v, size * 8)
        if kind == "int":
            if isflt(v):
                return fbits(v)
            if isinstance(v, (Ptr, FuncPtr)):
                return PtrInt(v)
            return v
        if kind == "ptr":
            if isinstance(v, PtrInt):
                return v.p
            if isinstance(v, (Ptr, FuncPtr)):
                return v
            if isc(v) and v == 0:
                return Ptr(None, 0)
            raise Unsupported("pointer from integer bytes")
        return v

    # ---------- typed access ----------
    def interval(self, st, r, off, size):
        """array interval containing a symbolic access (or the whole region)"""
        if r.arrays is None:
            return (0, r.size)
        if isc(off):
            o = self.d.sgn(off, 64) if self.d.name == "bv" else off
            for lo, hi in r.arrays:
                if lo <= o < hi:
                    return (lo, hi)
            return (0, r.size)
        if len(r.arrays) == 1 and False:
            return r.arrays[0]
        cands = [a for a in r.arrays if self.feasible(st, self.in_cond(off, size, a))]
        for a in cands:
            if self.valid(st, self.in_cond(off, size, a)):
                return a
        if cands:
            return cands[0]
        return (0, r.size)

    def note_iv(self, rid, off, iv):
        """remember the array interval a symbolic write was proved to stay in"""
        if iv is not None and not isc(off):
            k = (rid, off.get_id())
            old = self.wr_iv.get(k)
            if old is not None:
                iv = (min(iv[0], old[1][0]), max(iv[1], old[1][1])) if isc(iv[1]) and isc(old[1][1]) else (0, self.regions[rid].size)
            self.wr_iv[k] = (off, iv)

    def in_cond(self, off, size, iv):
        c = self.d.off_in(off, size, iv[0], iv[1])
        return c

    def flush(self, rm, lo, hi):
        """push slots inside [lo,hi) into the log"""
        if not rm.slots:
            return
        if isc(lo) and isc(hi) and 4 < hi - lo <= 8192:
            data = bytearray(hi - lo)
            seen = 0
            for o, (sz, v) in rm.slots.items():
                if lo <= o < hi:
                    if not isc(v) or isinstance(v, bool) or o + sz > hi:
                        seen = -1
                        break
                    data[o - lo:o - lo + sz] = (int(v) & ((1 << (8 * sz)) - 1)).to_bytes(sz, "little")
                    seen += sz
            if seen == hi - lo:
                for o in [o for o in rm.slots if lo <= o < hi]:
                    del rm.slots[o]
                b = Bytes(bytes(data))
                if lo == 0 and not rm.slots and isinstance(rm.log, Base):
                    rm.log = b
                else:
                    rm.log = Fn(rm.log, lo, hi - lo, lambda off, b=b, lo=lo: self.byte_read(self.cur, b, self.d.off_sub(off, lo)))
                return
        for o in sorted(rm.slots):
            if (not isc(lo) or o >= lo) and (not isc(hi) or o < hi):
                sz, v = rm.slots.pop(o)
                rm.log = Wr(rm.log, o, sz, v)

    def access(self, st, p, size, inst, write):
        """bounds/null/permission obligations; returns (region, off, interval) or None when the path dies"""
        if isinstance(p, PtrInt):
            p = p.p
        if not isinstance(p, Ptr):
            if isinstance(p, FuncPtr):
                raise Unsupported("access through function pointer")
            raise Unsupported("access through %r" % (p,))
        if p.r is None:
            self.oblige(st, False, "null-access", inst)
            return None
        r = self.regions[p.r]
        if p.r not in st.mem:
            self.oblige(st, False, "dangling", inst)
            return None
        if write and not r.writable:
            self.oblige(st, False, "write-const", inst, r.name)
            return None
        off = p.off
        if r.arrays is not None and not isc(off):
            iv = self.interval(st, r, off, size)
        elif r.arrays is None:
            iv = (0, r.size)
        else:
            o = self.d.sgn(off, 64) if self.d.name == "bv" else off
            iv = (0, r.size)
        c = self.d.off_in(off, size, iv[0], iv[1])
        if c is not True:
            if not self.oblige(st, c, "bounds-write" if write else "bounds-read", inst, r.name):
                return None
        return r, off, iv

    def load(self, st, p, ty, inst):
        if ty.k == "struct":
            out = []
            for e, o in zip(ty.elems, ty.offs):
                v = self.load(st, Ptr(p.r, self.d.off_add(p.off, o)), e, inst)
                if v is None:
                    return None
                out.append(v)
            return tuple(out)
        if ty.k == "array":
            out = []
            for i in range(ty.n):
                v = self.load(st, Ptr(p.r, self.d.off_add(p.off, i * ty.elems[0].size)), ty.elems[0], inst)
                if v is None:
                    return None
                out.append(v)
            return tuple(out)
        if ty.k not in ("int", "ptr", "float", "double"):
            raise Unsupported("load " + ty.k)
        size = ty.size if ty.k != "int" else (ty.bits + 7) // 8
        a = self.access(st, p, size, inst, False)
        if a is None:
            return None
        r, off, iv = a
        ax = self.load_axioms.get(r.id)
        if ax:
            ax(self, st, off, size)
        v = self.read(st, r, off, size, ty.k, iv)
        if ty.k == "int" and ty.bits == 1:
            v = self.d.trunc(v, 8, 1)
        return v

    def read(self, st, r, off, size, kind, iv=None):
        d = self.d
        rm = st.mem[r.id]
        if isc(off):
            o = d.sgn(off, 64) if d.name == "bv" else off
            s = rm.slots.get(o)
            if s is not None and s[0] == size:
                return self.cast_kind(s[1], size, kind)
            ov = [(x, rm.slots[x]) for x in range(max(0, o - 15), o + size)
                  if x in rm.slots and x + rm.slots[x][0] > o]
            if not ov:
                # materialise from the log, cache as slot when it is a scalar field
                v = self.mat(st, r, rm, o, size, kind)
                return v
            # partial overlap
            if kind == "int" and all(o <= x and x + s[0] <= o + size for x, s in ov) and len(ov) > 1 and \
                    (d.name == "int" or any(isinstance(s[1], Ptr) or isflt(s[1]) for _, s in ov)):
                parts = []
                pos = o
                ok = True
                for x, s in sorted(ov):
                    if x != pos:
                        ok = False
                        break
                    parts.append(((x - o, s[0]), s[1]))
                    pos = x + s[0]
                if ok and pos == o + size:
                    if not all(isc(pv) for _, pv in parts):
                        return Packed(tuple(parts), size)
            bs = []
            for i in range(size):
                y = o + i
                for x, s in ov:
                    if x <= y < x + s[0]:
                        bs.append(self.val_byte(s[1], y - x, s[0]))
                        break
                else:
                    bs.append(self.byte_read(st, rm.log, y))
            return self.cast_kind(d.unbytes(bs), size, kind)
        # symbolic offset
        lo, hi = iv if iv else (0, r.size)
        if any((not isc(lo) or o >= lo) and (not isc(hi) or o < hi) for o in rm.slots):
            rm = self.wmem(st, r.id)
            self.flush(rm, lo, hi)
        return self.log_read(st, rm.log, off, size, kind)

    def mat(self, st, r, rm, o, size, kind):
        if kind == "int" and size == 8 and r.layout and self.d.name == "int":
            parts = []
            pos = o
            while pos < o + size and pos in r.layout and r.layout[pos][0] < 8:
                sz, k = r.layout[pos]
                parts.append(((pos - o, sz), self.read(st, r, pos, sz, k)))
                pos += sz
            if pos == o + size:
                return Packed(tuple(parts), size)
        if isinstance(rm.log, Base) and r.layout is not None and o in r.layout and r.layout[o][0] == size:
            if kind == "ptr":
                raise Unsupported("uninitialised pointer in %s+%d" % (r.name, o))
            rm2 = self.wmem(st, r.id)
            if kind == "int":
                v = self.d.fresh("%s.%d" % (r.name, o), size * 8)
            else:
                v = fconst(fresh_name("%s.%d" % (r.name, o)), size * 8)
            rm2.slots[o] = (size, v)
            self.keepv = v
            if self.d.name == "int" and kind == "int":
                lo, hi = self.d.range[v.get_id()]
                st.add(z3.And(v >= lo, v <= hi))
            return v
        return self.log_read(st, rm.log, o, size, kind)

    def store(self, st, p, v, ty, inst):
        if ty.k in ("struct", "array"):
            for i, e in enumerate(ty.elems if ty.k == "struct" else ty.elems * ty.n):
                o = ty.offs[i] if ty.k == "struct" else i * e.size
                if v is UNDEF:
                    continue
                if not self.store(st, Ptr(p.r, self.d.off_add(p.off, o)), v[i], e, inst):
                    return False
            return True
        size = ty.size if ty.k != "int" else (ty.bits + 7) // 8
        if ty.k == "int" and ty.bits == 1:
            v = self.d.zext(v, 1, 8)
        a = self.access(st, p, size, inst, True)
        if a is None:
            return False
        r, off, iv = a
        h = self.hooks.get("store")
        if h:
            h(self, st, r, off, size, v)
        if v is UNDEF:
            v = self.d.fresh("undef", size * 8) if ty.k == "int" else v
            if v is UNDEF:
                return True
        self.write(st, r, off, size, v, iv)
        return True

    def write(self, st, r, off, size, v, iv=None):
        d = self.d
        rm = self.wmem(st, r.id)
        if self.wr_log is not None:
            self.wr_log.append((r.id, off, size, v))
            self.note_iv(r.id, off, iv)
        if isc(off):
            o = d.sgn(off, 64) if d.name == "bv" else off
            if isinstance(v, Packed):
                for (po, ps), pv in v.parts:
                    self.write(st, r, o + po, ps, pv, iv)
                return
            if isc(v) and size == 8 and r.layout and o in r.layout and r.layout[o][0] == 4 and d.name == "int":
                u = v & (2**64 - 1)
                self.write(st, r, o, 4, d.const(u & 0xffffffff, 32), iv)
                self.write(st, r, o + 4, 4, d.const(u >> 32, 32), iv)
                return
            # split partially overlapped older slots
            s = rm.slots.get(o)
            if s is None or s[0] != size:
                for x in [x for x in range(max(0, o - 15), o + size) if x in rm.slots and x + rm.slots[x][0] > o]:
                    sz, ov = rm.slots.pop(x)
                    if x < o or x + sz > o + size:
                        for i in range(sz):
                            if not (o <= x + i < o + size):
                                rm.slots[x + i] = (1, self.val_byte(ov, i, sz))
            rm.slots[o] = (size, v)
            return
        lo, hi = iv if iv else (0, r.size)
        self.flush(rm, lo, hi)
        if isinstance(v, Packed):
            for (po, ps), pv in v.parts:
                rm.log = Wr(rm.log, d.off_add(off, po), ps, pv)
            return
        rm.log = Wr(rm.log, off, size, v)

    # ---------- bulk memory ----------
    def memcopy(self, st, dst, src, n, inst, overlap_ok):
        d = self.d
        if isc(n) and n == 0:
            return True
        nz = d.icmp("ne", n, 0, 64)
        for p, what in ((src, "read"), (dst, "write")):
            if p.r is None:
                if not self.oblige(st, b_not(nz), "null-access", inst, "copy of a non-empty range"):
                    return False
                return True
        rs, rd = self.regions[src.r], self.regions[dst.r]
        if src.r not in st.mem or dst.r not in st.mem:
            self.oblige(st, False, "dangling", inst)
            return False
        ivs, ivd = self.interval(st, rs, src.off, n), self.interval(st, rd, dst.off, n)
        if isc(src.off) and rs.arrays is not None and isc(n):
            ivs = (0, rs.size)
        if isc(dst.off) and rd.arrays is not None and isc(n):
            ivd = (0, rd.size)
        c = d.off_in(src.off, n, *ivs)
        c = b_or(b_not(nz), c)
        if c is not True and not self.oblige(st, c, "bounds-read", inst, rs.name):
            return False
        c = b_or(b_not(nz), d.off_in(dst.off, n, *ivd))
        if c is not True and not self.oblige(st, c, "bounds-write", inst, rd.name):
            return False
        if not rd.writable:
            if not self.oblige(st, b_not(nz), "write-const", inst, rd.name):
                return False
        if not overlap_ok and src.r == dst.r:
            dl = d.off_sub(dst.off, src.off)
            # identical or disjoint
            if d.name == "bv":
                ok = b_or(d.icmp("eq", dl, 0, 64), b_and(d.icmp("uge", dl, n, 64),
                                                         d.icmp("uge", d.off_sub(0, dl), n, 64)), b_not(nz))
            else:
                ok = b_or(d.icmp("eq", dl, 0, 64), d.icmp("sge", dl, n, 64),
                          d.icmp("sle", d.off_add(dl, n), 0, 64), b_not(nz))
            if not self.oblige(st, ok, "memcpy-overlap", inst):
                return False
        h = self.hooks.get("store")
        if h:
            h(self, st, rd, dst.off, n, None)
        ax = self.load_axioms.get(rs.id)
        if ax:
            ax(self, st, src.off, n)
        sm = st.mem[src.r]
        if isc(n) and n <= 64 and isc(src.off):
            so = d.sgn(src.off, 64) if d.name == "bv" else src.off
            parts = []
            pos = so
            end = so + n
            ok = True
            while pos < end:
                s = sm.slots.get(pos)
                if s is not None and pos + s[0] <= end:
                    parts.append((pos - so, s[0], s[1]))
                    pos += s[0]
                    continue
                if rs.layout and pos in rs.layout and pos + rs.layout[pos][0] <= end and \
                        not any(pos < x < pos + rs.layout[pos][0] for x in sm.slots):
                    sz, k = rs.layout[pos]
                    try:
                        parts.append((pos - so, sz, self.read(st, rs, pos, sz, k)))
                    except Unsupported:
                        pass        # uninitialised pointer: stays unknown
                    sm = st.mem[src.r]
                    pos += sz
                    continue
                if rs.layout is not None and rs.arrays is not None and not any(lo <= pos < hi for lo, hi in rs.arrays):
                    pos += 1        # padding
                    continue
                try:
                    parts.append((pos - so, 1, self.read(st, rs, pos, 1, "int")))
                except Unsupported:
                    ok = False
                    break
                sm = st.mem[src.r]
                pos += 1
            if ok:
                for o, sz, v in parts:
                    self.write(st, rd, d.off_add(dst.off, o), sz, v, ivd)
                return True
        if isc(n) and n <= 16:
            vals = [self.read(st, rs, d.off_add(src.off, i), 1, "int", ivs) for i in range(n)]
            for i, v in enumerate(vals):
                self.write(st, rd, d.off_add(dst.off, i), 1, v, ivd)
            return True
        snap = st.mem[src.r]
        snap = RegMem(dict(snap.slots), snap.log, -1)
        rm = self.wmem(st, dst.r)
        self.flush(rm, *ivd)
        if self.wr_log is not None:
            self.wr_log.append((rd.id, dst.off, n, None))
            self.note_iv(rd.id, dst.off, ivd)
        rm.log = Copy(rm.log, dst.off, n, snap, src.off)
        return True

    def memset(self, st, dst, byte, n, inst):
        d = self.d
        if isc(n) and n == 0:
            return True
        nz = d.icmp("ne", n, 0, 64)
        if dst.r is None:
            return self.oblige(st, b_not(nz), "null-access", inst)
        rd = self.regions[dst.r]
        iv = self.interval(st, rd, dst.off, n)
        if isc(dst.off) and rd.arrays is not None and isc(n):
            o = d.sgn(dst.off, 64) if d.name == "bv" else dst.off
            if not (isc(iv[0]) and isc(iv[1]) and iv[0] <= o and o + n <= iv[1]):
                iv = (0, rd.size)
        c = b_or(b_not(nz), d.off_in(dst.off, n, *iv))
        if c is not True and not self.oblige(st, c, "bounds-write", inst, rd.name):
            return False
        h = self.hooks.get("store")
        if h:
            h(self, st, rd, dst.off, n, None)
        if isc(n) and isc(dst.off) and n <= 256 and rd.arrays is not None:
            o = d.sgn(dst.off, 64) if d.name == "bv" else dst.off
            pos = o
            while pos < o + n:
                if rd.layout and pos in rd.layout and pos + rd.layout[pos][0] <= o + n:
                    sz, k = rd.layout[pos]
                    if isc(byte) and byte == 0:
                        v = Ptr(None, 0) if k == "ptr" else (0 if k == "int" else FBits(0, sz * 8))
                        self.write(st, rd, pos, sz, v)
                        pos += sz
                        continue
                self.write(st, rd, pos, 1, byte)
                pos += 1
            return True
        rm = self.wmem(st, dst.r)
        self.flush(rm, *iv)
        if self.wr_log is not None:
            self.wr_log.append((rd.id, dst.off, n, None))
            self.note_iv(rd.id, dst.off, iv)
        rm.log = Fill(rm.log, dst.off, n, byte)
        return True

    # ---------- values ----------
    def ite_val(self, c, a, b, w):
        if c is True or same(a, b):
            return a
        if c is False:
            return b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r != b.r:
                raise Unsupported("merge of pointers into different objects")
            return Ptr(a.r, self.d.ite(c, a.off, b.off, 64))
        if isinstance(a, tuple):
            raise Unsupported("merge of aggregates")
        if isinstance(a, Packed) or isinstance(b, Packed):
            if isinstance(a, Packed) and isinstance(b, Packed) and [k for k, _ in a.parts] == [k for k, _ in b.parts]:
                return Packed(tuple((k, self.ite_val(c, x, y, k[1] * 8)) for (k, x), (_, y) in
                                    zip(a.parts, b.parts)), a.size)
            raise Unsupported("merge of packed values")
        if isflt(a) or isflt(b):
            return z3.If(c, fpval(a), fpval(b))
        if isinstance(a, (FuncPtr, PtrInt)) or isinstance(b, (FuncPtr, PtrInt, Ptr)) or a is UNDEF or b is UNDEF:
            raise Unsupported("merge of special values")
        return self.d.ite(c, a, b, w)

    def ite_ty(self, c, a, b, ty):
        if same(a, b):
            return a
        if ty.k == "struct":
            return tuple(self.ite_ty(c, x, y, e) for x, y, e in zip(a, b, ty.elems))
        if ty.k == "array":
            return tuple(self.ite_ty(c, x, y, ty.elems[0]) for x, y in zip(a, b))
        return self.ite_val(c, a, b, ty.bits if ty.k == "int" else 64)

    def val(self, st, env, o):
        if isinstance(o, (llvm.Inst, llvm.Arg)):
            return env[o.id]
        if isinstance(o, llvm.Const):
            if o.k == "int":
                return self.d.const(o.v, o.ty.bits)
            if o.k == "zero":
                return self.zero(o.ty)
            if o.k == "undef":
                if o.ty.k in ("struct", "array"):
                    return tuple(UNDEF for _ in range(len(o.ty.elems) if o.ty.k == "struct" else o.ty.n))
                return UNDEF
            if o.k == "fp":
                return flit(o.v, 32 if o.ty.k == "float" else 64)
            if o.k == "expr":
                ops = [self.val(st, env, x) for x in o.ops]
                if o.op == "gep":
                    return self.gep(ops[0], ops[1:], o.sty, [x.ty.bits for x in o.ops[1:]])
                if o.op in ("bitcast",):
                    return ops[0]
                if o.op == "ptrtoint":
                    return PtrInt(ops[0])
                if o.op == "inttoptr" and isc(ops[0]):
                    return Ptr(None, ops[0])        # an address of no object
            if o.k == "agg":
                return tuple(self.val(st, env, x) for x in o.ops)
            if o.k == "str":
                return tuple(o.v)
            raise Unsupported("constant " + o.k + str(o.op or ""))
        if isinstance(o, llvm.Function):
            return FuncPtr(o.name)
        if isinstance(o, llvm.Global):
            return self.global_ptr(st, o)
        raise Unsupported("operand %r" % (o,))

    def zero(self, ty):
        if ty.k == "int":
            return False if ty.bits == 1 else 0
        if ty.k == "ptr":
            return Ptr(None, 0)
        if ty.k in ("float", "double"):
            return flit(0.0, 32 if ty.k == "float" else 64)
        if ty.k == "struct":
            return tuple(self.zero(e) for e in ty.elems)
        if ty.k == "array":
            return tuple(self.zero(ty.elems[0]) for _ in range(ty.n))
        raise Unsupported("zero " + ty.k)

    def gep(self, base, idx, sty, widths):
        d = self.d
        if isinstance(base, PtrInt):
            base = base.p
        if not isinstance(base, Ptr):
            raise Unsupported("gep on %r" % (base,))
        off = base.off
        ty = sty
        for k, (i, w) in enumerate(zip(idx, widths)):
            if k == 0:
                sz = ty.size
            elif ty.k == "struct":
                off = d.off_add(off, ty.offs[i])
                ty = ty.elems[i]
                continue
            else:
                ty = ty.elems[0]
                sz = ty.size
            if isinstance(i, PtrInt):
                raise Unsupported("pointer as index")
            if w != 64:
                i = d.sext(i, w, 64)
            off = d.off_add(off, d.off_mulc(i, sz))
        return Ptr(base.r, off)

    # ---------- functions ----------
    def contract_for(self, fn):
        if fn.name in self.ccache:
            return self.ccache[fn.name]
        r = None
        for pat, h in self.contracts:
            if re.search(pat, fn.dname) or re.search(pat, fn.name):
                r = h
                break
        self.ccache[fn.name] = r
        return r

    def call(self, st, callee, args, inst, fty=None):
        """-> list of (state, retval)"""
        if isinstance(callee, FuncPtr):
            n = callee.name
            if n.startswith("contract:"):
                return self.named[n[9:]](self, st, args, inst)
            callee = self.m.funcs[n]
        if not isinstance(callee, llvm.Function):
            raise Unsupported("indirect call")
        nm = callee.name
        if nm.startswith("llvm."):
            return self.intrinsic(st, nm, args, inst)
        h = self.contract_for(callee)
        if h is not None:
            self.assumed.add(re.sub(r"\(.*", "", callee.dname))
            r = h(self, st, args, inst)
            return r
        if callee.decl:
            lc = LIBC.get(nm)
            if lc:
                self.assumed.add(nm)
                return lc(self, st, args, inst)
            raise Unsupported("call of external " + callee.dname)
        if self.depth >= self.maxdepth:
            if self.oblige(st, False, "recursion-depth", inst):
                raise Unsupported("recursion")
            return []
        return self.inline(st, callee, args, inst)

    def inline(self, st, fn, args, inst):
        self.calls.add(fn.dname)
        env = {}
        for a, v in zip(fn.args, args):
            env[a.id] = v
        base = len(st.pc)
        pre = set(st.mem)
        self.depth += 1
        self.fnstack.append(fn.dname)
        try:
            rets, ex, bk = self.run(fn, [(fn.blocks[0], None, env, st)], None)
        finally:
            self.depth -= 1
            self.fnstack.pop()
        for s, v in rets:
            for rid in list(s.mem):
                if rid not in pre and self.regions[rid].kind == "stack":
                    del s.mem[rid]
        if len(rets) > 1 and not self.no_merge:
            rets = self.merge(rets, base, fn.fty.ret)
        return rets

    def merge(self, rets, base, ty):
        groups = []
        for s, v in rets:
            placed = False
            for g in groups:
                if self.same_state(g[0], s) and (v is g[1] or same(v, g[1]) or v is None):
                    g[2].append(s)
                    placed = True
                    break
            if not placed:
                groups.append([s, v, [s]])
        # collapse identical results
        flat = []
        for s, v, ss in groups:
            if len(ss) == 1:
                flat.append((s, v, b_and(*s.pc[base:])))
            else:
                g = b_or(*[b_and(*x.pc[base:]) for x in ss])
                g2 = self.simp(g)
                flat.append((s, v, g2))
        cur = None
        out = []
        for s, v, g in flat:
            if cur is None:
                cur = (s, v, g)
                continue
            try:
                cur = self.merge2(cur, (s, v, g), base, ty)
            except Unsupported:
                out.append(cur)
                cur = (s, v, g)
        out.append(cur)
        res = []
        for s, v, g in out:
            if len(out) == len(rets):
                res.append((s, v))
                continue
            s.pc = s.pc[:base]
            if g is not True:
                s.add(g)
            res.append((s, v))
        return res

    def simp(self, g):
        if isc(g):
            return g
        return norm(z3.simplify(g))

    def same_state(self, a, b):
        for k in set(a.gh) | set(b.gh):
            if not same(a.gh.get(k), b.gh.get(k)):
                return False
        ks = set(a.mem) & set(b.mem)
        for r in ks:
            x, y = a.mem[r], b.mem[r]
            if x is y:
                continue
            if x.log is not y.log or len(x.slots) != len(y.slots):
                return False
            for o, s in x.slots.items():
                t = y.slots.get(o)
                if t is None or (t is not s and (t[0] != s[0] or not same(t[1], s[1]))):
                    return False
        return True

    def merge2(self, A, Bt, base, ty):
        (a, va, ga), (b, vb, gb) = A, Bt
        c = gb          # c selects b
        if c is True or ga is True:
            raise Unsupported("merge")
        n = State()
        n.pc = list(a.pc[:base])
        v = None
        if va is not None:
            v = self.ite_ty(c, vb, va, ty)
        for k in set(a.gh) | set(b.gh):
            x, y = a.gh.get(k), b.gh.get(k)
            if same(x, y):
                n.gh[k] = x
            else:
                n.gh[k] = self.gh_ite(c, y, x)
        for r in set(a.mem) & set(b.mem):
            x, y = a.mem[r], b.mem[r]
            if x is y:
                n.mem[r] = x
                continue
            rm = RegMem({}, x.log if x.log is y.log else IteN(c, y.log, x.log), n.id)
            n.mem[r] = rm
            offs = set(x.slots) | set(y.slots)
            for o in offs:
                sx, sy = x.slots.get(o), y.slots.get(o)
                if sx is not None and sy is not None and sx[0] == sy[0]:
                    rm.slots[o] = (sx[0], self.ite_val(c, sy[1], sx[1], sx[0] * 8))
                    continue
                if sx is None or sy is None:
                    s = sx or sy
                    kind = "ptr" if isinstance(s[1], (Ptr, FuncPtr)) else \
                        ("float" if isflt(s[1]) else "int")
                    reg = self.regions[r]
                    if isinstance((x if sx is None else y).log, Base) and reg.kind == "stack":
                        rm.slots[o] = s      # other side never initialised it
                        continue
                    ox = self.read(a, reg, o, s[0], kind) if sx is None else sx[1]
                    oy = self.read(b, reg, o, s[0], kind) if sy is None else sy[1]
                    rm.slots[o] = (s[0], self.ite_val(c, oy, ox, s[0] * 8))
                    continue
                raise Unsupported("merge slot sizes")
        g = b_or(ga, gb)
        return n, v, self.simp(g) if not isc(g) else g

    def gh_ite(self, c, a, b):
        if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a):
            return b_ite(c, a, b)
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            srt = a.sort() if isinstance(a, z3.ExprRef) else b.sort()
            mk = lambda x: x if isinstance(x, z3.ExprRef) else \
                (z3.BitVecVal(x, srt.size()) if z3.is_bv_sort(srt) else z3.IntVal(x))
            return z3.If(c, mk(a), mk(b))
        if isinstance(a, int) and isinstance(b, int):
            return z3.If(c, z3.IntVal(a), z3.IntVal(b)) if self.d.name == "int" else \
                z3.If(c, z3.BitVecVal(a, 64), z3.BitVecVal(b, 64))
        raise Unsupported("merge of ghost values")

    def intrinsic(self, st, nm, args, inst):
        d = self.d
        if nm.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.stack", "llvm.experimental.noalias")):
            return [(st, None)]
        if nm.startswith("llvm.memcpy"):
            return [(st, None)] if self.memcopy(st, args[0], args[1], args[2], inst, False) else []
        if nm.startswith("llvm.memmove"):
            return [(st, None)] if self.memcopy(st, args[0], args[1], args[2], inst, True) else []
        if nm.startswith("llvm.memset"):
            return [(st, None)] if self.memset(st, args[0], args[1], args[2], inst) else []
        if nm.startswith("llvm.fabs"):
            return [(st, flt.f1("fabs", args[0]))]
        if nm.startswith("llvm.abs"):
            w = int(nm.split(".i")[-1])
            c = d.icmp("slt", args[0], 0, w)
            v, ob = d.bin("sub", 0, args[0], w, True)
            return [(st, d.ite(c, v, args[0], w))]
        m = re.match(r"llvm\.(umin|umax|smin|smax)\.i(\d+)", nm)
        if m:
            w = int(m.group(2))
            p = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[m.group(1)]
            return [(st, d.ite(d.icmp(p, args[0], args[1], w), args[0], args[1], w))]
        m = re.match(r"llvm\.bswap\.i(\d+)", nm)
        if m:
            w = int(m.group(1))
            bs = [d.byte(args[0], i, w) for i in range(w // 8)]
            return [(st, d.unbytes(bs[::-1]))]
        if nm.startswith("llvm.trap") or nm.startswith("llvm.ubsantrap"):
            self.oblige(st, False, "trap", inst)
            return []
        m = re.match(r"llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)", nm)
        if m:
            w = int(m.group(3))
            v, ob = d.bin(m.group(2), args[0], args[1], w, m.group(1) == "s", m.group(1) == "u")
            ok = b_and(*[c for _, c in ob])
            return [(st, (v, b_not(ok)))]
        m = re.match(r"llvm\.fsh([lr])\.i(\d+)", nm)
        raise Unsupported("intrinsic " + nm)

    # ---------- control ----------
    def run(self, fn, items, region):
        """Execute from the given (block, prev, env, state) items until they leave
        `region` (header id, block ids) or return.  -> (returns, exits, backs)"""
        loops = llvm.analyse_loops(fn)
        rets, exits, backs = [], [], []
        work = list(items)
        first = region is not None
        firsts = set(id(it[3]) for it in items) if region else set()
        while work:
            blk, prev, env, st = work.pop()
            if region is not None:
                if blk.id == region[0] and id(st) not in firsts:
                    backs.append((st, env, prev))
                    continue
                if blk.id not in region[1]:
                    exits.append((st, env, prev, blk))
                    continue
            if blk.id in loops and not (region is not None and blk.id == region[0]):
                r, e = self.loop(fn, blk, prev, env, st, loops[blk.id])
                rets += r
                for s2, env2, p2, b2 in e:
                    work.append((b2, p2, env2, s2))
                continue
            firsts.discard(id(st))
            self.block(fn, blk, prev, env, st, work, rets)
        return rets, exits, backs

    def block(self, fn, blk, prev, env, st, work, rets):
        d = self.d
        self.cur = st
        if region_phis(blk) and prev is not None:
            new = []
            for i in blk.insts:
                if i.op != "phi":
                    break
                for b, v in i.cases:
                    if b is prev:
                        new.append((i.id, self.val(st, env, v)))
                        break
                else:
                    raise Unsupported("phi")
            for k, v in new:
                env[k] = v
        pend = [(st, env, 0)]
        n = len(blk.insts)
        while pend:
            st, env, i = pend.pop()
            self.cur = st
            alive = True
            while i < n:
                ins = blk.insts[i]
                op = ins.op
                i += 1
                if op == "phi":
                    continue
                self.stats["insts"] += 1
                if op == "br":
                    if not ins.ops:
                        work.append((ins.blocks[0], blk, env, st))
                        break
                    c = self.val(st, env, ins.ops[0])
                    # LLVM successor order: 0 = true, 1 = false
                    self.branch(st, env, blk, [(c, ins.blocks[0]), (b_not(c) if c is not UNDEF else c, ins.blocks[1])], work)
                    break
                if op == "switch":
                    v = self.val(st, env, ins.ops[0])
                    w = ins.ops[0].ty.bits
                    opts, dflt = [], True
                    for cv, tb in ins.cases:
                        c = d.icmp("eq", v, d.const(cv, w), w)
                        opts.append((c, tb))
                        dflt = b_and(dflt, b_not(c))
                    opts.append((dflt, ins.blocks[0]))
                    self.branch(st, env, blk, opts, work)
                    break
                if op == "ret":
                    rv = self.val(st, env, ins.ops[0]) if ins.ops else None
                    rets.append((st, rv))
                    break
                if op == "unreachable":
                    self.oblige(st, False, "unreachable", ins)
                    break
                if op == "call":
                    callee = ins.callee
                    if isinstance(callee, (llvm.Inst, llvm.Arg)):
                        callee = env[callee.id]
                        if isinstance(callee, Ptr):
                            if callee.r is None:
                                self.oblige(st, False, "null-call", ins)
                                break
                            raise Unsupported("call of data pointer")
                    args = [self.val(st, env, a) for a in ins.ops]
                    outs = self.call(st, callee, args, ins)
                    if not outs:
                        break
                    first = True
                    for s2, rv in outs[1:]:
                        e2 = dict(env)
                        e2[ins.id] = rv
                        pend.append((s2, e2, i))
                    st, rv = outs[0]
                    if len(outs) > 1:
                        env = dict(env)
                    env[ins.id] = rv
                    self.cur = st
                    continue
                if op == "select":
                    c, a, b = (self.val(st, env, x) for x in ins.ops)
                    if isc(c):
                        env[ins.id] = a if c else b
                        continue
                    try:
                        env[ins.id] = self.ite_ty(c, a, b, ins.ty)
                        continue
                    except Unsupported:
                        pass
                    fa, fb = self.feasible(st, c), self.feasible(st, b_not(c))
                    if fa and fb:
                        s2 = st.fork()
                        s2.add(b_not(c))
                        e2 = dict(env)
                        e2[ins.id] = b
                        pend.append((s2, e2, i))
                        st.add(c)
                        env[ins.id] = a
                    else:
                        env[ins.id] = a if fa else b
                    continue
                r = self.inst(st, env, ins)
                if r is False:
                    break
                if isinstance(r, list):        # forked: [(state, value)]
                    if not r:
                        break
                    for s2, rv in r[1:]:
                        e2 = dict(env)
                        e2[ins.id] = rv
                        pend.append((s2, e2, i))
                    if len(r) > 1:
                        env = dict(env)
                    st, rv = r[0]
                    env[ins.id] = rv
                    self.cur = st

    def branch(self, st, env, blk, opts, work):
        if opts[0][0] is UNDEF:
            raise Unsupported("branch on undef")
        live = []
        for c, tb in opts:
            if c is False:
                continue
            if c is True:
                live = [(c, tb)]
                break
            live.append((c, tb))
        if len(live) > 1:
            live2 = [(c, tb) for c, tb in live if self.feasible(st, c)]
            live = live2
        if not live:
            return
        # merge same targets
        tg = {}
        for c, tb in live:
            tg.setdefault(tb.id, [tb, []])[1].append(c)
        lst = list(tg.values())
        if len(lst) > 1:
            self.stats["paths"] += len(lst) - 1
        for k, (tb, cs) in enumerate(lst):
            if k == len(lst) - 1:
                s2, e2 = st, env
            else:
                s2, e2 = st.fork(), dict(env)
            c = b_or(*cs)
            if c is not True:
                s2.add(c)
            work.append((tb, blk, e2, s2))

    def split_shift(self, dom, op, a, b, w, nsw):
        """INT domain: nested ite over the possible shift amounts"""
        st = self.cur
        n = None
        for lim in (8, 16, 32, 64):
            if lim <= w and self.valid(st, z3.And(b >= 0, b < lim)):
                n = lim
                break
        ob = []
        if n is None:
            n = w
            ob.append(("shift-range", z3.And(b >= 0, b < w)))
        if not (isc(a)):
            bv = dom.bvform.get(a.get_id())
        else:
            bv = None
        if isc(a):
            # value is a table; keep its bit form when it fits in 8/16 bits
            tab = []
            for k in range(n):
                v, o = dom.bin(op, a, k, w, nsw)
                tab.append(v)
            bits = max(8, max(abs(t) for t in tab).bit_length())
            r = z3.IntVal(tab[-1])
            rb = z3.BitVecVal(tab[-1], bits)
            for k in range(n - 2, -1, -1):
                r = z3.If(b == k, z3.IntVal(tab[k]), r)
                rb = z3.If(b == k, z3.BitVecVal(tab[k], bits), rb)
            dom.keep += [r, rb]
            if min(tab) >= 0:
                dom.bvform[r.get_id()] = rb
            dom.range[r.get_id()] = (min(tab), max(tab))
            return r, ob
        if bv is not None and (op == "lshr" or op == "ashr" or op == "shl"):
            m = bv.size() if op != "shl" else min(32, bv.size() + n)
            x = z3.ZeroExt(m - bv.size(), bv) if m > bv.size() else bv
            rb = None
            for k in range(n - 1, -1, -1):
                y = z3.LShR(x, k) if op != "shl" else x << k
                rb = y if rb is None else z3.If(b == k, y, rb)
            u = z3.BV2Int(rb)
            dom.keep += [u, rb]
            dom.bvform[u.get_id()] = rb
            dom.range[u.get_id()] = (0, (1 << m) - 1)
            return u, ob
        r = None
        for k in range(n - 1, -1, -1):
            v, o = dom.bin(op, a, k, w, nsw)
            r = v if r is None else dom.ite(b == k, v, r, w)
        return r, ob

    # ---------- plain instructions ----------
    def inst(self, st, env, ins):
        d = self.d
        op = ins.op
        if op == "alloca":
            r = self.region_of_type(st, "stk", ins.vty, kind="stack")
            env[ins.id] = Ptr(r.id, 0)
            return True
        if op == "load":
            p = self.val(st, env, ins.ops[0])
            v = self.load(st, p, ins.ty, ins)
            if v is None:
                return False
            env[ins.id] = v
            return True
        if op == "store":
            v = self.val(st, env, ins.ops[0])
            p = self.val(st, env, ins.ops[1])
            return self.store(st, p, v, ins.ops[0].ty, ins)
        if op == "gep":
            ops = [self.val(st, env, x) for x in ins.ops]
            env[ins.id] = self.gep(ops[0], ops[1:], ins.sty, [x.ty.bits for x in ins.ops[1:]])
            return True
        if op in BINOPS:
            a, b = self.val(st, env, ins.ops[0]), self.val(st, env, ins.ops[1])
            w = ins.ty.bits
            if a is UNDEF:
                a = d.fresh("undef", w)
            if b is UNDEF:
                b = d.fresh("undef", w)
            if isinstance(a, PtrInt) or isinstance(b, PtrInt):
                env[ins.id] = self.ptr_arith(st, op, a, b)
                return True
            if isinstance(a, Packed) or isinstance(b, Packed):
                if op in ("lshr", "ashr") and isc(b) and b % 8 == 0:
                    k = b // 8
                    parts = tuple(((o - k, s), v) for (o, s), v in a.parts if o >= k)
                    env[ins.id] = Packed(parts, a.size)
                    return True
                raise Unsupported("arithmetic on packed value")
            v, obs = d.bin(op, a, b, w, ins.nsw, ins.nuw)
            for k, c in obs:
                if not self.oblige(st, c, k, ins):
                    return False
            env[ins.id] = v
            return True
        if op == "icmp":
            a, b = self.val(st, env, ins.ops[0]), self.val(st, env, ins.ops[1])
            if ins.ops[0].ty.k == "ptr" or isinstance(a, PtrInt) or isinstance(b, PtrInt):
                env[ins.id] = self.ptr_cmp(st, ins.pred, a, b)
                return True
            w = ins.ops[0].ty.bits
            if a is UNDEF or b is UNDEF:
                raise Unsupported("compare with undef")
            r = d.icmp(ins.pred, a, b, w)
            if self.cmp_log is not None and not (isc(a) and isc(b)):
                self.cmp_log.append((ins.pred, a, b, w, r))
            env[ins.id] = r
            return True
        if op in ("zext", "sext", "trunc"):
            v = self.val(st, env, ins.ops[0])
            w = ins.ops[0].ty.bits
            if v is UNDEF:
                env[ins.id] = UNDEF
                return True
            if isinstance(v, Packed):
                if op == "trunc":
                    for (o, s), x in v.parts:
                        if o == 0 and s * 8 == ins.ty.bits:
                            env[ins.id] = x
                            return True
                raise Unsupported("cast of packed")
            if isinstance(v, PtrInt):
                raise Unsupported("cast of pointer")
            env[ins.id] = getattr(d, op)(v, w, ins.ty.bits)
            return True
        if op == "ptrtoint":
            p = self.val(st, env, ins.ops[0])
            env[ins.id] = 0 if isinstance(p, Ptr) and p.r is None and isc(p.off) and p.off == 0 else PtrInt(p)
            return True
        if op == "inttoptr":
            v = self.val(st, env, ins.ops[0])
            if isinstance(v, PtrInt):
                env[ins.id] = v.p
                return True
            if isc(v) and v == 0:
                env[ins.id] = Ptr(None, 0)
                return True
            raise Unsupported("inttoptr")
        if op in ("bitcast", "freeze"):
            v = self.val(st, env, ins.ops[0])
            if ins.ty.k in ("float", "double") and ins.ops[0].ty.k == "int":
                v = FBits(v, ins.ty.size * 8)
            elif ins.ty.k == "int" and ins.ops[0].ty.k in ("float", "double"):
                v = fbits(v)
            elif v is UNDEF and op == "freeze":
                v = d.fresh("freeze", ins.ty.bits)
            env[ins.id] = v
            return True
        if op == "extractvalue":
            v = self.val(st, env, ins.ops[0])
            for i in ins.idx:
                v = v[i]
            env[ins.id] = v
            return True
        if op == "insertvalue":
            v = list(self.val(st, env, ins.ops[0]))
            x = self.val(st, env, ins.ops[1])

            def put(t, idx):
                t = list(t)
                if len(idx) == 1:
                    t[idx[0]] = x
                else:
                    t[idx[0]] = put(t[idx[0]], idx[1:])
                return tuple(t)
            env[ins.id] = put(v, ins.idx)
            return True
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            env[ins.id] = flt.f2(op, self.val(st, env, ins.ops[0]), self.val(st, env, ins.ops[1]))
            return True
        if op == "fneg":
            env[ins.id] = flt.f1("fneg", self.val(st, env, ins.ops[0]))
            return True
        if op == "fcmp":
            a, b = fpval(self.val(st, env, ins.ops[0])), fpval(self.val(st, env, ins.ops[1]))
            p = ins.pred
            nan = z3.Or(flt.fnan(a), flt.fnan(b))
            base = {"eq": lambda: flt.fcmp("feq", a, b), "gt": lambda: flt.fcmp("flt", b, a),
                    "ge": lambda: flt.fcmp("fle", b, a), "lt": lambda: flt.fcmp("flt", a, b),
                    "le": lambda: flt.fcmp("fle", a, b)}
            if p == "ord":
                r = z3.Not(nan)
            elif p == "uno":
                r = nan
            elif p == "one":
                r = z3.And(z3.Not(nan), z3.Not(base["eq"]()))
            elif p == "une":
                r = z3.Not(base["eq"]())
            elif p[0] == "o":
                r = base[p[1:]]()
            else:
                r = z3.Or(nan, base[p[1:]]())
            env[ins.id] = norm(r)
            return True
        if d.name == "int" and op[:2] in ("fp", "si", "ui") and op not in ("fpext", "fptrunc"):
            raise Unsupported("float conversion in integer domain")
        if op in ("fptosi", "fptoui"):
            v, c = flt.to_int(self.val(st, env, ins.ops[0]), ins.ty.bits, op == "fptosi")
            if not self.oblige(st, c, "float-to-int-range", ins):
                return False
            env[ins.id] = v
            return True
        if op in ("sitofp", "uitofp"):
            env[ins.id] = flt.of_int(self.val(st, env, ins.ops[0]), ins.ops[0].ty.bits,
                                     32 if ins.ty.k == "float" else 64, op == "sitofp")
            return True
        if op in ("fpext", "fptrunc"):
            env[ins.id] = flt.conv(self.val(st, env, ins.ops[0]), 32 if ins.ty.k == "float" else 64)
            return True
        raise Unsupported("instruction " + op)

    def ptr_arith(self, st, op, a, b):
        if op == "sub" and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            if a.p.r == b.p.r:
                return self.d.off_sub(a.p.off, b.p.off)
            raise Unsupported("difference of unrelated pointers")
        if op == "add" and isinstance(a, PtrInt) and not isinstance(b, PtrInt):
            return PtrInt(Ptr(a.p.r, self.d.off_add(a.p.off, b)))
        if op == "sub" and isinstance(a, PtrInt):
            return PtrInt(Ptr(a.p.r, self.d.off_sub(a.p.off, b)))
        if op == "sub" and isinstance(b, PtrInt) and isc(a) and a == 0:
            raise Unsupported("negated pointer")
        raise Unsupported("pointer arithmetic " + op)

    def ptr_cmp(self, st, pred, a, b):
        if isinstance(a, PtrInt):
            a = a.p
        if isinstance(b, PtrInt):
            b = b.p
        if isc(a):
            a = Ptr(None, a)
        if isc(b):
            b = Ptr(None, b)
        if isinstance(a, FuncPtr) or isinstance(b, FuncPtr):
            if pred in ("eq", "ne"):
                e = isinstance(a, FuncPtr) and isinstance(b, FuncPtr) and a.name == b.name
                return e if pred == "eq" else not e
            raise Unsupported("function pointer order")
        if a.r == b.r:
            p = pred.replace("u", "s") if pred[0] == "u" else pred
            r = self.d.icmp(p, a.off, b.off, 64)
            if self.cmp_log is not None and not (isc(a.off) and isc(b.off)):
                self.cmp_log.append((p, a.off, b.off, 64, r))
            return r
        if pred in ("eq", "ne"):
            if a.r is None or b.r is None:
                return pred == "ne"
            raise Unsupported("comparison of unrelated pointers")
        raise Unsupported("order of unrelated pointers")

    # ---------- loops (see loops.py) ----------
    def loop(self, fn, hdr, prev, env, st, body):
        from .loops import run_loop
        return run_loop(self, fn, hdr, prev, env, st, body)


def region_phis(blk):
    return blk.insts and blk.insts[0].op == "phi"


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}


# ---- contracts of the C library functions the code calls (assumed) ----
def _memmove(ex, st, a, inst):
    return [(st, a[0])] if ex.memcopy(st, a[0], a[1], a[2], inst, True) else []


def _memcpy(ex, st, a, inst):
    return [(st, a[0])] if ex.memcopy(st, a[0], a[1], a[2], inst, False) else []


def _memset(ex, st, a, inst):
    return [(st, a[0])] if ex.memset(st, a[0], ex.d.trunc(a[1], 32, 8), a[2], inst) else []


def _abs(ex, st, a, inst):
    d = ex.d
    v, ob = d.bin("sub", 0, a[0], 32, True)
    c = d.icmp("slt", a[0], 0, 32)
    for k, o in ob:
        if not ex.oblige(st, b_or(b_not(c), o), k, inst):
            return []
    if isc(c):
        return [(st, v if c else a[0])]
    return [(st, d.ite(c, v, a[0], 32))]


def _memcmp(ex, st, a, inst):
    """memcmp: result is zero iff the ranges are equal (sign of a difference is left open)"""
    d = ex.d
    p, q, n = a
    if isc(n) and n == 0:
        return [(st, 0)]
    if isc(n) and n <= 64:
        eq = True
        for i in range(n):
            x = ex.access(st, Ptr(p.r, d.off_add(p.off, i)), 1, inst, False)
            if x is None:
                return []
            y = ex.access(st, Ptr(q.r, d.off_add(q.off, i)), 1, inst, False)
            if y is None:
                return []
            ax = ex.read(st, x[0], x[1], 1, "int", x[2])
            ay = ex.read(st, y[0], y[1], 1, "int", y[2])
            eq = b_and(eq, d.icmp("eq", ax, ay, 8))
        if isc(eq):
            if eq:
                return [(st, 0)]
        r = d.fresh("memcmp", 32)
        st.add(tobool(d.icmp("eq", r, 0, 32)) == tobool(eq))
        return [(st, r)]
    # symbolic small length: case split when bounded by 16
    if ex.valid(st, tobool(d.icmp("ule", n, 16, 64))):
        outs = []
        for k in range(17):
            c = d.icmp("eq", n, k, 64)
            if ex.feasible(st, c):
                s2 = st.fork()
                s2.add(tobool(c))
                ex.cur = s2
                outs += _memcmp(ex, s2, [p, q, k], inst)
        return outs
    raise Unsupported("memcmp with symbolic length")


def _strlen(ex, st, a, inst):
    """strlen: n with s[n]==0 and no earlier zero at the skolem position"""
    d = ex.d
    p = a[0]
    if p.r is None:
        ex.oblige(st, False, "null-access", inst)
        return []
    r = ex.regions[p.r]
    n = d.fresh("strlen", 64)
    lim = r.size
    end = d.off_add(p.off, n)
    st.add(tobool(d.off_in(end, 1, 0, lim)))
    if d.name == "bv":
        st.add(tobool(d.icmp("uge", end, p.off, 64)))
        st.add(tobool(d.icmp("ult", n, 1 << 62, 64)))
    else:
        st.add(n >= 0)
    z = ex.read(st, r, end, 1, "int", (0, lim))
    st.add(tobool(d.icmp("eq", z, 0, 8)))
    if r.id in ex.load_axioms:
        ex.load_axioms[r.id](ex, st, end, 1)
    for j in ([ex.J] if ex.J is not None else []):
        cj = ex.read(st, r, d.off_add(p.off, j), 1, "int", (0, lim))
        st.add(tobool(b_implies(d.icmp("ult", j, n, 64), d.icmp("ne", cj, 0, 8))))
    for ax in ex.hooks.get("strlen", []):
        ax(ex, st, p, n)
    return [(st, n)]


LIBC = {"memmove": _memmove, "memcpy": _memcpy, "memset": _memset, "abs": _abs, "memcmp": _memcmp, "bcmp": _memcmp,
        "strlen": _strlen}
