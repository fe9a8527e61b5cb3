"""Build, run verification tasks in parallel, report."""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import z3
from . import llvm
from .dom import *
from .mem import *
from .exec import Executor, State, Budget, Oblig
from . import loops
from . import dom as dom_mod

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("IRV_REPO", "/repo")
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
OPT = "/usr/bin/opt-18" if os.path.exists("/usr/bin/opt-18") else \
    ("/usr/lib/llvm-18/bin/opt" if os.path.exists("/usr/lib/llvm-18/bin/opt") else "opt")


class BuildError(Exception):
    pass


def build_ir(src, out, flags=()):
    """real sources (included by the harness) -> LLVM IR; only mem2reg is applied"""
    ll = out + ".0.ll"
    cmd = [CLANG, "-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-exceptions", "-fno-rtti",
           "-gline-tables-only", "-fno-discard-value-names", "-w", "-I" + REPO, "-I" + REPO + "/graphics",
           "-I" + VERIF + "/harness"] + list(flags) + ["-S", "-emit-llvm", src, "-o", ll]
    if "-frtti" in flags:
        cmd.remove("-fno-rtti")
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[-4000:])
    p = subprocess.run([OPT, "-passes=mem2reg", "-S", ll, "-o", out], capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[-4000:])
    return out


def code_hash(ll):
    """identity of a verification unit's code, without debug information"""
    import hashlib
    h = hashlib.sha256()
    for l in open(ll, errors="replace"):
        if l.startswith("!") or l.startswith("; ModuleID") or l.startswith("source_filename"):
            continue
        h.update(re.sub(r"(, )?!dbg !\d+", "", l).encode())
    return h.hexdigest()[:16]


class Task:
    """one function-by-function verification unit"""

    def __init__(self, name, ir, fn, dom="bv", **opts):
        self.name, self.ir, self.fn, self.dom, self.opts = name, ir, fn, dom, opts


class Result:
    def __init__(self, name):
        self.name = name
        self.obl = []
        self.err = None
        self.kind = "ok"
        self.t = 0
        self.calls = []
        self.stats = {}
        self.loops = []
        self.assumed = []
        self.vac = []
        self.value = None
        self.found = {}


def run_task(task, budget):
    r = Result(task.name)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    dom_mod._fresh[0] = 0
    try:
        m = llvm.Module(task.ir)
        dom = BVDom() if task.dom == "bv" else IntDom()
        ex = Executor(m, dom, deadline=t0 + budget)
        ex.prefix = task.name + "/"
        ex.canary = []
        for k, v in task.opts.items():
            setattr(ex, k, v)
        try:
            task.fn(ex)
        except Unsupported as e:
            r.kind, r.err = "unsupported", str(e) + " at " + (ex.fnstack[-1] if ex.fnstack else "?")
        except Budget as e:
            r.kind, r.err = "timeout", str(e)
        except RecursionError:
            r.kind, r.err = "unsupported", "recursion"
        except (KeyError, AttributeError, TypeError, IndexError, z3.Z3Exception, AssertionError) as e:
            r.kind, r.err = "unsupported", "internal: %s" % (traceback.format_exc()[-1500:])
        for o in ex.obl.values():
            r.obl.append({"name": o.name, "kind": o.kind, "ok": o.ok, "undecided": o.undecided, "n": o.n,
                          "backend": o.backend, "t": round(o.t, 3), "detail": o.detail,
                          "model": model_dict(ex, o.model)})
        r.calls = sorted(set(re.sub(r"\(.*", "", c) for c in ex.calls))
        r.stats = dict(ex.stats, queries=ex.nq, solver_s=round(ex.tq, 2))
        r.loops = ex.loopinfo
        r.assumed = sorted(ex.assumed)
        r.vac = ex.vacuity
        r.value = getattr(ex, "result", None)
        r.found = {k: sorted(v) for k, v in ex.loop_found.items()}
    except MemoryError:
        r.kind, r.err = "timeout", "memory"
    except Exception as e:
        r.kind, r.err = "unsupported", traceback.format_exc()[-2000:]
    r.t = time.time() - t0
    return r


def model_dict(ex, m):
    if m is None:
        return None
    out = {}
    for name, t in getattr(ex, "inputs", {}).items():
        try:
            if isc(t):
                out[name] = t
                continue
            v = m.eval(t, model_completion=True)
            if z3.is_bv_value(v) or z3.is_int_value(v):
                out[name] = v.as_long()
            else:
                out[name] = str(v)
        except Exception:
            pass
    return out


def _worker(q, task, budget):
    try:
        q.put(run_task(task, budget))
    except BaseException as e:
        r = Result(task.name)
        r.kind, r.err = "unsupported", repr(e)
        q.put(r)


def run_tasks(tasks, budget, jobs=None, until=None):
    """until: no unit runs beyond this time"""
    jobs = jobs or min(8, os.cpu_count() or 4)
    ctx = mp.get_context("fork")
    results = {}
    pend = list(tasks)
    live = []
    while pend or live:
        while pend and len(live) < jobs:
            t = pend.pop(0)
            b = budget if until is None else min(budget, until - time.time())
            if b < 3:
                r = Result(t.name)
                r.kind, r.err = "timeout", "no time left"
                results[t.name] = r
                continue
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_pworker, args=(wr, t, b))
            p.start()
            wr.close()
            live.append((t, p, rd, time.time()))
        still = []
        for t, p, rd, st in live:
            if rd.poll(0):
                try:
                    results[t.name] = rd.recv()
                except EOFError:
                    r = Result(t.name)
                    r.kind, r.err = "timeout", "worker died"
                    results[t.name] = r
                p.join(5)
                if p.is_alive():
                    p.kill()
                rd.close()
            elif not p.is_alive():
                if rd.poll(0.2):
                    still.append((t, p, rd, st))
                    continue
                r = Result(t.name)
                r.kind, r.err = "timeout", "worker died (exit %s)" % p.exitcode
                results[t.name] = r
                rd.close()
            elif time.time() - st > budget + 60 or until is not None and time.time() > until + 15:
                p.kill()
                r = Result(t.name)
                r.kind, r.err = "timeout", "wall clock"
                results[t.name] = r
                rd.close()
            else:
                still.append((t, p, rd, st))
        live = still
        if live:
            time.sleep(0.02)
    return [results[t.name] for t in tasks]


def _pworker(wr, task, budget):
    r = run_task(task, budget)
    wr.send(r)
    wr.close()
    os._exit(0)


# ---------------------------------------------------------------- helpers for specs
def call(ex, st, fname, args):
    """run a harness wrapper (inlining the real code); -> [(state, ret)]"""
    f = ex.m.funcs.get(fname)
    if f is None:
        raise Unsupported("harness function %s missing" % fname)
    s = st.fork()
    ex.cur = s
    return ex.call(s, f, args, None)


def query(ex, st, fname, args):
    """run an observer that returns on a single (merged) path; facts about its result are kept in st"""
    r = call(ex, st, fname, args)
    if len(r) != 1:
        raise Unsupported("observer forks")
    s, v = r[0]
    st.pc = list(s.pc)
    ex.cur = st
    return v


def post(ex, st, name, cond, detail=""):
    ex.cur = st
    return ex.oblige(st, cond, "post:" + name, None, detail)


def canary(ex, st, name):
    """vacuity guard: the path condition of this exit must be satisfiable"""
    r = ex.sat(st, None, 10000)
    ex.vacuity.append((ex.prefix + name, r))


def canary_any(ex, outs, name):
    """vacuity guard: at least one of the exits is reachable"""
    rs = [ex.sat(o[0], None, 10000) for o in outs]
    ex.vacuity.append((ex.prefix + name, "sat" if "sat" in rs else "unsat" if all(r == "unsat" for r in rs) else "unknown"))


def assume(st, c):
    if c is not True:
        st.add(tobool(c))


class ObjInv:
    """inductive representation invariant of an object over all its public operations.
    params: abstract settings [(name, width)] the representation may store; a candidate
    "off==name" says that the field holds the current value of the setting."""

    def __init__(self, ex, st, rid, bufs, terms, params=()):
        self.ex, self.rid, self.bufs, self.terms = ex, rid, bufs, terms
        d = ex.d
        self.loci = []
        rm = st.mem[rid]
        self.st0 = st
        self.P = {n: d.fresh("set_" + n, w) for n, w in params}
        for off in sorted(rm.slots):
            sz, v = rm.slots[off]
            if isinstance(v, Ptr):
                if v.r is None:
                    raise Unsupported("null in object")
                self.loci.append(("ptr", off, 8, v.r, v.off, d.fresh("o%d" % off, 64)))
            elif isinstance(v, (FuncPtr, Packed, PtrInt)) or isflt(v) or v is UNDEF:
                if isinstance(v, FuncPtr) or v is UNDEF:
                    continue
                raise Unsupported("object field")
            else:
                self.loci.append(("int", off, sz, None, v, d.fresh("o%d" % off, sz * 8)))
        self.cands = []
        for l in self.loci:
            k, off, sz, r, init, var = l
            w = sz * 8
            self.cands.append(("%d==init" % off, lambda g, P, off=off, init=init, w=w: d.icmp("eq", g(off), init, w)))
            for nm, t, tw in terms:
                if tw == w:
                    self.cands.append(("%d<=%s" % (off, nm), lambda g, P, off=off, t=t, w=w: d.icmp("ule", g(off), t, w)))
            for nm, pw in params:
                if k == "int" and pw == w:
                    self.cands.append(("%d==%s" % (off, nm), lambda g, P, off=off, nm=nm, w=w:
                                       d.icmp("eq", g(off), P[nm], w)))
            self.cands.append(("%d>=0" % off, lambda g, P, off=off, w=w: d.icmp("sge", g(off), 0, w)))
        for a in self.loci:
            for b in self.loci:
                if a is not b and a[2] == b[2] and a[0] == b[0] and (a[0] != "ptr" or a[3] == b[3]):
                    self.cands.append(("%d<=%d" % (a[1], b[1]), lambda g, P, x=a[1], y=b[1], w=a[2] * 8:
                                       d.icmp("ule", g(x), g(y), w)))

    def keep(self, names):
        self.cands = [(n, f) for n, f in self.cands if n in names]

    def getter(self, st):
        ex = self.ex
        r = ex.regions[self.rid]

        def g(off):
            for k, o, sz, rr, init, var in self.loci:
                if o == off:
                    v = ex.read(st, r, off, sz, k)
                    if isinstance(v, Ptr):
                        if v.r != rr:
                            raise Unsupported("field points elsewhere")
                        return v.off
                    return v
        return g

    def facts(self, st, P=None):
        g = self.getter(st)
        return [(n, f(g, P or self.P)) for n, f in self.cands]

    def head(self):
        ex = self.ex
        s = self.st0.fork()
        r = ex.regions[self.rid]
        for k, off, sz, rr, init, var in self.loci:
            ex.write(s, r, off, sz, Ptr(rr, var) if k == "ptr" else var)
        for b in self.bufs:
            rm = ex.wmem(s, b)
            rm.slots.clear()
            rm.log = Base(ex.regions[b].name, ex.d, ex.regions[b].bits)
        # fields that equal something fixed are replaced by it
        for n, f in self.cands:
            m = re.match(r"(\d+)==(\w+)$", n)
            if m:
                off = int(m.group(1))
                for k, o, sz, rr, init, var in self.loci:
                    if o == off:
                        v = init if m.group(2) == "init" else self.P[m.group(2)]
                        ex.write(s, r, off, sz, Ptr(rr, v) if k == "ptr" else v)
        for nm, c in self.facts(s):
            if c is not True:
                s.add(tobool(c))
        return s
