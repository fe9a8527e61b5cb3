"""check <property>: prove every obligation generated from /repo's current source."""
import importlib
import json
import os
import re
import subprocess
import sys
import time
import z3
from . import verify
from .verify import Task, VERIF, REPO, build_ir, BuildError, run_tasks

SPECS = json.load(open(os.path.join(VERIF, "specs", "index.json")))
BUILD = os.path.join(VERIF, "build")
CHECK_DEADLINE = 840


def spec_for(pid):
    for mod, ids in SPECS.items():
        if pid in ids:
            return importlib.import_module("specs." + mod)
    sys.exit("unknown property " + pid)


def hint_path(sp):
    return os.path.join(VERIF, "specs", "hints", sp.__name__.split(".")[-1] + ".json")


def load_hints(sp):
    try:
        return json.load(open(hint_path(sp)))
    except OSError:
        return []


def build(sp, tag):
    os.makedirs(BUILD, exist_ok=True)
    irs = {}
    hs = sp.HARNESS if isinstance(sp.HARNESS, dict) else {"": (sp.HARNESS, getattr(sp, "FLAGS", []))}
    for k, (h, fl) in hs.items():
        out = os.path.join(BUILD, "%s_%s_%s.ll" % (sp.__name__.split(".")[-1], tag, k or "m"))
        irs[k] = build_ir(os.path.join(VERIF, "harness", h), out, [f.replace("@VERIF@", VERIF) for f in fl])
    return irs


def loop_path(sp):
    return os.path.join(VERIF, "specs", "hints", sp.__name__.split(".")[-1] + ".loops.json")


def mk_tasks(sp, irs, lst, names, known=True):
    out = []
    try:
        store = json.load(open(loop_path(sp))) if known else {}
    except OSError:
        store = {}
    store = {k: store[h] for k, h in ((k, verify.code_hash(f)) for k, f in irs.items()) if h in store} if store else {}
    for t in lst:
        n, f = t[0], t[1]
        o = dict(t[2]) if len(t) > 2 else {}
        iv = o.pop("ir", "")
        ir = irs[iv]
        if store.get(iv, {}).get(n):
            o["loop_known"] = store[iv][n]
        dom = o.pop("dom", getattr(sp, "DOM", "bv"))
        if hasattr(sp, "inv_tasks"):
            g = (lambda ex, f=f: f(ex, names))
        else:
            g = f
        out.append(Task(n, ir, g, dom, **o))
    return out


def infer(sp, irs, deadline):
    """largest inductive set of representation facts, operation by operation"""
    o = {}
    t0 = Task("candidates", irs[""], lambda ex: o_set(ex, sp.candidates(ex)), getattr(sp, "DOM", "bv"))
    r = run_tasks([t0], 120)[0]
    if r.kind != "ok":
        return None
    names = r.value
    while True:
        left = deadline - time.time()
        if left < 30:
            return None
        ts = [Task("infer:" + op, irs[""], lambda ex, op=op: o_set(ex, sp.infer_op(op)(ex, names)), getattr(sp, "DOM", "bv"))
              for op in sp.op_names()]
        rs = run_tasks(ts, left, until=deadline + 60)
        new = set(names)
        for r in rs:
            if r.kind != "ok":
                return None
            new &= set(r.value)
        new = [n for n in names if n in new]
        if new == names:
            return names
        names = new


def o_set(ex, v):
    ex.result = v


def native_variants(sp, prop):
    n = getattr(sp, "NATIVE", None)
    if callable(n):
        n = n(prop)
    return [] if not n else n if isinstance(n, list) else [n]


def native_bin(src, fl, k):
    out = os.path.join(BUILD, "%s_%d_%d" % (os.path.splitext(src)[0], os.getpid(), k))
    cmd = [verify.CLANG, "-std=c++17", "-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
           "-fno-sanitize=vptr", "-I" + REPO, "-I" + REPO + "/graphics", "-I" + VERIF + "/native",
           os.path.join(VERIF, "native", src), "-o", out] + [f.replace("@VERIF@", VERIF).replace("@REPO@", REPO) for f in fl]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        return None
    return out


def native(sp, prop, secs, seed, models=()):
    """search for a failing input on the real code; -> (status, text)"""
    vs = native_variants(sp, prop)
    best = ("none", "native replay harness not available or does not compile")
    rank = ["none", "ok", "hang", "fail"]
    for k, (src, fl) in enumerate(vs):
        r = native1(native_bin(src, fl, k), prop, max(10, secs // len(vs)), seed)
        if k == 0 or rank.index(r[0]) > rank.index(best[0]):
            best = r
        if r[0] == "fail":
            break
    return best


def native1(b, prop, secs, seed):
    if b is None:
        return "none", "native replay harness not available or does not compile"
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77")
    try:
        p = subprocess.run([b, prop, str(seed), str(secs)], capture_output=True, text=True, errors="replace", env=env,
                           timeout=secs * 4 + 60)
        out = p.stdout[-6000:] + p.stderr[-6000:]
        if p.returncode == 0:
            return "ok", out
        if "FAIL" in out:
            return "fail", out
        return "none", out
    except subprocess.TimeoutExpired as e:
        return "hang", "native run did not finish: " + str(e.stdout)[-2000:]
    finally:
        try:
            os.unlink(b)
        except OSError:
            pass


def summarize(results):
    tot = disc = 0
    bad, probs, be, st, calls, loops, assumed, names = [], [], {}, 0.0, set(), [], set(), []
    for r in results:
        for o in r.obl:
            tot += o["n"]
            for b, c in o["backend"].items():
                be[b] = be.get(b, 0) + c
                disc += c
            if not o["ok"]:
                bad.append((r.name, o))
            names.append(o["name"])
        st += (r.stats or {}).get("solver_s", 0)
        calls |= set(r.calls)
        loops += r.loops
        assumed |= set(r.assumed)
        if r.kind != "ok":
            probs.append((r.name, r.kind, r.err))
        for v, s in r.vac:
            if s == "unsat":
                probs.append((r.name, "vacuous", v))
    return dict(tot=tot, disc=disc, bad=bad, probs=probs, be=be, st=st, calls=calls, loops=loops, assumed=assumed, names=names)


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deadline = t0 + (CHECK_DEADLINE if tier == "quick" else 3000)
    sp = spec_for(pid)
    try:
        irs = build(sp, "%s_%d" % (pid, os.getpid()))
    except BuildError as e:
        print("CANNOT-BUILD property=%s: the verification unit does not compile against /repo\n%s" % (pid, str(e)[-3000:]))
        return 2
    try:
        return run(pid, tier, seed, t0, deadline, sp, irs)
    finally:
        for f in irs.values():
            for g in (f, f + ".0.ll"):
                try:
                    os.unlink(g)
                except OSError:
                    pass


def run(pid, tier, seed, t0, deadline, sp, irs):
    names = load_hints(sp)
    inv = list(sp.inv_tasks()) if hasattr(sp, "inv_tasks") else []
    lst = inv + list(sp.PROPS[pid]())
    budget = 420 if tier == "quick" else 1500
    if tier == "thorough":
        for i, t in enumerate(lst):
            o = dict(t[2]) if len(t) > 2 else {}
            o["ob_timeout"] = 120000
            lst[i] = (t[0], t[1], o)
    results = run_tasks(mk_tasks(sp, irs, lst, names), budget, until=t0 + (540 if tier == "quick" else 1e6))
    s = summarize(results)
    if s["bad"] or s["probs"]:          # invariants that were enough last time are not: infer them
        again = {n for n, _ in s["bad"]} | {x[0] for x in s["probs"]}
        ts = [t for t in mk_tasks(sp, irs, [x for x in lst if x[0] in again], names) if "loop_known" in t.opts]
        if ts:
            for t in ts:
                del t.opts["loop_known"]
            r2 = {r.name: r for r in run_tasks(ts, budget, until=t0 + (540 if tier == "quick" else 1e6))}
            results = [r2.get(r.name, r) for r in results]
            s = summarize(results)
    nat = None
    searched = None
    if s["bad"] or s["probs"]:
        secs = 25 if tier == "quick" else 240
        nat = native(sp, pid, secs, seed)
        if nat[0] not in ("fail", "hang") and time.time() < deadline - 150:
            # a solver limit reached on a busy machine is no violation: redo the units that failed with larger limits
            again = {n for n, _ in s["bad"]} | {x[0] for x in s["probs"]}
            ts = [t for t in mk_tasks(sp, irs, [x for x in lst if x[0] in again], names, False)]
            for t in ts:
                t.opts["tm"] = 5
            left = (deadline - time.time()) * (0.5 if inv else 0.9)
            r2 = {r.name: r for r in run_tasks(ts, max(60, min(budget, left)), until=time.time() + left)}
            results = [r2.get(r.name, r) for r in results]
            s = summarize(results)
    if s["bad"] or s["probs"]:
        if nat[0] not in ("fail", "hang") and inv and time.time() < deadline - 200:
            n2 = infer(sp, irs, deadline - 150)
            if n2 is not None and set(n2) != set(names):
                searched = n2
                results = run_tasks(mk_tasks(sp, irs, lst, n2, False), max(60, min(budget, deadline - 60 - time.time())), until=deadline - 20)
                s = summarize(results)
    elif tier == "thorough":
        nat = native(sp, pid, 120, seed)
        if nat[0] != "fail":
            nat = ("ok", nat[1])
    viol = bool(s["bad"] or s["probs"] or (nat and nat[0] == "fail"))
    ev = evidence(pid, tier, seed, sp, s, nat, t0, viol, searched)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if not viol:
        print("OK property=%s obligations=%d discharged=%d functions=%d %.0fs" % (pid, s["tot"], s["disc"], len(s["calls"]),
                                                                               time.time() - t0))
        return 0
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    rp = os.path.join(BUILD, "replay", "%s-%d.txt" % (pid, os.getpid()))
    with open(rp, "w") as f:
        f.write("property %s\n" % pid)
        for n, o in s["bad"]:
            f.write("FAILED OBLIGATION %s (%s)\n  %s\n  countermodel: %s\n" % (
                o["name"], "undecided" if o["undecided"] else "refuted", o["detail"], o["model"]))
        for n, k, e in s["probs"]:
            f.write("UNIT NOT DISCHARGED %s: %s: %s\n" % (n, k, e))
        if nat:
            f.write("\nreplay against the real code: %s\n%s\n" % nat)
    for n, o in s["bad"][:8]:
        print("failed obligation: %s %s" % (o["name"], (o["model"] or "")))
    for n, k, e in s["probs"][:8]:
        print("unit not discharged: %s: %s %s" % (n, k, (e or "")[-300:]))
    if nat and nat[0] == "fail":
        print("\n".join(l for l in nat[1].split("\n") if "FAIL" in l or "ERROR" in l or "runtime error" in l)[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
    return 1


def evidence(pid, tier, seed, sp, s, nat, t0, viol, searched):
    cov = {
        "obligations": s["tot"], "discharged": s["disc"],
        "checker_cmd": "/verif/check %s" % pid,
        "trusted_base": ["clang++-18 -O0 and opt -passes=mem2reg (the verified text is the LLVM IR of /repo's sources; "
                         "the deployed build uses another optimisation level)",
                         "irv (this VC generator, /verif/irv)", "z3 (python) and cvc5"] + list(getattr(sp, "TRUSTED", [])),
        "backends": s["be"], "solver_s": round(s["st"], 1),
        "functions": sorted(s["calls"]),
        "named_obligations": len(s["names"]),
        "loops": s["loops"][:60],
        "failed": [o["name"] for _, o in s["bad"]][:40],
        "not_discharged_units": ["%s: %s" % (n, k) for n, k, e in s["probs"]],
    }
    if searched is not None:
        cov["invariant_inferred"] = searched
    if nat:
        cov["native_replay"] = {"status": nat[0], "bounded": True, "tail": nat[1][-400:]}
    return {"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
            "assumptions": list(getattr(sp, "ASSUMPTIONS", [])) + sorted(s["assumed"]),
            "wall_s": round(time.time() - t0, 1), "violations": 1 if viol else 0}
