"""development helper: python3-vt tools/dbg.py <spec> infer | <prop> [regex] [--jobs N]"""
import sys, os, re, json, importlib, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from irv import driver, verify
mod = sys.argv[1]
sp = importlib.import_module("specs." + mod)
irs = driver.build(sp, "dbg%d" % os.getpid())
try:
    if sys.argv[2] == "infer":
        n = driver.infer(sp, irs, time.time() + 900)
        print(n)
        if n is not None:
            os.makedirs(os.path.dirname(driver.hint_path(sp)), exist_ok=True)
            json.dump(n, open(driver.hint_path(sp), "w"))
    elif sys.argv[2] == "loops":       # record the loop invariants of the current tree (tried first next time)
        store, dt = {}, {}
        def tasks(known):
            for pid in sp.PROPS:
                lst = (list(sp.inv_tasks()) if hasattr(sp, "inv_tasks") else []) + list(sp.PROPS[pid]())
                iv = {t[0]: (dict(t[2]) if len(t) > 2 else {}).get("ir", "") for t in lst}
                for r in verify.run_tasks(driver.mk_tasks(sp, irs, lst, driver.load_hints(sp), known), 400):
                    yield pid, r, store.setdefault(verify.code_hash(irs[iv[r.name]]), {})
        for pid, r, st in tasks(False):
            dt[pid, r.name] = r.t
            if r.kind == "ok" and all(o["ok"] for o in r.obl) and r.found:
                u = st.setdefault(r.name, {})
                for k, v in r.found.items():
                    u[k] = sorted(set(u.get(k, [])) | set(v))
        save = lambda: json.dump(store, open(driver.loop_path(sp), "w"), indent=0, sort_keys=True)
        save()
        worse = []
        for pid, r, st in tasks(True):     # keep what helps
            if r.name in st:
                ok = r.kind == "ok" and all(o["ok"] for o in r.obl)
                if not ok or r.t > 0.8 * dt[pid, r.name]:
                    worse.append((st, r.name))
                    print("dropped", pid, r.name, ok, "%.1f -> %.1f" % (dt[pid, r.name], r.t))
        for st, n in worse:
            st.pop(n, None)
        save()
        print(sum(len(u) for u in store.values()), "units")
    else:
        names = driver.load_hints(sp)
        lst = (list(sp.inv_tasks()) if hasattr(sp, "inv_tasks") else []) + list(sp.PROPS[sys.argv[2]]())
        rx = sys.argv[3] if len(sys.argv) > 3 else "."
        lst = [t for t in lst if re.search(rx, t[0])]
        for r in verify.run_tasks(driver.mk_tasks(sp, irs, lst, names), 400):
            n = sum(o["n"] for o in r.obl)
            print("%-40s %-11s %4d obl %5.1fs" % (r.name, r.kind, n, r.t), (r.err or "")[-int(os.environ.get("ERRLEN","300")):])
            for o in r.obl:
                if not o["ok"]:
                    print("   FAIL", o["name"], "undecided" if o["undecided"] else "", str(o["model"])[:300], str(o["detail"])[:200])
            for v, s in r.vac:
                if s != "sat":
                    print("   CANARY", v, s)
finally:
    for f in irs.values():
        for g in (f, f + ".0.ll"):
            try: os.unlink(g)
            except OSError: pass
