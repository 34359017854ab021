#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current working tree."""
import concurrent.futures as cf
import json, os, sys, threading, time, traceback
import kani_backend as kb
from props import PROPS

VERIF = os.path.dirname(os.path.abspath(__file__))

def known_findings(pid):
    p = f"{VERIF}/known-findings.txt"
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"finding: property={pid} "):
                out.append(l[len(f"finding: property={pid} "):])
    return out

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obligations = self.discharged = 0
        self.solver_s = 0.0
        self.violations, self.undecided, self.bounded, self.parts = [], [], [], []
        self.cmds, self.searches = [], 0
        self.pending = []
    def left(self, total=780):
        return max(20, total - (time.time() - self.t0))
    def violation(self, oblig, detail, failing_input):
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        path = f"{VERIF}/replays/{self.pid}-{oblig.replace('::','-').replace(' ','_')[:60]}.json"
        detail = dict(detail)
        if self.pending: detail["other_failed_obligations"] = [(o, d.get("failed")) for o, d in self.pending]
        detail.update(property=self.pid, obligation=oblig, failing_input=failing_input)
        json.dump(detail, open(path, "w"), indent=1)
        self.violations.append(oblig)
        print(f"VIOLATION property={self.pid} replay={path}" + ("" if failing_input else " no-failing-input-found"), flush=True)

def run_kani(ctx, part):
    mod, deps = part["module"], part["deps"]
    allh = [h for h in kb.harnesses(mod) if h in part.get("only", [h])]
    quick = [h for h in allh if not h.startswith(("t_", "n_"))]
    names = quick if ctx.tier == "quick" else [h for h in allh if not h.startswith("n_")]
    nat = kb.Native(mod, deps)
    ht = part.get("timeout", 240 if ctx.tier == "quick" else 600)
    wall = min(ctx.left(), 640) if ctx.tier == "quick" else 3000
    # the same contracts on the real crates over sampled inputs, in parallel with
    # the proofs: replayable failing inputs, and a bounded stand-in for what the
    # prover leaves undecided and for the shapes left to the thorough tier
    per = part.get("search_ms", 1200 if ctx.tier == "quick" else 8000)
    hits, done, stop = {}, [0], [None]
    def sample(n, seed, ms):
        rc, out = nat.search(n, seed, ms)
        if rc == 0:
            w = out.split(); done[0] += int(w[2]) if len(w) > 2 and w[2].isdigit() else 0
        elif rc == 1 or rc < 0:
            p = out.split(" ", 2)
            if n not in hits:
                hits[n] = (p[1] if len(p) > 1 else "", p[2] if len(p) > 2 else out, "replay-search")
            if stop[0] and ctx.tier == "quick":
                threading.Timer(90, stop[0]).start(); stop[0] = None
        return rc
    def sampling():
        if nat.ready():
            with cf.ThreadPoolExecutor(3) as ex:
                list(ex.map(lambda n: sample(n, ctx.seed, per), [n for n in allh if not kb.is_modular(n)]))
    st = threading.Thread(target=sampling); st.start()
    def on_start(kill): stop[0] = kill
    if names:
        res, wall_s, built, cmd, log = kb.prove(mod, deps, names, ht, wall, jobs=part.get("jobs", 8), on_start=on_start)
    else:
        res, wall_s, built, cmd, log = {}, 0.0, False, "(sampling only)", []
    stop[0] = None
    cut = [n for n in names if res[n].cut and not kb.is_modular(n)][:2]
    if cut and not hits and ctx.left() > 120:
        # killed by the wall limit after some harness had failed: get its details
        res2, w2, _, _, _ = kb.prove(mod, deps, cut, ht, ctx.left() - 60)
        res.update(res2); wall_s += w2
    st.join()
    ctx.cmds.append(cmd)
    native_ok = nat.ready()
    if not built and not native_ok:
        raise RuntimeError("neither the verification copy nor the native harness builds:\n" + "".join(log[-40:]) + (nat.err or ""))
    bounded = part.get("bounded", {})
    rows = []
    reported = False
    for n in names:
        h = res[n]
        ctx.solver_s += h.time
        why_b = next((v for k, v in bounded.items() if n.startswith(k)), None)
        if why_b is None:
            ctx.obligations += max(h.checks, 1)
            if h.status == "ok": ctx.discharged += h.checks
        row = {"contract": f"{mod}::{n}", "status": h.status, "obligations": h.checks, "seconds": round(h.time, 1)}
        if why_b is not None:
            row["bounded"] = why_b; ctx.bounded.append(f"{mod}::{n}: {why_b}")
        if h.status == "undecided":
            row["why"] = h.why; ctx.undecided.append(f"{mod}::{n}: {h.why}")
        if h.status == "failed" and kb.is_modular(n):
            # the callee may legitimately no longer be called: not an alarm
            row["status"] = h.status = "undecided"
            row["why"] = "modular proof failed: " + str([f[2] for f in h.fails][:3]); ctx.undecided.append(f"{mod}::{n}: {row['why']}")
        rows.append(row)
        if h.status == "failed" and not reported:
            reported = True
            fails = [f"{f[0]}: {f[2]} in {f[3]} at {f[4].get('file')}:{f[4].get('line')}" for f in h.fails][:12]
            text, hit = "".join(log[-400:])[-6000:], hits.get(n)
            if not hit and native_ok:
                for k in range(1, 3):
                    if sample(n, ctx.seed + k, 6000) == 1: break
                hit = hits.get(n)
            if not hit and hits:
                n2 = next(iter(hits)); hit = hits[n2]
            if not hit and native_ok and ctx.left(620) > 30:
                ces, text = kb.counterexamples(mod, n, min(300, ctx.left(620)))
                for ce in ces:
                    bad, msg = nat.replay(n, ce)
                    if bad: hit = (ce, msg, "replay"); break
            d = {"backend": "kani/cbmc", "failed": fails, "verifier_output": text}
            if hit:
                d.update(input_hex=hit[0], failure=hit[1],
                         how_to_replay=f"python3 {VERIF}/check.py --native {ctx.pid} {hit[2]} {next((k for k, v in hits.items() if v == hit), n)} {hit[0]}")
            ctx.violation(f"{mod}::{n}", d, bool(hit))
            row["failed"] = fails
    if native_ok and not ctx.violations:
        with cf.ThreadPoolExecutor(8) as ex:
            if not hits:
                list(ex.map(lambda n: sample(n, ctx.seed + 7, per * 3), [n for n in allh if not kb.is_modular(n) and res.get(n) and res[n].status == "undecided"]))
        for n, hit in list(hits.items())[:1]:
            ctx.violation(f"{mod}::{n}", {"backend": "the same contract evaluated on the real crate", "input_hex": hit[0], "failure": hit[1],
                "how_to_replay": f"python3 {VERIF}/check.py --native {ctx.pid} replay-search {n} {hit[0]}"}, True)
        ctx.searches += done[0]
    elif not native_ok:
        ctx.undecided.append(f"{mod}: native harness did not build; no replay or sampling ({(nat.err or '')[-200:]})")
    ctx.parts.append({"backend": "kani 0.68.0 / cbmc 6.11.0 (cadical)", "module": mod, "functions": part.get("functions", []), "contracts": rows, "wall_s": round(wall_s, 1)})

def main():
    if sys.argv[1] == "--native":
        _, _, pid, mode, name, hx = sys.argv
        part = next(p for p in PROPS[pid]["parts"] if p["kind"] == "kani" and name in kb.harnesses(p["module"]))
        nat = kb.Native(part["module"], part["deps"]); nat.ready()
        print(nat.err or nat.run(mode, name, hx)[1]); sys.exit(0)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    ctx = Ctx(pid, tier, seed)
    os.makedirs(kb.BUILD, exist_ok=True)
    for part in P["parts"]:
        if part.get("tier") == "thorough" and tier == "quick": continue
        if part["kind"] == "kani":
            run_kani(ctx, part)
        else:
            import importlib
            importlib.import_module(part["kind"]).run(ctx, part)
    for o, d in ctx.pending[:1]:
        # a failed proof for which no part found a failing input
        if not ctx.violations: ctx.violation(o, d, False)
    for k in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {k}")
    for u in ctx.undecided:
        print(f"UNDECIDED property={pid} {u}")
    cov = {
        "obligations": ctx.obligations, "discharged": ctx.discharged,
        "checker_cmd": " ;; ".join(ctx.cmds), "trusted_base": P.get("trusted", []),
        "explanation": P["explanation"],
        "parts": ctx.parts, "bounded": ctx.bounded, "undecided": ctx.undecided,
        "solver_s": round(ctx.solver_s, 1),
        "sampled_evaluations_on_real_code": ctx.searches,
    }
    cov.update(getattr(ctx, "extra", {}))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "assumptions": P.get("trusted", []),
          "wall_s": round(time.time() - ctx.t0, 1), "violations": len(ctx.violations)}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    if ctx.violations: sys.exit(1)
    if ctx.obligations == 0 and not ctx.bounded:
        print("no obligations were generated", file=sys.stderr); sys.exit(2)
    print(f"OK property={pid} obligations={ctx.obligations} discharged={ctx.discharged} undecided={len(ctx.undecided)} wall={ev['wall_s']}s")

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)
