import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import plan, verify
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(ROOT, "harness")
OUT = os.path.join(ROOT, "out")

def build_harness():
    rc, out, err = verify.sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(HARN, "Cargo.toml")], 800)
    if rc != 0:
        sys.stderr.write(err[-4000:])
        sys.stderr.write("\nerror: the harness does not build against /repo\n")
        sys.exit(3)

def run_harness(pid, seed, secs, cases, big, tag):
    o = os.path.join(OUT, "%s-%s.json" % (pid, tag))
    if os.path.exists(o): os.remove(o)
    cmd = [os.path.join(HARN, "target/debug/harness"), "run", pid, str(seed), str(secs), str(cases), str(big), o]
    rc, out, err = verify.sh(cmd, secs + 120)
    if os.path.exists(o): h = json.load(open(o))
    else:
        # the process died (abort, stack overflow, memory) or hangs: report how
        h = {"id": pid, "seed": seed, "big": big, "evaluations": 0, "distinct_nontrivial": 0, "worst_units": {}, "samples": [],
             "failure": {"index": -1, "message": "harness process ended with status %s: %s" % (rc, (out + err)[-500:]), "input": []}, "wall_s": secs}
    h["seed"], h["big"] = seed, big
    return h

def keys_of(pats, names):
    return sorted({k for k in names for p in pats if k == p or (p.endswith("*") and k.startswith(p[:-1]))})

def module_of(k): return "::".join(k.split("::")[:1])

def prove(pid, tier):
    """Verify the functions the property depends on. Returns None when the plan has none."""
    pats = plan.PLAN.get(pid)
    if not pats: return None
    work = os.path.join(OUT, "x-" + pid)
    base = json.load(open(os.path.join(verify.CON, "skeleton.json")))
    need = keys_of(pats, base["functions"])
    mods = sorted({module_of(k) for k in need}) + ["lemmas"]
    with ThreadPoolExecutor(4) as ex:
        modes = plan.MODE_OF.get(pid, "FS")
        jobs = {m: ex.submit(verify.verify, m, mods, work) for m in modes}
        if tier == "thorough" and "F" in modes:
            jobs["Fp"] = ex.submit(verify.verify, "F", [m for m in mods if m != "lemmas"], work, True)
        runs = {m: j.result() for m, j in jobs.items()}
    vocab = set(" ".join(base["functions"].values()).split())
    res = {"need": need, "modules": mods, "failed": [], "undecided": [], "proved": [], "runs": {}, "vacuous": None}
    fails, und = {}, {}
    for m in modes:
        r = runs[m]
        if not r["ok"]:
            for k in need: und.setdefault(k, []).append("mode %s: %s" % (m, r["why"]))
            continue
        res["runs"][m] = {k: r[k] for k in ("queries", "good", "smt_ms", "total_ms", "wall_s", "cmd", "externs")}
        info = r["info"]
        lost = {l.split(": ")[0]: l for l in info["lost"]}
        for k in need:
            f = info["functions"].get(k)
            if f is None: und.setdefault(k, []).append("not found in the source")
            elif k in lost: und.setdefault(k, []).append("contract not attached: " + lost[k])
            elif k in r["externs"]: und.setdefault(k, []).append("mode %s: body outside the verifier's language" % m)
        for head, k, blk in r["errors"]:
            if k not in need:
                if k is None: und.setdefault("(machinery)", []).append("mode %s: %s" % (m, blk[:600]))
                continue
            if "rlimit" in blk or "Resource limit" in blk or "timed out" in head: und.setdefault(k, []).append("mode %s: solver resource limit" % m)
            elif k in und: und[k].append("mode %s: %s" % (m, blk[:600]))
            elif not verify.skeleton_close(base["functions"][k], info["functions"][k]["skeleton"], vocab): und.setdefault(k, []).append("mode %s, rewritten function: %s" % (m, blk[:600]))
            else: fails.setdefault(k, []).append("mode %s: %s" % (m, blk))
    # a failing obligation in a caller of a function that lost its contract decides nothing
    res["failed"] = [(k, v) for k, v in fails.items() if k not in und]
    for k, v in fails.items():
        if k in und: und[k] += v
    if any("not found" in t or "not attached" in t or "outside the verifier" in t for v in und.values() for t in v):
        for k, v in res["failed"]: und.setdefault(k, []).extend(v)
        res["failed"] = []
    res["undecided"] = sorted(und.items())
    res["proved"] = [k for k in need if k not in und and k not in fails]
    if "Fp" in runs and runs["Fp"]["ok"]:
        r = runs["Fp"]
        hit = {k for _, k, b in r["errors"] if k}
        res["vacuous"] = [k for k in need if k not in hit and r["info"]["functions"].get(k, {}).get("contract") and not r["info"]["functions"][k]["external"]]
    return res

def main(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ok, err = verify.build_tool()
    if not ok:
        sys.stderr.write(err[-3000:]); sys.exit(3)
    build_harness()
    secs, cases, big = (10, 3000000, 14) if tier == "quick" else (240, 100000000, 40)
    with ThreadPoolExecutor(2) as ex:
        jp = ex.submit(prove, pid, tier)
        jh = ex.submit(run_harness, pid, seed, secs, cases, big, "run")
        pr, h = jp.result(), jh.result()
    runs = [h]
    if pr and (pr["failed"] or pr["undecided"]) and not h["failure"]:
        # an obligation is open: look longer for an input that breaks the property
        for s, b in ((seed + 1000, 14), (seed + 2000, 30)):
            h2 = run_harness(pid, s, 30, 100000000, b, "more")
            runs.append(h2)
            if h2["failure"]: break
    bad = next((x for x in runs if x["failure"]), None)
    viol = 0
    rp = os.path.join(OUT, "%s-replay.txt" % pid)
    if bad or (pr and pr["failed"]):
        viol = 1
        with open(rp, "w") as f:
            if pr:
                for k, v in pr["failed"]:
                    f.write("obligation of %s not discharged:\n%s\n\n" % (k, "\n".join(v)))
            if bad:
                f.write("property %s fails on the real code\n%s\n" % (pid, bad["failure"]["message"]))
                f.write("\n".join(bad["failure"]["input"]) + "\n")
                f.write("replay: %s/target/debug/harness case %s %d %d %d\n" % (HARN, pid, bad["seed"], bad["failure"]["index"], bad["big"]))
        if pr:
            for k, v in pr["failed"]: print("%s: obligation of %s not discharged: %s" % (pid, k, v[0].split("\n")[0]))
        if bad:
            print("%s: %s" % (pid, bad["failure"]["message"][:500]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
    ass = []
    cov = {"evaluations": sum(x["evaluations"] for x in runs), "distinct_nontrivial": sum(x["distinct_nontrivial"] for x in runs),
           "rule": "bounded stand-in: the property's postconditions evaluated on seeded random structured inputs (harness/src/gen.rs) up to size %d; non-trivial: not empty and not all zero" % big,
           "samples": h["samples"], "worst_units": h["worst_units"]}
    level = "exploration"
    if pr:
        full = not pr["undecided"] and not pr["failed"] and pid in plan.PROOF
        if full or pr["failed"]: level = "proof" if pid in plan.PROOF else level
        cov.update({"obligations": sum(r["queries"] for r in pr["runs"].values()), "discharged": sum(r["good"] for r in pr["runs"].values()),
                    "obligation_unit": "one verification condition per function and mode (all its assertions, callee preconditions, loop invariants, postconditions), by Verus with Z3",
                    "checker_cmd": "; ".join(r["cmd"] for r in pr["runs"].values()), "trusted_base": verify.assumed() + ["the extraction in tool/ (see DESIGN.md)", "Verus and Z3"],
                    "functions_under_contract": pr["need"], "proved": pr["proved"], "undecided": [{"function": k, "why": v} for k, v in pr["undecided"]],
                    "failed": [k for k, _ in pr["failed"]], "solver_ms": {m: r["smt_ms"] for m, r in pr["runs"].items()}, "modes": {m: plan.MODES[m] for m in plan.MODE_OF.get(pid, "FS")}, "bounded_part": plan.BOUNDED.get(pid, "")})
        if pr["vacuous"] is not None: cov["vacuity_probe"] = {"functions_whose_end_is_unreachable": pr["vacuous"]}
        ass = plan.ASSUME
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ass, "wall_s": round(time.time() - t0, 2), "violations": viol}
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    if not viol:
        if pr: print("%s: %d of %d functions proved, %d undecided%s" % (pid, len(pr["proved"]), len(pr["need"]), len(pr["undecided"]), "".join("\n  undecided (bounded check only): %s: %s" % (k, v[0][:300]) for k, v in pr["undecided"])))
        print("%s: held on %d evaluations" % (pid, cov["evaluations"]))
    return 1 if viol else 0
