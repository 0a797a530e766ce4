"""Extraction of /repo's source and deductive verification with Verus."""
import json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = os.path.join(ROOT, "tool")
CON = os.path.join(ROOT, "contracts")
SRC = "/repo/src"
RLIMIT = "60"

def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, "", "timed out after %d s" % timeout

def build_tool():
    rc, out, err = sh(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(TOOL, "Cargo.toml")], 600)
    return rc == 0, err

def fn_of_line(text):
    """line number -> function key (the last '@fn' marker at or before it)"""
    out, cur = [None], None
    for l in text.split("\n"):
        m = re.match(r"\s*// @fn (.*)$", l)
        if m: cur = m.group(1).strip()
        elif re.match(r"^pub mod ", l) or re.match(r"\s*// @endfns", l): cur = None
        out.append(cur)
    return out

def errors_of(err, fname, lines):
    """[(message, key or None, text)]"""
    res = []
    for blk in re.split(r"\n(?=error|warning|note)", "\n" + err):
        blk = blk.strip("\n")
        if not blk.startswith("error"): continue
        head = blk.split("\n")[0]
        if "aborting due to" in head or "could not compile" in head: continue
        keys = []
        for m in re.finditer(re.escape(fname) + r":(\d+):", blk):
            n = int(m.group(1))
            if n < len(lines) and lines[n]: keys.append(lines[n])
        # line numbers in the margin of further labels
        for m in re.finditer(r"^\s*(\d+)\s+\|", blk, re.M):
            n = int(m.group(1))
            if n < len(lines) and lines[n]: keys.append(lines[n])
        res.append((head, keys[0] if keys else None, blk))
    return res

def verify(mode, modules, workdir, probe=False, timeout=600):
    """Extract and verify the given modules in one mode."""
    os.makedirs(workdir, exist_ok=True)
    name = mode + ("p" if probe else "")
    rs, js = os.path.join(workdir, name + ".rs"), os.path.join(workdir, name + ".json")
    externs, notes, t0 = [], [], time.time()
    for attempt in range(6):
        for f in (rs, js):
            if os.path.exists(f): os.remove(f)
        cmd = [os.path.join(TOOL, "target/release/extract"), SRC, CON, mode, rs, js] + (["probe"] if probe else []) + ["extern=" + k for k in externs]
        rc, out, err = sh(cmd, 60)
        if rc != 0 or not os.path.exists(js): return {"ok": False, "why": "extraction failed: " + err[-600:], "externs": externs}
        info = json.load(open(js))
        lines = fn_of_line(open(rs).read())
        vcmd = ["verus", os.path.basename(rs), "--output-json", "--time-expanded", "--multiple-errors", "4", "--rlimit", RLIMIT, "--num-threads", "4"]
        for m in modules: vcmd += ["--verify-root"] if m == "root" else ["--verify-module", m]
        rc, out, err = sh(vcmd, timeout, cwd=workdir)
        try: d = json.loads(out)
        except ValueError: d = {}
        vr = d.get("verification-results", {})
        errs = errors_of(err, os.path.basename(rs), lines)
        if "verified" in vr and not vr.get("encountered-vir-error") and "smt" in d.get("times-ms", {}):
            smt = d["times-ms"]["smt"]
            funs = [(f["function"], f["success"]) for m in smt.get("smt-run-module-times", []) for f in m.get("function-breakdown", [])]
            if funs or vr.get("verified"):
                return {"ok": True, "mode": mode, "info": info, "errors": errs, "externs": externs, "queries": len(funs), "good": sum(1 for f in funs if f[1]), "verified": vr.get("verified"), "nerr": vr.get("errors"),
                        "smt_ms": smt.get("smt-run", 0), "total_ms": d["times-ms"].get("total", 0), "cmd": " ".join(vcmd), "bad": [f[0] for f in funs if not f[1]], "raw": err, "wall_s": round(time.time() - t0, 1)}
        # front-end errors: leave out the bodies of the functions they are in and try again
        new = sorted({k for _, k, _ in errs if k and k not in externs})
        if not new or rc == 124: return {"ok": False, "why": "the verifier's front end rejects the extracted code: " + (errs[0][2] if errs else err)[-800:], "externs": externs, "info": info}
        externs += new
    return {"ok": False, "why": "front-end errors remain", "externs": externs}

def assumed():
    """what the verifier is told to believe: external bodies and axioms in the committed shims"""
    out = []
    for f in sorted(os.listdir(CON)):
        if not f.endswith(".rs"): continue
        t = open(os.path.join(CON, f)).read()
        n = len(re.findall(r"external_body\]\s*(?:pub\s+)?(?:proof\s+)?fn|external_body\]\s*(?:\n\s*)?(?:pub )?(?:fn|proof fn)", t))
        a = re.findall(r"axiom fn (\w+)", t)
        if n: out.append("%s: %d operations of the element type, core or ndarray specified but not verified" % (f, n))
        if a: out.append("%s: axioms %s" % (f, ", ".join(a)))
    return out

def skeleton_close(a, b, vocab):
    """True when b is a with the same statements: at most two differing tokens, none of them a name unknown to the baseline"""
    if a == b: return True
    x, y = a.split(" "), b.split(" ")
    if len(x) != len(y): return False
    d = [(p, q) for p, q in zip(x, y) if p != q]
    return len(d) <= 2 and all(q in vocab for _, q in d)
