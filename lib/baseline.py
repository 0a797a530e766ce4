"""Writes contracts/skeleton.json: the statement skeletons of the functions at the commit the contracts were written for."""
import json, os, sys
import verify
verify.build_tool()
w = os.path.join(verify.ROOT, "out", "base"); os.makedirs(w, exist_ok=True)
rc, o, e = verify.sh([os.path.join(verify.TOOL, "target/release/extract"), verify.SRC, verify.CON, "F", w + "/F.rs", w + "/F.json"], 60)
d = json.load(open(w + "/F.json"))
json.dump({"functions": {k: v["skeleton"] for k, v in sorted(d["functions"].items()) if v["contract"] and not v["external"]}}, open(os.path.join(verify.CON, "skeleton.json"), "w"), indent=0)
print(rc, e, d["lost"], d["unused"])
