import json, os
import plan
ids = ["C%02d" % i for i in range(1, 20)]
def entry(i):
    e = {"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i}
    n = plan.NOTES.get(i, "")
    if i in plan.PROOF:
        e.update(technique="deductive verification of contracts on the extracted source (Verus/Z3), all inputs", level="proof",
                 level_note="Every obligation of the functions under contract is discharged on every run. " + n + "Machine arithmetic is treated as real arithmetic (mode F); ndarray, core and num-traits operations are specified, not verified. Rounding is covered only by the bounded executable contracts.")
    elif i in plan.PLAN:
        e.update(technique="deductive verification of contracts on the extracted source (Verus/Z3) for part of the property, executable contracts (bounded) for the rest", level="exploration",
                 level_note="Part proved, rest bounded and labelled so. " + n)
    else:
        e.update(technique="executable contracts evaluated on generated inputs (bounded stand-in)", level="exploration", level_note="Bounded: postconditions evaluated on generated inputs; nothing proved. " + n)
    return e
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [entry(i) for i in ids if i not in plan.NA], "not_applicable": [{"property": i, "reason": r} for i, r in plan.NA.items()]}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
