"""Writes MANIFEST.json from the check modules (run by hand after adding a check)."""
import ast, json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = "runtime monitoring: "
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    path = os.path.join(V, "zkmon", "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        na.append(dict(property=p["id"], reason="the check is not built yet"))
        continue
    src = open(path).read()
    lits = {n.targets[0].id: ast.literal_eval(n.value) for n in ast.parse(src).body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("TECHNIQUE", "LEVEL_NOTE")}
    checks.append(dict(
        property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
        technique=TECH + lits["TECHNIQUE"], level="exploration",
        level_note=(lits.get("LEVEL_NOTE") or "Held on the executions counted in the evidence file; trusts petlib, bplib, OpenSSL and the integer reference model.")))
m = dict(version=1, setup_cmd="chmod +x check && ./check --selftest", hooks=dict(guard="none", enable="No hooks in /repo: monitors observe the public API, and hook user-defined primitives and petlib's random source from the harness.", source_commits=[]),
         checks=checks, not_applicable=na, notes="See DESIGN.md. Replay a violation with ./check --replay FILE.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
