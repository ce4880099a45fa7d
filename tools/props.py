"""The property list: writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note,
         observe=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext,
                  why=why, files=files, mech=mech, technique=technique, note=note,
                  observe=list(observe)))


TRUST = (" Randomised search: absence of a counterexample in the cases run, not proof."
         " Trusts clang/ASan, the oracle in the harness and the stand-ins in shim/.")
G = "mpact/sim/generic/"
exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert 1 <= p["statement"].count(". ") + 1 <= 3, (p["id"], p["statement"])
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": [
    {"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
     "thorough_cmd": "python3 check.py %s thorough" % p["id"],
     "technique": p["technique"], "level": "exploration",
     "level_note": p["note"] + TRUST} for p in P],
    "not_applicable": [{"property": a, "reason": b} for a, b in NA],
    "notes": "No hooks were needed in /repo."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
