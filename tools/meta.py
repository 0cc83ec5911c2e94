"""Single source of properties.jsonl and MANIFEST.json:  python3-vt tools/meta.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "contracts/oraiswap-v3/src/"
TECH = "symbolic execution of the compiled crate's MIR + SMT (z3/cvc5), counterexamples replayed natively"
NOTE = ("Bounded: every value of the symbolic inputs within the bounds printed in the evidence file is decided by the solver over the MIR of the real code; "
        "outside: the listed bounds. Trusts the MIR interpreter and its library models (validated per run against native executions), serde round trips, exact uint arithmetic.")
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, note="", claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, note=note,
                  claimed=claimed, reason=reason))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3-vt checks/%s.py" % p["id"].lower(),
                 "thorough_cmd": "VERIF_TIER=thorough python3-vt checks/%s.py" % p["id"].lower(),
                 "technique": TECH, "level": "model_checking", "level_note": (p["note"] + " " if p["note"] else "") + NOTE} for p in P if p["claimed"]],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]],
     "notes": "No hooks in /repo: the harness crate in /verif/harness uses only the crate's public items. /repo commits are fixes only (see known_findings.json)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
