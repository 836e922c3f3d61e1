#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, state, obs, technique=None, note="", level="model_checking", claim=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "state": state,
                           "observe_at": obs, "hook_needed": None}, _t=technique, _n=note, _l=level, _claim=claim, _r=reason))


ENG = "TLA+ specification of the build engine (AkEngine): TLC explores small projects exhaustively, recorded real builds are validated as traces of it"
NOTE = ("Every replayed history is accepted only if the specification explains each executed command, its order and arguments, the exit status, "
        "the contents of all products and which files were rewritten. Bounded: small exhaustive models plus seeded random histories. "
        "Trusts TLC, the harness's own deterministic tool/compiler, and that inputs are not edited during a build.")
CMD = ["the exit status", "log of executed commands", "contents and inodes of products in the cache directory", "install prefix"]
DEPS = [("dependency records of rules", "deps.c, script.c:node_resolve"), ("rule handlers", "node_run.c, node_cc.c, node_foreach.c, node_configure.c, node_check.c, node_subst.c, node_install.c")]
ST = ["records of rules in the cache directory", "products", "sources", "options and environment"]

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [{"property": p["id"], "quick_cmd": "python3 checks/check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 checks/check.py %s thorough" % p["id"], "technique": p["_t"] or ENG,
                   "level": p["_l"], "level_note": p["_n"] or NOTE} for p in P if p["_claim"]],
       "not_applicable": [{"property": p["id"], "reason": p["_r"]} for p in P if not p["_claim"]],
       "notes": "No hooks in /repo: the program is observed from outside. known-findings.txt lists defects which were repaired."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
