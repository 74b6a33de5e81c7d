#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (developer tool)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import props
TECH = "contract-based deductive verification: Kani/CBMC discharges the contracts of the real functions, function by function"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    rows = [(pid, p) for pid, p in props.PROPERTIES.items()] + [(pid, p) for pid, p in props.NOT_APPLICABLE.items()]
    for pid, p in sorted(rows, key=lambda r: r[0]):
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p.get("state"):
            a["state"] = p["state"]
        if p.get("observe"):
            a["observe_at"] = p["observe"]
        if p.get("hook"):
            a["hook_needed"] = p["hook"]
        f.write(json.dumps(dict(id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="python3 bin/setup.py",
         hooks=dict(guard="cfg(kani)", enable="set by cargo kani itself for every crate it compiles", source_commits=props.HOOK_COMMITS if hasattr(props, "HOOK_COMMITS") else []),
         checks=[dict(property=pid, quick_cmd="python3 bin/check.py %s --tier quick" % pid, thorough_cmd="python3 bin/check.py %s --tier thorough" % pid,
                      technique=p.get("technique", TECH), level=p["level"],
                      level_note=p.get("note") or ("Contracts on: %s. Trusted: %s. Assumed: %s." % ("; ".join(p["functions"]), "; ".join(p["trusted"]), "; ".join(p["assumptions"]))))
                 for pid, p in sorted(props.PROPERTIES.items())],
         not_applicable=[dict(property=pid, reason=p["reason"]) for pid, p in sorted(props.NOT_APPLICABLE.items())],
         notes="See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
