#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os, subprocess
import props
ROOT = os.path.dirname(os.path.abspath(__file__))
NA = props.NOT_APPLICABLE
out = []
for pid, p in sorted({**props.PROPS, **NA}.items()):
    out.append({"id": pid, "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p.get("observe", []), "hook_needed": p.get("hook")}})
open(ROOT + "/properties.jsonl", "w").write("".join(json.dumps(o) + "\n" for o in out))
hooks = props.HOOK_COMMITS
man = {"version": 1, "setup_cmd": "python3 vf.py build harness",
       "hooks": {"guard": "rerecast_verif", "enable": "RUSTFLAGS=--cfg rerecast_verif (vf.py sets it)", "source_commits": hooks},
       "checks": [], "not_applicable": [{"property": k, "reason": v["reason"]} for k, v in sorted(NA.items())],
       "notes": "Every check rebuilds the engine, the harness IR and the native replay libraries from /repo's working tree; see DESIGN.md."}
for pid, p in sorted(props.PROPS.items()):
    man["checks"].append({
        "property": pid, "quick_cmd": "python3 vf.py check %s" % pid, "thorough_cmd": "python3 vf.py check %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "symbolic execution of rustc's LLVM IR for the real code, assertions decided by Z3 (bit-vectors, integers, floats)",
        "level": "model_checking",
        "level_note": p.get("note", "") or ("Bounded: " + "; ".join(j.get("bounds", "") for j in p["jobs"] if j.get("bounds")) + ". " + props.LEVEL_NOTE)})
open(ROOT + "/MANIFEST.json", "w").write(json.dumps(man, indent=1) + "\n")
