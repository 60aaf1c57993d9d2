#!/usr/bin/env python3
"""writes MANIFEST.json from the table below, properties.jsonl and the rules that exist"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "tools")); sys.dont_write_bytecode = True
import check
check.load_rules()
AI = "abstract interpretation of the compiler's MIR"
TECH = {
 "C01": (AI + " (symbolic byte layout)", "Every path of encode/decode and of the message constructors is interpreted over symbolic values; the byte layout is compared with the documented one."),
 "C02": (AI + ", fixpoint over polls (affine relations + byte provenance)", "into_transport and split are composed with a symbolic configuration, and the poll function is iterated to a fixpoint over any number of polls, transfers and messages; std, tokio and tokio-seqpacket calls are modelled from their documentation."),
 "C60": (AI + " (exhaustive variant analysis)", "Each predicate is evaluated for every variant of the error types."),
 "C71": (AI + " (forwarding summaries)", "Each forwarding impl is interpreted and its single callee and arguments are compared with the contract."),
 "C32": (AI + " (value provenance)", "The configuration fields are followed from the public constructors into the halves."),
}
for p in ("C03", "C04", "C05", "C06", "C07", "C08"): TECH[p] = TECH["C02"]
try:
    from gen_manifest_extra import TECH2, NA
    TECH.update(TECH2)
except ImportError:
    NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.MODULES and i not in NA:
        t, n = TECH.get(i, (AI, "See DESIGN.md."))
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py --thorough {i}", "evidence_file": f"evidence/{i}.json", "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "No sound static rule for it has been built yet; see DESIGN.md.")})
m = {"version": 1, "setup_cmd": "python3 engine/front.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
