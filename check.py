#!/usr/bin/env python3
"""check.py [--thorough] <property>: decides one property for /repo's current working tree by static analysis."""
import sys, os, json, traceback, importlib
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "engine", "rules"))
from report import Report, Stop
from front import BuildError
from absint import Unsupported

MODULES = {}
def load_rules():
    d = os.path.join(HERE, "engine", "rules")
    more = {}
    for f in sorted(os.listdir(d)):
        if f.startswith("r_") and f.endswith(".py"):
            m = importlib.import_module(f[:-3])
            MODULES.update(m.RULES)
            more.update(getattr(m, "EXTENDS", {}))
    MODULES.update(more)

def known_findings():
    """entries `property=<id> key=<key> ...`; `fixed:` entries suppress nothing"""
    res = set()
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property="):
                rest = l[len("finding: property="):]
                pid, _, rest = rest.partition(" ")
                if rest.startswith("key="):
                    key = rest[4:].split(" :: ")[0]
                    res.add((pid, key))
    return res

def run(pid):
    R = Report(pid)
    try:
        MODULES[pid](R)
    except Stop:
        pass
    return R

def main():
    args = [a for a in sys.argv[1:] if a != "--thorough"]
    if len(args) != 1:
        print(__doc__); return 2
    if len(args) < len(sys.argv) - 1: os.environ["VERIF_DEPTH"] = "thorough"
    pid = args[0]
    load_rules()
    if pid not in MODULES:
        print(f"no rule for {pid}"); return 2
    tier = "thorough" if os.environ.get("VERIF_DEPTH") == "thorough" else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        R = run(pid)
    except BuildError as e:
        print(f"ERROR property={pid}: {e}"); return 2
    except Unsupported as e:
        print(f"ERROR property={pid}: the analysis gave up: {e}"); return 2
    listed, new = R.finish(known_findings(), tier, seed)
    print(f"{pid}: {len(R.obls)} obligations, {sum(1 for _, ok in R.obls if ok)} discharged, {len(R.fns)} functions, {len(R.undecided_)} undecided")
    for u in R.undecided_:
        print(f"UNDECIDED: {u}")
    for v in listed:
        print(f"KNOWN-FINDING: property={pid} {v['key']}: {v['what']}")
    if new:
        rp = os.path.join(HERE, "evidence", f"{pid}.violation.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "violations": new, "replay": f"python3 check.py {pid}"}, f, indent=1)
        for v in new:
            print(f"  [{v['key']}] {v['what']}" + (f"\n      at {v['where']}" if v['where'] else ""))
            for s in v["path"][-12:]:
                print(f"        {s}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
