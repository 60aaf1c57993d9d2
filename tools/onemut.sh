#!/bin/bash
# onemut.sh <mutant name> : leaves the mutated copy in /tmp/mut1/0/repo, prints the environment to use it
cd "$(dirname "$0")/.." && python3 - "$1" <<'PY'
import sys; sys.argv=[sys.argv[0]]+sys.argv[1:]
src=open('tools/mutants.py').read().replace("\nmain()\n","\n").replace('SCR = "/tmp/mut"','SCR = "/tmp/mut1"').replace("__file__","'/verif/tools/mutants.py'")
exec(src)
m=[m for f in sorted(glob.glob(HERE + "/tools/mutants/*.txt")) for m in parse(f) if m["name"]==sys.argv[1]][0]
repo,build=prepare(0)
for f,old,new,ev in m["edits"]:
    p=os.path.join(repo,f); s=open(p).read(); s=s.replace(strip(old),strip(new),-1 if ev else 1); open(p,"w").write(s)
PY
