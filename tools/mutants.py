#!/usr/bin/env python3
"""Self-test of the checks: applies small edits to copies of /repo and runs checks on them.
   mutants.py [-j N] [name-prefix...]      run the mutants of tools/mutants/*.txt
   A mutant file holds entries:
     === <name> | <check ids expected to alarm, or '-' for none> | <other checks to run>
     --- <file>
     <old text>
     +++
     <new text>
   (more than one --- block is possible; '--* file' replaces every occurrence)
   ALLP, ALLT and ALLM stand for all checks of the peer, the transports and the macros."""
import os, sys, subprocess, shutil, glob, re, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/mut"
GROUPS = {"ALLP": "C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C21 C22 C23 C24 C25 C60 C70",
          "ALLT": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C32 C33 C60 C61 C71",
          "ALLM": "C40 C42 C43 C44 C45"}

def parse(path):
    res = []; cur = None; mode = None
    for line in open(path):
        line = line.rstrip("\n")
        if line.startswith("=== "):
            p = [x.strip() for x in line[4:].split("|")]
            cur = {"name": p[0], "expect": [] if p[1] == "-" else p[1].split(), "also": list(dict.fromkeys(c for g in (p[2].split() if len(p) > 2 else []) for c in GROUPS.get(g, g).split())), "edits": []}
            res.append(cur); mode = None
        elif line.startswith("--- ") or line.startswith("--* "):
            cur["edits"].append([line[4:].strip(), [], [], line[2] == "*"]); mode = 1
        elif line == "+++": mode = 2
        elif mode: cur["edits"][-1][mode].append(line)
    return res

def strip(ls):
    while ls and not ls[-1].strip(): ls = ls[:-1]
    return "\n".join(ls)

def prepare(slot):
    d = os.path.join(SCR, str(slot)); repo = os.path.join(d, "repo")
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run(["rsync", "-a", "--exclude", "target", "--exclude", ".git", "/repo/", repo + "/"], check=True) if shutil.which("rsync") else subprocess.run(f"mkdir -p {repo} && cd /repo && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C {repo}", shell=True, check=True)
        os.makedirs(d + "/build")
        for x in ("target", "target-w", "target-x"):
            if os.path.isdir(HERE + "/build/" + x): subprocess.run(["cp", "-a", HERE + "/build/" + x, d + "/build/" + x], check=True)
        for x in glob.glob(HERE + "/build/mirdump-*"): shutil.copy(x, d + "/build/")
    else:
        subprocess.run(f"cd /repo && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C {repo}", shell=True, check=True)
    return repo, d + "/build"

def one(slot, m):
    repo, build = prepare(slot)
    touched = []
    for f, old, new, everywhere in m["edits"]:
        p = os.path.join(repo, f); s = open(p).read()
        o, n = strip(old), strip(new)
        if s.count(o) < 1: return m, "BADPATTERN " + f + " " + o[:80], []
        s = s.replace(o, n, -1 if everywhere else 1); open(p, "w").write(s); touched.append(f)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=build, VERIF_JOBS="2")
    res = []
    for c in m["expect"] + m["also"]:
        t0 = time.time()
        try:
            p = subprocess.run([sys.executable, HERE + "/check.py", c], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
            out = p.stdout.decode(errors="replace"); rc = p.returncode
        except subprocess.TimeoutExpired:
            out = "timeout"; rc = 99
        dt = time.time() - t0
        if dt > 120: print("SLOW", m["name"], c, f"{dt:.0f} s", flush=True)
        res.append((c, rc, out))
    return m, None, res

def main():
    args = sys.argv[1:]; j = 6; verbose = False
    if args[:1] == ["-j"]: j = int(args[1]); args = args[2:]
    if args[:1] == ["-v"]: verbose = True; args = args[1:]
    ms = [m for f in sorted(glob.glob(HERE + "/tools/mutants/*.txt")) for m in parse(f)]
    if args: ms = [m for m in ms if any(m["name"].startswith(a) or a in m["expect"] for a in args)]
    import queue
    slots = queue.Queue()
    for i in range(j): slots.put(i)
    def job(m):
        s = slots.get()
        try: return one(s, m)
        finally: slots.put(s)
    bad = 0
    with ThreadPoolExecutor(j) as ex:
        for m, err, res in ex.map(job, ms):
            if err: print("??", m["name"], err); bad += 1; continue
            for c, rc, out in res:
                want = 1 if c in m["expect"] else 0
                ok = rc == want
                bad += not ok
                first = next((l.strip() for l in out.splitlines() if l.strip().startswith("[") or "error" in l or "Error" in l), "")
                print("ok " if ok else "BAD", m["name"], c, f"rc={rc}", first[:150] if (verbose or not ok or rc) else "", flush=True)
    print("bad:", bad)
main()
