#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from a description file and confirm it in a scratch copy of /repo.

   Description: lines '@prop C04', '@needs ...', '@breaks ...', '@features a,b', '@tokio a,b',
   '@dep name="1"', then edits ('--- path' / old text / '+++' / new text) and finally '@demo' followed by main.rs."""
import sys, os, re, json, shutil, subprocess
SC = "/tmp/seedwork"
def sh(c, cwd=None, t=600):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
DEMO = '''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 99
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" || exit 99
cp "$here/demo.rs" "$work/src/main.rs" || exit 99
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
fizyr-rpc = { path = "$repo", features = [%(features)s] }
tokio = { version = "1", features = [%(tokio)s] }
%(deps)s[workspace]
EOF
cd "$work" || exit 99
export TMPDIR="$work" CARGO_TARGET_DIR="$work/target"
timeout 280 cargo run --offline -q
'''
def main(path):
    sid = os.path.splitext(os.path.basename(path))[0]
    txt = open(path).read()
    head, demo = txt.split("@demo\n", 1)
    meta = {"deps": ""}; edits = []; cur = None
    for l in head.split("\n"):
        if l.startswith("@"):
            k, _, v = l[1:].partition(" ")
            if k == "dep": meta["deps"] += v + "\n"
            else: meta[k] = v
        elif l.startswith("--- "): cur = [l[4:].strip(), [], []]; edits.append(cur); side = 1
        elif l.strip() == "+++" and cur: side = 2
        elif cur is not None: cur[side].append(l)
    q = lambda s: ", ".join('"%s"' % x for x in s.split(",") if x)
    d = "/verif/seeded/" + sid
    if os.path.isdir(SC): shutil.rmtree(SC)
    os.makedirs(SC); repo = SC + "/repo"
    assert sh("cp -a /repo %s" % repo).returncode == 0
    sh("git checkout -q -- .", repo)
    os.makedirs(d, exist_ok=True)
    dm = open(d + "/demo.sh", "w"); dm.write(DEMO % dict(features=q(meta.get("features", "unix-stream")), tokio=q(meta.get("tokio", "full")), deps=meta["deps"])); dm.close()
    os.chmod(d + "/demo.sh", 0o755); open(d + "/demo.rs", "w").write(demo)
    ok = sh("bash %s/demo.sh" % d, repo)
    print("unpatched demo:", ok.returncode, ok.stdout[-600:] if ok.returncode else "")
    for f, old, new in edits:
        o = "\n".join(old).strip("\n"); n = "\n".join(new).strip("\n")
        s = open(repo + "/" + f).read()
        assert s.count(o) == 1, "%s: %d matches in %s" % (sid, s.count(o), f)
        if n == "": o = o + "\n" if o + "\n" in s else o
        s = s.replace(o, n); open(repo + "/" + f, "w").write(s)
    diff = sh("git diff", repo).stdout
    open(d + "/patch.diff", "w").write(diff)
    bad = sh("bash %s/demo.sh" % d, repo)
    print("patched demo:", bad.returncode, bad.stdout[-400:])
    t = sh("timeout 600 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", repo)
    open("/tmp/seedwork/test.log", "w").write(t.stdout)
    print("tests:", t.returncode, re.findall(r"test result: .*?(\d+ passed; \d+ failed)", t.stdout))
    json.dump({"property": meta["prop"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    # the checks
    for p in [meta["prop"]] + meta.get("also", "").split():
        r = sh("VERIF_REPO=%s VERIF_BUILD=%s/build python3 /verif/check.py %s" % (repo, SC, p), "/verif", 900)
        print("check", p, r.returncode, [l[:200] for l in r.stdout.splitlines() if "VIOLATION" in l][:1])
    good = ok.returncode == 0 and bad.returncode not in (0, 99, 124) and t.returncode == 0
    print("KEEP" if good else "BAD", sid)
    if not good: shutil.rmtree(d) if "-k" not in sys.argv else None
    shutil.rmtree(SC)
for p in sys.argv[1:]:
    if p != "-k": main(p)
