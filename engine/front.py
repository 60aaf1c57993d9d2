"""Builds what the rules analyse: the MIR dump of /repo's current working tree."""
import os, sys, hashlib, subprocess, fcntl, glob, time, json, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
FEATURES = "macros,tcp,unix-stream,unix-seqpacket"

class BuildError(Exception):
    pass

def sh(cmd, cwd=None, env=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")

_lock = None
def lock():
    """one build at a time; checks may run in parallel"""
    global _lock
    os.makedirs(BUILD, exist_ok=True)
    if _lock is None:
        _lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(_lock, fcntl.LOCK_EX)
def unlock():
    if _lock is not None:
        fcntl.flock(_lock, fcntl.LOCK_UN)

def tree_files():
    """the source files of the working tree"""
    out = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".md", ".in")) or f in ("Cargo.lock",):
                out.append(os.path.join(root, f))
    return out

def file_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as x:
            h.update(x.read())
        h.update(b"\0")
    return h.hexdigest()[:24]

_sysroot = None
def sysroot():
    global _sysroot
    if _sysroot is None:
        rc, out = sh(["rustc", "+nightly", "--print", "sysroot"])
        if rc: raise BuildError(out)
        _sysroot = out.strip()
    return _sysroot

def driver():
    """compile the dumper if it is not there yet"""
    src = os.path.join(VERIF, "driver", "main.rs")
    h = file_hash([src])
    exe = os.path.join(BUILD, "mirdump-" + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        rc, out = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", exe + ".tmp"])
        if rc:
            raise BuildError("the MIR dumper does not compile:\n" + out[-4000:])
        os.rename(exe + ".tmp", exe)
    return exe, h

def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    env["CARGO_NET_OFFLINE"] = "true"
    return env

def clean_fp(target, crate):
    for d in glob.glob(os.path.join(target, "debug", ".fingerprint", crate.replace("_", "-") + "-*")):
        shutil.rmtree(d, ignore_errors=True)
    for d in glob.glob(os.path.join(target, "debug", "build", crate.replace("_", "-"), "*", "fingerprint")):
        shutil.rmtree(d, ignore_errors=True)

def clean_stale(target):
    """makes cargo compile the library again, and what else of the tree differs from what it compiled last: its own
    test is the age of the files, which says nothing about trees that were copied or checked out"""
    clean_fp(target, "fizyr_rpc")
    h = file_hash([f for f in tree_files() if f.startswith(os.path.join(REPO, "macros") + os.sep)])
    mark = os.path.join(target, "verif-macros")
    try: old = open(mark).read()
    except OSError: old = None
    if old != h:
        clean_fp(target, "fizyr_rpc_macros")
        os.makedirs(target, exist_ok=True)
        with open(mark, "w") as f: f.write(h)

def prune(keep):
    """old dumps"""
    ds = sorted(glob.glob(os.path.join(BUILD, "mir", "*.json")), key=os.path.getmtime)
    for d in ds[:-12]:
        if d != keep:
            try: os.remove(d)
            except OSError: pass

def library_dump():
    """path of the dump of fizyr_rpc for the current tree"""
    lock()
    try:
        exe, dh = driver()
        h = file_hash(tree_files())
        path = os.path.join(BUILD, "mir", f"lib-{dh[:8]}-{h}.json")
        if not os.path.exists(path):
            out_dir = os.path.join(BUILD, "out-lib")
            os.makedirs(out_dir, exist_ok=True)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            target = os.path.join(BUILD, "target")
            got = os.path.join(out_dir, "fizyr_rpc.json")
            if os.path.exists(got): os.remove(got)
            clean_stale(target)
            env = base_env()
            env.update(CARGO_TARGET_DIR=target, MIRDUMP_CRATES="fizyr_rpc", MIRDUMP_OUT=out_dir, RUSTC_WORKSPACE_WRAPPER=exe)
            rc, out = sh(["cargo", "+nightly", "check", "--offline", "--features", FEATURES], cwd=REPO, env=env)
            if rc or not os.path.exists(got):
                raise BuildError("the working tree could not be analysed:\n" + out[-6000:])
            os.rename(got, path)
            prune(path)
        else:
            os.utime(path)
        return path
    finally:
        unlock()

class WitnessError(Exception):
    """the witness program does not compile although the library does"""

def scratch_tree(name):
    """a copy of the working tree's sources"""
    dst = os.path.join(BUILD, "wsrc", name)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns("target", ".git", "node_modules"))
    return dst

def witness_dump(name, text):
    """dump of the library of the current tree with one more module, which holds a witness program. It is compiled
    inside the library so that the code of both is there to be analysed."""
    lock()
    try:
        exe, dh = driver()
        h = hashlib.sha256((file_hash(tree_files()) + text).encode()).hexdigest()[:24]
        path = os.path.join(BUILD, "mir", f"{name}-{dh[:8]}-{h}.json")
        if not os.path.exists(path):
            out_dir = os.path.join(BUILD, "out-" + name)
            os.makedirs(out_dir, exist_ok=True)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            src = scratch_tree(name)
            with open(os.path.join(src, "src", "verif_witness.rs"), "w") as f: f.write(text)
            with open(os.path.join(src, "src", "lib.rs"), "a") as f: f.write("\n#[allow(warnings)]\npub mod verif_witness;\n")
            target = os.path.join(BUILD, "target-w")
            got = os.path.join(out_dir, "fizyr_rpc.json")
            if os.path.exists(got): os.remove(got)
            clean_stale(target)
            env = base_env()
            env.update(CARGO_TARGET_DIR=target, MIRDUMP_CRATES="fizyr_rpc", MIRDUMP_OUT=out_dir, RUSTC_WORKSPACE_WRAPPER=exe)
            rc, out = sh(["cargo", "+nightly", "check", "--offline", "--lib", "--features", FEATURES], cwd=src, env=env)
            if rc or not os.path.exists(got):
                if "verif_witness.rs" in out: raise WitnessError(out)
                raise BuildError(f"the witness {name} could not be analysed:\n" + out[-6000:])
            os.rename(got, path)
            prune(path)
        else:
            os.utime(path)
        return path
    finally:
        unlock()

# ---- compiling witness programs against the library
_rustc = None
def rustc():
    """the real compiler behind rustup's proxy"""
    global _rustc
    if _rustc is None: _rustc = os.path.join(sysroot(), "bin", "rustc")
    return _rustc

def check_library(features, fresh):
    """type-checks the library with exactly these features: (metadata file or None, directory of the dependencies, output).
    The lock must be held."""
    target = os.path.join(BUILD, "target-x")
    if fresh:
        clean_fp(target, "fizyr_rpc"); clean_fp(target, "fizyr_rpc_macros")
    env = base_env()
    env.update(CARGO_TARGET_DIR=target)
    cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--no-default-features", "--message-format=json"]
    if features: cmd += ["--features", ",".join(features)]
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    rmeta, text, dirs = None, "", []
    for l in p.stdout.decode(errors="replace").splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if os.path.dirname(f) not in dirs: dirs.append(os.path.dirname(f))
                if f.endswith(".rmeta") and m["target"]["name"] == "fizyr_rpc": rmeta = f
        elif m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            text += m["message"].get("rendered") or m["message"]["message"]
    if p.returncode:
        return None, None, text or p.stderr.decode(errors="replace")[-3000:]
    return rmeta, dirs, text

def compile_witness(name, text, rmeta, deps):
    """compiles one witness program (metadata only): list of errors (code, lines in the witness, message)"""
    d = os.path.join(BUILD, "wx"); os.makedirs(d, exist_ok=True)
    src = os.path.join(d, name + ".rs")
    with open(src, "w") as f: f.write(text)
    cmd = [rustc(), "--edition", "2021", "--crate-name", "w_" + name.replace("-", "_"), "--crate-type", "lib", "--emit=metadata", "-o", os.path.join(d, name + ".rmeta"),
        "--error-format=json", "--cap-lints", "allow", "--extern", "fizyr_rpc=" + rmeta, src]
    for x in deps: cmd += ["-L", "dependency=" + x]
    p = subprocess.run(cmd, env=base_env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
    out = []
    for l in p.stderr.decode(errors="replace").splitlines():
        try: m = json.loads(l)
        except ValueError:
            if p.returncode: out.append(("", [], l))
            continue
        if m.get("level", "").startswith("error") and not m["message"].startswith("aborting due to"):
            lines = set()
            def walk(sp):
                if sp is None: return
                if sp["file_name"].endswith(src) or src.endswith(sp["file_name"]):
                    lines.update(range(sp["line_start"], sp["line_end"] + 1))
                if sp.get("expansion"): walk(sp["expansion"]["span"])
            for sp in m["spans"]: walk(sp)
            if (m.get("code") or {}).get("code") in ("E0463", "E0460", "E0514", "E0786"): raise BuildError("witness programs cannot be compiled: " + m["message"])
            out.append(((m.get("code") or {}).get("code", "") if m.get("code") else "", sorted(lines), m["message"]))
    if p.returncode and not out: out.append(("", [], "the compiler failed"))
    if not p.returncode: out = []
    for e in (".rs", ".rmeta"):
        try: os.remove(os.path.join(d, name + e))
        except OSError: pass
    return out

if __name__ == "__main__":
    t = time.time()
    print(library_dump(), f"{time.time()-t:.1f}s")
