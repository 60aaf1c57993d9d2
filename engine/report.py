"""Obligations, violations, evidence."""
import json, os, time, traceback, re, sys
import lin
from front import VERIF

AFTER_FAILURE = 45.0

class Stop(Exception):
    """the rule cannot continue (already reported)"""

class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obls = []          # (name, ok, text)
        self.viol = []          # dict(key, what, where, path)
        self.notes = []
        self.undecided_ = []
        self.fns = set()
        self.counts = {}
        self.samples = []
        self.rule_text = ""
        self.engines = []
        self.blocks = 0
        self.unmodelled = set()
        self.first_failed = None
    def rule(self, text):
        self.rule_text = text
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n
    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)
    def undecided(self, text):
        if text not in self.undecided_:
            self.undecided_.append(text)
    def ob(self, name, ok, text, where=None, path=None, key=None):
        """one obligation; a failed one is a violation identified by `key` (no line numbers)"""
        self.obls.append((name, bool(ok)))
        if ok and len(self.samples) < 12 and not any(s["obligation"] == name for s in self.samples):
            self.samples.append({"obligation": name, "where": where_s(where), "reported_if_broken": text})
        if not ok:
            k = key or name
            if not any(v["key"] == k for v in self.viol):
                self.viol.append({"key": k, "what": text, "where": where_s(where), "path": path or []})
            # the property is broken: look a little further for other violations, but do not explore to the end
            # a tree whose broken paths multiply
            if self.first_failed is None:
                self.first_failed = time.time()
                lin.stop_soon(AFTER_FAILURE)
        if self.first_failed is not None and time.time() - self.first_failed > AFTER_FAILURE:
            self.note(f"stopped {AFTER_FAILURE:.0f} s after the first violation: there may be more")
            raise Stop()
        return ok
    def fail(self, name, text, where=None, path=None, key=None):
        return self.ob(name, False, text, where, path, key)
    def need(self, x, what):
        """an anchor of the rule that must exist"""
        if not x:
            self.fail(f"anchor: {what}", f"{what} was not found in the analysed tree, so the property cannot be established", key=f"anchor:{what}")
            raise Stop()
        return x
    def use(self, E):
        self.engines.append(E)
    # ---- parts decided in other processes
    def settle(self):
        for E in self.engines:
            for i in E.visited:
                self.fns.add(E.dump.fns[i].path)
            self.blocks += E.blocks
            self.unmodelled |= set(E.unmodelled)
        self.engines = []
    def export(self):
        self.settle()
        return {k: getattr(self, k) for k in ("obls", "viol", "notes", "undecided_", "fns", "counts", "samples", "blocks", "unmodelled")}
    def absorb(self, x):
        self.obls += x["obls"]
        for v in x["viol"]:
            if not any(w["key"] == v["key"] for w in self.viol): self.viol.append(v)
        for n in x["notes"]: self.note(n)
        for n in x["undecided_"]: self.undecided(n)
        self.fns |= x["fns"]; self.blocks += x["blocks"]; self.unmodelled |= x["unmodelled"]
        for k, n in x["counts"].items(): self.count(k, n)
        self.samples = (self.samples + x["samples"])[:12]
    # ---- results
    def finish(self, known, tier, seed):
        self.settle()
        listed, new = [], []
        for v in self.viol:
            (listed if (self.pid, v["key"]) in known else new).append(v)
        cov = {
            "explanation": self.rule_text or "static analysis of the MIR of the current tree",
            "obligations": len(self.obls),
            "discharged": sum(1 for _, ok in self.obls if ok),
            "distinct_obligations": len({n for n, _ in self.obls}),
            "functions_analysed": len(self.fns),
            "basic_blocks_interpreted": self.blocks,
            "counts": self.counts,
            "samples": self.samples,
            "undecided": self.undecided_,
            "notes": self.notes,
            "functions": sorted(self.fns)[:400],
            "unmodelled_calls": sorted(self.unmodelled),
            "known_findings_seen": [v["key"] for v in listed],
            "violations": new,
        }
        ev = {"property": self.pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - self.t0, 3)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.pid + ".json")
        with open(p + ".%d.tmp" % os.getpid(), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        os.rename(p + ".%d.tmp" % os.getpid(), p)
        return listed, new

def where_s(w):
    if w is None: return None
    if isinstance(w, (list, tuple)):
        return f"{w[0]}" + (f" ({w[1]})" if len(w) > 1 and w[1] else "")
    if hasattr(w, "path"):
        return f"{w.path} ({w.file}:{w.line})"
    return str(w)

def trace_of(st, n=14):
    """the branch decisions of a path, for the report"""
    return [f"{f}:{l}: {t}" for f, l, t in st.trace[-n:]]


def in_parallel(R, jobs, budget=300.0, workers=None):
    """jobs: (name, function(report)). Each runs in a process of its own with its own report; the reports are merged
    in order. A job that exceeds its time budget keeps what it found so far."""
    import pickle, select as sel
    workers = workers or int(os.environ.get("VERIF_JOBS", "0") or 0) or min(8, os.cpu_count() or 1)
    todo = list(enumerate(jobs)); running = {}; results = {}
    while todo or running:
        while todo and len(running) < workers:
            i, (name, fn) = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                sub = Report(R.pid)
                out = None
                try:
                    lin.set_deadline(time.time() + budget)
                    try:
                        fn(sub)
                    except Stop:
                        pass
                    except lin.Timeout:
                        sub.undecided(f"{name}: the analysis did not finish within {budget:.0f} s")
                    out = ("ok", sub.export())
                except BaseException:
                    out = ("error", traceback.format_exc())
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
                os._exit(0)
            os.close(w)
            running[r] = (i, pid, bytearray())
        ready, _, _ = sel.select(list(running), [], [])
        for r in ready:
            data = os.read(r, 1 << 20)
            if data:
                running[r][2].extend(data); continue
            i, pid, buf = running.pop(r)
            os.close(r); os.waitpid(pid, 0)
            results[i] = pickle.loads(bytes(buf)) if buf else ("error", "the analysis process died")
    errors = []
    for i, (name, _) in enumerate(jobs):
        k, x = results[i]
        if k == "ok": R.absorb(x)
        else: errors.append(f"{name}: {x}")
    if errors:
        if R.viol: R.note("some parts failed: " + errors[0][-400:])
        else: raise RuntimeError(errors[0])
