"""Helpers shared by the rules."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import *
from report import Report, Stop, trace_of, in_parallel
import front, lin
import models as M
from mir import strip_generics, Dump

_dumps = {}
def dump(name="lib", text=None):
    if name not in _dumps:
        _dumps[name] = Dump(front.library_dump() if name == "lib" else front.witness_dump(name, text))
    return _dumps[name]

def all_roots(d):
    """one instance of every local function: the generic one, or the only one"""
    if not hasattr(d, "_allroots"):
        seen = {f.path for f in d.roots}
        rs = list(d.roots)
        for f in d.fns:
            if f and f.local and f.kind == "fn" and f.path not in seen and not f.args:
                seen.add(f.path)
                rs.append(f)
        d._allroots = rs
    return d._allroots

def find(d, suffix, kind="fn"):
    """root functions whose path without generics ends with the suffix"""
    r = []
    for f in all_roots(d):
        if f.kind != kind: continue
        n = f.name
        if n == suffix or n.endswith("::" + suffix):
            r.append(f)
    return r

def get(R, d, suffix):
    fs = find(d, suffix)
    R.need(len(fs) == 1, f"function {suffix}" if not fs else f"a single function {suffix}")
    return fs[0]

def callees(f):
    """callees mentioned in a body"""
    res = []
    def go(x):
        if isinstance(x, dict):
            if "callee" in x and isinstance(x["callee"], dict): res.append(x["callee"])
            for y in x.values(): go(y)
        elif isinstance(x, (list, tuple)):
            for y in x: go(y)
    go(f.blocks)
    return res
def callers(d):
    """name of a local function -> names of the functions that mention it (closures and async blocks count as their function)"""
    if not hasattr(d, "_callers"):
        fns = [f for f in d.fns if f and f.local]
        names = {f.name for f in fns}
        own = lambda n: n.split("::{closure#")[0]
        edges = {}
        for f in fns:
            for c in callees(f):
                for nm in (strip_generics(c.get("path") or ""), strip_generics(c["res"]) if isinstance(c.get("res"), str) else None,
                           d.fns[c["fn"]].name if c.get("fn") is not None and d.fns[c["fn"]] is not None else None):
                    if nm in names: edges.setdefault(own(nm), set()).add(own(f.name))
        d._callers = edges
    return d._callers
def helper_of(d, fn, known):
    """a private function that only functions among the known ones (or other such helpers) call: it is covered where they are interpreted"""
    if fn.pub or fn.impl_trait: return False
    edges = callers(d)
    todo, seen = [fn.name], set()
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        cs = edges.get(x, set()) - seen
        if not cs and not edges.get(x): return False
        for c in cs:
            g = [f for f in all_roots(d) if f.name == c]
            if g and all(not f.pub and not f.impl_trait for f in g): todo.append(c)
            elif c not in known: return False
    return True

def impls(d, trait_suffix, method):
    """methods of the local implementations of a trait"""
    return [f for f in all_roots(d) if f.impl_trait and strip_generics(f.impl_trait).split("<")[0].endswith(trait_suffix) and f.name.split("::")[-1] == method]

def engine(R, d=None):
    E = Engine(d or dump())
    E.R = R
    R.use(E)
    return E

def adt(d, suffix):
    r = [a for p, a in d.adts.items() if p == suffix or p.endswith("::" + suffix)]
    return r[0] if len(r) == 1 else (next((a for a in r if a["local"]), r[0]) if r else None)

def adt_tids(d, path):
    return [i for i, t in enumerate(d.types) if t["k"] == "adt" and t["adt"] == path]

def vidx(d, adt_, name):
    for i, v in enumerate(adt_["variants"]):
        if v["name"] == name: return i
    return None

def fidx(adt_, variant, name):
    for i, f in enumerate(adt_["variants"][variant]["fields"]):
        if (f["name"] if isinstance(f, dict) else f) == name: return i
    return None

def enum_name(E, st, v):
    """name of the variant of an enum value, if known"""
    k = E.variant(st, v)
    tid = v[1] if v[0] == "S" and isinstance(v[1], int) else (v[2] if v[0] == "lz" and isinstance(v[2], int) else E.tyof(v))
    a = E.adt_of(tid) if isinstance(tid, int) else (v[1] if v[0] == "S" and isinstance(v[1], str) else None)
    if k is None or a is None or a not in E.dump.adts: return None
    vs = E.dump.adts[a]["variants"]
    return vs[k]["name"] if k < len(vs) else None

def fieldn(E, st, v, name, variant=None):
    """field of a value by name"""
    tid = v[1] if v[0] == "S" and isinstance(v[1], int) else (v[2] if v[0] == "lz" and isinstance(v[2], int) else E.tyof(v if v[0] != "upd" else v[1]))
    a = E.adt_of(tid) if isinstance(tid, int) else None
    if a is None or a not in E.dump.adts: return None
    k = variant if variant is not None else E.variant(st, v)
    if k is None: k = 0
    i = fidx(E.dump.adts[a], k, name)
    return None if i is None else E.field(st, v, k, i)

def with_variant(E, st, v, k):
    s = st.copy()
    return s if E.set_variant(s, v, k) else None

def deep(E, st, v, depth=0):
    """resolve pointers in a value: &x -> ("&", x)"""
    if depth > 6 or not isinstance(v, tuple): return v
    if v[0] == "ref":
        return ("&", deep(E, st, E.load(st, v[1], v[2]), depth + 1))
    if v[0] == "S":
        return ("S", v[1], v[2], tuple(deep(E, st, x, depth + 1) for x in v[3]))
    if v[0] == "lz":
        k = E.variant(st, v)
        if k is not None:
            return deep(E, st, ("S", v[2], k, tuple(dict(v[3])[k])), depth + 1)
    return v

def enum_names(E, st, v):
    """names of the variants an enum value can still have; None if its type is not known"""
    tid = v[1] if v[0] == "S" and isinstance(v[1], int) else (v[2] if v[0] == "lz" and isinstance(v[2], int) else E.tyof(v))
    a = E.adt_of(tid) if isinstance(tid, int) else (v[1] if v[0] == "S" and isinstance(v[1], str) else None)
    if a is None or a not in E.dump.adts: return None
    vs = E.dump.adts[a]["variants"]
    ks = E.possible_variants(st, v)
    if ks is None: ks = range(len(vs))
    return [vs[k]["name"] for k in ks if k < len(vs)]
