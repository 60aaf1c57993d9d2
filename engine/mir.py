"""Loader and pretty printer for the MIR dumps written by driver/main.rs."""
import json, re, sys

_gen = re.compile(r"::<")

def strip_generics(p):
    """`std::option::Option::<T>::map::<U>` -> `std::option::Option::map`; keeps `<A as B>::c` forms."""
    out = []
    depth = 0
    i = 0
    while i < len(p):
        if p.startswith("::<", i):
            # skip a balanced generic argument list
            j = i + 2
            d = 0
            while j < len(p):
                c = p[j]
                if c == "<":
                    d += 1
                elif c == ">" and p[j-1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)

class Fn:
    __slots__ = ("id", "path", "name", "kind", "local", "file", "line", "argc", "args", "root", "pub", "async_",
                 "impl_self", "impl_trait", "in_trait", "names", "locals", "blocks", "dump", "local_names", "_loops")
    def __init__(self, d, dump):
        self.dump = dump
        self.id = d["id"]; self.path = d["path"]; self.kind = d["kind"]; self.local = d["local"]
        self.name = strip_generics(self.path)
        self.file = d["file"]; self.line = d["line"]; self.argc = d["argc"]; self.args = d["args"]
        self.root = d["root"]; self.pub = d.get("pub", False); self.async_ = d.get("async", False)
        self.impl_self = d.get("impl_self"); self.impl_trait = d.get("impl_trait"); self.in_trait = d.get("in_trait")
        self.names = d["names"]; self.locals = d["locals"]; self.blocks = d["blocks"]
        self.local_names = {}
        for n, (l, pr) in self.names:
            if not pr:
                self.local_names.setdefault(l, n)
        self._loops = None
    def __repr__(self):
        return f"<fn {self.id} {self.path}>"

class Dump:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d["crate"]
        self.types = d["types"]
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.fns = [Fn(x, self) if x else None for x in d["fns"]]
        self.roots = [f for f in self.fns if f and f.root]
    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else {"k": "unknown", "s": "?"}
    def tys(self, i):
        return self.ty(i)["s"]

# ---- pretty printing -------------------------------------------------------------------------
def pplace(f, p):
    l, pr = p
    s = f.local_names.get(l, "") + f"_{l}"
    for e in pr:
        if e == "*": s = f"(*{s})"
        elif e == "~": s = s + "~"
        elif e[0] == "f": s += f".{e[1]}"
        elif e[0] == "d": s += f"@{e[1]}"
        elif e[0] == "i": s += f"[_{e[1]}]"
        else: s += str(e)
    return s
def pconst(f, k):
    if k["c"] == "fn": return strip_generics(k["callee"]["path"])
    if k["c"] == "promoted": return f"promoted#{k['fn']}"
    return repr(k["v"])
def pop(f, o):
    if o["o"] in ("copy", "move"): return ("move " if o["o"] == "move" else "") + pplace(f, o["p"])
    if o["o"] == "const": return "const " + pconst(f, o["k"])
    return o["o"]
def prv(f, r):
    k = r["r"]
    if k == "use": return pop(f, r["a"])
    if k == "ref": return ("&mut " if r["mut"] else "&") + ("fake " if r["fake"] else "") + pplace(f, r["p"])
    if k == "cast": return f"{pop(f, r['a'])} as {f.dump.tys(r['t'])} ({r['ck']})"
    if k == "bin": return f"{r['op']}({pop(f, r['a'])}, {pop(f, r['b'])})"
    if k == "un": return f"{r['op']}({pop(f, r['a'])})"
    if k == "discr": return f"discr({pplace(f, r['p'])})"
    if k == "agg":
        h = r.get("adt") or r["ak"]
        return f"{h}#{r.get('v','')}({', '.join(pop(f, o) for o in r['ops'])})"
    if k == "repeat": return f"[{pop(f, r['a'])}; {r['n']}]"
    return k
def pretty(f):
    o = [f"fn#{f.id} {f.path} [{f.kind}] {f.file}:{f.line} args={[f.dump.tys(a) for a in f.args]}"]
    for i, t in enumerate(f.locals):
        o.append(f"  let _{i} {f.local_names.get(i,'')}: {f.dump.tys(t)}")
    for n, p in f.names:
        if p[1]: o.append(f"  name {n} = {pplace(f, p)}")
    for i, b in enumerate(f.blocks):
        if b["c"]: continue
        o.append(f" bb{i}:")
        for s in b["s"]:
            if "dead" in s or "live" in s: continue
            if "sd" in s: o.append(f"   setdiscr {pplace(f, s['p'])} = {s['sd']}")
            else: o.append(f"   {pplace(f, s['p'])} = {prv(f, s['v'])}")
        t = b["t"]; k = t["k"]
        x = {k2: v for k2, v in t.items() if k2 in ("t", "ds", "m", "op", "l")}
        if k == "call":
            ce = t["f"]["k"]["callee"] if t["f"]["o"] == "const" and t["f"]["k"]["c"] == "fn" else {}
            o.append(f"   {pplace(f, t['dst'])} = CALL {pop(f, t['f'])}({', '.join(pop(f, a) for a in t['a'])}) res={ce.get('res')} fn={ce.get('fn')} {x}")
        elif k == "switch":
            o.append(f"   SWITCH {pop(f, t['d'])} {t['vs']} else {t['o']}")
        elif k == "drop":
            o.append(f"   DROP {pplace(f, t['p'])} -> {t['t']}")
        else:
            o.append(f"   {k.upper()} {x}" + (f" {pop(f, t['c'])}" if k == "assert" else ""))
    return "\n".join(o)

if __name__ == "__main__":
    d = Dump(sys.argv[1])
    if len(sys.argv) == 2:
        for f in d.fns:
            if f: print(f.id, f.kind, "ROOT" if f.root else "", f.path, f.file.split("/")[-1], f.line, len(f.blocks))
    else:
        for f in d.fns:
            if f and (str(f.id) == sys.argv[2] or (not sys.argv[2].isdigit() and sys.argv[2] in f.path)):
                print(pretty(f)); print()
