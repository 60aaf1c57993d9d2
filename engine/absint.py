"""Interprocedural abstract interpreter over the dumped MIR.

Domain: a store of symbolic values (value numbering), variant facts, a conjunction of linear integer
constraints, and the list of observable events since the entry. Calls are interpreted inline, library
operations through transfer functions (models.py), everything else is an opaque event. Loops are solved
to a fixpoint: at a loop head every location that changes is replaced by a fresh symbol, states are
partitioned by enum variants, and the constraints that hold in all incoming states are kept.
Nothing of the analysed program is executed, and no external solver is involved.
"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lin
from lin import LEN_MAX, INT_RANGE
from mir import Dump, strip_generics

sys.setrecursionlimit(20000)

MOVED = ("moved",)
UNIT = ("S", "tuple", 0, ())
TRUE = ("c", 1)
FALSE = ("c", 0)

class Unsupported(Exception):
    pass

class Ev:
    __slots__ = ("k", "d", "site", "stack")
    def __init__(self, k, d, site, stack=()):
        self.k = k; self.d = d; self.site = site; self.stack = stack
    def __getitem__(self, n):
        return self.d.get(n)
    def __repr__(self):
        return f"{self.k}({', '.join(f'{a}={short(b)}' for a, b in self.d.items())})@{self.site[0].split('::')[-1]}:{self.site[1]}"

def short(v, n=140):
    s = show(v) if isinstance(v, tuple) else repr(v)
    return s if len(s) <= n else s[:n] + "…"

def show(v):
    if not isinstance(v, tuple) or not v:
        return repr(v)
    k = v[0]
    if k == "c": return str(v[1])
    if k == "str": return repr(v[1])
    if k == "s": return f"{v[1]}#{v[2]}"
    if k == "fld": return f"{show(v[1])}.{v[2] if v[2] else ''}{'@' if v[2] else ''}{v[3]}"
    if k == "deref": return f"*{show(v[1])}"
    if k == "lin": return "(" + "+".join([f"{'' if q == 1 else q}{show(a)}" for a, q in v[2]] + ([str(v[1])] if v[1] else [])) + ")"
    if k == "S": return f"S[{v[1] if not isinstance(v[1], tuple) else v[1]}]v{v[2]}(" + ", ".join(show(x) for x in v[3]) + ")"
    if k in ("cmp",): return f"({show(v[2])} {v[1]} {show(v[3])})"
    if k == "ref": return f"&{show(v[1])}{'.' + '.'.join(str(x) for x in v[2]) if v[2] else ''}"
    return "(" + " ".join(show(x) if isinstance(x, tuple) else str(x) for x in v) + ")"

class State:
    __slots__ = ("mem", "var", "nvar", "lin", "ne", "ev", "pres", "nsym", "nuid", "trace", "marks")
    def __init__(self):
        self.mem = {}      # base -> value
        self.var = {}      # atom -> variant index / bool
        self.nvar = {}     # atom -> frozenset of excluded variants
        self.lin = ()      # constraints
        self.ne = ()       # pairs of terms that differ
        self.ev = ()       # events
        self.pres = {}     # (map, key) -> bool
        self.nsym = 0
        self.nuid = 0
        self.trace = ()    # decisions (site, text)
        self.marks = {}    # rule-specific ghost data (immutable values)
    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.var = dict(self.var); s.nvar = dict(self.nvar); s.lin = self.lin; s.ne = self.ne
        s.ev = self.ev; s.pres = dict(self.pres); s.nsym = self.nsym; s.nuid = self.nuid; s.trace = self.trace
        s.marks = dict(self.marks)
        return s

class Out:
    __slots__ = ("k", "st", "v")
    def __init__(self, k, st, v=None):
        self.k = k; self.st = st; self.v = v
    def __repr__(self):
        return f"<{self.k} {short(self.v) if self.v is not None else ''}>"

class Seg:
    """One path through a loop body, from a head state to a back edge or an exit."""
    __slots__ = ("head", "k", "target", "st", "ev", "v")
    def __init__(self, head, k, target, st, ev, v=None):
        self.head = head; self.k = k; self.target = target; self.st = st; self.ev = ev; self.v = v

class LoopInfo:
    __slots__ = ("id", "fn", "header", "heads", "segs", "limits")
    def __init__(self):
        self.limits = ()

class Ctx:
    """Call context passed to models."""
    __slots__ = ("E", "fn", "dst_ty", "callee", "site", "arg_tys", "ds", "stack")

VARIANTS = {
    "core::option::Option": ["None", "Some"], "core::result::Result": ["Ok", "Err"], "core::task::poll::Poll": ["Ready", "Pending"],
    "core::ops::control_flow::ControlFlow": ["Continue", "Break"],
}

class Engine:
    def __init__(self, dump, models=None):
        self.dump = dump
        self.types = dump.types
        self.typ = {}              # term -> tid or int type name
        self.loops = []            # LoopInfo
        self.R = None
        self.unmodelled = {}       # path -> count
        self.visited = set()       # function ids interpreted
        self.blocks = 0
        self.callees = []
        self.callee_ids = {}
        self.opaque_fns = set()    # function paths that are not inlined
        self.partition = None      # extra partition key: f(state) -> hashable
        self.inline_poll = False
        self.no_await_inline = None # predicate(value) -> do not inline this future at an await
        self.depth = 0
        self.max_depth = 60
        self.budget = 400000
        self.await_pending = False
        self.fold_cache = {}
        self.on_event = None
        self.await_hook = None; self.replay = None
        self.recv_hook = None; self.send_hook = None; self.read_hook = None; self.write_hook = None; self.atomic_load_hook = None
        self.await_mode = False
        self._future_impls = {}
        self._taints = 0
        self._loopcache = {}
        self._redcache = {}
        self.name_to_tid = {}
        for i, t in enumerate(self.types):
            self.name_to_tid.setdefault(t["s"], i)
        if models is None:
            import models as M
            models = M.MODELS
            self.mod = M
        self.models = models

    # ---- types -------------------------------------------------------------------------------
    def ty(self, tid):
        if isinstance(tid, int) and tid >= 0:
            return self.types[tid]
        return {"k": "unknown", "s": str(tid)}
    def typed(self, term, tid):
        if tid is not None and term[0] not in ("c", "S", "ref", "slice", "bytes", "moved", "str", "lz", "lin"):
            self.typ.setdefault(term, tid)
        return term
    def tyof(self, term):
        return self.typ.get(term)
    def adt_of(self, tid):
        t = self.ty(tid)
        return t.get("adt") if t["k"] == "adt" else None
    def nvariants(self, tid):
        a = self.adt_of(tid)
        if a and a in self.dump.adts and self.dump.adts[a]["kind"] == "enum":
            return len(self.dump.adts[a]["variants"])
        if self.ty(tid)["k"] == "bool":
            return 2
        return None
    def discr_val(self, tid, variant):
        a = self.adt_of(tid)
        if a and a in self.dump.adts:
            vs = self.dump.adts[a]["variants"]
            if variant < len(vs):
                return int(vs[variant]["discr"])
        return variant
    def variant_of_discr(self, tid, val):
        a = self.adt_of(tid)
        if a and a in self.dump.adts:
            for i, v in enumerate(self.dump.adts[a]["variants"]):
                d = int(v["discr"])
                if d == val or (d < 0 and (d & (2**128 - 1)) == val) or (d < 0 and any((d & (2**b - 1)) == val for b in (8, 16, 32, 64))):
                    return i
            return None
        return val
    def field_ty(self, tid, variant, i):
        t = self.ty(tid)
        if t["k"] == "adt" and "vf" in t:
            try:
                x = t["vf"][variant][i]
                return x if x >= 0 else None
            except IndexError:
                return None
        if t["k"] == "tuple" and i < len(t["ts"]):
            return t["ts"][i]
        if t["k"] in ("closure", "coroutine") and i < len(t["up"]):
            return t["up"][i]
        return None
    def pointee(self, tid):
        t = self.ty(tid)
        if t["k"] in ("ref", "ptr"):
            return t["t"]
        if t["k"] == "adt" and t["adt"] in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rcs::arc::Arc", "core::pin::Pin") and t["args"]:
            return t["args"][0]
        return None
    def int_range(self, term):
        k = term[0]
        if k == "len":
            return (0, LEN_MAX)
        if k == "discr":
            tid = self.tyof(term[1])
            a = self.adt_of(tid) if tid is not None else None
            if a and a in self.dump.adts:
                ds = [int(v["discr"]) for v in self.dump.adts[a]["variants"]]
                if ds:
                    return (min(ds), max(ds))
            return None
        tid = self.tyof(term)
        if tid is None:
            return None
        s = tid if isinstance(tid, str) else self.ty(tid)["s"]
        return INT_RANGE.get(s)
    def ty_name(self, tid):
        return tid if isinstance(tid, str) else self.ty(tid)["s"]

    def future_impl(self, tid):
        """the poll function of a local future type"""
        if tid in self._future_impls:
            return self._future_impls[tid]
        a = self.adt_of(tid)
        r = None
        for f in self.dump.fns:
            if f and f.local and f.impl_trait and "Future" in str(f.impl_trait) and f.name.endswith("::poll") and len(f.locals) > 1:
                t = self.ty(f.locals[1])
                inner = t
                while inner["k"] in ("adt", "ref") and (inner["k"] == "ref" or inner.get("adt") == "core::pin::Pin"):
                    inner = self.ty(inner["t"] if inner["k"] == "ref" else inner["args"][0])
                if inner.get("s") == self.ty(tid)["s"] or (inner["k"] == "adt" and inner["adt"] == a and r is None):
                    r = f
                    if inner.get("s") == self.ty(tid)["s"]:
                        break
        self._future_impls[tid] = r
        return r

    # ---- symbols and constraints ---------------------------------------------------------------
    def sym(self, st, tag, tid):
        st.nsym += 1
        t = ("s", tag, st.nsym, tid)
        self.typ[t] = tid
        return self.canon_new(t)
    def canon_new(self, t):
        return t
    def const_sym(self, name, tid):
        t = ("s", name, 0, tid)
        self.typ[t] = tid
        return t
    def implicit(self, atoms):
        out = []
        for a in atoms:
            r = self.int_range(a)
            if r:
                out.append(lin.ge0(lin.add(a, ("c", -r[0]))))
                out.append(lin.ge0(lin.sub(("c", r[1]), a)))
        return out
    def reduced(self, lins):
        """solve the equalities of a constraint list: (substitution, remaining constraints, by-atom index)"""
        hit = self._redcache.get(id(lins))
        if hit is not None and hit[0] is lins:
            return hit[1]
        table = {}
        bad = False
        for con in lins:
            if con is None: continue
            if con is False: bad = True; continue
            o = table.get(con[0])
            if o is None or con[1] < o: table[con[0]] = con[1]
        sub = {}
        work = True
        while work and not bad:
            work = False
            for items, c in list(table.items()):
                if table.get(items) != c: continue
                if table.get(tuple((a, -k) for a, k in items)) != -c: continue
                cand = [a for a, k in items if k in (1, -1)]
                if not cand: continue
                a = min(cand, key=lambda x: (0 if x[0] in ("phi", "prime") else 1, lin.akey(x)))
                k = dict(items)[a]
                # k*a + rest + c == 0  ->  a = -(rest + c)/k
                rhs = lin.make({x: -kk * k for x, kk in items if x != a}, -c * k)
                for x in sub: sub[x] = lin_subst(sub[x], a, rhs)
                sub[a] = rhs
                new = {}
                r = self.int_range(a)
                extra = []
                if r:
                    extra = [lin.ge0(lin.add(rhs, ("c", -r[0]))), lin.ge0(lin.sub(("c", r[1]), rhs))]
                for it, cc in table.items():
                    con = (it, cc)
                    if any(x == a for x, _ in it):
                        con = lin.ge0(lin_subst(lin.make(dict(it), cc), a, rhs))
                    if con is None: continue
                    if con is False: bad = True; break
                    o = new.get(con[0])
                    if o is None or con[1] < o: new[con[0]] = con[1]
                for con in extra:
                    if con is None: continue
                    if con is False: bad = True; break
                    o = new.get(con[0])
                    if o is None or con[1] < o: new[con[0]] = con[1]
                table = new
                work = True
                break
        byatom = {}
        cons = list(table.items())
        for con in cons:
            for a, _ in con[0]:
                byatom.setdefault(a, []).append(con)
        res = (sub, cons, byatom, bad)
        if len(self._redcache) > 4000: self._redcache.clear()
        self._redcache[id(lins)] = (lins, res)
        return res
    def simp(self, st, t):
        """the constant value of a term, if the equalities of the state determine it"""
        if t[0] == "c" or not self.intlike(t): return t
        sub = self.reduced(st.lin)[0]
        if not sub: return t
        d, c = lin.parts(t)
        r = ("c", c)
        for a, k in d.items(): r = lin.add(r, sub.get(a, a), k)
        return r if r[0] == "c" else t
    def entails_con(self, st, con):
        """does st imply the constraint?"""
        if con is None:
            return True
        if con is False:
            return self.is_infeasible(st)
        if con in st.lin:
            return True
        sub, cons, byatom, bad = self.reduced(st.lin)
        if bad: return True
        items, c = con
        if sub and any(a in sub for a, _ in items):
            t = ("c", c)
            for a, k in items:
                t = lin.add(t, sub.get(a, a), k)
            con = lin.ge0(t)
            if con is None: return True
            if con is False: return self.is_infeasible(st)
            items, c = con
        for it, cc in byatom.get(items[0][0], ()):
            if it == items and cc <= c: return True
        neg = lin.norm({a: -k for a, k in items}, -c - 1)
        atoms = set(); todo = [a for a, _ in items]; sel = {}
        while todo:
            a = todo.pop()
            if a in atoms: continue
            atoms.add(a)
            for con2 in byatom.get(a, ()):
                if con2[0] not in sel:
                    sel[con2[0]] = con2
                    for x, _ in con2[0]:
                        if x not in atoms: todo.append(x)
        return lin.infeasible(list(sel.values()) + self.implicit(atoms) + [neg])
    def is_infeasible(self, st):
        sub, cons, byatom, bad = self.reduced(st.lin)
        return bad or lin.infeasible(cons + self.implicit(byatom.keys()))
    def le(self, st, a, b):
        return self.entails_con(st, lin.le(a, b))
    def lt(self, st, a, b):
        return self.entails_con(st, lin.lt(a, b))
    def eq(self, st, a, b):
        if a == b:
            return True
        if a[0] in ("S", "ref", "slice", "bytes", "str", "lz", "fn", "moved") or b[0] in ("S", "ref", "slice", "bytes", "str", "lz", "fn", "moved"):
            return self.same_value(st, a, b)
        if a[0] == "c" and b[0] == "c":
            return a[1] == b[1]
        if not self.intlike(a) or not self.intlike(b):
            return False
        return self.le(st, a, b) and self.le(st, b, a)
    def intlike(self, t):
        return t[0] in ("c", "lin", "len", "discr") or self.int_range(t) is not None or t[0] in ("dec", "enc32")
    def add_con(self, st, con):
        """assume a constraint; False if contradictory"""
        if con is None:
            return True
        if con is False:
            return False
        if con in st.lin:
            return True
        items, c = con
        if self.entails_con(st, lin.norm({a: -k for a, k in items}, -c - 1)):
            return False
        st.lin = st.lin + (con,)
        return self.check_ne(st)
    def check_ne(self, st):
        for i, (a, b) in enumerate(st.ne):
            d = lin.sub(a, b)
            if d == ("c", 0):
                return False
            le_, ge_ = self.le(st, a, b), self.le(st, b, a)
            if le_ and ge_:
                return False
            if le_ or ge_:
                rest = st.ne[:i] + st.ne[i + 1:]
                st.ne = rest
                con = lin.lt(a, b) if le_ else lin.lt(b, a)
                if con is None or con in st.lin: return self.check_ne(st)
                return self.add_con(st, con)
        return True
    def add_eq(self, st, a, b):
        return self.add_con(st, lin.le(a, b)) and self.add_con(st, lin.le(b, a))
    def add_ne(self, st, a, b):
        d = lin.sub(a, b)
        if d == ("c", 0):
            return False
        if d[0] == "c":
            return True
        st.ne = st.ne + ((a, b),)
        return self.check_ne(st)

    # ---- values ----------------------------------------------------------------------------------
    def S(self, tid, variant, *fields):
        return ("S", tid, variant, tuple(fields))
    def variant(self, st, v):
        """known variant of an enum value, or None"""
        if v[0] == "S":
            return v[2]
        if v[0] == "lz":
            if v[1] in st.var:
                return st.var[v[1]]
            pos = [x for x, _ in v[3] if x not in st.nvar.get(v[1], ())]
            return pos[0] if len(pos) == 1 else None
        if v[0] == "c":
            return v[1]
        r = st.var.get(v)
        if r is not None:
            return r
        n = self.nvariants(self.tyof(v)) if self.tyof(v) is not None else None
        ex = st.nvar.get(v)
        if ex and n is not None and len(ex) == n - 1:
            return [i for i in range(n) if i not in ex][0]
        if n == 1:
            return 0
        return None
    def atom_of(self, v):
        return v[1] if v[0] == "lz" else v
    def set_variant(self, st, v, variant):
        """assume that the enum value v has the variant; False if impossible"""
        if v[0] == "S":
            return v[2] == variant
        if v[0] == "lz" and variant not in [x for x, _ in v[3]]:
            return False
        a = self.atom_of(v)
        cur = st.var.get(a)
        if cur is not None:
            return cur == variant
        if variant in st.nvar.get(a, ()):
            return False
        st.var[a] = variant
        if a[0] == "app" and a[1] == "Cmp" and len(a) == 4 and variant in (0, 1, 2):
            # the variants of core::cmp::Ordering
            return self.assume(st, self.cmp(("lt", "eq", "gt")[variant], a[2], a[3]), True) is not None
        return True
    def excl_variant(self, st, v, variants):
        if v[0] == "S":
            return v[2] not in variants
        a = self.atom_of(v)
        cur = st.var.get(a)
        if cur is not None:
            return cur not in variants
        ex = st.nvar.get(a, frozenset()) | frozenset(variants)
        st.nvar[a] = ex
        if a[0] == "app" and a[1] == "Cmp" and len(a) == 4:
            for x in ex:
                if x in (0, 1, 2) and self.assume(st, self.cmp(("lt", "eq", "gt")[x], a[2], a[3]), False) is None: return False
        if v[0] == "lz":
            return any(x not in ex for x, _ in v[3])
        n = self.nvariants(self.tyof(v)) if self.tyof(v) is not None else None
        if n is not None and len(ex & frozenset(range(n))) >= n:
            return False
        return True
    def possible_variants(self, st, v, tid=None):
        k = self.variant(st, v)
        if k is not None:
            return [k]
        if v[0] == "lz":
            return [x for x, _ in v[3] if x not in st.nvar.get(v[1], ())]
        n = self.nvariants(tid if tid is not None else self.tyof(v))
        if n is None:
            return None
        return [i for i in range(n) if i not in st.nvar.get(v, ())]
    def field(self, st, v, variant, i):
        k = v[0]
        if k == "S":
            if i < len(v[3]):
                return v[3][i]
            return ("undef", "field", i)
        if k == "lz":
            for var, fs in v[3]:
                if var == variant:
                    return fs[i] if i < len(fs) else ("undef", "lz", i)
            return ("undef", "lzv", variant, i)
        if k == "upd":
            for (step, val) in v[2]:
                if step == (variant, i):
                    return val
            return self.field(st, v[1], variant, i)
        if k == "slice" or k == "ref":
            # fields of a smart pointer stored as plain pointer (Box, Pin, NonNull, ...): the pointer itself
            return v
        if k in ("moved", "undef"):
            return ("undef", "of", k)
        t = ("fld", v, variant, i)
        if t not in self.typ:
            tid = self.tyof(v)
            ft = self.field_ty(tid, variant, i) if tid is not None else None
            if ft is not None:
                self.typ[t] = ft
        return self.canon(t)
    def canon(self, t):
        """values of types with exactly one possible value"""
        tid = self.typ.get(t)
        if isinstance(tid, int):
            ty = self.types[tid]
            if ty["k"] == "tuple" and not ty["ts"]:
                return UNIT
        return t
    def walk(self, st, v, path):
        for step in path:
            if step[0] == "idx":
                if v[0] == "S" and step[1][0] == "c" and step[1][1] < len(v[3]):
                    v = v[3][step[1][1]]
                else:
                    if v[0] == "bytes" and v[3]:
                        ps = self.mod.bytes_read(self, st, v, step[1], ("c", 1))
                        if len(ps) == 1 and ps[0][:2] == (("c", 0), ("c", 1)):
                            c = ps[0][2]
                            if c[0] == "byte": v = c[1]; continue
                            if c[0] == "lit" and len(c[1]) == 1: v = ("c", c[1][0]); continue
                    x = ("elem", v, step[1])
                    tid = self.tyof(v)
                    if tid is not None and self.ty(tid)["k"] in ("array", "slice"):
                        self.typ.setdefault(x, self.ty(tid)["t"])
                    v = x
            else:
                v = self.field(st, v, step[0], step[1])
        return v
    def holds_bytes(self, v):
        if v[0] == "bytes": return True
        tid = self.tyof(v)
        t = self.ty(tid) if tid is not None else {}
        return t.get("k") in ("array", "slice") and self.ty(t["t"])["s"] == "u8"
    def update(self, st, v, path, val):
        if not path:
            return val
        step = path[0]
        if step[0] == "idx":
            if v[0] == "S" and step[1][0] == "c" and step[1][1] < len(v[3]):
                i = step[1][1]
                fs = list(v[3])
                fs[i] = self.update(st, fs[i], path[1:], val)
                return ("S", v[1], v[2], tuple(fs))
            if not path[1:] and step[1][0] in ("c", "lin", "s", "phi", "fld") and self.holds_bytes(v):
                return self.mod.bytes_write(self, st, v, step[1], ("c", 1), self.mod.byte_content(self, st, val))
            return ("app", "store_idx", v, step[1], val)
        variant, i = step
        if v[0] == "S":
            fs = list(v[3])
            while len(fs) <= i:
                fs.append(("undef", "new"))
            fs[i] = self.update(st, fs[i], path[1:], val)
            return ("S", v[1], variant if v[2] != variant and not v[3] else v[2], tuple(fs))
        if v[0] == "lz":
            for var, fs in v[3]:
                if var == variant:
                    fs = list(fs)
                    fs[i] = self.update(st, fs[i], path[1:], val)
                    return ("S", v[2], variant, tuple(fs))
        tid = self.tyof(v)
        t = self.ty(tid) if tid is not None else None
        n = None
        if t:
            if t["k"] == "adt" and "vf" in t and variant < len(t["vf"]):
                n = len(t["vf"][variant])
            elif t["k"] == "tuple":
                n = len(t["ts"])
        if n is not None and n > i and v[0] not in ("undef", "moved", "upd"):
            fs = [self.field(st, v, variant, j) for j in range(n)]
            fs[i] = self.update(st, fs[i], path[1:], val)
            return ("S", tid, variant, tuple(fs))
        old = self.field(st, v, variant, i) if v[0] not in ("undef", "moved") else ("undef", "new")
        ups = v[2] if v[0] == "upd" else ()
        core = v[1] if v[0] == "upd" else v
        if v[0] in ("undef", "moved"):
            # building a value field by field
            fs = [("undef", "new")] * (i + 1)
            fs[i] = self.update(st, ("undef", "new"), path[1:], val)
            return ("S", "partial", variant, tuple(fs))
        new = self.update(st, old, path[1:], val)
        return ("upd", core, tuple((s, x) for s, x in ups if s != step) + ((step, new),))
    def load(self, st, base, path=()):
        v = st.mem.get(base)
        if v is None:
            if base[0] == "P":
                v = self.deref_term(base[1])
            else:
                return ("undef", "uninit")
        return self.walk(st, v, path)
    def deref_term(self, t):
        d = ("deref", t)
        if d not in self.typ:
            tid = self.tyof(t)
            p = self.pointee(tid) if tid is not None else None
            if p is not None:
                self.typ[d] = p
        return d
    def store(self, st, base, path, val):
        if not path:
            st.mem[base] = val
            return
        v = st.mem.get(base)
        if v is None:
            v = self.deref_term(base[1]) if base[0] == "P" else ("undef", "uninit")
        st.mem[base] = self.update(st, v, path, val)
    def ptr_loc(self, st, v):
        """location a pointer value points to"""
        seen = 0
        while True:
            if v[0] == "ref":
                return v[1], v[2]
            if v[0] == "slice":
                return v[1], v[2]
            if v[0] == "S" and len(v[3]) >= 1 and seen < 6:
                # Pin<&mut T>, Box fields, ...
                v = v[3][0]
                seen += 1
                continue
            return ("P", v), ()
    def mkref(self, st, base, path):
        if base[0] == "P" and not path:
            return base[1]
        return ("ref", base, path)
    def newbox(self, st, val, tag="B"):
        st.nuid += 1
        b = (tag, st.nuid)
        st.mem[b] = val
        return b
    def same_value(self, st, a, b, depth=0):
        """structural equality up to eta expansion and known facts"""
        if a == b:
            return True
        if depth > 12:
            return False
        if a[0] == "S" and b[0] == "S":
            if a[2] != b[2] or len(a[3]) != len(b[3]):
                return False
            return all(self.same_value(st, x, y, depth + 1) for x, y in zip(a[3], b[3]))
        if a[0] == "S" or b[0] == "S":
            s, o = (a, b) if a[0] == "S" else (b, a)
            if o[0] in ("c", "lin", "str", "slice", "bytes", "moved", "undef"):
                return False
            to = self.tyof(o)
            if isinstance(s[1], int) and isinstance(to, int) and s[1] != to:
                x, y = self.ty(s[1]), self.ty(to)
                if x["k"] != y["k"] or x.get("adt") != y.get("adt"):
                    return False
            if o[0] == "lz":
                k = self.variant(st, o)
                if k is None or k != s[2]:
                    return False
            else:
                n = self.nvariants(self.tyof(o)) if self.tyof(o) is not None else None
                if n is not None and n > 1 and self.variant(st, o) != s[2]:
                    return False
            return all(self.same_value(st, x, self.field(st, o, s[2], i), depth + 1) for i, x in enumerate(s[3]))
        if a[0] == "lz" and b[0] == "lz":
            return a[1] == b[1]
        if a[0] == "bytes" and b[0] == "bytes":
            return self.same_value(st, a[1], b[1], depth + 1) and a[2] == b[2] and len(a[3]) == len(b[3]) and all(
                self.same_value(st, x[0], y[0], depth + 1) and self.same_value(st, x[1], y[1], depth + 1) and x[2] == y[2] for x, y in zip(a[3], b[3]))
        if self.intlike(a) and self.intlike(b):
            return self.le(st, a, b) and self.le(st, b, a)
        if a[0] == "ref" and b[0] == "ref":
            return False
        va, vb = self.variant(st, a) if a[0] != "ref" else None, self.variant(st, b) if b[0] != "ref" else None
        if va is not None and va == vb:
            tid = self.tyof(a)
            t = self.ty(tid) if tid is not None else {}
            if t.get("k") == "adt" and "vf" in t and self.nvariants(tid) and not t["vf"][va]:
                return True
        return False

    # ---- booleans --------------------------------------------------------------------------------
    def neg(self, b):
        if b[0] == "c":
            return ("c", 1 - b[1])
        if b[0] == "not":
            return b[1]
        return ("not", b)
    def truth(self, st, b):
        """True / False / None"""
        if b[0] == "c":
            return bool(b[1])
        if b[0] == "not":
            r = self.truth(st, b[1])
            return None if r is None else not r
        if b[0] == "and":
            x, y = self.truth(st, b[1]), self.truth(st, b[2])
            if x is False or y is False: return False
            return True if x and y else None
        if b[0] == "or":
            x, y = self.truth(st, b[1]), self.truth(st, b[2])
            if x or y: return True
            return False if x is False and y is False else None
        if b[0] == "cmp":
            a = self.assume(st.copy(), b, True)
            if a is None: return False
            a = self.assume(st.copy(), b, False)
            if a is None: return True
            return None
        if b[0] == "ovf":
            lo, hi = INT_RANGE[b[2]]
            if self.le(st, ("c", lo), b[1]) and self.le(st, b[1], ("c", hi)): return False
            if self.lt(st, b[1], ("c", lo)) or self.lt(st, ("c", hi), b[1]): return True
            return None
        if b in st.var:
            return bool(st.var[b])
        return None
    def assume(self, st, b, val):
        """returns st (modified) or None if contradictory"""
        k = b[0]
        if k == "c":
            return st if bool(b[1]) == val else None
        if k == "not":
            return self.assume(st, b[1], not val)
        if k == "and":
            if val:
                st = self.assume(st, b[1], True)
                return st and self.assume(st, b[2], True)
            x, y = self.truth(st, b[1]), self.truth(st, b[2])
            if x and y: return None
            if x: return self.assume(st, b[2], False)
            if y: return self.assume(st, b[1], False)
            return st
        if k == "or":
            if not val:
                st = self.assume(st, b[1], False)
                return st and self.assume(st, b[2], False)
            x, y = self.truth(st, b[1]), self.truth(st, b[2])
            if x is False and y is False: return None
            if x is False: return self.assume(st, b[2], True)
            if y is False: return self.assume(st, b[1], True)
            return st
        if k == "ovf":
            lo, hi = INT_RANGE[b[2]]
            if not val:
                if self.add_con(st, lin.le(("c", lo), b[1])) and self.add_con(st, lin.le(b[1], ("c", hi))):
                    return st
                return None
            t = self.truth(st, b)
            if t is False: return None
            if self.le(st, ("c", lo), b[1]):
                return st if self.add_con(st, lin.lt(("c", hi), b[1])) else None
            if self.le(st, b[1], ("c", hi)):
                return st if self.add_con(st, lin.lt(b[1], ("c", lo))) else None
            return st
        if k == "cmp":
            _, op, a, c = b
            if not val:
                op, a, c = {"eq": ("ne", a, c), "ne": ("eq", a, c), "lt": ("le", c, a), "le": ("lt", c, a)}[op]
            for x, y in ((a, c), (c, a)):
                if x[0] == "discr" and y[0] == "c" and op in ("eq", "ne"):
                    tid = self.tyof(x[1])
                    var = self.variant_of_discr(tid, y[1])
                    if var is None:
                        return st if op == "ne" else None
                    ok = self.set_variant(st, x[1], var) if op == "eq" else self.excl_variant(st, x[1], [var])
                    if not ok: return None
                    if op == "eq" and not self.add_eq(st, x, y): return None
                    return st
            if self.intlike(a) and self.intlike(c):
                r = {"eq": self.add_eq, "ne": self.add_ne, "lt": lambda s, x, y: self.add_con(s, lin.lt(x, y)), "le": lambda s, x, y: self.add_con(s, lin.le(x, y))}[op](st, a, c)
                return st if r else None
            if op in ("eq", "ne"):
                same = self.same_value(st, a, c)
                if same:
                    return st if op == "eq" else None
                for x, y in ((a, c), (c, a)):
                    if y[0] == "c" and x[0] not in ("S", "ref", "slice"):
                        # boolean or char atoms
                        cur = st.var.get(x)
                        if cur is not None:
                            return st if (cur == y[1]) == (op == "eq") else None
                if a[0] == "S" and c[0] == "S" and not a[3] and not c[3] and a[1] == c[1]:
                    return st if (a[2] == c[2]) == (op == "eq") else None
            key = ("cmp", "eq", a, c) if op in ("eq", "ne") else ("cmp", op, a, c)
            want = 1 if op != "ne" else 0
            cur = st.var.get(key)
            if cur is not None:
                return st if cur == want else None
            st.var[key] = want
            return st
        cur = st.var.get(b)
        if cur is not None:
            return st if bool(cur) == val else None
        if b[0] in ("S",):
            return st
        st.var[b] = 1 if val else 0
        return st
    def cmp(self, op, a, b):
        if op in ("gt", "ge"):
            op, a, b = ("lt" if op == "gt" else "le"), b, a
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            return ("c", int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y}[op]))
        if op == "ne":
            return self.neg(("cmp", "eq", a, b))
        if op == "eq" and a == b and self.intlike(a):
            return TRUE
        return ("cmp", op, a, b)

    # ---- places, operands, rvalues -------------------------------------------------------------
    def place(self, st, fn, uid, p):
        base, path = ("L", uid, p[0]), ()
        var = 0
        for e in p[1]:
            if e == "*":
                v = self.load(st, base, path)
                if v[0] == "slice":
                    base, path = ("SL", v), ()
                else:
                    base, path = self.ptr_loc(st, v)
                var = 0
            elif e == "~":
                continue
            elif e[0] == "f":
                path = path + ((var, e[1]),)
                var = 0
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "i":
                idx = self.load(st, ("L", uid, e[1]))
                base, path = self.index_loc(st, base, path, idx)
            elif e[0] == "ci":
                if e[3]:
                    idx = lin.sub(self.len_at(st, base, path), ("c", e[1]))
                else:
                    idx = ("c", e[1])
                base, path = self.index_loc(st, base, path, idx)
            elif e[0] == "ss":
                ln = self.len_at(st, base, path)
                end = lin.sub(ln, ("c", e[2])) if e[3] else ("c", e[2])
                if base[0] == "SL":
                    _, b, pp, s0, _ = base[1]
                else:
                    b, pp, s0 = base, path, ("c", 0)
                base, path = ("SL", ("slice", b, pp, lin.add(s0, ("c", e[1])), lin.sub(end, ("c", e[1])))), ()
        return base, path
    def index_loc(self, st, base, path, idx):
        if base[0] == "SL":
            s = base[1]
            return s[1], s[2] + (("idx", lin.add(s[3], idx)),)
        return base, path + (("idx", idx),)
    def small_index(self, c):
        """a bounds check of a symbolic index in a table with a few entries: (index, size)"""
        if c[0] == "cmp" and c[1] == "lt" and c[3][0] == "c" and 0 < c[3][1] <= 8 and c[2][0] != "c" and self.intlike(c[2]):
            return c[2], c[3][1]
        return None
    def fork_values(self, st, x, n):
        """one state for each value of x in 0..n"""
        res = []
        for k in range(n):
            s = st.copy()
            if self.add_eq(s, x, ("c", k)):
                res.append(s)
        return res
    def len_at(self, st, base, path):
        if base[0] == "SL":
            return base[1][4]
        v = self.load(st, base, path)
        return self.len_of(st, v)
    def len_of(self, st, v):
        if v[0] == "bytes":
            return v[1]
        if v[0] == "S":
            return ("c", len(v[3]))
        if v[0] == "str":
            return ("c", len(v[1].encode()))
        tid = self.tyof(v)
        if tid is not None and self.ty(tid)["k"] == "array" and self.ty(tid).get("len") is not None:
            return ("c", self.ty(tid)["len"])
        return ("len", v)
    def loadp(self, st, base, path):
        if base[0] == "SL":
            s = base[1]
            if self.holds_bytes(self.load(st, s[1], s[2])):
                return ("bytes", s[4], self.mod.slice_content(self, st, s), ())
            return ("content", s)
        return self.load(st, base, path)
    def store_slice(self, st, s, v):
        """a store to the whole of an array that is seen through a pointer into a slice"""
        if self.holds_bytes(v) and self.holds_bytes(self.load(st, s[1], s[2])):
            v = self.mod.as_bytes(self, st, v)
            self.mod.write_slice(self, st, s, self.mod.content_of(self, st, v, ("c", 0), v[1]))
        else:
            self.store(st, s[1], s[2], self.sym(st, "havoc", None))
    def operand(self, st, fn, uid, o):
        k = o["o"]
        if k in ("copy", "move"):
            base, path = self.place(st, fn, uid, o["p"])
            v = self.loadp(st, base, path)
            if k == "move" and base[0] not in ("SL",):
                if base[0] in ("L", "T") or base[0] == "B":
                    self.store(st, base, path, MOVED)
            return v
        if k == "const":
            return self.const(st, fn, o["k"])
        return ("c", 0)
    def const(self, st, fn, k):
        c = k["c"]
        if c == "int":
            return ("c", k["v"])
        if c == "str":
            return ("str", k["v"])
        if c == "fn":
            return self.fnval(k["callee"])
        if c == "promoted":
            pf = self.dump.fns[k["fn"]]
            key = ("PR", pf.id)
            if key in st.mem:
                return st.mem[key]
            outs = self.run_body(pf, ("pr", pf.id), st, keep=True)
            outs = [o for o in outs if o.k == "ret"]
            if len(outs) != 1:
                return ("k", f"promoted{pf.id}")
            o = outs[0]
            for b, v in o.st.mem.items():
                st.mem[b] = v
            st.nsym = max(st.nsym, o.st.nsym); st.nuid = max(st.nuid, o.st.nuid)
            st.mem[key] = o.v
            return o.v
        t = self.ty(k["t"])
        if t["k"] == "tuple" and not t["ts"]:
            return UNIT
        if t["k"] in ("closure", "coroutine"):
            return ("S", k["t"], 0, ())
        if t["k"] == "fndef":
            return ("k", k["v"])
        a = self.adt_of(k["t"])
        if a and a in self.dump.adts and self.dump.adts[a]["kind"] == "enum" and isinstance(k["v"], str):
            # a constant printed as a variant without fields
            last = k["v"].rsplit("::", 1)[-1]
            for i, vd in enumerate(self.dump.adts[a]["variants"]):
                if vd["name"] == last and not vd["fields"]:
                    return ("S", k["t"], i, ())
            if a == "core::option::Option" and "transmute(0x" in k["v"] and set(k["v"].split("transmute(0x")[1].split(")")[0]) == {"0"}:
                return ("S", k["t"], 0, ())     # no pointer: None
        v = ("k", k["v"])
        return self.typed(v, k["t"])
    def fnval(self, callee):
        key = (callee.get("res") or callee["path"], callee.get("fn"), tuple(callee.get("args", ())), tuple(callee["ctor"]) if "ctor" in callee else None)
        i = self.callee_ids.get(key)
        if i is None:
            i = len(self.callees)
            self.callees.append(callee)
            self.callee_ids[key] = i
        return ("fn", i)
    def binop(self, st, op, a, b, tid):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmp(op.lower(), a, b)
        if base in ("Add", "Sub", "Mul"):
            r = None
            if base == "Add": r = lin.add(a, b)
            elif base == "Sub": r = lin.sub(a, b)
            elif a[0] == "c": r = lin.scale(b, a[1])
            elif b[0] == "c": r = lin.scale(a, b[1])
            tn = self.ty_name(tid)
            if op.endswith("WithOverflow"):
                tt = self.ty(tid)
                it = self.ty(tt["ts"][0])["s"] if tt["k"] == "tuple" else "usize"
                if r is None:
                    r = self.typed(("app", "mul", a, b), it)
                return ("S", tid, 0, (r, ("ovf", r, it)))
            if r is None:
                return self.typed(("app", base.lower(), a, b), tid)
            if r[0] == "c" and tn in INT_RANGE:
                lo, hi = INT_RANGE[tn]
                n = hi - lo + 1
                return ("c", (r[1] - lo) % n + lo)
            if tn in INT_RANGE:
                lo, hi = INT_RANGE[tn]
                if op.endswith("Unchecked") or (self.le(st, ("c", lo), r) and self.le(st, r, ("c", hi))):
                    return r
                return self.typed(("app", "w" + base.lower(), a, b), tid)
            return r
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            try:
                if base == "BitAnd": return ("c", x & y)
                if base == "BitOr": return ("c", x | y)
                if base == "BitXor": return ("c", x ^ y)
                if base == "Shl": return ("c", x << y)
                if base == "Shr": return ("c", x >> y)
                if base == "Div" and y: return ("c", x // y)
                if base == "Rem" and y: return ("c", x % y)
            except Exception:
                pass
        if self.ty_name(tid) == "bool":
            if base == "BitAnd": return a if b == TRUE else b if a == TRUE else FALSE if FALSE in (a, b) else ("and", a, b)
            if base == "BitOr": return a if b == FALSE else b if a == FALSE else TRUE if TRUE in (a, b) else ("or", a, b)
        return self.typed(("app", base, a, b), tid)
    def cast(self, st, ck, v, tid, src_tid):
        t = self.ty(tid)
        if "IntToInt" in ck:
            if v[0] == "c":
                lo, hi = INT_RANGE.get(t["s"], (None, None))
                if lo is None: return v
                n = hi - lo + 1
                return ("c", (v[1] - lo) % n + lo)
            r = INT_RANGE.get(t["s"])
            if r is None:
                return self.typed(("cast", t["s"], v), tid)
            if v[0] in ("cmp", "not", "and", "or"):
                return v
            if self.le(st, ("c", r[0]), v) and self.le(st, v, ("c", r[1])):
                return v
            if v[0] == "dec" and {v[2], t["s"]} in ({"u32", "i32"}, {"u64", "i64"}, {"u16", "i16"}):
                return self.typed(("dec", v[1], t["s"]) + v[3:], t["s"])
            if v[0] == "cast" and src_tid is not None and {v[1], t["s"]} in ({"u32", "i32"}, {"u64", "i64"}) and self.tyof(v[2]) is not None and self.ty_name(self.tyof(v[2])) == t["s"]:
                return v[2]
            return self.typed(("cast", t["s"], v), tid)
        if "Unsize" in ck:
            # &[T; N] -> &[T], Box<T> -> Box<dyn ..>, &T -> &dyn ..
            p = self.pointee(tid)
            if p is not None and self.ty(p)["k"] == "slice":
                b, pa = self.ptr_loc(st, v)
                sp = self.pointee(src_tid) if src_tid is not None else None
                if sp is not None and self.ty(sp)["k"] == "array" and self.ty(sp).get("len") is not None:
                    n = ("c", self.ty(sp)["len"])
                else:
                    n = self.len_of(st, self.load(st, b, pa))
                return ("slice", b, pa, ("c", 0), n)
            return v
        return v
    def rvalue(self, st, fn, uid, r, dst_ty):
        k = r["r"]
        if k == "use":
            return self.operand(st, fn, uid, r["a"])
        if k == "ref":
            base, path = self.place(st, fn, uid, r["p"])
            if base[0] == "SL":
                return base[1]
            return self.mkref(st, base, path)
        if k == "bin":
            a = self.operand(st, fn, uid, r["a"]); b = self.operand(st, fn, uid, r["b"])
            return self.binop(st, r["op"], a, b, dst_ty)
        if k == "un":
            a = self.operand(st, fn, uid, r["a"])
            if r["op"] == "Not":
                if self.ty_name(dst_ty) == "bool": return self.neg(a)
                return self.typed(("app", "bitnot", a), dst_ty)
            if r["op"] == "Neg":
                return lin.scale(a, -1)
            if r["op"] == "PtrMetadata":
                if a[0] == "slice": return a[4]
                if a[0] == "str": return ("c", len(a[1].encode()))
                b, p = self.ptr_loc(st, a)
                return self.len_of(st, self.load(st, b, p))
            return self.typed(("app", r["op"], a), dst_ty)
        if k == "cast":
            a = self.operand(st, fn, uid, r["a"])
            return self.cast(st, r["ck"], a, r["t"], self.op_ty(fn, r["a"]))
        if k == "discr":
            base, path = self.place(st, fn, uid, r["p"])
            v = self.loadp(st, base, path)
            return self.discr(st, v, self.place_ty(fn, r["p"]))
        if k == "agg":
            ops = tuple(self.operand(st, fn, uid, o) for o in r["ops"])
            ak = r["ak"]
            if ak == "adt":
                if "uf" in r:
                    return ("S", r["t"], 0, ops)
                return ("S", r["t"], r["v"], ops)
            if ak == "tuple":
                if not ops: return UNIT
                return ("S", dst_ty, 0, ops)
            if ak == "array":
                if self.ty(r["t"])["s"] == "u8" and ops and all(o[0] == "c" for o in ops):
                    return ("bytes", ("c", len(ops)), ("lit", tuple(o[1] for o in ops)), ())
                return ("S", dst_ty, 0, ops)
            if ak in ("closure", "coroutine"):
                return ("S", r["t"], 0, ops)
            return ops[0] if ops else ("app", "agg")
        if k == "repeat":
            a = self.operand(st, fn, uid, r["a"])
            n = r["n"] if isinstance(r["n"], int) else None
            t = self.ty(dst_ty)
            if t["k"] == "array" and self.ty(t["t"])["k"] == "int" or n is None or n > 8:
                return ("bytes", ("c", n) if n is not None else ("len", ("app", "repeat", a)), ("fill", a), ())
            return ("S", dst_ty, 0, (a,) * n)
        st.nsym += 1
        return self.typed(("s", "rv", st.nsym, dst_ty), dst_ty)
    def discr(self, st, v, tid):
        k = self.variant(st, v)
        if k is not None and v[0] != "c":
            return ("c", self.discr_val(v[1] if v[0] == "S" and isinstance(v[1], int) else tid, k))
        if v[0] not in ("S", "lz", "c"):
            self.typ.setdefault(v, tid)
        d = ("discr", v)
        return d
    def place_ty(self, fn, p):
        t = fn.locals[p[0]]
        for e in p[1]:
            if e == "*":
                t2 = self.pointee(t)
                t = t2 if t2 is not None else t
            elif e == "~" or e[0] == "d":
                continue
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                ty = self.ty(t)
                t = ty.get("t", t)
        return t
    def op_ty(self, fn, o):
        if o["o"] in ("copy", "move"):
            return self.place_ty(fn, o["p"])
        if o["o"] == "const":
            return o["k"]["t"]
        return None

    # ---- events ------------------------------------------------------------------------------------
    def emit(self, st, ctx, kind, **d):
        site = ctx.site if isinstance(ctx, Ctx) else ctx
        e = Ev(kind, d, site, ctx.stack if isinstance(ctx, Ctx) else ())
        st.ev = st.ev + (e,)
        if self.on_event:
            self.on_event(st, e)
        return e

    # ---- calls ---------------------------------------------------------------------------------------
    def call_fn(self, fn, args, st, stack=()):
        """run a function body with argument values; outcomes ret/panic/div"""
        if self.depth >= self.max_depth:
            raise Unsupported(f"inlining depth in {fn.path}")
        st = st.copy()
        st.nuid += 1
        uid = (st.nuid, fn.id)
        for i, a in enumerate(args):
            st.mem[("L", uid, i + 1)] = a
        return self.run_body(fn, uid, st, stack=stack)
    def run_body(self, fn, uid, st, keep=False, stack=()):
        self.visited.add(fn.id)
        self.depth += 1
        try:
            outs = self.explore(fn, uid, 0, st, None, None, stack + (fn.name,))
        finally:
            self.depth -= 1
        res = []
        for o in outs:
            if o.k == "ret":
                o.v = o.st.mem.get(("L", uid, 0), UNIT)
            if o.k == "edge":
                raise Unsupported("edge out of function")
            if not keep:
                for b in [b for b in o.st.mem if b[0] == "L" and b[1] == uid]:
                    del o.st.mem[b]
            res.append(o)
        return res
    def body_args(self, fn, args):
        return args
    def call_value(self, f, args, st, ctx):
        """call a closure or function value with an argument list"""
        if f[0] == "fn":
            return self.call_callee(self.callees[f[1]], list(args), st, ctx)
        loc = None
        fv = f
        hops = 0
        while fv[0] == "ref" or (fv[0] not in ("S", "fn") and st.mem.get(("P", fv)) is not None):
            loc = self.ptr_loc(st, fv)
            fv = self.load(st, *loc)
            hops += 1
            if hops > 4: break
        if fv[0] == "fn":
            return self.call_callee(self.callees[fv[1]], list(args), st, ctx)
        if fv[0] == "S" and isinstance(fv[1], int) and self.ty(fv[1])["k"] == "closure" and self.ty(fv[1]).get("fn") is not None:
            cf = self.dump.fns[self.ty(fv[1])["fn"]]
            st = st.copy()
            if self.ty(cf.locals[1])["k"] == "ref":
                if loc is None:
                    b = self.newbox(st, fv, "T")
                    loc = (b, ())
                a0 = self.mkref(st, *loc)
            else:
                a0 = fv
            return self.call_fn(cf, [a0] + list(args), st, ctx.stack)
        # opaque callable
        st = st.copy()
        r = self.fresh_ret(st, "callres", ctx.dst_ty)
        self.emit(st, ctx, "callvalue", f=f, args=tuple(args), ret=r)
        return [Out("ret", st, r)]
    def fresh_ret(self, st, tag, tid):
        t = self.ty(tid)
        if t["k"] == "tuple" and not t["ts"]:
            return UNIT
        return self.canon(self.sym(st, tag, tid))
    def find_model(self, callee):
        for p in (callee.get("res"), callee["path"]):
            if p:
                n = strip_generics(p)
                m = self.models.get(n)
                if m:
                    # a trait of the standard library that this crate implements: what the implementation does counts
                    if p is not callee.get("res") and callee.get("fn") is not None and n in self.OWN_IMPLS:
                        f = self.dump.fns[callee["fn"]]
                        if f is not None and f.local: continue
                    return m
        return None
    OWN_IMPLS = ("core::convert::AsRef::as_ref", "core::default::Default::default")
    def call_callee(self, callee, args, st, ctx):
        if "ctor" in callee:
            adt, var = callee["ctor"]
            tid = ctx.dst_ty
            if self.adt_of(tid) != adt:
                tid = adt
            return [Out("ret", st, ("S", tid, var, tuple(args)))]
        old = ctx.callee
        ctx.callee = callee
        try:
            m = self.find_model(callee)
            if m is not None:
                r = m(self, st, args, ctx)
                if r is not None:
                    return r
            tr = callee.get("trait")
            if tr in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn") and callee["path"].split("::")[-1] in ("call_once", "call_mut", "call"):
                tup = args[1]
                n = self.tuple_arity(st, tup, ctx.arg_tys[1] if ctx.arg_tys and len(ctx.arg_tys) > 1 else None)
                return self.call_value(args[0], [self.field(st, tup, 0, i) for i in range(n)], st, ctx)
            if callee["path"] == "core::future::future::Future::poll":
                r = self.mod.poll_future(self, st, args, ctx)
                if r is not None:
                    return r
            fid = callee.get("fn")
            if fid is not None and strip_generics(callee.get("res") or callee["path"]) not in self.opaque_fns:
                f = self.dump.fns[fid]
                if f is not None:
                    return self.call_fn(f, args, st, ctx.stack)
            return self.opaque_call(callee, args, st, ctx)
        finally:
            ctx.callee = old
    def tuple_arity(self, st, tup, tid):
        if tup[0] == "S": return len(tup[3])
        t = self.ty(tid if tid is not None else self.tyof(tup))
        return len(t["ts"]) if t["k"] == "tuple" else 1
    def opaque_call(self, callee, args, st, ctx):
        name = strip_generics(callee.get("res") or callee["path"])
        st = st.copy()
        if not self.mod.is_pure(name):
            self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        snap = tuple(args)
        self.havoc_args(st, args, ctx)
        r = self.fresh_ret(st, "r:" + name.split("::")[-1], ctx.dst_ty)
        self.emit(st, ctx, "call", path=name, args=snap, ret=r, trait=callee.get("trait"), callee=callee)
        return [Out("ret", st, r)]
    def havoc_args(self, st, args, ctx):
        for i, a in enumerate(args):
            t = ctx.arg_tys[i] if ctx.arg_tys and i < len(ctx.arg_tys) else None
            if t is not None and self.ty(t)["k"] == "ref" and self.ty(t).get("mut"):
                if a[0] == "ref" or (a[0] not in ("slice", "S", "c", "str", "fn", "lz") ):
                    b, p = self.ptr_loc(st, a)
                    cur = self.load(st, b, p)
                    self.store(st, b, p, self.sym(st, "havoc", self.pointee(t)))
                elif a[0] == "slice":
                    v = self.load(st, a[1], a[2])
                    self.store(st, a[1], a[2], self.mod.bytes_write(self, st, v, a[3], a[4], self.sym(st, "havocbytes", None)))

    # ---- drops -----------------------------------------------------------------------------------------
    def drop_value(self, st, v, tid, ctx, loc=None, depth=0):
        """drop glue; returns list of states"""
        if v[0] in ("moved", "undef", "c", "lin", "str", "ref", "slice", "fn", "cmp", "not", "discr", "bytes", "len"):
            if v[0] == "ref" and v[1][0] == "B" and self.owned_box(tid):
                inner = self.load(st, v[1], v[2])
                return self.drop_value(st, inner, self.pointee(tid), ctx, (v[1], v[2]), depth + 1)
            return [st]
        if depth > 8:
            return [st]
        t = self.ty(tid) if tid is not None else {"k": "unknown", "s": "?"}
        if v[0] == "S" and isinstance(v[1], int):
            tid = v[1]
            t = self.ty(tid)
        if t["k"] in ("int", "bool", "ref", "ptr", "never", "str", "char", "fndef", "param"):
            if t["k"] == "param":
                st = st.copy()
                self.emit(st, ctx, "drop", value=v, ty=t["s"], tid=tid)
            return [st]
        adt = t.get("adt")
        states = [st]
        if t["k"] == "adt" and t.get("drop", -1) >= 0 and t.get("drop") is not None and "drop" in t:
            f = self.dump.fns[t["drop"]]
            nst = st.copy()
            if loc is None:
                b = self.newbox(nst, v, "T")
                loc = (b, ())
            self.emit(nst, ctx, "dropimpl", value=v, ty=t["s"], tid=tid)
            outs = self.call_fn(f, [self.mkref(nst, *loc)], nst, ctx.stack)
            states = [o.st for o in outs if o.k == "ret"]
        if adt and ("Sender" in adt or "Receiver" in adt or adt.startswith(("filedesc", "std::os::fd"))):
            res = []
            for s in states:
                s = s.copy()
                self.emit(s, ctx, "drop", value=v, ty=t["s"], tid=tid)
                res.append(s)
            return res
        # fields
        if v[0] == "S" or v[0] in ("lz",):
            var = self.variant(st, v)
            if v[0] == "lz" and var is None:
                # only when some variant holds something worth dropping
                res = []
                for s in states:
                    for vv, fs in v[3]:
                        if vv in s.nvar.get(v[1], ()): continue
                        s2 = s.copy()
                        if not self.set_variant(s2, v, vv): continue
                        cur = [s2]
                        for i, x in enumerate(fs):
                            cur = [z for y in cur for z in self.drop_value(y, x, self.field_ty(tid, vv, i) if tid is not None else self.tyof(x), ctx, None, depth + 1)]
                        res += cur
                return self.merge_drops(states, res, v)
            fs = v[3] if v[0] == "S" else dict(v[3])[var]
            for i, x in enumerate(fs):
                ft = self.field_ty(tid, var, i)
                if ft is None:
                    ft = self.tyof(x)
                states = [z for y in states for z in self.drop_value(y, x, ft, ctx, None, depth + 1)]
            return states
        if v[0] == "upd":
            for step, x in v[2]:
                states = [z for y in states for z in self.drop_value(y, x, self.field_ty(tid, *step), ctx, None, depth + 1)]
            return states
        # opaque value
        if t["k"] == "tuple" or (t["k"] == "adt" and "vf" in t and (self.nvariants(tid) in (None, 1))):
            n = len(t["ts"]) if t["k"] == "tuple" else len(t["vf"][0]) if t["vf"] else 0
            if self.interesting(tid):
                for i in range(n):
                    x = self.field(st, v, 0, i)
                    states = [z for y in states for z in self.drop_value(y, x, self.field_ty(tid, 0, i), ctx, None, depth + 1)]
                return states
        if t["k"] == "adt" and self.interesting(tid):
            var = self.variant(st, v)
            if var is not None and "vf" in t and var < len(t["vf"]):
                for i, ft in enumerate(t["vf"][var]):
                    x = self.field(st, v, var, i)
                    states = [z for y in states for z in self.drop_value(y, x, ft if ft >= 0 else None, ctx, None, depth + 1)]
                return states
            res = []
            for s in states:
                s = s.copy()
                self.emit(s, ctx, "drop", value=v, ty=t["s"], tid=tid)
                res.append(s)
            return res
        return states
    def merge_drops(self, before, after, v):
        # if no drop of a variant produced an event, keep the undecided state
        if all(len(s.ev) == len(before[0].ev) for s in after) and len(before) == 1:
            return before
        return after
    def owned_box(self, tid):
        return tid is not None and self.ty(tid).get("adt") == "alloc::boxed::Box"
    def interesting(self, tid, depth=0, seen=None):
        """does dropping this type run local code or close a channel or descriptor?"""
        key = ("int", tid)
        if key in self.fold_cache:
            return self.fold_cache[key]
        self.fold_cache[key] = False
        t = self.ty(tid)
        r = False
        if t["k"] == "adt":
            a = t["adt"]
            if t.get("drop", -1) >= 0 or "Sender" in a or "Receiver" in a or a.startswith(("filedesc", "std::os::fd")):
                r = True
            else:
                subs = [x for vf in t.get("vf", []) for x in vf if x >= 0] + list(t.get("args", []))
                r = any(self.interesting(x) for x in subs)
        elif t["k"] == "tuple":
            r = any(self.interesting(x) for x in t["ts"])
        elif t["k"] in ("closure", "coroutine"):
            r = any(self.interesting(x) for x in t["up"])
        elif t["k"] in ("array", "slice"):
            r = self.interesting(t["t"])
        self.fold_cache[key] = r
        return r

    # ---- the interpreter loop -------------------------------------------------------------------------
    def loops_of(self, fn):
        if fn.id in self._loopcache:
            return self._loopcache[fn.id]
        n = len(fn.blocks)
        succ = [self.succs(b["t"]) for b in fn.blocks]
        order, seen, stack = [], {0}, [(0, iter(succ[0]))]
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        rpo = order[::-1]
        pos = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while pos[x] > pos[y]: x = idom[x]
                        while pos[y] > pos[x]: y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    changed = True
        def dom(a, b):
            while b != a:
                if b == 0: return a == 0
                b = idom[b]
            return True
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(preds[x])
        self._loopcache[fn.id] = loops
        return loops
    def succs(self, t):
        k = t["k"]
        if k in ("goto", "drop", "assert"): return [t["t"]]
        if k == "yield": return []
        if k == "switch": return [b for _, b in t["vs"]] + [t["o"]]
        if k == "call": return [t["t"]] if t["t"] is not None else []
        return []
    def explore(self, fn, uid, start, st, region, head, stack):
        """interpret from a block; with a region (a loop body) stop at edges to the head or out of the region"""
        loops = self.loops_of(fn)
        work = [(start, st, True)]
        outs = []
        while work:
            b, st, first = work.pop()
            if region is not None and not first:
                if b == head or b not in region:
                    outs.append(Out("edge", st, b))
                    continue
            if b in loops and not (first and b == head):
                for o in self.run_loop(fn, uid, b, loops[b], st, stack):
                    if o.k == "edge":
                        work.append((o.v, o.st, False))
                    else:
                        outs.append(o)
                continue
            self.blocks += 1
            if self.blocks % 64 == 0: lin.check_time()
            if self.blocks > self.budget:
                raise Unsupported(f"analysis budget exceeded in {fn.path}")
            for r in self.step_block(fn, uid, b, st, stack):
                if isinstance(r, Out):
                    outs.append(r)
                else:
                    work.append((r[0], r[1], False))
        return outs
    def mkctx(self, fn, t, stack):
        c = Ctx()
        c.E = self; c.fn = fn; c.site = (fn.name, t.get("l")); c.dst_ty = None; c.callee = None; c.arg_tys = None; c.ds = t.get("ds"); c.stack = stack
        return c
    def step_block(self, fn, uid, b, st, stack):
        """interpret one block; returns list of (block, state) or Out"""
        blk = fn.blocks[b]
        st = st.copy()
        for s in blk["s"]:
            if "dead" in s:
                st.mem.pop(("L", uid, s["dead"]), None)
            elif "live" in s:
                pass
            elif "sd" in s:
                base, path = self.place(st, fn, uid, s["p"])
                v = self.load(st, base, path)
                if v[0] == "S":
                    self.store(st, base, path, ("S", v[1], s["sd"], v[3]))
                else:
                    self.store(st, base, path, ("S", self.place_ty(fn, s["p"]), s["sd"], ()))
            else:
                v = self.rvalue(st, fn, uid, s["v"], self.place_ty(fn, s["p"]))
                base, path = self.place(st, fn, uid, s["p"])
                if base[0] == "SL":
                    self.store_slice(st, base[1], v)
                    continue
                self.store(st, base, path, v)
                if base[0] == "P" or (path and any(x[0] == "idx" for x in path)):
                    if self.on_event and base[0] == "P":
                        pass
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "return":
            return [Out("ret", st)]
        if k == "unreachable":
            return []
        if k in ("resume", "abort", "cdrop"):
            return []
        if k == "switch":
            return self.do_switch(fn, uid, t, st)
        if k == "drop":
            base, path = self.place(st, fn, uid, t["p"])
            if base[0] == "SL":
                return [(t["t"], st)]
            v = self.load(st, base, path)
            ctx = self.mkctx(fn, t, stack)
            states = self.drop_value(st, v, self.place_ty(fn, t["p"]), ctx, (base, path))
            res = []
            for s in states:
                if base[0] == "L":
                    s = s.copy()
                    self.store(s, base, path, MOVED)
                res.append((t["t"], s))
            return res
        if k == "assert":
            c = self.operand(st, fn, uid, t["c"])
            exp = bool(t["e"])
            res = []
            bad = self.assume(st.copy(), c, not exp)
            if bad is not None:
                ctx = self.mkctx(fn, t, stack)
                self.emit(bad, ctx, "panic", why=t.get("m"), op=t.get("op"))
                res.append(Out("panic", bad, (t.get("m"), t.get("op"))))
            good = self.assume(st, c, exp)
            if good is not None:
                ix = t["c"].get("p") and self.small_index(c) if exp else None
                if ix is not None:
                    for g in self.fork_values(good, ix[0], ix[1]):
                        res.append((t["t"], g))
                else:
                    res.append((t["t"], good))
            return res
        if k == "yield":
            return [Out("div", st, "yield")]
        if k == "call":
            return self.do_call(fn, uid, t, st, stack)
        raise Unsupported(f"terminator {k} in {fn.path}")
    def do_switch(self, fn, uid, t, st):
        d = self.operand(st, fn, uid, t["d"])
        tid = self.op_ty(fn, t["d"])
        tn = self.ty_name(tid)
        res = []
        if d[0] == "c":
            for v, b in t["vs"]:
                vv = v
                if tn.startswith("i") and tn in INT_RANGE and v > INT_RANGE[tn][1]:
                    vv = v - (INT_RANGE[tn][1] - INT_RANGE[tn][0] + 1)
                if vv == d[1] or v == d[1]:
                    return [(b, st)]
            return [(t["o"], st)]
        if d[0] == "discr":
            x = d[1]
            pt = self.tyof(x) if x[0] != "lz" else x[2]
            if x[0] == "S":
                pt = x[1]
            listed = []
            for v, b in t["vs"]:
                var = self.variant_of_discr(pt, v) if not (x[0] == "lz" and not isinstance(pt, int)) else v
                if var is None:
                    continue
                listed.append(var)
                s = st.copy()
                if self.set_variant(s, x, var):
                    s.trace = s.trace + ((fn.name, t.get("l"), f"{short(x, 60)} is v{var}"),)
                    res.append((b, s))
            s = st.copy()
            if fn.blocks[t["o"]]["t"]["k"] != "unreachable" and self.excl_variant(s, x, listed):
                k = self.variant(s, x)
                if k is not None:
                    if not self.set_variant(s, x, k): return res
                res.append((t["o"], s))
            return res
        if tn == "bool":
            for v, b in t["vs"]:
                s = self.assume(st.copy(), d, bool(v))
                if s is not None:
                    s.trace = s.trace + ((fn.name, t.get("l"), f"{short(d, 60)} is {bool(v)}"),)
                    res.append((b, s))
            taken = {bool(v) for v, _ in t["vs"]}
            for val in (True, False):
                if val not in taken:
                    s = self.assume(st.copy(), d, val)
                    if s is not None:
                        s.trace = s.trace + ((fn.name, t.get("l"), f"{short(d, 60)} is {val}"),)
                        res.append((t["o"], s))
            return res
        oth = st.copy()
        alive = True
        for v, b in t["vs"]:
            if tn in INT_RANGE and v > INT_RANGE[tn][1]:
                v = v - (INT_RANGE[tn][1] - INT_RANGE[tn][0] + 1)
            s = self.assume(st.copy(), self.cmp("eq", d, ("c", v)), True)
            if s is not None:
                s.trace = s.trace + ((fn.name, t.get("l"), f"{short(d, 60)} == {v}"),)
                res.append((b, s))
            if alive:
                o2 = self.assume(oth, self.cmp("eq", d, ("c", v)), False)
                if o2 is None: alive = False
        if alive and fn.blocks[t["o"]]["t"]["k"] != "unreachable":
            res.append((t["o"], oth))
        return res
    def do_call(self, fn, uid, t, st, stack):
        fop = t["f"]
        args = [self.operand(st, fn, uid, a) for a in t["a"]]
        ctx = self.mkctx(fn, t, stack)
        ctx.arg_tys = [self.op_ty(fn, a) for a in t["a"]]
        ctx.dst_ty = self.place_ty(fn, t["dst"])
        if fop["o"] == "const" and fop["k"]["c"] == "fn":
            outs = self.call_callee(fop["k"]["callee"], args, st, ctx)
        else:
            f = self.operand(st, fn, uid, fop)
            outs = self.call_value(f, args, st, ctx)
        res = []
        for o in outs:
            if o.k == "ret":
                if t["t"] is None:
                    res.append(Out("div", o.st))
                    continue
                s = o.st.copy() if len(outs) > 1 or o.st is st else o.st
                v = o.v if o.v is not None else UNIT
                if v[0] not in ("S", "lz", "c", "ref", "slice"):
                    self.typed(v, ctx.dst_ty)
                base, path = self.place(s, fn, uid, t["dst"])
                if base[0] == "SL":
                    self.store_slice(s, base[1], v)
                else:
                    self.store(s, base, path, v)
                res.append((t["t"], s))
            else:
                res.append(o)
        return res

    # ---- loops -----------------------------------------------------------------------------------------
    def run_loop(self, fn, uid, header, body, st, stack):
        if self.replay and self.replay["id"] == (fn.name, header):
            outs = []
            todo = [self.replay["prep"](st, h) for h in self.replay["heads"]]
            for lap in range(self.replay["laps"]):
                nxt = []
                for s in todo:
                    for o in self.explore(fn, uid, header, s, body, header, stack):
                        if o.k == "edge" and o.v == header: nxt.append(o.st)
                        else: outs.append(o)
                todo = nxt
            return outs
        def step(s):
            res = []
            for o in self.explore(fn, uid, header, s, body, header, stack):
                if o.k == "edge" and o.v == header:
                    res.append(("back", o.st, o))
                else:
                    res.append(("exit", o.st, o))
            return res
        li = LoopInfo()
        li.id = (fn.name, header, len(self.loops)); li.fn = fn; li.header = header; li.heads = []; li.segs = []
        li.limits = self.equality_limits(fn, body)
        first = step(st)
        if not any(k == "back" for k, _, _ in first):
            return [o for _, _, o in first]
        if self.table_positions(uid, st) and all(self.advanced(uid, st, o.st) for k, _, o in first if k == "back"):
            # a loop over a few known elements: unrolled
            outs, todo = [o for k, _, o in first if k == "exit"], [s for k, s, _ in first if k == "back"]
            for lap in range(9):
                nxt = []
                for s in todo:
                    for k, s2, o in step(s):
                        if k == "exit": outs.append(o)
                        else: nxt.append(s2)
                todo = nxt
                if not todo: return outs
        entry = st.copy()
        self.loops.append(li)
        entry.ev = st.ev + (Ev("loop", {"info": li}, (fn.name, None)),)
        outs = self.fixpoint(entry, step, li, f"{fn.name.split('::')[-1]}:{header}")
        self.copy_loop(li, entry)
        return [o for _, _, o in outs]
    def copy_loop(self, li, entry):
        """A loop that pushes the elements of a slice to an empty vector, one each lap, collects that slice."""
        it = vec = None
        for g in li.segs:
            nx = g.ev[0] if g.ev else None
            if nx is None or nx.k != "call" or not str(nx["path"]).startswith("<core::slice::iter::Iter<") or not str(nx["path"]).endswith("::next") or nx["args"][0][0] != "ref": return
            if it not in (None, nx["args"][0]): return
            it = nx["args"][0]
            if g.k == "back":
                if len(g.ev) != 2 or g.ev[1].k != "push" or g.ev[1]["value"] != self.field(g.st, nx["ret"], 1, 0): return
                if vec not in (None, g.ev[1]["vec"]): return
                vec = g.ev[1]["vec"]
                old, new = self.load(g.head, *vec), self.load(g.st, *vec)
                if not (new == ("app", "push", old, g.ev[1]["value"]) or (new[0] == "S" and old[0] == "S" and new[3] == old[3] + (g.ev[1]["value"],))): return
            elif g.k != "exit" or len(g.ev) != 1 or self.variant(g.st, nx["ret"]) != 0: return
        if vec is None: return
        src, was = self.load(entry, it[1], it[2]), self.load(entry, *vec)
        if src[:2] != ("app", "iter") or was[0] != "S" or was[3]: return
        for g in li.segs:
            if g.k == "exit": self.store(g.st, vec[0], vec[1], self.typed(("app", "collect", src), was[1]))
    def table_positions(self, uid, st):
        """the iterators over known elements among the locals of a function, with their positions"""
        res = {}
        def find(k, v, depth):
            if not isinstance(v, tuple) or not v or v[0] != "S": return
            if isinstance(v[1], int) and self.adt_of(v[1]) in self.mod.TABLE_ITERS: res[k] = v[2]
            elif depth and len(v[3]) <= 3:
                for i, x in enumerate(v[3]): find(k + (i,), x, depth - 1)
        for k, v in st.mem.items():
            if k[0] == "L" and k[1] == uid: find(k, v, 3)
        return res
    def advanced(self, uid, a, b):
        p, q = self.table_positions(uid, a), self.table_positions(uid, b)
        return any(q.get(k, -1) > n for k, n in p.items())
    def equality_limits(self, fn, body):
        """constants that integers are compared with for equality in a loop: possible bounds"""
        res = set()
        for b in body:
            blk = fn.blocks[b]
            for x in blk["s"]:
                r = x.get("v")
                if isinstance(r, dict) and r.get("r") == "bin" and r["op"] in ("Eq", "Ne"):
                    for o in (r["a"], r["b"]):
                        if o["o"] == "const" and o["k"]["c"] == "int": res.add(o["k"]["v"])
            if blk["t"]["k"] == "switch":
                res.update(v for v, _ in blk["t"]["vs"] if isinstance(v, int))
        return sorted(x for x in res if 1 < abs(x) < 2 ** 32)[:6]
    def fixpoint(self, entry, step, li, tag):
        """solve a loop; step(state) -> [(back|exit, state, payload)]. Returns the exits; li collects heads and segments."""
        used = set()
        for m in (entry.mem, entry.var, entry.nvar):
            for a, v in m.items():
                phi_tags(a, used); phi_tags(v, used)
        for c in entry.lin:
            for a, _ in c[0]: phi_tags(a, used)
        for x in entry.ne: phi_tags(x, used)
        while tag in used: tag += "'"
        heads = [Head(self, entry, tag, 0, entry, li.limits)]
        results = {}
        rounds = 0
        while True:
            dirty = [h for h in heads if h.dirty]
            if not dirty:
                break
            rounds += 1
            if rounds > 60:
                raise Unsupported(f"loop {tag} does not stabilise")
            h = dirty[0]
            h.dirty = False
            outs = step(h.st.copy())
            results[h.n] = outs
            for k, s, _ in outs:
                if k != "back":
                    continue
                for g in heads:
                    if g.compatible(s, force=len(heads) > 16):
                        g.join(s)
                        break
                else:
                    heads.append(Head(self, s, tag, len(heads), entry, li.limits))
        exits = []
        li.heads = [h.st for h in heads]
        for h in heads:
            for k, s, o in results[h.n]:
                li.segs.append(Seg(h.st, k, o.v if isinstance(o, Out) and o.k == "edge" else (o.k if isinstance(o, Out) else None), s, s.ev[len(h.st.ev):], o))
                if k != "back":
                    exits.append((k, s, o))
        return exits

class Head:
    """The abstract state at a loop head (one partition)."""
    def __init__(self, E, st, tag, n, entry, limits=()):
        self.E = E; self.limits = limits; self.tag = tag; self.n = n; self.dirty = True
        self.entry = entry
        self.entry_nsym = entry.nsym
        st = st.copy()
        st.ev = entry.ev
        st.trace = entry.trace
        # make room so that symbols made in the loop do not clash with those of the head
        st.nsym = st.nsym + 1000 if n else st.nsym
        self.st = st
        self.key = self.partkey(st)
        self.phis = {}
        self.joined = 0
        self.weakened = 0
    def partkey(self, st):
        vs = []
        for a, v in st.var.items():
            if a in self.entry.var:
                continue
            if a[0] in ("fld", "deref") and self.stable(a):
                vs.append((repr(a), v))
        extra = self.E.partition(st) if self.E.partition else None
        return (tuple(sorted(vs)), extra)
    def stable(self, a):
        if not isinstance(a, tuple): return True
        if a and a[0] == "s": return a[2] <= self.entry_nsym
        if a and a[0] == "phi": return False
        return all(self.stable(x) for x in a if isinstance(x, tuple))
    def compatible(self, b, force=False):
        if force and self.n == 0:
            return True
        if self.partkey(b) != self.key:
            return False
        for base, v in self.st.mem.items():
            w = b.mem.get(base)
            if w is None: continue
            if self.conflict(v, w): return False
        return True
    def conflict(self, v, w):
        if v == w: return False
        if v[0] == "S" and w[0] == "S":
            if v[2] != w[2]: return True
            if len(v[3]) == len(w[3]) and self.flags_differ(v, w): return True
            return any(self.conflict(x, y) for x, y in zip(v[3], w[3]))
        if (v[0] == "bytes") != (w[0] == "bytes") and v[0] != "phi":
            return "moved" not in (v[0], w[0])
        return False
    def flags_differ(self, v, w):
        """structures whose boolean fields have different known values, or small ranges at different positions"""
        E = self.E
        t = E.ty(v[1]) if isinstance(v[1], int) else None
        if t is None or t["k"] not in ("adt", "tuple"):
            return False
        for i, (x, y) in enumerate(zip(v[3], w[3])):
            if x[0] == y[0] == "c" and x[1] != y[1] and {x[1], y[1]} == {0, 1}:
                ft = E.field_ty(v[1], v[2], i)
                if ft is not None and E.ty_name(ft) == "bool":
                    return True
        if t.get("adt") == "core::ops::range::Range" and len(v[3]) == 2:
            (a, e), (b, f) = v[3], w[3]
            return a[0] == b[0] == e[0] == "c" and e == f and a != b and 0 <= a[1] <= e[1] <= 8 and 0 <= b[1]
        return False
    # -- join
    def join(self, b):
        E = self.E
        h = self.st
        changed = False
        sub_h = []   # (phi, old value in h, value in b)
        newmem = {}
        for base, v in h.mem.items():
            w = b.mem.get(base)
            if w is None:
                if base[0] == "P":
                    w = E.deref_term(base[1])
                else:
                    changed = True
                    continue
            newmem[base] = self.merge(v, w, (base,), sub_h, b)
        for base in b.mem:
            if base not in h.mem and base[0] == "P":
                v = E.deref_term(base[1])
                newmem[base] = self.merge(v, b.mem[base], (base,), sub_h, b)
        if any(base not in newmem or newmem[base] != v for base, v in h.mem.items()) or len(newmem) != len(h.mem):
            changed = True
        # constraints
        hl = list(h.lin)
        bl = list(b.lin)
        fresh = any(p not in self.phis for p, x, y in sub_h)
        for p, x, y in sub_h:
            if not E.intlike(x) and x != p or not E.intlike(y):
                continue
            if x != p:
                hl += [lin.le(p, x), lin.le(x, p)]
            bl += [lin.le(("prime", p), y), lin.le(y, ("prime", p))]
        hs = h.copy(); hs.lin = tuple(c for c in hl if c not in (None, False))
        bs = b.copy(); bs.lin = tuple(c for c in bl if c not in (None, False))
        ren = {p: ("prime", p) for p, x, y in sub_h if E.intlike(y)}
        back = {v: k for k, v in ren.items()}
        live = set()
        for v in newmem.values():
            collect_atoms(v, live)
        live |= {p for p, _, _ in sub_h}
        keep_h = lambda a: a in live or self.stable(a)
        keep_b = lambda a: a[0] == "prime" or (a not in ren and (a in live or self.stable(a)))
        cands = []
        if fresh or self.weakened < 6:
            need = fresh
            if not fresh and any(not E.entails_con(bs, rename_con(c, ren)) for c in h.lin):
                need = True
                self.weakened += 1
            if need:
                # the equalities that hold on both sides (Karr), then the inequalities of either side
                eh = lin.project_eqs(equalities(E, hs), keep_h)
                eb = [rename_row(r, back) for r in lin.project_eqs(equalities(E, bs), keep_b)]
                for row in lin.join_eqs(eh, eb):
                    t = lin.make({a: k for a, k in row.items() if a is not None}, row.get(None, 0))
                    cands += [lin.ge0(t), lin.ge0(lin.scale(t, -1))]
                imp = E.implicit({p for p, _, _ in sub_h if E.intlike(p)})
                cands += list(lin.project_sys(equalities(E, hs), list(hs.lin) + imp + lower(E, hs.lin, keep_h), keep_h) or ())
                for c in lin.project_sys(equalities(E, bs), list(bs.lin) + [rename_con(x, ren) for x in imp] + lower(E, bs.lin, keep_b), keep_b) or ():
                    cands.append(self.unprime(c, ren))
                ints = [(p, x, y) for p, x, y in sub_h if E.intlike(y) and (E.intlike(x) or x == p)]
                for i, (p, x, y) in enumerate(ints):
                    for q, x2, y2 in ints[i + 1:]:
                        for d in {lin.sub(x, x2), lin.sub(y, y2)}:
                            if d[0] == "c":
                                t = lin.sub(lin.sub(p, q), d)
                                cands += [lin.ge0(t), lin.ge0(lin.scale(t, -1))]
                    for val in {x, y}:
                        if val[0] == "c":
                            cands += [lin.le(p, val), lin.le(val, p)]
                    for k in self.limits:
                        cands += [lin.le(p, ("c", k)), lin.le(("c", k), p)]
        cands = list(h.lin) + cands
        kept = []; seen = set()
        for c in cands:
            if c is None or c is False or c in seen or abs(c[1]) > 2 ** 60: continue
            seen.add(c)
            if E.entails_con(hs, c) and E.entails_con(bs, rename_con(c, ren)):
                kept.append(c)
        kept = [c for c in kept if not self.trivial(c)]
        ks = h.copy(); ks.lin = tuple(kept)
        if all(E.entails_con(ks, c) for c in h.lin):
            lost = False
            if not changed: kept = h.lin
        else:
            lost = True
        if changed or lost:
            kept = self.minimal(h, kept)
        nvarfacts = {a: v for a, v in h.var.items() if b.var.get(a) == v}
        nn = {a: s & b.nvar.get(a, frozenset() if a not in b.var else s - {b.var[a]}) for a, s in h.nvar.items()}
        nn = {a: s for a, s in nn.items() if s}
        ne = tuple(x for x in h.ne if x in b.ne)
        pres = {k: v for k, v in h.pres.items() if b.pres.get(k) == v}
        if lost: changed = True
        if nvarfacts != h.var or nn != h.nvar or ne != h.ne or pres != h.pres: changed = True
        for p, x, y in sub_h:
            self.phis[p] = True
        if changed:
            h.mem = newmem; h.lin = kept; h.var = nvarfacts; h.nvar = nn; h.ne = ne; h.pres = pres
            h.nsym = max(h.nsym, self.entry_nsym) + 1
            self.dirty = True
        self.joined += 1
    def minimal(self, h, cons):
        """drop constraints that follow from the others"""
        E = self.E
        cons = sorted(set(cons), key=lambda c: (-len(c[0]), -abs(c[1]), repr(c)))
        i = 0
        while i < len(cons):
            s = h.copy(); s.lin = tuple(cons[:i] + cons[i + 1:])
            if tuple((a, -k) for a, k in cons[i][0]) not in {c[0] for c in cons} and E.entails_con(s, cons[i]):
                cons.pop(i)
            else:
                i += 1
        return tuple(sorted(cons, key=repr))
    def trivial(self, c):
        E = self.E
        if len(c[0]) == 1:
            (a, k), = c[0]
            r = E.int_range(a)
            if r and k == 1 and c[1] >= -r[0] and c[1] == -r[0]: return True
            if r and k == -1 and c[1] == r[1]: return True
        return False
    def rename_cons(self, cons, ren):
        return cons
    def unprime(self, c, ren):
        back = {v: k for k, v in ren.items()}
        d = {}
        prim = {a for a, _ in c[0] if a in back}
        if not prim:
            return c
        for a, k in c[0]:
            if a in ren:
                # mentions the old value of a changed location
                return None
            d[back.get(a, a)] = d.get(back.get(a, a), 0) + k
        return lin.norm(d, c[1]) or None
    def phi(self, loc, tid):
        p = ("phi", self.tag, self.n, loc)
        if tid is not None:
            self.E.typ.setdefault(p, tid)
        return p
    def merge(self, v, w, loc, subs, b):
        E = self.E
        if v[0] == "phi" and v == ("phi", self.tag, self.n, loc):
            subs.append((v, v, w))
            return v
        if v == w:
            return v
        if v[0] == "S" and w[0] == "S" and v[2] == w[2] and len(v[3]) == len(w[3]):
            return ("S", v[1], v[2], tuple(self.merge(x, y, loc + (i,), subs, b) for i, (x, y) in enumerate(zip(v[3], w[3]))))
        if v[0] == "bytes" and w[0] == "bytes":
            return self.merge_bytes(v, w, loc, subs, b)
        # eta: an opaque struct against its explicit form
        for x, y in ((v, w), (w, v)):
            if x[0] == "S" and y[0] in ("fld", "deref", "s", "phi", "upd"):
                tid = E.tyof(y) if y[0] != "upd" else E.tyof(y[1])
                n = E.nvariants(tid) if tid is not None else None
                if (n is None or n == 1 or E.variant(self.st if y is v else b, y) == x[2]) and x[1] == tid:
                    ex = ("S", x[1], x[2], tuple(E.field(self.st, y, x[2], i) for i in range(len(x[3]))))
                    return self.merge(ex, w, loc, subs, b) if y is v else self.merge(v, ex, loc, subs, b)
        if v[0] == "moved" or w[0] == "moved" or v[0] == "undef" or w[0] == "undef":
            return ("undef", "joined")
        if v[0] not in ("ref", "slice", "str", "lz", "fn") and w[0] not in ("ref", "slice", "str", "lz", "fn") and E.intlike(v) and E.intlike(w):
            v2 = E.simp(self.st, v); w2 = E.simp(b, w)
            if v2[0] == "c" and v2 == w2: return v2
            own = set(); collect_atoms(v, own)
            if own and all(self.stable(a) for a in own) and E.eq(b, v, w): return v
        tid = self.loc_ty(v, w)
        p = self.phi(loc, tid)
        subs.append((p, v, w))
        return p
    def loc_ty(self, v, w):
        E = self.E
        for x in (v, w):
            if x[0] == "S" and isinstance(x[1], int): return x[1]
            if x[0] == "lz" and isinstance(x[2], int): return x[2]
            t = E.tyof(x)
            if t is not None: return t
        for x in (v, w):
            if x[0] == "lin":
                ts = {E.ty_name(E.tyof(a)) if E.tyof(a) is not None else ("usize" if a[0] == "len" else None) for a, _ in x[2]}
                for n in ("usize", "u64", "u32", "i32", "isize"):
                    if n in ts: return n
                # a difference of decoded fields
                return "i128" if False else None
            if x[0] in ("cmp", "not", "and", "or"): return "bool"
        if v[0] == "c" and w[0] == "c": return "i128"
        return None
    def merge_bytes(self, v, w, loc, subs, b):
        E = self.E
        ln = self.merge(v[1], w[1], loc + ("len",), subs, b)
        if v[2] == w[2]:
            base = v[2]
        else:
            base = ("phi", self.tag, self.n, loc + ("base",))
        segs = []
        vs = canon_segs(E, self.st, v[3]); ws = canon_segs(E, b, w[3])
        for s in vs:
            m = [x for x in ws if x[2] == s[2] and x[0] == s[0]]
            if m:
                segs.append((s[0], self.merge(s[1], m[0][1], loc + ("seg", len(segs)), subs, b), s[2]))
            elif growing(s):
                segs.append((s[0], self.merge(s[1], ("c", 0), loc + ("seg", len(segs)), subs, b), s[2]))
        for s in ws:
            if growing(s) and not any(x[2] == s[2] and x[0] == s[0] for x in vs):
                segs.append((s[0], self.merge(("c", 0), s[1], loc + ("seg", len(segs)), subs, b), s[2]))
        return ("bytes", ln, base, tuple(segs))

def canon_segs(E, st, segs):
    out = []
    for s in segs:
        n = E.simp(st, s[1])
        if n == ("c", 0): continue
        start = E.simp(st, s[0]); c = s[2]
        if c[0] in ("stream", "sub"):
            c = (c[0], c[1], E.simp(st, c[2])) + tuple(c[3:])
        # a piece that continues an earlier one
        for i, o in enumerate(out):
            if c[0] == "stream" and o[2][0] == "stream" and o[2][1] == c[1] and E.eq(st, lin.add(o[0], o[1]), start) and E.eq(st, lin.add(o[2][2], o[1]), c[2]):
                out[i] = (o[0], lin.add(o[1], n), o[2]); break
        else:
            out.append((start, n, c))
    return out

def lin_subst(t, a, rhs):
    """replace an atom in a linear term"""
    if t == a: return rhs
    if t[0] != "lin": return t
    out = ("c", t[1])
    for x, k in t[2]:
        out = lin.add(out, rhs if x == a else x, k)
    return out

def phi_tags(v, out):
    if isinstance(v, tuple) and v:
        if v[0] == "phi" and len(v) > 1 and isinstance(v[1], str): out.add(v[1])
        for x in v:
            if isinstance(x, tuple): phi_tags(x, out)

def growing(seg):
    """data read from the peer: a segment of length zero is the same as no segment"""
    return seg[2][0] == "stream"

def collect_atoms(v, out):
    if not isinstance(v, tuple) or not v: return
    k = v[0]
    if k == "lin":
        for a, _ in v[2]: out.add(a)
        return
    if k in ("fld", "s", "len", "discr", "phi", "dec", "app", "cast", "deref", "enc"):
        out.add(v)
    if k in ("S",):
        for x in v[3]: collect_atoms(x, out)
    elif k == "bytes":
        collect_atoms(v[1], out)
        for a, n, _ in v[3]:
            collect_atoms(a, out); collect_atoms(n, out)
    elif k == "slice":
        collect_atoms(v[3], out); collect_atoms(v[4], out)
    elif k == "upd":
        for _, x in v[2]: collect_atoms(x, out)

def equalities(E, st):
    return [dict(list(lin.parts(lin.sub(a, rhs))[0].items()) + [(None, lin.parts(lin.sub(a, rhs))[1])]) for a, rhs in E.reduced(st.lin)[0].items()]

def lower(E, cons, keep):
    """atoms about to be eliminated are not negative, if their type says so"""
    atoms = {a for c in cons for a, _ in c[0] if not keep(a)}
    return [c for c in E.implicit(atoms) if len(c[0]) == 1 and c[0][0][1] > 0]

def rename_row(r, back):
    return {back.get(a, a): k for a, k in r.items()}

def rename_con(c, ren):
    d = {}
    for a, k in c[0]:
        a = ren.get(a, a)
        d[a] = d.get(a, 0) + k
    return lin.norm(d, c[1])

def rename_back(c, ren):
    return c

def subst(v, m):
    """replace terms in a value"""
    if not isinstance(v, tuple):
        return v
    r = m.get(v)
    if r is not None:
        return r
    if v and v[0] == "lin":
        out = ("c", v[1])
        for a, k in v[2]:
            out = lin.add(out, subst(a, m), k)
        return out
    new = tuple(subst(x, m) for x in v)
    return new
