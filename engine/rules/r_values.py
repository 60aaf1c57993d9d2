"""C26: values copy, compare, order and hash as the values they are. C34: access to what a transport wraps."""
from lib import *
from r_peer import strip_ref, tystr
from r_extra import content, holds

# ---- C26 -----------------------------------------------------------------------------------------------------------
TRAITS = {"clone": "core::clone::Clone", "eq": "core::cmp::PartialEq", "ne": "core::cmp::PartialEq", "cmp": "core::cmp::Ord", "partial_cmp": "core::cmp::PartialOrd",
          "lt": "core::cmp::PartialOrd", "le": "core::cmp::PartialOrd", "gt": "core::cmp::PartialOrd", "ge": "core::cmp::PartialOrd", "max": "core::cmp::Ord",
          "min": "core::cmp::Ord", "hash": "core::hash::Hash", "clone_from": "core::clone::Clone"}
LESS, EQUAL, GREATER = 0, 1, 2          # variants of core::cmp::Ordering

def value_impls(d):
    """{type: {method: function}} for the value types of the library (handles are judged by C25)"""
    r = {}
    E = Engine(d)
    for f in all_roots(d):
        n = f.name.split("::")[-1]
        if f.kind != "fn" or n not in TRAITS or not isinstance(f.impl_self, int) or (f.impl_trait or "").split("<")[0] != TRAITS[n]: continue
        a = E.adt_of(f.impl_self)
        if a is None or a.startswith(("peer_handle::", "request::", "peer::", "macros::")): continue
        r.setdefault(a, {})[n] = f
    return r

def split_leaves(E, st, v, tid, depth=0):
    """all states in which the variants of the plain enums in a value are known"""
    if depth > 6: return [st]
    a = E.adt_of(tid) if isinstance(tid, int) else None
    if a is None or a not in E.dump.adts or not E.dump.adts[a]["local"]: return [st]
    vs = E.dump.adts[a]["variants"]
    if len(vs) == 0 or len(vs) > 12: return [st]
    out = []
    for k in range(len(vs)):
        s = st.copy()
        if len(vs) > 1 and not E.set_variant(s, v, k): continue
        ss = [s]
        for i in range(len(vs[k]["fields"])):
            ss = [y for x in ss for y in split_leaves(E, x, E.field(x, v, k, i), E.field_ty(tid, k, i), depth + 1)]
        out += ss
    return out

def parts(E, st, v, tid, path=(), depth=0):
    """[(path, value)]: the parts of a value that are compared as they are; the variants of enums are parts of their own"""
    a = E.adt_of(tid) if isinstance(tid, int) else None
    if depth < 8 and a in E.dump.adts and (E.dump.adts[a]["local"] or a in ("core::option::Option", "core::result::Result")):
        vs = E.dump.adts[a]["variants"]
        k = E.variant(st, v) if len(vs) > 1 else 0
        if k is None: return [(path, v)]
        r = [(path + ("variant",), ("c", k))] if len(vs) > 1 else []
        for i, x in enumerate(vs[k]["fields"]):
            r += parts(E, st, E.field(st, v, k, i), E.field_ty(tid, k, i), path + ((x["name"] if isinstance(x, dict) else x),), depth + 1)
        return r
    return [(path, v)]

def number(E, st, v):
    """an unresolved plain enum as its number"""
    return v

def all_equal(E, st, x, y, tid):
    """True, or the path of a part that is not known to be equal"""
    px, py = parts(E, st, x, tid), parts(E, st, y, tid)
    if [p for p, _ in px] != [p for p, _ in py]: return "variant"
    for (p, a), (_, b) in zip(px, py):
        a, b = content(E, st, a), content(E, st, b)
        if not (a == b or E.same_value(st, a, b)): return ".".join(str(z) for z in p) or "value"
    return True

def possibly_equal(E, st, x, y, tid):
    """whether the state allows that both values are equal"""
    px, py = parts(E, st, x, tid), parts(E, st, y, tid)
    if [p for p, _ in px] != [p for p, _ in py]: return False
    s = st.copy()
    for (p, a), (_, b) in zip(px, py):
        if a == b: continue
        if a[0] == "c" and b[0] == "c": return False
        if E.intlike(a) and E.intlike(b):
            if E.assume(s, E.cmp("eq", a, b), True) is None: return False
    return True

def branch(E, st, v):
    """[(True or False, state)] for a boolean value"""
    r = []
    for b in (True, False):
        s = E.assume(st.copy(), v, b)
        if s is not None: r.append((b, s))
    return r

def orders(E, st, v):
    """[(Less, Equal or Greater, state)] for a value of Ordering"""
    r = []
    for k in (LESS, EQUAL, GREATER):
        s = st.copy()
        if E.set_variant(s, v, k): r.append((k, s))
    return r

def calls(R, E, f, st, vals, what):
    """run a function on references to values; reports panics"""
    s = st.copy()
    args = [("ref", E.newbox(s, v, "T"), ()) if E.ty(f.locals[i + 1])["k"] == "ref" else v for i, v in enumerate(vals)]
    res = []
    for o in run(E, f, args, s, await_it=False):
        if o.k == "ret": res.append((o.v, o.st))
        elif o.k == "panic": R.fail("operations on values do not panic", f"{what} can panic", f, trace_of(o.st))
    return res

def c26(R):
    R.rule("Clone, PartialEq, PartialOrd, Ord and Hash of every value type of the library (message headers and types, configurations, endianness, peer information, bodies, introspection "
           "definitions) are interpreted with arbitrary values. A clone has every part of the original. Two values are equal exactly if all their parts are. The order is total: Equal exactly "
           "for equal values, reversed when the arguments are, transitive, and partial_cmp and the comparison operators agree with it. Equal values feed the same data to the hasher.")
    d = dump()
    types = value_impls(d)
    for need in ("message::MessageType", "message::MessageHeader", "transport::endian::Endian", "transport::stream::config::StreamConfig", "transport::unix::config::UnixConfig"):
        R.need(need in types, f"the operations of {need}")
    nb = {"clone": 0, "eq": 0, "cmp": 0, "hash": 0}
    for a, fs in sorted(types.items()):
        nm = a.split("::")[-1]
        for op in ("clone", "clone_from"):
            if op not in fs: continue
            f = fs[op]; E = engine(R, d); st = State(); tid = f.impl_self
            x, y = E.const_sym("x", tid), E.const_sym("y", tid)
            if op == "clone": rs = [(v, s) for v, s in calls(R, E, f, st, [x], f"{nm}::clone")]
            else:
                b, c = E.newbox(st, y, "T"), E.newbox(st, x, "T")
                rs = [(E.load(o.st, b, ()), o.st) for o in run(E, f, [("ref", b, ()), ("ref", c, ())], st, await_it=False) if o.k == "ret"]
            R.ob("cloning returns", len(rs) > 0, f"{nm}::{op} has no path that returns", f)
            for v, s in rs:
                nb["clone"] += 1
                R.count("paths of clones")
                r = all_equal(E, s, v, x, tid)
                R.ob("a clone has all parts of the original", r is True, f"{nm}::{op} changes {r}: it gives {short(v, 80)}", f, trace_of(s))
        eq, cmp_ = fs.get("eq"), fs.get("cmp")
        tid = next(iter(fs.values())).impl_self
        if not (eq or cmp_ or "hash" in fs or "partial_cmp" in fs): continue
        def pairs(E, n):
            st = State()
            vals = [E.const_sym(c, tid) for c in "xyz"[:n]]
            ss = [st]
            for v in vals: ss = [t for s in ss for t in split_leaves(E, s, v, tid)]
            return vals, ss
        def eqs(E, s, v, w):
            """[(whether equal, state)] by the implementation"""
            return [bs for r, t in calls(R, E, eq, s, [v, w], f"{nm}::eq") for bs in branch(E, t, r)]
        def cmps(E, s, v, w, f=None):
            f = f or cmp_
            res = []
            for r, t in calls(R, E, f, s, [v, w], f"{nm}::{f.name.split('::')[-1]}"):
                if f.name.split("::")[-1] == "partial_cmp":
                    k = E.variant(t, r)
                    if not R.ob("values are always ordered", k == 1, f"{nm}::partial_cmp can give None", f, trace_of(t)): continue
                    r = E.field(t, r, 1, 0)
                res += orders(E, t, r)
            return res
        if eq:
            E = engine(R, d)
            (x, y), ss = pairs(E, 2)
            for s in ss:
                got = eqs(E, s, x, y)
                R.ob("comparing returns", len(got) > 0, f"{nm}::eq has no path that returns", eq)
                for b, t in got:
                    nb["eq"] += 1
                    R.count("paths of comparisons")
                    if b:
                        r = all_equal(E, t, x, y, tid)
                        R.ob("equal values have equal parts", r is True, f"{nm}::eq says equal although {r} can differ", eq, trace_of(t))
                    else:
                        R.ob("values with equal parts are equal", not possibly_equal(E, t, x, y, tid), f"{nm}::eq says different although all parts can be equal", eq, trace_of(t))
                    if "ne" in fs:
                        for r, u in calls(R, E, fs["ne"], t, [x, y], f"{nm}::ne"):
                            for c, _ in branch(E, u, r): R.ob("ne is the opposite of eq", c == (not b), f"{nm}::ne gives {c} where eq gives {b}", fs["ne"], trace_of(u))
        if cmp_ or "partial_cmp" in fs:
            main = cmp_ or fs["partial_cmp"]
            E = engine(R, d)
            (x, y), ss = pairs(E, 2)
            rev = {LESS: GREATER, EQUAL: EQUAL, GREATER: LESS}
            for s in ss:
                for k, t in cmps(E, s, x, y, main):
                    nb["cmp"] += 1
                    R.count("paths of comparisons")
                    if k == EQUAL:
                        r = all_equal(E, t, x, y, tid)
                        R.ob("values ordered as equal are equal", r is True, f"{nm}::cmp gives Equal although {r} can differ", main, trace_of(t))
                    else:
                        R.ob("equal values are ordered as equal", not possibly_equal(E, t, x, y, tid), f"{nm}::cmp orders a value before or after itself", main, trace_of(t))
                    for k2, u in cmps(E, t, y, x, main):
                        R.ob("the order is antisymmetric", k2 == rev[k], f"{nm}::cmp gives the same order for both directions", main, trace_of(u))
                    if cmp_ and "partial_cmp" in fs:
                        for k2, u in cmps(E, t, x, y, fs["partial_cmp"]):
                            R.ob("partial_cmp agrees with cmp", k2 == k, f"{nm}::partial_cmp and cmp give different orders", fs["partial_cmp"], trace_of(u))
                    for op, want in (("lt", k == LESS), ("le", k != GREATER), ("gt", k == GREATER), ("ge", k != LESS)):
                        if op in fs:
                            for r, u in calls(R, E, fs[op], t, [x, y], f"{nm}::{op}"):
                                for c, _ in branch(E, u, r): R.ob("the operators agree with cmp", c == want, f"{nm}::{op} does not agree with cmp", fs[op], trace_of(u))
                    for op, want in (("max", y if k != GREATER else x), ("min", x if k != GREATER else y)):
                        if op in fs:
                            for r, u in calls(R, E, fs[op], t, [x, y], f"{nm}::{op}"):
                                R.ob("max and min agree with cmp", all_equal(E, u, r, want, tid) is True, f"{nm}::{op} does not agree with cmp", fs[op], trace_of(u))
            E = engine(R, d)
            (x, y, z), ss = pairs(E, 3)
            for s in ss:
                for k1, t in cmps(E, s, x, y, main):
                    if k1 == GREATER: continue
                    for k2, u in cmps(E, t, y, z, main):
                        if k2 == GREATER: continue
                        want = EQUAL if k1 == EQUAL and k2 == EQUAL else LESS
                        for k3, w in cmps(E, u, x, z, main):
                            R.count("chains of comparisons")
                            R.ob("the order is transitive", k3 == want, f"{nm}::cmp is not transitive", main, trace_of(w))
        if "hash" in fs:
            f = fs["hash"]
            E = engine(R, d)
            E.on_event = lambda s, e: e.d.__setitem__("deref", tuple(deep(E, s, q) for q in e.d["args"])) if e.k == "call" else None
            (x, y), ss = pairs(E, 2)
            for s in ss:
                for b, t in (eqs(E, s, x, y) if eq else [(True, s)] if all_equal(E, s, x, y, tid) is True else []):
                    if not b: continue
                    h = E.const_sym("hasher", strip_ref(E, f.locals[2]))
                    def feed(st, v):
                        s2 = st.copy(); n = len(s2.ev)
                        bx, bh = E.newbox(s2, v, "T"), E.newbox(s2, h, "T")
                        out = []
                        for o in run(E, f, [("ref", bx, ()), ("ref", bh, ())], s2, await_it=False):
                            if o.k == "panic": R.fail("operations on values do not panic", f"{nm}::hash can panic", f, trace_of(o.st))
                            if o.k == "ret": out.append(([e for e in list(o.st.ev)[n:] if e.k == "call"], o.st, bh))
                        return out
                    for e1, u, h1 in feed(t, x):
                        for e2, w, h2 in feed(u, y):
                            nb["hash"] += 1
                            R.count("paths of hashing")
                            good = len(e1) == len(e2) and all(strip_generics(str(p["path"])) == strip_generics(str(q["path"])) and
                                same_data(E, w, p, q, h1, h2) for p, q in zip(e1, e2))
                            R.ob("equal values hash the same", good, f"{nm}::hash feeds different data for equal values", f, trace_of(w))
    R.need(all(nb.values()), "implementations of Clone, PartialEq, Ord and Hash")

def plain(E, st, v):
    while isinstance(v, tuple) and v and v[0] == "&": v = v[1]
    return content(E, st, v)

def same_data(E, st, p, q, hp, hq):
    """the arguments that are not the hasher"""
    if len(p["args"]) != len(q["args"]): return False
    for a, b, x, y in zip(p["args"], q["args"], p["deref"], q["deref"]):
        if a[0] == "ref" and b[0] == "ref" and a[1] == hp and b[1] == hq: continue
        x, y = plain(E, st, x), plain(E, st, y)
        if not (x == y or E.same_value(st, x, y)): return False
    return True

# ---- C34 -----------------------------------------------------------------------------------------------------------
ACCESS = ("stream", "stream_mut", "into_stream", "socket", "socket_mut", "into_socket", "transport", "transport_mut")

def c34(R):
    R.rule("The functions that give direct access to the stream, socket or transport inside a transport, half or peer are interpreted with an arbitrary object: the result is exactly the wrapped "
           "object (as a shared reference, an exclusive reference for *_mut, or the object itself for into_*), nothing else happens, and the object and the configuration put in with new are the ones that come out (the default configuration without one).")
    d = dump()
    n = 0
    for f in all_roots(d):
        m = f.name.split("::")[-1]
        if f.kind != "fn" or m not in ACCESS or f.argc != 1 or not isinstance(f.impl_self, int) or f.impl_trait: continue
        E = engine(R, d)
        a = E.adt_of(f.impl_self)
        if a is None or not (a.startswith("transport::") or a == "peer::Peer"): continue
        nm = f"{a.split('::')[-1]}::{m}"
        vs = E.dump.adts[a]["variants"]
        names = [x["name"] if isinstance(x, dict) else x for x in vs[0]["fields"]]
        want_f = m.replace("_mut", "").replace("into_", "")
        t = E.ty(f.locals[0])
        kind = "value" if m.startswith("into_") else "mut" if m.endswith("_mut") else "ref"
        form = "mut" if t["k"] == "ref" and tystr(E, f.locals[0]).startswith("&mut") else "ref" if t["k"] == "ref" else "value"
        n += 1
        R.count("access functions")
        R.ob("access has the promised form", form == kind, f"{nm} returns {tystr(E, f.locals[0])}, promised is {'an exclusive reference' if kind == 'mut' else 'a reference' if kind == 'ref' else 'the object'}", f)
        # which part is the wrapped object: the one whose type is that of the result
        rt = strip_ref(E, f.locals[0]) if kind != "value" else f.locals[0]
        cand = [i for i in range(len(names)) if E.field_ty(f.impl_self, 0, i) == rt]
        R.need(len(cand) == 1, f"the part of {a} that {m} gives access to")
        st = State()
        me = E.const_sym("self", f.impl_self)
        if E.ty(f.locals[1])["k"] == "ref":
            b = E.newbox(st, me, "T"); args = [("ref", b, ())]
        else: args = [me]
        want = E.field(st, me, 0, cand[0])
        outs = run(E, f, args, st, await_it=False)
        k = 0
        for o in outs:
            tr = trace_of(o.st)
            if o.k == "panic": R.fail("access does not panic", f"{nm} can panic", f, tr); continue
            if o.k != "ret": continue
            k += 1
            R.ob("access does nothing else", not [e for e in o.st.ev if e.k not in ("drop",)], f"{nm} does {[e.k for e in o.st.ev]}", f, tr)
            if kind == "value":
                R.ob("access gives the wrapped object", E.same_value(o.st, o.v, want), f"{nm} gives {short(o.v, 80)}", f, tr)
            else:
                good = o.v[0] == "ref" and o.v[1] == b
                if good: good = E.same_value(o.st, E.load(o.st, o.v[1], o.v[2]), want)
                R.ob("access gives the wrapped object", good, f"{nm} gives {short(o.v, 80)}, which is not the wrapped object", f, tr)
                R.ob("access changes nothing", E.same_value(o.st, E.load(o.st, b, ()), me) or all(E.same_value(o.st, E.field(o.st, E.load(o.st, b, ()), 0, i), E.field(st, me, 0, i)) for i in range(len(names))),
                     f"{nm} changes the object it is called on", f, tr)
        R.ob("access returns", k > 0, f"{nm} has no path that returns", f)
        # round trip
        for g in all_roots(d):
            if g.kind != "fn" or g.name.split("::")[-1] not in ("new", "new_default") or not isinstance(g.impl_self, int) or E.adt_of(g.impl_self) != a or g.impl_trait: continue
            E2 = engine(R, d); s = State()
            gargs = [sym_arg(E2, s, g, i) for i in range(g.argc)]
            objs = [x for i, x in enumerate(gargs) if g.locals[i + 1] == E2.field_ty(g.locals[0], 0, cand[0])] if E2.adt_of(g.locals[0]) == a else []
            for o in run(E2, g, gargs, s, await_it=False):
                if o.k != "ret": continue
                v = o.v
                if E2.adt_of(g.locals[0]) != a:            # Peer::new gives the peer and its handle
                    if v[0] != "S": continue
                    v = next((x for x in v[3] if x[0] == "S" and isinstance(x[1], int) and E2.adt_of(x[1]) == a), None)
                    if v is None: continue
                    objs = [x for i, x in enumerate(gargs) if g.locals[i + 1] == E2.field_ty(v[1], 0, cand[0])]
                R.need(len(objs) == 1, f"the object given to {a}::new")
                R.count("round trips")
                for x in gargs:
                    R.ob("everything given to new is kept", holds(E2, o.st, v, x), f"{a}::new does not keep {short(x, 60)}", g, trace_of(o.st))
                conf = [i for i in range(len(names)) if (E2.adt_of(E2.field_ty(v[1], 0, i)) or "").endswith("Config")] if v[0] == "S" and isinstance(v[1], int) else []
                for i in conf:
                    if any(gargs[j][0] != "undef" and g.locals[j + 1] == E2.field_ty(v[1], 0, i) for j in range(g.argc)): continue
                    c = E2.field(o.st, v, 0, i); ca = E2.adt_of(E2.field_ty(v[1], 0, i))
                    df = [h for h in impls(d, "default::Default", "default") if isinstance(h.impl_self, int) and E2.adt_of(h.impl_self) == ca]
                    R.need(len(df) == 1, f"the default of {ca}")
                    for r, s3 in [(q.v, q.st) for q in run(E2, df[0], [], o.st.copy(), await_it=False) if q.k == "ret"]:
                        R.ob("without a configuration the default is used", E2.same_value(s3, c, r), f"{g.name.split('::')[-1]} of {a} uses {short(c, 80)}, the default is {short(r, 80)}", g, trace_of(s3))
                R.ob("the wrapped object is the one given to new", E2.same_value(o.st, E2.field(o.st, v, 0, cand[0]), objs[0]), f"{a}::new does not keep the given object", g, trace_of(o.st))
    R.need(n >= 8, "the access functions of transports")

RULES = {"C26": c26, "C34": c34}
