"""C30, C31: the accept loop and binding."""
from lib import *
from r_extra import note_addresses
from r_peer import mentions, strip_ref, tystr, short_name

def acc_call(e): return e.k == "call" and (e.d.get("trait") or "").endswith("util::accept::Listener")

def iteration(R, E, f, st, evs, k, v, where):
    """one pass of the accept loop (or of accept); k: 'back' or 'ret'"""
    tr = trace_of(st)
    acc = [e for e in evs if acc_call(e)]
    aw = [e for e in evs if e.k in ("await", "recv", "oneshot_recv")]
    res = None
    for e in aw:
        if e.k == "await" and any(mentions(e["future"], c["ret"]) for c in acc): res = e
        else: R.fail(f"{where} waits only for the next connection", f"{where} waits for {e.d.get('fty') or e.k}", f, tr)
    if res is None and len(acc) == 1 and acc[0].d.get("path", "").endswith("poll_accept") and E.variant(st, acc[0]["ret"]) == 0:
        # polled directly until it is ready
        res = {"ret": E.field(st, acc[0]["ret"], 0, 0)}
    if res is None:
        R.fail(f"{where} accepts", f"a path of {where} accepts no connection", f, tr); return None
    R.ob(f"{where} accepts on the listening socket", len(acc) == 1, f"a path of {where} accepts {len(acc)} times", f, tr)
    kr = E.variant(st, res["ret"])
    by = lambda nm: [e for e in evs if e.k == "call" and e.d.get("path", "").split("::")[-1] == nm]
    if kr == 1:
        err = E.field(st, res["ret"], 1, 0)
        return ("accept failed", err)
    if kr is None:
        R.fail(f"{where} looks at the result of accept", f"{where} does not look at whether a connection was accepted", f, tr); return None
    conn = E.field(st, E.field(st, res["ret"], 0, 0), 0, 0)
    it, ti, sp = by("into_transport"), by("transport_info") + by("info"), by("spawn")
    if not R.ob(f"{where}: one transport per connection", len(it) == 1, f"{where}: {len(it)} transports are made of a connection", f, tr): return None
    t = it[0]["ret"]
    R.ob(f"{where}: the transport is made of the accepted connection", E.same_value(st, it[0]["args"][0], conn), f"{where}: the transport is made of {short(it[0]['args'][0], 60)}", f, tr)
    cl = [e for e in evs if e.k == "call" and e.d.get("path", "").split("::")[-1] == "clone" and E.same_value(st, e["ret"], it[0]["args"][1])]
    cfg = deep(E, st, cl[0]["args"][0]) if cl else None
    R.ob(f"{where}: the transport gets the configuration of the listener", bool(cl) and cfg[0] == "&" and E.same_value(st, cfg[1], config_of(E, st, f)), f"{where}: the transport gets the configuration {short(it[0]['args'][1], 60)}", f, tr)
    infos = [e for e in ti if same_ref(E, st, e["args"][0], t)]
    if ti: R.ob(f"{where}: the information is that of the connection", len(infos) == len(ti), f"{where}: the information is asked of another transport", f, tr)
    if not infos: return ("no info", t, sp)
    ki = E.variant(st, infos[-1]["ret"])
    return ("accepted", t, infos[-1], ki, sp)

def same_ref(E, st, a, t):
    if E.same_value(st, a, t): return True
    d = deep(E, st, a)
    if d[0] == "&" and (mentions(d, t) or E.same_value(st, d[1], t)): return True
    # the transport has been moved on since
    for ev in st.ev:
        if ev.k == "call" and ev.d.get("deref0") == (a, t): return True
    return False

def config_of(E, st, f):
    """the field of the listener that holds the configuration"""
    p = E.config_loc
    return E.load(st, *p)

def c30(R):
    R.rule("Listener::run is interpreted to its loop invariant, with an arbitrary listening socket. Every pass of the loop that accepted a connection goes back to accepting, whatever the connection's own operations "
           "return; if its information is available, the user's task is called once with the peer spawned from that connection's transport and with that information, and the task is spawned, not awaited. "
           "The loop ends only with the error of the listening socket. Listener::accept is checked in the same way, and the adapters to the socket types pass everything on.")
    d = dump()
    f = get(R, d, "Listener::run")
    E = setup(R, d)
    outs = runl(R, E, f, 2)
    loops = [e["info"] for o in outs for e in o.st.ev if e.k == "loop"]
    if not R.ob("Listener::run loops", bool(loops), "Listener::run does not accept in a loop", f): return
    n = {"task": 0, "bad": 0}
    segs = []
    for li in loops:
        for g in li.segs:
            if g.k == "back" and g not in segs: segs.append(g)
    for g in segs:
        R.count("loop passes")
        evs = list(g.ev)
        r = iteration(R, E, f, g.st, evs, "back", None, "Listener::run")
        tr = trace_of(g.st)
        if r is None: continue
        tasks = [e for e in evs if e.k == "callvalue"]
        spawned = [e for e in evs if e.k == "spawn"]
        if r[0] == "accept failed":
            R.ob("an error of the listening socket is returned", any(e.k == "call" and e.d.get("path", "").endswith("Error::kind") for e in evs) or mentions(g.st.lin, "kind") or mentions(tuple(g.st.var), "kind"), "Listener::run goes on after an error of the listening socket", f, tr)
            R.ob("no task without a connection", not tasks, "the user's task is called without a connection", f, tr)
            continue
        if r[0] == "no info":
            R.fail("the task gets the peer's information", "an accepted connection is dropped without looking at it", f, tr); continue
        _, t, info, ki, sp = r
        if ki == 0 or (ki is None and tasks):
            n["task"] += 1
            if not R.ob("an accepted connection is given to the task", len(tasks) == 1, f"the user's task is called {len(tasks)} times for an accepted connection", f, tr): continue
            R.ob("the peer runs on the connection's transport", len(sp) == 1 and E.same_value(g.st, sp[0]["args"][0], t), f"the peer is spawned {len(sp)} times, with {short(sp[0]['args'][0], 60) if sp else '-'}", f, tr)
            a = tasks[0]["args"]
            flat = []
            for x in a: flat += list(x[3]) if x[0] == "S" and x[1] == "tuple" else [x]
            ok = len(flat) == 2 and bool(sp) and E.same_value(g.st, flat[0], sp[0]["ret"]) and E.same_value(g.st, flat[1], E.field(g.st, info["ret"], 0, 0))
            R.ob("the task gets the peer and its information", ok, f"the task is called with {[short(x, 50) for x in flat]}", f, tr)
            R.ob("the task is spawned", len(spawned) == 1 and mentions(spawned[0]["future"], tasks[0]["ret"]), f"{len(spawned)} tasks are spawned for a connection", f, tr)
        elif ki == 1:
            n["bad"] += 1
            R.ob("no task for a connection without information", not tasks, "the user's task is called for a broken connection", f, tr)
    R.ob("accepted connections occur", n["task"] > 0, "no pass of Listener::run gives a connection to the task", f)
    for o in outs:
        tr = trace_of(o.st)
        R.count("ends of the loop")
        if o.k == "panic":
            R.fail("Listener::run does not panic", f"Listener::run can panic: {short(o.v, 60) if o.v else ''}", f, tr); continue
        if o.k != "ret": continue
        i = max([j for j, e in enumerate(o.st.ev) if e.k == "loop"], default=-1)
        r = iteration(R, E, f, o.st, list(o.st.ev[i + 1:]), "ret", o.v, "Listener::run")
        if r is None: continue
        if r[0] != "accept failed":
            R.fail("only an error of the listening socket ends the loop", "Listener::run ends because of a single connection", f, tr); continue
        R.ob("the error of the listening socket is returned", E.variant(o.st, o.v) == 1 and E.same_value(o.st, E.field(o.st, o.v, 1, 0), r[1]), f"Listener::run returns {short(o.v, 60)}", f, tr)
    # accept
    f = get(R, d, "Listener::accept") if len(find(d, "listener::Listener::accept")) != 1 else find(d, "listener::Listener::accept")[0]
    E = setup(R, d)
    ok = 0
    for o in runl(R, E, f, 1):
        tr = trace_of(o.st)
        if o.k == "panic": R.fail("Listener::accept does not panic", "Listener::accept can panic", f, tr); continue
        if o.k != "ret": continue
        R.count("accept paths")
        r = iteration(R, E, f, o.st, list(o.st.ev), "ret", o.v, "Listener::accept")
        if r is None: continue
        k = E.variant(o.st, o.v)
        if r[0] == "accept failed":
            R.ob("Listener::accept returns the error of the listening socket", k == 1 and E.same_value(o.st, E.field(o.st, o.v, 1, 0), r[1]), f"Listener::accept returns {short(o.v, 60)}", f, tr)
        elif r[0] == "accepted":
            _, t, info, ki, sp = r
            if ki == 0:
                ok += 1
                v = E.field(o.st, o.v, 0, 0) if k == 0 else None
                good = v is not None and len(sp) == 1 and E.same_value(o.st, sp[0]["args"][0], t) and E.same_value(o.st, E.field(o.st, v, 0, 0), sp[0]["ret"]) and E.same_value(o.st, E.field(o.st, v, 0, 1), E.field(o.st, info["ret"], 0, 0))
                R.ob("Listener::accept returns the peer and its information", good, f"Listener::accept returns {short(o.v, 80)}", f, tr)
            elif ki == 1:
                R.ob("Listener::accept returns the error of the connection", k == 1 and not sp, f"Listener::accept returns {short(o.v, 60)}", f, tr)
    R.need(ok, "Listener::accept of a connection")
    infos(R, d)
    # the adapters
    for meth, callee, idx in (("into_transport", "into_transport", (0, 1)), ("transport_info", "info", (0,)), ("spawn", None, (0,))):
        for g in impls(d, "ListeningSocket", meth):
            E = engine(R, d); st = State()
            a = [sym_arg(E, st, g, i) for i in range(g.argc)]
            outs = [o for o in run(E, g, a, st, await_it=False) if o.k == "ret"]
            if callee is None:
                sp = [e for o in outs for e in o.st.ev if e.k == "spawn"]
                R.ob("the spawned peer runs", len(sp) == len(outs) >= 1, "no task is spawned for the peer", g)
                R.ob("the spawned peer has the transport", all(mentions(deep(E, outs[0].st, e["future"]), a[0]) for e in sp), "the peer is spawned with another transport", g)
                continue
            for o in outs:
                cs = [e for e in o.st.ev if e.k == "call" and e.d["path"].split("::")[-1] == callee]
                good = len(cs) == 1 and len(cs[0]["args"]) == len(idx) and all(E.same_value(o.st, x, a[i]) for x, i in zip(cs[0]["args"], idx)) and E.same_value(o.st, o.v, cs[0]["ret"])
                R.ob(f"{meth} passes everything on", good, f"{meth} does not pass its arguments to {callee}", g, trace_of(o.st))

# what the information about a connection means: accessor -> (operation of the operating system, through the credentials?)
INFO = {"user_id": ("uid", True), "group_id": ("gid", True), "process_id": ("pid", True), "local_address": ("local_addr", False), "remote_address": ("peer_addr", False)}

def infos(R, d):
    """Transport::info of every socket type, read through the accessors of the information"""
    n = 0
    for g in impls(d, "transport::Transport", "info"):
        E = engine(R, d); st = State()
        what = short_name(g.name)
        b = E.newbox(st, E.const_sym("transport", strip_ref(E, g.locals[1])), "T")
        seen = {}
        def on_event(s, e):
            if e.k == "call": e.d["deref"] = tuple(deep(E, s, a) for a in e.d["args"])
        E.on_event = on_event
        def own(e): return bool(e["args"]) and e["args"][0][0] == "ref" and e["args"][0][1] == b
        for o in run(E, g, [("ref", b, ())], st, await_it=False):
            tr = trace_of(o.st)
            if o.k == "panic": R.fail(f"{what} does not panic", f"{what} can panic", g, tr); continue
            if o.k != "ret": continue
            n += 1
            k = E.variant(o.st, o.v)
            asked = [e for e in o.st.ev if e.k == "call" and own(e)]
            bad = [e for e in asked if E.variant(o.st, e["ret"]) == 1]
            if k == 1:
                err = E.field(o.st, o.v, 1, 0)
                R.ob(f"{what} fails only when the operating system gives no answer", any(E.same_value(o.st, err, E.field(o.st, e["ret"], 1, 0)) for e in bad), f"{what} returns an error {short(err, 60)}", g, tr)
                continue
            if not R.ob(f"{what} gives information or an error", k == 0, f"{what} returns {short(o.v, 60)}", g, tr): continue
            R.ob(f"{what} gives no information that was not reported", not bad, f"{what} succeeds although {bad[0].d['path'] if bad else ''} failed", g, tr)
            info = E.field(o.st, o.v, 0, 0)
            a = E.adt_of(E.tyof(info) if info[0] != "S" else info[1])
            acc = [f for f in all_roots(d) if f.kind == "fn" and not f.impl_trait and isinstance(f.impl_self, int) and E.adt_of(f.impl_self) == a and f.argc == 1]
            for f in acc:
                nm = f.name.split("::")[-1]
                if nm not in INFO: continue
                op, cred = INFO[nm]
                s2 = o.st.copy(); bi = E.newbox(s2, info, "I")
                for p in run(E, f, [("ref", bi, ())], s2, await_it=False):
                    if p.k != "ret": R.fail(f"{nm} does not panic", f"{nm} of the information can panic", f, trace_of(p.st)); continue
                    v = deep(E, p.st, p.v)
                    if v[0] == "&": v = v[1]
                    good = False
                    for e in p.st.ev:
                        if e.k != "call" or e.d["path"].split("::")[-1] != op: continue
                        if cred:
                            src = [c for c in asked if c.d["path"].split("::")[-1] == "peer_cred"]
                            frm = any(mentions(e["deref"][0], E.field(p.st, c["ret"], 0, 0)) or e["deref"][0] == ("&", E.field(p.st, c["ret"], 0, 0)) for c in src)
                            good |= frm and (E.same_value(p.st, p.v, e["ret"]) or E.same_value(p.st, v, e["ret"]))
                        else:
                            good |= own(e) and E.same_value(p.st, v, E.field(p.st, e["ret"], 0, 0))
                    seen[nm] = seen.get(nm, 0) + 1
                    R.count("information read")
                    R.ob(f"{what}: {nm} is what the operating system reports for this socket", good, f"{nm} of the information of {what} gives {short(v, 80)}, not {op} of the socket", f, trace_of(p.st))
        R.need(seen, f"the accessors of the information of {what}")
        want = {x for x in INFO if (INFO[x][1] if "local_address" not in seen else not INFO[x][1])}
        R.ob(f"{what}: everything can be read", set(seen) >= want, f"no accessor for {sorted(want - set(seen))}", g)
    R.need(n, "implementations of Transport::info")

def setup(R, d):
    E = engine(R, d)
    def on_event(st, e):
        if e.k == "call" and e.d["path"].split("::")[-1] in ("transport_info", "info") and e["args"]:
            x = deep(E, st, e["args"][0])
            if x[0] == "&": e.d["deref0"] = (e["args"][0], x[1])
    E.on_event = on_event
    return E

def runl(R, E, f, n):
    d = E.dump
    pt = strip_ref(E, f.locals[1])
    st = State()
    me = E.const_sym("listener", pt)
    b = E.newbox(st, me, "T")
    a = d.adts[E.adt_of(pt)]
    i = fidx(a, 0, "config")
    if i is None:
        c = [j for j in range(len(a["variants"][0]["fields"])) if "Config" in tystr(E, E.field_ty(pt, 0, j))]
        R.need(len(c) == 1, "the configuration field of Listener"); i = c[0]
    E.store(st, b, ((0, i),), E.field(st, me, 0, i)) if False else None
    E.config_loc = (b, ((0, i),))
    args = [("ref", b, ())] + [sym_arg(E, st, f, j) for j in range(1, f.argc)]
    return run(E, f, args, st, loops=(n == 2))

# ---- C31 -----------------------------------------------------------------------------------------------------------
DESTROY = ("remove_file", "remove_dir", "remove_dir_all", "unlink", "unlinkat", "rmdir", "rename", "renameat", "renameat2", "hard_link", "set_len", "truncate", "ftruncate")
def destroys(path):
    s = path.split("::")
    return s[-1] in DESTROY and (s[0] in ("std", "tokio", "libc", "nix", "rustix") or "fs" in s)

def c31(R):
    R.rule("All functions of the library are searched for calls that delete or replace files. Each entry point that can reach one is interpreted with an arbitrary address: on every path, a file is removed only after "
           "a look at the same address that does not follow symbolic links said it is a socket, with no other file operation between, and a bind function binds exactly that address.")
    d = dump()
    fns = [f for f in d.fns if f and f.local and "macros::interface_example" not in f.name]
    R.count("functions searched", len(fns))
    holder = set()
    edges = {}
    byname = {}
    for f in fns: byname.setdefault(f.name, []).append(f)
    for f in fns:
        for c in callees(f):
            p = strip_generics(c.get("path") or "")
            if destroys(p) or destroys(strip_generics(c.get("res") or "") if isinstance(c.get("res"), str) else ""): holder.add(f.name)
            for nm in (p, strip_generics(c["res"]) if isinstance(c.get("res"), str) else None):
                if nm in byname and nm != f.name: edges.setdefault(nm, set()).add(f.name)
            if c.get("fn") is not None and d.fns[c["fn"]] is not None: edges.setdefault(d.fns[c["fn"]].name, set()).add(f.name)
        if "::{closure#" in f.name: edges.setdefault(f.name, set()).add(f.name.rsplit("::{closure#", 1)[0])
    R.count("functions that remove files", len(holder))
    reach_, todo = set(), list(holder)
    while todo:
        x = todo.pop()
        if x in reach_: continue
        reach_.add(x); todo += list(edges.get(x, ()))
    binds = {f.name for f in impls(d, "Bind", "bind")}
    entries = [x for x in reach_ if not (edges.get(x, set()) - {x}) or x in binds or any(f.pub for f in byname.get(x, []))]
    entries = [x for x in entries if not (x in binds and False)]
    n = 0
    for x in sorted(entries):
        for f in [g for g in all_roots(d) if g.name == x]:
            if f.kind != "fn": continue
            E = note_addresses(engine(R, d))
            st = State()
            args = [sym_arg(E, st, f, i) for i in range(f.argc)]
            isbind = x in binds
            for o in run(E, f, args, st, loops=True):
                R.count("paths")
                tr = trace_of(o.st)
                ev = list(o.st.ev)
                for i, e in enumerate(ev):
                    if e.k != "fs_remove": continue
                    n += 1
                    R.ob("files are removed, not replaced", e.d.get("op") == "remove_file", f"{e.d.get('op')} is called", f, tr)
                    prev = [y for y in ev[:i] if y.k in ("fs_stat", "fs_remove")]
                    s = prev[-1] if prev else None
                    good = s is not None and s.k == "fs_stat" and E.same_value(o.st, s["path"], e["path"]) and E.variant(o.st, s["ret"]) == 0
                    if not R.ob("the file was looked at before", good, f"a file is removed at {short(e['path'], 60)} without a look at it", f, tr): continue
                    R.ob("symbolic links are not followed", not s["follow"], "what a symbolic link points to is looked at, but the link itself is removed", f, tr)
                    soc = is_sock(E, o.st, s["md"])
                    R.ob("the file is a socket", soc is True, f"a file is removed that {'is not' if soc is False else 'may not be'} a socket", f, tr)
                    if isbind:
                        R.ob("the removed file is at the address", mentions(e["path"], args[0]) or E.same_value(o.st, e["path"], args[0]), f"the file at {short(e['path'], 60)} is removed", f, tr)
                if isbind and o.k == "ret" and any(e.k == "fs_remove" for e in ev):
                    bs = [e for e in ev if e.k == "call" and e.d["path"].split("::")[-1].startswith("bind")]
                    rm = [e for e in ev if e.k == "fs_remove"][-1]
                    addr = lambda b: list(b["args"]) + ([b.d["deref0"][1]] if b.d.get("deref0") else [])
                    ok = len(bs) >= 1 and any(M.pathval(E, o.st, a) == rm["path"] or E.same_value(o.st, M.pathval(E, o.st, a), rm["path"]) for b in bs for a in addr(b))
                    R.ob("the same address is bound", ok, f"the file at {short(rm['path'], 60)} is removed but {[short(a, 40) for b in bs for a in b['args']]} is bound", f, tr)
            for h in list(E.loops):
                for g in h.segs:
                    for e in g.ev:
                        if e.k == "fs_remove": R.fail("files are not removed in a loop", "files are removed in a loop", f, trace_of(g.st))
    if holder: R.need(n > 0, "a path that removes a file")
    R.ob("only bind functions remove files", all(x in binds for x in entries), f"files are removed by {sorted(x for x in entries if x not in binds)}", byname[sorted(x for x in entries if x not in binds)[0]][0] if any(x not in binds for x in entries) else None)

def is_sock(E, st, md):
    """what the path says about file_type(md).is_socket()"""
    for v in (("app", "is_socket", ("app", "file_type", md)),):
        for w in (v,):
            t = E.truth(st, w)
            if t is not None: return t
    return None

RULES = {"C30": c30, "C31": c31}
