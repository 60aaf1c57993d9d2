"""C25, C33, C61: what handles say about themselves, connecting and binding, message bodies."""
from lib import *
from r_peer import *
from r_peer import Facts, Giveup
import r_transport

# ---- C25 -----------------------------------------------------------------------------------------------------------
SENT, RECD = "request::SentRequestHandle", "request::ReceivedRequestHandle"

def own_handle(R, F, st, h, ty, rid, sid, what, where, tr):
    """request_id() and service_id() of a request handle and of the write handles made from it"""
    E = F.E
    def ids(st, h, t, w):
        for acc, want in (("request_id", rid), ("service_id", sid)):
            x = accessor_of(F, st, h, f"{t}::{acc}")
            R.count("accessors of handles")
            R.ob(f"{acc} of a handle is that of its request", x is not None and want is not None and E.same_value(st, x, want), f"{what}: {acc} of the {w} gives {short(x, 60)}, the request has {short(want, 60)}", where, tr)
    ids(st, h, ty, "handle")
    f = find(F.d, ty + "::write_handle")
    R.need(len(f) == 1, f"{ty}::write_handle")
    s = st.copy(); b = E.newbox(s, h, "T")
    rs = call_pure(E, f[0], [("ref", b, ())], s)
    R.ob("write_handle makes a handle", len(rs) >= 1, f"{what}: write_handle does not return", where, tr)
    t = tystr(E, f[0].locals[0]).split("<")[0]
    for v, s2 in rs:
        ids(s2, v, t, "write handle")
        c = [g for g in all_roots(F.d) if g.kind == "fn" and g.impl_trait and g.impl_trait.endswith("clone::Clone") and isinstance(g.impl_self, int) and E.adt_of(g.impl_self) == t]
        for g in c:
            s3 = s2.copy(); b3 = E.newbox(s3, v, "T")
            for v4, s4 in call_pure(E, g, [("ref", b3, ())], s3): ids(s4, v4, t, "clone of the write handle")

def c25(R):
    R.rule("Every handle the command loop makes for a sent or received request is asked for its IDs, directly, through write_handle() and through clones: they are those of the request that was written or received. "
           "Every operation on a write handle queues a message whose request ID is the one the handle reports. The handles made by Peer::new, by splitting and by close_handle all use the command channel of that peer; "
           "same_peer answers exactly whether both handles use the same channel.")
    F = facts(R); E, m = F.E, F.m; d = F.d
    where = m.cmd["fn"]
    n = 0
    for name, ty, V, st, ocs in send_ops(F, (REQ,)):
        tx = reply_tx(E, st, V)[0]
        for o in ocs:
            if o.k not in ("wait", "exit"): continue
            for a in o.ev:
                if a.k != "answer" or a["chan"] != tx or E.variant(o.st, a["value"]) != 0: continue
                ws = writes(o)
                if not ws: continue          # C10: nothing was registered
                n += 1
                own_handle(R, F, o.st, E.field(o.st, a["value"], 0, 0), SENT, hfield(E, o, ws[0].hdr, "request_id"), hfield(E, o, ws[0].hdr, "service_id"), short_name(name), where, path_of(o))
    R.need(n, "handles of sent requests")
    n = 0
    for msg, o, V in F.incoming_msgs():
        if REQ not in in_type(F, o, msg) or o.k not in ("wait", "exit"): continue
        hdr, mt, rid, sid, body = msg_parts(F, o, msg)
        for e in o.ev:
            if e.k != "send" or e["chan"] != m.inc_tx or E.variant(o.st, e["value"]) != 0: continue
            rm = E.field(o.st, e["value"], 0, 0)
            if enum_name(E, o.st, rm) != "Request": continue
            n += 1
            own_handle(R, F, o.st, E.field(o.st, rm, E.variant(o.st, rm), 0), RECD, rid, sid, "incoming request", where, path_of(o))
    R.need(n, "handles of received requests")
    # operations on handles use the ID that the handle reports
    n = 0
    for name, ty, V, st, ocs in send_ops(F):
        if ty == REQ or "request::" not in name: continue
        f, args, outs, sent = F.op(name)
        own = {}
        for s, e in sent:
            x = accessor(F, E, s, args[0], name, "request_id")
            k = E.variant(s, e["value"])
            hdr = payload_header(F, s, e["value"])
            if hdr is None: R.undecided(f"{name}: the queued message is not recognised"); continue
            n += 1
            R.ob("operations use the ID of the handle", x is not None and E.same_value(s, hdr, x), f"{short_name(name)} queues a message with request ID {short(hdr, 60)}, the handle says {short(x, 60)}", f, trace_of(s))
    R.need(n, "operations of request handles")
    # peers
    def txs_of(st, v, t): return {x for x in txs(E, st, v, t)}
    def rxs_of(st, v, t): return {x for x in rxs(E, st, v, t)}
    st0 = m.st0.copy(); b = E.newbox(st0, m.handle, "T")
    split = get(R, d, "peer_handle::PeerHandle::split")
    halves = call_pure(E, split, [m.handle], st0)
    R.need(len(halves) >= 1, "PeerHandle::split")
    def same(st, v, t, what, f, recv=False):
        R.count("handles of a peer")
        R.ob("every handle belongs to its peer", txs_of(st, v, t) == {m.cmd_tx}, f"{what} sends to {[short(x) for x in txs_of(st, v, t)]}", f)
        R.ob("only reading handles receive", rxs_of(st, v, t) == ({m.inc_rx} if recv else set()), f"{what} receives from {[short(x) for x in rxs_of(st, v, t)]}", f)
    def made(st, v, t, what, recv):
        same(st, v, t, what, where, recv)
        a = E.adt_of(t)
        for g in all_roots(d):
            if g.kind != "fn" or g.argc != 1 or not isinstance(g.impl_self, int) or E.adt_of(g.impl_self) != a: continue
            nm = g.name.split("::")[-1]
            if not (nm == "close_handle" or (nm == "clone" and g.impl_trait)): continue
            s = st.copy(); bb = E.newbox(s, v, "T")
            for v2, s2 in call_pure(E, g, [("ref", bb, ())], s): same(s2, v2, g.locals[0], f"{nm} of {what}", g)
    hv = m.handle; ht = hv[1] if hv[0] == "S" else E.tyof(hv)
    made(m.st0, hv, ht, "the peer handle", True)
    for v, s in halves:
        parts = [E.field(s, v, 0, i) for i in (0, 1)]
        for i, p in enumerate(parts):
            t = p[1] if p[0] == "S" else E.field_ty(v[1], 0, i)
            made(s, p, t, "half %d of the split peer handle" % i, E.adt_of(t).endswith("ReadHandle"))
    # same_peer
    f = get(R, d, "peer_handle::PeerWriteHandle::same_peer")
    st = State()
    pt = strip_ref(E, f.locals[1])
    x, y = E.const_sym("handle", pt), E.const_sym("other", pt)
    bx, by = E.newbox(st, x, "T"), E.newbox(st, y, "T")
    chans = {}
    for nm, box, v in (("self", bx, x), ("other", by, y)):
        ls = [(p, val) for p, val, t in leaves(E, st, v, pt) if val[0] == "tx" or is_tx(E, t)]
        R.need(len(ls) == 1, "the channel of a write handle")
        chans[nm] = ls[0][1]
    outs = run(E, f, [("ref", bx, ()), ("ref", by, ())], st, await_it=False)
    k = 0
    for o in outs:
        if o.k == "panic": R.fail("same_peer does not panic", "same_peer can panic", f, trace_of(o.st)); continue
        if o.k != "ret": continue
        k += 1
        good = False
        for x, y in (("self", "other"), ("other", "self")):
            want = E.cmp("eq", chans[x], chans[y])
            r, t = E.truth(o.st, want), E.truth(o.st, o.v)
            good |= E.same_value(o.st, o.v, want) or (r is not None and r == t)
        R.ob("same_peer compares the two channels", good, f"same_peer gives {short(o.v, 80)}", f, trace_of(o.st))
    R.need(k, "outcomes of same_peer")

def payload_header(F, st, cmd):
    """the request ID of the message in a queued command"""
    E = F.E
    k = E.variant(st, cmd)
    if k is None: return None
    c = E.field(st, cmd, k, 0)
    msg = fieldn(E, st, c, "message")
    if msg is None: return None
    return fieldn(E, st, fieldn(E, st, msg, "header"), "request_id")

# ---- C61 -----------------------------------------------------------------------------------------------------------
# operations of the standard library whose result has exactly the bytes (or the descriptors) of their first argument
KEEPS = {"from", "into", "to_vec", "to_owned", "clone", "as_bytes", "into_bytes", "as_ref", "deref", "borrow", "into_boxed_slice", "into_vec", "as_slice", "to_string", "into_string", "from_iter", "as_str", "into_boxed_str",
         "vec_from_box", "box_from", "from_utf8_unchecked", "try_from", "cloned", "copied"}
def content(E, st, v, depth=0):
    """what the bytes of a value are, with copies, conversions and borrows taken away"""
    if depth > 12 or not isinstance(v, tuple): return v
    go = lambda x: content(E, st, x, depth + 1)
    if v[0] == "ref":
        try: return go(E.load(st, v[1], v[2]))
        except Unsupported: return v
    if v[0] == "slice":
        try: base = E.load(st, v[1], v[2])
        except Unsupported: return v
        n = base[1] if base[0] == "bytes" else ("len", base)
        if E.same_value(st, v[3], ("c", 0)) and (E.same_value(st, v[4], n) or v[4] == ("len", base)): return go(base)
        return v
    if v[0] == "bytes":
        if len(v[3]) == 1 and v[3][0][2][0] == "val":          # one piece that covers everything
            off, n, src = v[3][0]
            off = off if isinstance(off, tuple) else ("c", off)
            if E.same_value(st, off, ("c", 0)) and E.same_value(st, n, v[1]) and E.same_value(st, n, ("len", src[1])): return go(src[1])
        if v[3]: return v
        if v[2] == ("lit", ()) or E.same_value(st, v[1], ("c", 0)): return "empty"
        if v[2][0] == "val" and not v[3] and E.same_value(st, v[1], ("len", v[2][1])): return go(v[2][1])
        return v
    if v[0] == "deref": return go(v[1])
    if v[0] == "app" and v[1] in KEEPS: return go(v[2])
    if v[0] == "S" and isinstance(v[1], int) and not v[3]: return "empty"
    if v[0] == "S" and isinstance(v[1], int) and len(v[3]) == 1 and E.adt_of(v[1]) in ("alloc::boxed::Box", "alloc::string::String"): return go(v[3][0])
    for e in st.ev:
        if e.k == "call" and e["ret"] == v:
            nm = e.d["path"].split("::")[-1]
            if nm in KEEPS and e["args"]: return go(e["args"][0])
            if nm == "new" or nm == "default": return "empty" if not e["args"] else v
    return v

def c61(R):
    R.rule("Every conversion into and out of the body types is interpreted with arbitrary contents. The bytes and descriptors of the result are followed through copies, borrows and conversions of the standard library: "
           "they are exactly those of the source, an error text is stored as its own bytes and read back with the strict UTF-8 conversion of the whole body, and an empty body has neither bytes nor descriptors.")
    d = dump()
    done = {}
    for f in all_roots(d):
        if f.kind != "fn" or not isinstance(f.impl_self, int): continue
        E = engine(R, d)
        a = E.adt_of(f.impl_self)
        if a is None or not a.startswith("transport::") or not a.endswith("Body"): continue
        names = [x["name"] if isinstance(x, dict) else x for x in d.adts[a]["variants"][0]["fields"]]
        if "data" not in names: continue
        nm = f.name.split("::")[-1]
        tr_ = (f.impl_trait or "").split("<")[0]
        kind = None
        if nm in ("new", "from") and E.adt_of(f.locals[0]) == a: kind = "make"
        elif tr_.endswith("message::Body"): kind = nm
        elif nm in ("as_ref", "deref", "borrow"): kind = "view"
        elif nm in ("deref_mut", "as_mut", "borrow_mut"): kind = "view"
        elif nm == "clone": kind = "clone"
        elif nm == "into" or nm == "from": kind = "take"
        if kind is None: continue
        st = State()
        args = [sym_arg(E, st, f, i) for i in range(f.argc)]
        what = f"{a.split('::')[-1]}::{nm}" + (f" of {E.ty_name(f.locals[1])}" if kind == "make" and f.argc else "")
        def part(st, v, n):
            return content(E, st, E.field(st, v, 0, names.index(n))) if n in names else None
        me = content(E, st, args[0]) if args else None
        outs = run(E, f, args, st, await_it=False)
        k = 0
        for o in outs:
            tr = trace_of(o.st)
            if o.k == "panic": R.fail("conversions of bodies do not panic", f"{what} can panic", f, tr); continue
            if o.k != "ret": continue
            k += 1
            R.count("paths of conversions")
            C = lambda v: content(E, o.st, v)
            same = lambda x, y: x == y or (isinstance(x, tuple) and isinstance(y, tuple) and E.same_value(o.st, x, y))
            if kind in ("make", "from_error", "empty"):
                src = [C(x) for x in args]
                if kind == "make" and f.argc == 1 and E.ty(f.locals[1])["k"] == "tuple": src = [C(E.field(o.st, args[0], 0, i)) for i in range(len(E.ty(f.locals[1])["ts"]))]
                want = {"data": src[0] if src else "empty", "fds": src[1] if len(src) > 1 else "empty"}
                for n in names:
                    if n not in want: R.undecided(f"{a} has a field {n}"); continue
                    got = part(o.st, o.v, n)
                    R.ob(f"a new body has exactly the given {n}", same(got, want[n]), f"{what} makes a body with {n} {short(got, 80)}, given is {short(want[n], 80)}", f, tr)
            elif kind in ("as_error", "into_error"):
                data = content(E, o.st, field_of_self(E, o.st, f, args[0], names.index("data")))
                us = [e for e in o.st.ev if e.k == "call" and e.d["path"].split("::")[-1] == "from_utf8" and same(C(e["args"][0]), data)]
                good = False
                for e in us:
                    good |= E.same_value(o.st, o.v, e["ret"])
                    kk, kr = E.variant(o.st, o.v), E.variant(o.st, e["ret"])
                    if kk is not None and kk == kr: good |= same(C(E.field(o.st, o.v, kk, 0)), C(E.field(o.st, e["ret"], kr, 0)))
                R.ob("an error text is read back unchanged or not at all", good, f"{what} gives {short(o.v, 80)}, which is not the UTF-8 text of the whole body", f, tr)
            elif kind == "view":
                data = content(E, o.st, field_of_self(E, o.st, f, args[0], names.index("data")))
                R.ob("a view shows the whole body", same(C(o.v), data), f"{what} gives {short(o.v, 80)}", f, tr)
            elif kind == "clone":
                for i, n in enumerate(names):
                    R.ob("a copy has the same content", same(part(o.st, o.v, n), content(E, o.st, field_of_self(E, o.st, f, args[0], i))), f"{what} changes {n}", f, tr)
            elif kind == "take":
                data = content(E, o.st, field_of_self(E, o.st, f, args[0], names.index("data")))
                R.ob("a conversion gives the whole body", same(C(o.v), data), f"{what} gives {short(o.v, 80)}", f, tr)
        R.ob("conversions of bodies return", k > 0, f"{what} has no path that returns", f)
        done.setdefault(a, set()).add(kind)
    R.need(done, "body types")
    for a, ks in done.items():
        R.need(ks >= {"make", "empty", "from_error", "as_error", "into_error"}, f"the conversions of {a}")

def field_of_self(E, st, f, arg, i):
    v = arg
    if E.ty(f.locals[1])["k"] == "ref":
        b, p = E.ptr_loc(st, v)
        v = E.load(st, b, p)
    return E.field(st, v, 0, i)

# ---- C33 -----------------------------------------------------------------------------------------------------------
WAITS = ("await", "recv", "oneshot_recv", "sleep")

def pin_target(E, st, v):
    """the value behind Pin<Box<_>>"""
    while v[0] == "S" and isinstance(v[1], int) and E.adt_of(v[1]) in ("core::pin::Pin", "alloc::boxed::Box") and v[3]: v = v[3][0]
    if v[0] == "ref":
        try: return E.load(st, v[1], v[2])
        except Unsupported: return v
    return v

def resolves(R, E, f, what, o, ops):
    """how an outcome got the result of the one operation: ("ok", value), ("err", error) or None after reporting"""
    tr = trace_of(o.st)
    aw = [e for e in o.st.ev if e.k in WAITS]
    mine = [e for e in aw if e.k == "await" and any(mentions(e["future"], c["ret"]) for c in ops)]
    for e in aw:
        if e not in mine: R.fail(f"{what} waits for nothing else", f"{what} waits for {e.d.get('fty') or e.k}", f, tr)
    if not R.ob(f"{what}: the operation is done once", len(ops) == 1 and len(mine) <= 1, f"{what}: {len(ops)} operations, {len(mine)} awaited", f, tr): return None
    res = mine[0]["ret"] if mine else ops[0]["ret"]
    if not mine and ops[0]["ret"] == pin_target(E, o.st, o.v): return ("same", res)
    k = E.variant(o.st, res)
    if k == 0: return ("ok", E.field(o.st, res, 0, 0))
    if k == 1: return ("err", E.field(o.st, res, 1, 0))
    if E.same_value(o.st, o.v, res): return ("same", res)
    R.fail(f"{what} looks at the result", f"{what} does not look at the result of the operation", f, tr)
    return None

def fails_with(R, E, f, what, o, err):
    tr = trace_of(o.st)
    k = E.variant(o.st, o.v)
    return R.ob(f"{what}: an error is returned", k == 1 and E.same_value(o.st, E.field(o.st, o.v, 1, 0), err), f"{what} returns {short(o.v, 80)} although the operation failed", f, tr)

def flat(E, st, v, out, depth=0):
    if depth > 4: return
    out.append(v)
    if v[0] == "S":
        for x in v[3]: flat(E, st, x, out, depth + 1)
    elif v[0] == "ref":
        try: flat(E, st, E.load(st, v[1], v[2]), out, depth + 1)
        except Unsupported: pass

def holds(E, st, v, x):
    """x, unchanged, is a part of v"""
    out = []
    flat(E, st, v, out)
    return any(E.same_value(st, y, x) for y in out if y[0] != "ref")

def event_addr(E, st, e, x):
    """the address given to a call: what it is now, or what the reference led to at the call"""
    v = e["args"][0]
    d = e.d.get("deref0")
    return same_addr(E, st, v, x) or (d is not None and d[0] == v and same_addr(E, st, d[1], x))

def same_addr(E, st, v, x):
    """the address itself, or a reference to it or to its path"""
    for _ in range(6):
        if E.same_value(st, v, x): return True
        if v[0] == "ref":
            try: v = E.load(st, v[1], v[2])
            except Unsupported: return False
        elif v[0] == "&": v = v[1]
        elif v[0] == "app" and v[1] in ("path", "deref", "as_ref", "borrow"): v = v[2]
        else: return False
    return False

def note_addresses(E):
    """remember what the reference given to connect or bind leads to at the call"""
    old = E.on_event
    def on_event(st, e):
        if old: old(st, e)
        if e.k == "call" and e.d["path"].split("::")[-1].startswith(("connect", "bind")) and e["args"] and e["args"][0][0] == "ref":
            try: e.d["deref0"] = (e["args"][0], E.load(st, e["args"][0][1], e["args"][0][2]))
            except Unsupported: pass
    E.on_event = on_event
    return E

def c33(R):
    R.rule("Every implementation of Connect and Bind, Listener::bind and Peer::connect is interpreted with an arbitrary address and configuration. The operating system (or the transport) is asked exactly once, with the address as given; "
           "nothing else is waited for; its success makes a transport (listener) of that very socket with the configuration as given, its error is returned unchanged. "
           "Peer::connect asks that transport for its information, spawns one peer on that transport and returns the handle of that peer and that information.")
    d = dump()
    n = 0
    for f in impls(d, "util::connect::Connect", "connect"):
        E = note_addresses(engine(R, d)); st = State(); what = "connect of " + (E.ty_name(f.impl_self).split("::")[-1].rstrip(">") if isinstance(f.impl_self, int) else f.name)
        args = [sym_arg(E, st, f, i) for i in range(f.argc)]
        k = 0
        for o in run(E, f, args, st):
            tr = trace_of(o.st)
            if o.k == "panic": R.fail(f"{what} does not panic", f"{what} can panic", f, tr); continue
            if o.k != "ret": continue
            k += 1; n += 1
            R.count("paths of connect")
            ops = [e for e in o.st.ev if e.k == "call" and e.d["path"].split("::")[-1].startswith("connect")]
            for e in ops: R.ob(f"{what} uses the given address", event_addr(E, o.st, e, args[0]), f"{what} connects to {short(e['args'][0], 80)}", f, tr)
            r = resolves(R, E, f, what, o, ops)
            if r is None: continue
            if r[0] == "err": fails_with(R, E, f, what, o, r[1]); continue
            if not R.ob(f"{what} gives a transport", r[0] == "ok" and E.variant(o.st, o.v) == 0, f"{what} returns {short(o.v, 80)} for a connected socket", f, tr): continue
            t = E.field(o.st, o.v, 0, 0)
            R.ob(f"{what}: the transport uses the connected socket", holds(E, o.st, t, r[1]), f"{what}: the transport is {short(t, 80)}", f, tr)
            R.ob(f"{what}: the transport gets the given configuration", holds(E, o.st, t, args[1]), f"{what}: the transport is {short(t, 80)}", f, tr)
        R.need(k, f"paths of {what}")
    R.need(n, "implementations of Connect")
    n = 0
    for f in impls(d, "util::accept::Bind", "bind"):
        E = note_addresses(engine(R, d)); st = State(); what = "bind of " + (E.ty_name(f.impl_self).split("::")[-1] if isinstance(f.impl_self, int) else f.name)
        args = [sym_arg(E, st, f, i) for i in range(f.argc)]
        k = 0
        for o in run(E, f, args, st):
            tr = trace_of(o.st)
            if o.k == "panic": R.fail(f"{what} does not panic", f"{what} can panic", f, tr); continue
            if o.k != "ret": continue
            k += 1; n += 1
            R.count("paths of bind")
            ops = [e for e in o.st.ev if e.k == "call" and e.d["path"].split("::")[-1].startswith("bind")]
            for e in ops: R.ob(f"{what} uses the given address", event_addr(E, o.st, e, args[0]), f"{what} binds {short(e['args'][0], 80)}", f, tr)
            r = resolves(R, E, f, what, o, ops)
            if r is None or r[0] == "same": continue
            if r[0] == "err": fails_with(R, E, f, what, o, r[1]); continue
            R.ob(f"{what} gives the bound socket", E.variant(o.st, o.v) == 0 and E.same_value(o.st, E.field(o.st, o.v, 0, 0), r[1]), f"{what} returns {short(o.v, 80)}", f, tr)
        R.need(k, f"paths of {what}")
    R.need(n, "implementations of Bind")
    # Listener::bind
    f = get(R, d, "listener::Listener::bind")
    E = note_addresses(engine(R, d)); st = State()
    args = [sym_arg(E, st, f, i) for i in range(f.argc)]
    k = 0
    for o in run(E, f, args, st):
        tr = trace_of(o.st)
        if o.k == "panic": R.fail("Listener::bind does not panic", "Listener::bind can panic", f, tr); continue
        if o.k != "ret": continue
        k += 1
        ops = [e for e in o.st.ev if e.k == "call" and e.d["path"].split("::")[-1] == "bind"]
        for e in ops: R.ob("Listener::bind uses the given address", event_addr(E, o.st, e, args[0]), f"Listener::bind binds {short(e['args'][0], 80)}", f, tr)
        r = resolves(R, E, f, "Listener::bind", o, ops)
        if r is None: continue
        if r[0] == "err": fails_with(R, E, f, "Listener::bind", o, r[1]); continue
        if not R.ob("Listener::bind gives a listener", r[0] == "ok" and E.variant(o.st, o.v) == 0, f"Listener::bind returns {short(o.v, 80)}", f, tr): continue
        t = E.field(o.st, o.v, 0, 0)
        R.ob("the listener uses the bound socket", holds(E, o.st, t, r[1]), f"Listener::bind: the listener is {short(t, 80)}", f, tr)
        R.ob("the listener gets the given configuration", holds(E, o.st, t, args[1]), f"Listener::bind: the listener is {short(t, 80)}", f, tr)
    R.need(k, "paths of Listener::bind")
    # Peer::connect
    f = get(R, d, "peer::Peer::connect")
    E = note_addresses(engine(R, d)); st = State()
    args = [sym_arg(E, st, f, i) for i in range(f.argc)]
    def on_event(s, e):
        if e.k == "call": e.d["deref"] = tuple(deep(E, s, a) for a in e.d["args"])
    E.on_event = on_event
    done = 0
    for o in run(E, f, args, st):
        tr = trace_of(o.st)
        if o.k == "panic": R.fail("Peer::connect does not panic", "Peer::connect can panic", f, tr); continue
        if o.k != "ret": continue
        by = lambda nm: [e for e in o.st.ev if e.k == "call" and e.d["path"].split("::")[-1] == nm]
        sp = [e for e in o.st.ev if e.k == "spawn"]
        ops = by("connect")
        for e in ops:
            R.ob("Peer::connect uses the given address", event_addr(E, o.st, e, args[0]), f"Peer::connect connects to {short(e['args'][0], 80)}", f, tr)
            R.ob("Peer::connect uses the given configuration", E.same_value(o.st, e["args"][1], args[1]), f"Peer::connect configures {short(e['args'][1], 80)}", f, tr)
        r = resolves(R, E, f, "Peer::connect", o, ops)
        if r is None: continue
        if r[0] != "ok":
            R.ob("nothing is spawned without a connection", not sp, "Peer::connect spawns a peer without a connection", f, tr)
            if r[0] == "err": fails_with(R, E, f, "Peer::connect", o, r[1])
            continue
        infos = by("info")
        for e in infos: R.ob("the information is that of the connection", e["deref"][0] == ("&", r[1]) or E.same_value(o.st, e["deref"][0][1], r[1]), f"Peer::connect asks {short(e['deref'][0], 80)}", f, tr)
        bad = [e for e in infos if E.variant(o.st, e["ret"]) == 1]
        if bad:
            R.ob("no peer is spawned when connecting fails", not sp, "Peer::connect spawns a peer and returns an error", f, tr)
            fails_with(R, E, f, "Peer::connect", o, E.field(o.st, bad[0]["ret"], 1, 0)); continue
        if not R.ob("Peer::connect gives a peer", E.variant(o.st, o.v) == 0, f"Peer::connect returns {short(o.v, 80)} for a connected transport", f, tr): continue
        done += 1
        R.ob("one peer is spawned per connection", len(sp) == 1, f"Peer::connect spawns {len(sp)} tasks", f, tr)
        pair = E.field(o.st, o.v, 0, 0)
        h, info = E.field(o.st, pair, 0, 0), E.field(o.st, pair, 0, 1)
        R.ob("the information returned is that of the connection", any(E.variant(o.st, e["ret"]) == 0 and E.same_value(o.st, info, E.field(o.st, e["ret"], 0, 0)) for e in infos), f"Peer::connect returns {short(info, 80)}", f, tr)
        for e in sp:
            R.ob("the peer runs on the connection", holds(E, o.st, e["future"], r[1]) or mentions(deep(E, o.st, e["future"]), r[1]), "Peer::connect: the spawned peer does not own the connection", f, tr)
            R.ob("the handle is that of the peer", ends(E, o.st, h, "tx") <= ends(E, o.st, e["future"], "rx") and ends(E, o.st, h, "rx") <= ends(E, o.st, e["future"], "tx") and bool(ends(E, o.st, h, "tx")) and bool(ends(E, o.st, h, "rx")),
                 "Peer::connect returns a handle that is not connected to the spawned peer", f, tr)
    R.need(done, "successful paths of Peer::connect")

def ends(E, st, v, kind):
    out = set()
    def go(v):
        if not isinstance(v, tuple): return
        if v and v[0] in ("tx", "rx"):
            if v[0] == kind: out.add(v[1:])
            return
        for x in v: go(x)
    go(deep(E, st, v))
    return out

# ---- C62: what errors print ----------------------------------------------------------------------------------------
DISPLAY, DEBUG = "core::fmt::Display", "core::fmt::Debug"

def fmt_impl(E, tid, trait):
    a = E.adt_of(tid) if isinstance(tid, int) else None
    if a is None: return None
    for f in all_roots(E.dump):
        if f.kind == "fn" and f.impl_trait == trait and f.name.split("::")[-1] == "fmt" and isinstance(f.impl_self, int) and E.adt_of(f.impl_self) == a: return f
    return None

def plain(v):
    while isinstance(v, tuple) and v and v[0] == "&": v = v[1]
    return v

def type_of(E, v):
    return v[1] if v[0] == "S" and isinstance(v[1], int) else v[2] if v[0] == "lz" and isinstance(v[2], int) else E.tyof(v)

def printed(E, st, v, trait, depth=0):
    """what formatting a value prints: [(state, printed values, literal texts)], or None if there is no local implementation"""
    f = fmt_impl(E, type_of(E, v), trait)
    if f is None or depth > 4: return None
    s = st.copy(); b = E.newbox(s, v, "T")
    n0 = len(list(s.ev))
    res = []
    for o in run(E, f, [("ref", b, ()), E.const_sym("formatter", f.locals[2])], s, await_it=False):
        if o.k != "ret": res.append((o.st, None, None)); continue
        vals, lits = [], []
        evs = list(o.st.ev)[n0:]
        if E.variant(o.st, o.v) == 1 and any(e.k == "call" and (e.d.get("path") or "").startswith("core::fmt") and E.variant(o.st, e["ret"]) == 1 for e in evs): continue      # the formatter failed
        used = set()
        for e in evs:
            if e.k != "call": continue
            nm = (e.d.get("path") or "").split("::")[-1]
            if nm == "write_fmt":
                for a in evs:
                    if a.k == "call" and E.same_value(o.st, a["ret"], e["args"][1]) and a.d.get("deref"):
                        lits += [x for x in a.d["deref"] if x[0] in ("k", "str")]
                        for g in evs:
                            if g.k == "call" and g.d["path"].split("::")[-1].startswith("new_") and mentions(a.d["deref"], g["ret"]): vals.append((plain(g.d["deref"][0]), g.d["path"].split("::")[-1]))
            elif nm in ("write_str", "pad", "debug_tuple", "debug_struct") or nm.startswith("debug_"):
                for x in e.d["deref"][1:]:
                    (lits if plain(x)[0] == "str" else vals).append(plain(x) if plain(x)[0] == "str" else (plain(x), "new_debug"))
            elif nm in ("field", "entry") and e.d["path"].startswith("core::fmt"):
                for x in e.d["deref"][1:]:
                    (lits if plain(x)[0] == "str" else vals).append(plain(x) if plain(x)[0] == "str" else (plain(x), "new_debug"))
            elif nm == "fmt" and len(e["args"]) == 2:
                vals.append((plain(e.d["deref"][0]), "new_debug" if "Debug" in e.d["path"] or "Debug" in (e.d.get("trait") or "") else "new_display"))
        res.append((o.st, vals, lits))
    # print the parts that have their own local implementation
    out = []
    for st2, vals, lits in res:
        if vals is None: out.append((st2, None, None)); continue
        todo = [(st2, [], list(lits))]
        for x, how in vals:
            nxt = []
            for s3, acc, ls in todo:
                x2 = source(E, s3, x)
                sub = printed(E, s3, x2, DEBUG if how == "new_debug" else DISPLAY, depth + 1) if x2[0] in ("S", "lz", "s", "fld", "deref", "upd") else None
                if sub is None or x2 == v: nxt.append((s3, acc + [x2], ls))
                else: nxt += [(s4, None if w is None else acc + [x2] + w, ls + (l or [])) for s4, w, l in sub]
            todo = [t for t in nxt if t[1] is not None]
            out += [(t[0], None, None) for t in nxt if t[1] is None]
        out += todo
    return out

def source(E, st, v):
    """through conversions that keep the text"""
    for _ in range(4):
        v = plain(v)
        hit = None
        for e in st.ev:
            if e.k == "call" and e["ret"] == v and e["args"] and e.d["path"].split("::")[-1] in KEEPS: hit = e
        if hit is None: return v
        v = plain(hit.d["deref"][0])
    return v

def says(E, st, v, tid, F, out, label):
    """the parts of an error that its text must contain"""
    t = E.ty(tid)
    a = E.adt_of(tid)
    if t["k"] == "ref":
        b, p = E.ptr_loc(st, v); return says(E, st, E.load(st, b, p), t["t"], F, out, label)
    if a is None:
        if t["k"] in ("int", "uint", "prim") or E.intlike(v) or t["s"] in ("usize", "u32", "i32", "u64", "u8", "u16", "i64"): out.append((label, v, False))
        return
    nm = a.split("::")[-1]
    if a not in E.dump.adts or not E.dump.adts[a]["local"]:
        if nm in ("String", "Box", "Error", "Arc"): out.append((label, v, False))
        return
    ad = E.dump.adts[a]
    if nm == "MessageType": out.append((label, v, True)); return
    if nm == "Message": return says(E, st, fieldn(E, st, v, "header"), E.field_ty(tid, 0, fidx(ad, 0, "header")), F, out, label)
    if nm == "MessageHeader": out.append((label + ".service_id", fieldn(E, st, v, "service_id"), False)); return
    if nm.endswith("RequestHandle"):
        g = find(E.dump, a + "::service_id")
        s = st.copy(); b = E.newbox(s, v, "T")
        r = call_pure(E, g[0], [("ref", b, ())], s) if len(g) == 1 else []
        out.append((label + ".service_id()", r[0][0] if len(r) == 1 else None, False)); return
    k = E.variant(st, v)
    if k is None:
        if len(ad["variants"]) > 1: return
        k = 0
    for i, f in enumerate(ad["variants"][k]["fields"]):
        fn = f["name"] if isinstance(f, dict) else f
        ft = E.field_ty(tid, k, i)
        if E.ty(ft)["s"] == "bool": continue
        says(E, st, E.field(st, v, k, i), ft, F, out, f"{label}.{fn}")

def check_text(R, E, st, v, tid, what, where, extra=()):
    """the text of an error contains all its parts"""
    ps = printed(E, st, v, DISPLAY)
    if ps is None: R.fail(f"{what} can be displayed", f"{what} has no Display implementation", where, []); return []
    n = 0; lits = set()
    for s2, vals, ls in ps:
        tr = trace_of(s2)
        if vals is None: R.fail(f"printing {what} does not panic", f"printing {what} can panic", where, tr); continue
        n += 1
        need = []
        says(E, s2, v, tid, None, need, what)
        need += [(f"argument {i} of {what}", x, False) for i, x in enumerate(extra)]
        R.count("texts of errors")
        for label, x, enum in need:
            ok = x is not None and any(E.same_value(s2, y, x) for y in vals)
            if enum: ok |= E.variant(s2, x) is not None
            R.ob(f"the text of {what} contains {label.split('.')[-1]}", ok, f"the text of {what} prints {[short(y, 50) for y in vals]}, not {label}", where, tr)
        R.ob(f"{what} has a text", bool(vals) or any(len(str(l[1])) > 2 for l in ls), f"{what} prints nothing", where, tr)
        lits.add(tuple(str(l[1]) for l in ls))
    R.ob(f"{what} can be printed", n > 0, f"printing {what} never ends", where)
    return lits

def c62(R):
    R.rule("Display of every variant of every error type is interpreted down to the values that reach the formatter: the service IDs, numbers, inner errors and texts the error holds are all among them, for the errors made by every public constructor too; "
           "different variants of one error type that hold the same kind of data are told apart by their fixed text. Debug of every error variant names that variant and prints every field that can be printed.")
    d = dump()
    def new_engine():
        E = engine(R, d)
        def on_event(s, e):
            if e.k == "call": e.d["deref"] = tuple(deep(E, s, a) for a in e.d["args"])
        E.on_event = on_event
        return E
    errs = []
    for f in all_roots(d):
        if f.kind == "fn" and f.impl_trait == DISPLAY and isinstance(f.impl_self, int):
            a = Engine(d).adt_of(f.impl_self)
            if a and d.adts[a]["local"] and a.split("::")[-1].endswith("Error") and not a.startswith("macros::"): errs.append((a, f))
    R.need(len(errs) >= 4, "the error types")
    for a, f in errs:
        lits = {}
        for k, vr in enumerate(d.adts[a]["variants"]):
            E = new_engine(); st = State()
            v = E.const_sym("error", f.impl_self)
            if len(d.adts[a]["variants"]) > 1: E.set_variant(st, v, k)
            nm = a.split("::")[-1] + ("::" + vr["name"] if len(d.adts[a]["variants"]) > 1 else "")
            R.count("error variants")
            lits[vr["name"]] = check_text(R, E, st, v, f.impl_self, nm, f)
            g = fmt_impl(E, f.impl_self, DEBUG)
            if g is None: R.fail(f"{nm} can be debugged", f"{nm} has no Debug implementation", f, []); continue
            for s2, vals, ls in debug_of(E, st, v, g):
                if vals is None: R.fail(f"printing {nm} does not panic", f"debug-printing {nm} can panic", g, trace_of(s2)); continue
                want = vr["name"] if len(d.adts[a]["variants"]) > 1 else a.split("::")[-1]
                words = " ".join(str(l[1]) for l in ls).replace(",", " ").split()
                R.ob(f"Debug of {nm} names it", want in words, f"Debug of {nm} prints {words}", g, trace_of(s2))
                for i, fl in enumerate(vr["fields"]):
                    ft = E.field_ty(f.impl_self, k, i)
                    if E.ty(ft)["k"] == "param" or E.ty(ft)["s"] == "Body": continue      # not required to be printable
                    x = E.field(s2, v, k, i)
                    R.ob(f"Debug of {nm} prints its fields", any(E.same_value(s2, y, x) for y in vals), f"Debug of {nm} prints {[short(y, 50) for y in vals]}, not field {i}", g, trace_of(s2))
        def fixed(x): return {t for t in lits[x] or () if t}
        for i, x in enumerate(lits):
            for y in list(lits)[:i]:
                pure = all("".join(t).strip('b"').replace("\\xc0", "").replace("\\x00", "") == "" for z in (x, y) for t in fixed(z))
                R.ob(f"the variants of {a.split('::')[-1]} have different texts", pure or not (fixed(x) & fixed(y)), f"{a}::{x} and {a}::{y} print the same text", f)
    # errors made by the public constructors
    n = 0
    ea = R.need(adt(d, "error::Error"), "type Error")
    for f in all_roots(d):
        if f.kind != "fn" or f.impl_trait or not isinstance(f.impl_self, int) or not f.name.startswith("error::Error::"): continue
        E = new_engine()
        if E.adt_of(f.locals[0]) != "error::Error" or not f.argc or E.adt_of(f.locals[1]) == "error::Error": continue
        st = State(); args = [sym_arg(E, st, f, i) for i in range(f.argc)]
        k = 0
        for o in run(E, f, args, st, await_it=False):
            if o.k != "ret": R.fail("constructors of errors do not panic", f"{f.name} can panic", f, trace_of(o.st)); continue
            k += 1
            check_text(R, E, o.st, o.v, f.locals[0], f"the error made by {short_name(f.name)}", f, args)
        R.ob("constructors of errors return", k > 0, f"{f.name} does not return", f)
        n += 1
        R.count("constructors of errors")
    R.need(n >= 5, "the constructors of Error")

def debug_of(E, st, v, f):
    """Debug of this value itself, without the parts"""
    s = st.copy(); b = E.newbox(s, v, "T")
    for o in run(E, f, [("ref", b, ()), E.const_sym("formatter", f.locals[2])], s, await_it=False):
        if o.k != "ret": yield o.st, None, None; continue
        vals, lits = [], []
        for e in o.st.ev:
            if e.k != "call" or not (e.d.get("path") or "").startswith("core::fmt"): continue
            for x in e.d["deref"]:
                x = plain(x)
                if x[0] in ("str", "k"): lits.append(x)
                elif x[0] == "S" and isinstance(x[1], int) and E.ty(x[1])["k"] in ("array", "slice", "tuple"): vals += [plain(y) for y in x[3]]
                else: vals.append(x)
        yield o.st, vals, lits

RULES = {"C25": guarded(c25), "C33": guarded(c33), "C61": guarded(c61), "C62": guarded(c62)}
