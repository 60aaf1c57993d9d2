"""C14, C23, C24, C70, C09: receiving handles, waiting, and the end of the peer."""
from lib import *
from r_peer import *
from r_peer import Facts, Giveup
import r_transport

# ---- C14 -----------------------------------------------------------------------------------------------------------
RECV = [ # receive operation, kind of items
    ("request::SentRequestHandle::recv_update", "update"), ("request::SentRequestHandle::recv_response", "response"),
    ("request::ReceivedRequestHandle::recv_update", "any"),
    ("peer_handle::PeerReadHandle::recv_message", "item"), ("peer_handle::PeerHandle::recv_message", "item"),
]

LISTS = ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque")

def messages_in(E, st, v, tid, name, depth=0, out=None):
    """the values of a type (ADT) a value owns, in order"""
    if out is None: out = []
    if depth > 9 or not isinstance(v, tuple): return out
    if v[0] == "S" and isinstance(v[1], int): tid = v[1]
    t = E.ty(tid) if isinstance(tid, int) else None
    if t is None or t["k"] == "ref" or v == MOVED: return out
    if t["k"] == "tuple":
        for i, x in enumerate(t["ts"]): messages_in(E, st, E.field(st, v, 0, i), x, name, depth + 1, out)
        return out
    a = E.adt_of(tid)
    if a == name:
        out.append(v); return out
    if a is None or a not in E.dump.adts: return out
    if a in LISTS and v[0] == "S":
        for x in v[3]: messages_in(E, st, x, E.ty(tid)["args"][0], name, depth + 1, out)
        return out
    if not (E.dump.adts[a]["local"] or a in ("core::option::Option", "core::result::Result")): return out
    ks = E.possible_variants(st, v)
    vs = E.dump.adts[a]["variants"]
    if ks is None: ks = list(range(len(vs)))
    for k in ks:
        for i in range(len(vs[k]["fields"])):
            messages_in(E, st, E.field(st, v, k, i), E.field_ty(tid, k, i), name, depth + 1, out)
    return out

def c14(R):
    R.rule("Every receive function is interpreted with an arbitrary handle and an arbitrary item in its channel. On every path the messages held before plus those taken from the channel are exactly the "
           "ones returned plus the ones held afterwards, oldest first, unaltered, and at every point where the function can be suspended or cancelled all of them are held by the handle; what is returned "
           "has the kind the function is for, an end is reported exactly after the end of the channel or a close, and the channel is not closed earlier. Before that, every result of a read is queued for the command loop once and unaltered, and every path "
           "of the command loop through a message for which there is a receiver passes it on exactly once.")
    d = dump()
    MSG = "message::Message"
    n = 0
    for name, kind in RECV:
        f = get(R, d, name)
        E = engine(R, d)
        pt = strip_ref(E, f.locals[1])
        if not isinstance(pt, int): R.undecided(f"{name}: unknown receiver"); continue
        what = short_name(name)
        st = State()
        h0 = E.const_sym("handle", pt)
        b = E.newbox(st, h0, "T")
        # the held messages before: one path per possibility
        lists = False
        sts = [st]
        for p, x, t in leaves_opt(E, st, h0, pt, MSG):
            nx = []
            for s in sts:
                for k in range(max(2, len(E.dump.adts[E.adt_of(t)]["variants"]) if E.adt_of(t) not in LISTS else 2)):
                    s2 = s.copy()
                    if E.adt_of(t) in LISTS: # at most one message is held, before and (checked below) after
                        lists = True
                        E.store(s2, b, tuple((0, i) for i in p), ("S", t, 0, (E.const_sym("held" + "_".join(map(str, p)), E.ty(t)["args"][0]),) if k else ()))
                        nx.append(s2)
                    elif E.set_variant(s2, x, k): nx.append(s2)
            sts = nx
        snaps = []
        def on_event(s, e):
            if e.k in ("await", "recv", "oneshot_recv"): snaps.append((s.copy(), e))
        E.on_event = on_event
        for s0 in sts:
            held0 = messages_in(E, s0, E.load(s0, b, ()), pt, MSG)
            snaps.clear()
            arg = ("ref", b, ())
            for o in run(E, f, [arg], s0.copy()):
                if o.k == "panic":
                    R.fail(f"{what} does not panic", f"{what} can panic: {short(o.v, 80) if o.v else ''}", f, trace_of(o.st)); continue
                if o.k != "ret": continue
                n += 1
                R.count("receive paths")
                tr = trace_of(o.st)
                for e in o.st.ev:
                    if e.k in ("await", "oneshot_recv"):
                        R.fail(f"{what} waits only for its channel", f"{what} also waits for {e.d.get('fty')}", f, tr)
                    if e.k == "loop" and any(g.k == "back" and any(x.k == "recv" for x in g.ev) for g in e["info"].segs):
                        check_loop(R, E, e, f, what)
                got, ends, items = [], [], []
                for e in o.st.ev:
                    if e.k != "recv": continue
                    ks = E.possible_variants(o.st, e["ret"])
                    if ks == [0]: ends.append("end"); continue
                    if ks != [1]:
                        R.fail(f"{what} looks at what it received", f"{what} returns without looking at whether the channel has ended", f, tr); continue
                    it = E.field(o.st, e["ret"], 1, 0)
                    items.append(it)
                    ms = messages_in(E, o.st, it, E.tyof(it), MSG) if kind != "item" else []
                    if kind == "item": continue
                    ik = enum_names(E, o.st, it)
                    if ms and ik and len(ik) == 1: got += ms
                    elif not ms: ends.append("close")
                    else: R.fail(f"{what} looks at what it received", f"{what} does not distinguish a message from a close", f, tr)
                v = o.v
                rty = f.locals[0]
                if kind == "item":
                    check_item(R, E, d, f, o, what, items, ends, v, tr); continue
                held1 = messages_in(E, o.st, E.load(o.st, b, ()), pt, MSG)
                back = messages_in(E, o.st, v, E.tyof(v), MSG)
                before = held0 + got
                after = back + held1
                same = len(before) == len(after) and all(E.same_value(o.st, x, y) for x, y in zip(before, after))
                R.ob(f"{what}: no message is lost, duplicated, altered or reordered", same,
                     f"{what}: of the messages {[short(x, 40) for x in before]} it returns {[short(x, 40) for x in back]} and keeps {[short(x, 40) for x in held1]}", f, tr)
                if lists: R.ob(f"{what}: at most one message is held", len(held1) <= 1, f"{what} keeps {len(held1)} messages", f, tr)
                k = E.variant(o.st, v)
                some = {"update": 1, "any": 1, "response": 0}[kind]
                R.ob(f"{what}: at most one message", len(back) <= 1, f"{what} returns {len(back)} messages", f, tr)
                if back:
                    R.ob(f"{what}: a message is returned as a success", k == some, f"{what} returns a message as a failure", f, tr)
                    mt = enum_names(E, o.st, fieldn(E, o.st, fieldn(E, o.st, back[0], "header"), "message_type"))
                    want = {"update": [RSU], "response": [RESP]}.get(kind)
                    if want: R.ob(f"{what}: returns only its kind", mt == want, f"{what} returns a message of type {mt}", f, tr)
                elif held1:
                    mt = enum_names(E, o.st, fieldn(E, o.st, fieldn(E, o.st, held1[0], "header"), "message_type")) or []
                    own = {"update": RSU, "response": RESP}.get(kind)
                    R.ob(f"{what}: does not keep back a message of its kind", own is not None and own not in mt, f"{what} keeps a message of type {mt} instead of returning it", f, tr)
                    if kind == "response": R.ob(f"{what}: another kind is an error", k == 1 and unexpected(E, d, o.st, v), f"{what} gives {short(v, 60)} for a message of another kind", f, tr)
                else:
                    R.ob(f"{what}: reports an end only after an end", bool(ends), f"{what} reports the end although nothing ended", f, tr)
                    if kind == "response": R.ob(f"{what}: the end is an error", k == 1 and aborted(E, d, o.st, E.field(o.st, v, 1, 0)) is True, f"{what} gives {short(v, 60)} at the end", f, tr)
                    else: R.ob(f"{what}: the end is None", k == 0, f"{what} gives {short(v, 60)} at the end", f, tr)
                early = [e for e in o.st.ev if e.k == "rx_close"]
                final = bool(ends) or any((enum_names(E, o.st, fieldn(E, o.st, fieldn(E, o.st, x, "header"), "message_type")) or []) == [RESP] for x in before)
                R.ob(f"{what}: the channel is closed only after the response or a close", not early or final, f"{what} closes the channel while more messages can come", f, tr)
                if ends and ends[-1] == "end": pass
            # cancellation
            for s, e in snaps:
                R.count("suspension points")
                if kind == "item": continue
                got = []
                for x in s.ev[:-1]:
                    if x.k == "recv" and E.possible_variants(s, x["ret"]) == [1]:
                        it = E.field(s, x["ret"], 1, 0)
                        ik = enum_names(E, s, it)
                        ms = messages_in(E, s, it, E.tyof(it), MSG)
                        if ik and len(ik) == 1: got += ms
                held = messages_in(E, s, E.load(s, b, ()), pt, MSG)
                ok = all(any(E.same_value(s, x, y) for y in held) for x in held0 + got)
                R.ob(f"{what}: nothing is lost if the call is cancelled", ok, f"{what} waits while it holds a message only in a local variable: dropping the call loses it", f, trace_of(s))
    R.need(n, "receive functions")
    delivery(R)

def delivery(R):
    """between the transport and the channels: every received message is passed on once"""
    F = facts(R); E, m = F.E, F.m
    where, rw = m.cmd["fn"], m.read["fn"]
    Ms, Mr = sent_map(F), received_map(F)
    for msg, o, V in F.incoming_msgs():
        if o.k not in ("wait", "exit"): continue
        hdr, mt, rid, sid, body = msg_parts(F, o, msg)
        for t in in_type(F, o, msg):
            R.count("delivery paths")
            given = [e for e in o.ev if e.k == "send" and not E_command(F, e) and not (e["chan"] == m.inc_tx and E.variant(o.st, e["value"]) == 1) and (mentions(deep(E, o.st, e["value"]), msg) or mentions(deep(E, o.st, e["value"]), body))]
            R.ob(f"{t}: at most one delivery", len(given) <= 1, f"an incoming {t} is delivered {len(given)} times", where, path_of(o))
            if t == STREAM: must = True
            elif t == REQ: must = init_presence(o, Mr, rid, E) is not True
            else: must = init_presence(o, Mr if t == RQU else Ms, rid, E) is True
            if must: R.ob(f"{t}: is passed on", len(given) >= 1, f"an incoming {t} for which there is a receiver is not passed on to it", where, path_of(o))
    for o in F.read_laps():
        if o.k not in ("wait", "exit"): continue
        res = F.read_result(o)
        if res is None or E.variant(o.st, res) == 1: continue
        R.count("read paths")
        ss = [e for e in o.ev if e.k == "send" and E_command(F, e)]
        good = len(ss) == 1 and not nested_effects(o, ("send",)) and mentions(deep(E, o.st, ss[0]["value"]), E.field(o.st, res, 0, 0) if E.variant(o.st, res) == 0 else res)
        R.ob("every message read is passed to the command loop once, unaltered", good, f"a message that was read leads to {len(ss)} queued commands", rw, path_of(o))

def leaves_opt(E, st, v, tid, name):
    """Option fields of a handle that hold a message"""
    res = []
    def go(v, tid, path, depth):
        if depth > 6: return
        a = E.adt_of(tid) if isinstance(tid, int) else None
        if a is None or a not in E.dump.adts: return
        if a == "core::option::Option":
            if E.adt_of(E.field_ty(tid, 1, 0)) == name: res.append((path, v, tid))
            return
        if a in LISTS:
            if E.adt_of(E.ty(tid)["args"][0]) == name: res.append((path, v, tid))
            return
        if not E.dump.adts[a]["local"]: return
        vs = E.dump.adts[a]["variants"]
        if len(vs) != 1:
            if any(E.adt_of(E.field_ty(tid, k, i)) == name for k in range(len(vs)) for i in range(len(vs[k]["fields"]))): res.append((path, v, tid))
            return
        for i in range(len(E.dump.adts[a]["variants"][0]["fields"])):
            go(E.field(st, v, 0, i), E.field_ty(tid, 0, i), path + (i,), depth + 1)
    go(v, tid, (), 0)
    return res

def check_loop(R, E, ev, f, what):
    for g in ev["info"].segs:
        if g.k != "back": continue
        for x in g.ev:
            if x.k == "recv":
                it = E.field(g.st, x["ret"], 1, 0) if E.possible_variants(g.st, x["ret"]) == [1] else None
                ms = messages_in(E, g.st, it, E.tyof(it), "message::Message") if it is not None else []
                R.ob(f"{what}: no message is skipped", not ms, f"{what} skips a message and waits for the next one", f, trace_of(g.st))

def call_acc(E, d, suffix, st, v):
    f = find(d, suffix)
    if len(f) != 1: return None
    s = st.copy(); b = E.newbox(s, v, "T")
    r = set()
    for x, s2 in call_pure(E, f[0], [("ref", b, ())], s): r |= truths(E, s2, x)
    return r.pop() if len(r) == 1 else None
def aborted(E, d, st, err): return call_acc(E, d, "error::Error::is_connection_aborted", st, err)
def unexpected(E, d, st, v): return call_acc(E, d, "error::Error::is_unexpected_message_type", st, E.field(st, v, 1, 0)) is True

def check_item(R, E, d, f, o, what, items, ends, v, tr):
    if items:
        R.ob(f"{what}: one item per call", len(items) == 1, f"{what} takes {len(items)} items", f, tr)
        R.ob(f"{what}: the item is returned as it is", E.same_value(o.st, v, items[0]) or mentions_same(E, o.st, v, items[0]), f"{what} returns {short(v, 60)} for {short(items[0], 60)}", f, tr)
    else:
        k = E.variant(o.st, v)
        R.ob(f"{what}: the end is an error", k == 1 and bool(ends) and aborted(E, d, o.st, E.field(o.st, v, 1, 0)) is True, f"{what} gives {short(v, 60)} at the end", f, tr)
    R.ob(f"{what}: the channel stays open", not [e for e in o.st.ev if e.k == "rx_close"], f"{what} closes the channel", f, tr)

def mentions_same(E, st, v, x):
    """equal after both are split into variants"""
    kv, kx = E.variant(st, v), E.variant(st, x)
    if kv is None or kv != kx: return False
    return E.same_value(st, E.field(st, v, kv, 0), E.field(st, x, kx, 0))

# ---- C23 -----------------------------------------------------------------------------------------------------------
BLOCKING = ("lock", "read_lock", "write_lock", "sleep", "sleep_ms", "park", "park_timeout", "join", "wait", "wait_timeout", "wait_while", "acquire", "block_on", "blocking_send", "blocking_recv",
            "blocking_lock", "recv_timeout", "block_in_place", "spin_loop", "yield_now")
def blocking(path):
    n = path.split("::")
    return n[-1] in BLOCKING or n[-1].startswith("blocking_") or (len(n) > 1 and n[0] == "std" and n[1] in ("fs", "net", "process"))

def from_call(E, st, fut, tail):
    """the future comes from a method of the transport"""
    for e in st.ev:
        if e.k == "call" and (e.d.get("trait") or "").endswith(tail) and mentions(fut, e["ret"]): return True
    return False

def c23(R):
    R.rule("All suspension points reachable in the read loop and in the command loop are enumerated by interpreting both from their loop invariants: the read loop may only wait for a transport read, the "
           "command loop only for the next command or a transport write. Every channel created by the peer, by its loops or by a public operation is unbounded, and no function known to block is called.")
    F = facts(R); E, m = F.E, F.m
    for loop, tail in ((m.read, "TransportReadHalf"), (m.cmd, "TransportWriteHalf")):
        fn = loop["fn"]; what = "read loop" if loop is m.read else "command loop"
        k = {"transport": 0, "command": 0}
        for st, e in loop["waits"]:
            if e.k == "await":
                ok = from_call(E, st, e["future"], tail)
                k["transport"] += ok
                R.ob(f"the {what} waits only for the transport", ok, f"the {what} waits for {e.d.get('fty')} in {e.site[0]}", fn, trace_of(st))
            elif e.k in ("recv", "oneshot_recv"):
                ok = loop is m.cmd and e["chan"] == m.cmd_rx
                k["command"] += ok
                R.ob(f"the {what} waits for no other channel", ok, f"the {what} waits for a message of {short(e['chan'], 60)} in {e.site[0]}", fn, trace_of(st))
            elif e.k == "call":
                R.ob(f"the {what} calls nothing that blocks", not blocking(e.d.get("path") or ""), f"the {what} calls {e.d.get('path')} in {e.site[0]}", fn, trace_of(st))
            elif e.k == "channel":
                R.ob("queues are unbounded", e.d.get("bound") is None, f"a bounded queue is created in {e.site[0]}", fn, trace_of(st))
        R.need(k["transport"], f"the transport calls of the {what}")
        if loop is m.cmd: R.need(k["command"], "the receive of the command loop")
        R.count("suspension points", sum(k.values()))
    for e in m.new_ev:
        if e.k == "channel": R.ob("queues are unbounded", e.d.get("bound") is None, f"a bounded queue is created in {e.site[0]}", m.runf)
    for st, e in m.run_awaits:
        fs = []
        reach(E, st, e["future"], lambda v: fs.append(v) if v[0] == "S" and isinstance(v[1], int) and E.ty(v[1])["k"] == "coroutine" else None)
        ok = any(E.ty(v[1]).get("fn") is not None for v in fs) or from_call(E, st, e["future"], "TransportReadHalf") or from_call(E, st, e["future"], "TransportWriteHalf")
        R.ob("Peer::run waits only for its loops", ok, f"Peer::run waits for {e.d.get('fty')}", m.runf, trace_of(st))

# ---- C24 -----------------------------------------------------------------------------------------------------------
LEAKS = ("forget", "leak", "into_raw", "new_cyclic")
def c24(R):
    R.rule("The values of both ends of every channel are followed through Peer::new, the command loop and all public operations: the sending ends of the channels that handles receive from, and the receiving "
           "end of the command channel, are never part of a handle or of anything sent to one, and Peer::run consumes the peer and leaks nothing, so that all of them end with it. On every path of a public "
           "operation where a channel has ended the result is a connection-aborted error (for update receivers: None).")
    F = facts(R); E, m = F.E, F.m; d = F.d
    t = E.ty(m.runf.locals[1])
    R.ob("Peer::run consumes the peer", t["k"] == "adt", "Peer::run does not take the peer by value", m.runf)
    def owned(st, v):
        got = set()
        reach(E, st, v, lambda x: got.add(x) if x[0] in ("tx", "rx") else None)
        return got
    h = owned(m.st0, m.handle)
    R.ob("the peer handle does not keep its own channel open", m.inc_tx not in h, "the handle owns the sender of the channel it receives from", m.runf)
    R.ob("the command receiver stays with the peer", m.cmd_rx not in h, "the handle owns the receiver of the command channel", m.runf)
    p = owned(m.st0, m.peer)
    R.ob("the peer owns the sender of incoming messages", m.inc_tx in p, "the peer does not own the sender of the channel of incoming messages", m.runf)
    R.ob("the peer owns the command receiver", m.cmd_rx in p, "the peer does not own the command receiver", m.runf)
    where = m.cmd["fn"]
    n = 0
    for what, o in list(life_outcomes(F)) + [("read loop", o) for o in F.read_laps()]:
        if o.k not in ("wait", "exit"): continue
        made = {e["chan"] if "chan" in e.d else None for e in o.ev if e.k == "channel"}
        ins = [e for e in o.ev if e.k == "map_insert"]
        for e in o.ev:
            if e.k in ("send", "answer"):
                n += 1
                ow = owned(o.st, e["value"])
                if e["chan"] != m.cmd_tx:
                    R.ob("no handle gets the sender of incoming messages", m.inc_tx not in ow, f"{what}: the sender of the peer's incoming messages is given away", where, path_of(o))
                    R.ob("no handle gets the command receiver", m.cmd_rx not in ow, f"{what}: the command receiver is given away", where, path_of(o))
                    own = [x for x in ow if x[0] == "rx" and x[1] == "mpsc" and ("tx",) + x[1:] in ow]
                    R.ob("no handle keeps its own channel open", not own, f"{what}: a handle is given both ends of its channel", where, path_of(o))
            if e.k == "call" and (e.d.get("path") or "").split("::")[-1] in LEAKS:
                R.fail("nothing is leaked", f"{what}: {e.d.get('path')} is called in {e.site[0]}", where, path_of(o))
            if e.k == "forget":
                R.ob("nothing is leaked", not owned(o.st, e["value"]), f"{what}: an end of a channel is forgotten in {e.site[0]}", where, path_of(o))
            if e.k == "spawn":
                ow = owned(o.st, e["future"])
                R.ob("no other task keeps the channels open", not (ow & {m.inc_tx, m.cmd_rx}) and not [x for x in ow if x[0] == "tx" and x not in (m.cmd_tx,) and x[1] == "mpsc"],
                     f"{what}: a spawned task gets an end of a channel", where, path_of(o))
    R.need(n, "messages to handles")
    # a task made from the peer owns it, and runs nothing else
    made = [get(R, d, "Peer::spawn")] + [f for f in all_roots(d) if f.kind == "fn" and f.impl_trait and f.name.split("::")[-1] == "spawn" and f.name.startswith("listener::")]
    for f in made:
        what = short_name(f.name)
        k = 0
        for o in run(E, f, None, None):
            if o.k != "ret": continue
            k += 1
            sp = [e for e in o.st.ev if e.k == "spawn"]
            if not R.ob("spawning a peer starts one task", len(sp) == 1, f"{what}: {len(sp)} tasks are spawned", f, trace_of(o.st)): continue
            fut = sp[0]["future"]
            fs, hs = owned(o.st, fut), owned(o.st, o.v)
            keep = [x for x in hs if x[0] == "rx" and ("tx",) + x[1:] in hs]
            R.ob("spawning a peer returns only the handle", not keep and bool(hs), f"{what}: the returned value owns both ends of a channel", f, trace_of(o.st))
            inc = [("tx",) + x[1:] for x in hs if x[0] == "rx"]          # what ends the handle's receive when it is gone
            cmd = [x for x in fs if x[0] == "rx" and ("tx",) + x[1:] in hs]
            R.ob("the spawned task owns the peer", bool(cmd) and all(x in fs for x in inc), f"{what}: the spawned task does not own the channel ends of the peer", f, trace_of(o.st))
            for e in o.st.ev:
                if e.k == "forget":
                    R.ob("nothing is leaked", not owned(o.st, e["value"]), f"{what}: an end of a channel is forgotten", f, trace_of(o.st))
                if e.k == "call":
                    gone = [x for a in e.d.get("args", ()) for x in owned(o.st, a) if x in inc or x in cmd]
                    R.ob("nothing else keeps the channels open", not gone and (e.d.get("path") or "").split("::")[-1] not in LEAKS, f"{what}: {e.d.get('path')} is given an end of a channel", f, trace_of(o.st))
            m.waits = []
            try: outs = drive(E, o.st.copy(), fut, mkctx(E, f))
            finally: waits, m.waits = m.waits, None
            if outs is None:
                R.undecided(f"{what}: the spawned future is opaque"); continue
            ran = False
            for st, e in waits:
                if e.k == "await":
                    cs = []
                    reach(E, st, e["future"], lambda v: cs.append(v) if v[0] == "S" and isinstance(v[1], int) and E.ty(v[1])["k"] == "coroutine" else None)
                    local = any(E.ty(v[1]).get("fn") is not None for v in cs)
                    if local and set(cmd) & owned(st, e["future"]): ran = True
                    R.ob("the spawned task waits only for the peer", local or from_call(E, st, e["future"], "TransportReadHalf") or from_call(E, st, e["future"], "TransportWriteHalf"),
                         f"{what}: the spawned task waits for {e.d.get('fty')} in {e.site[0]}", f, trace_of(st))
                elif e.k in ("recv", "oneshot_recv"):
                    if e["chan"] in cmd: ran = True
                    R.ob("the spawned task waits only for the peer", e["chan"] in cmd, f"{what}: the spawned task receives from {short(e['chan'], 60)}", f, trace_of(st))
                elif e.k == "forget":
                    R.ob("nothing is leaked", not owned(st, e["value"]), f"{what}: an end of a channel is forgotten in {e.site[0]}", f, trace_of(st))
                elif e.k == "call":
                    R.ob("nothing is leaked", (e.d.get("path") or "").split("::")[-1] not in LEAKS, f"{what}: {e.d.get('path')} is called in {e.site[0]}", f, trace_of(st))
                    R.ob("the spawned task waits only for the peer", not blocking(e.d.get("path") or ""), f"{what}: the spawned task calls {e.d.get('path')} in {e.site[0]}", f, trace_of(st))
            R.ob("the spawned task runs the peer", ran, f"{what}: the spawned task does not run the peer", f, trace_of(o.st))
        R.need(k, f"outcomes of {what}")
    # operations after the end
    k = 0
    for name, ty in SENDS:
        f, a, outs, sent = F.op(name)
        what = short_name(name)
        for o in outs:
            if o.k != "ret": continue
            dead = None
            for e in o.st.ev:
                if e.k in ("send", "oneshot_recv"):
                    pv = E.possible_variants(o.st, e["ret"])
                    if pv is None or 1 in pv: dead = e; multi = pv != [1]
            if dead is None: continue
            k += 1
            R.count("paths after the end")
            if multi:
                R.fail(f"{what}: the end of the peer is noticed", f"{what} does not look at the result of {dead.k}", f, trace_of(o.st)); continue
            R.ob(f"{what}: gives connection aborted", E.variant(o.st, o.v) == 1 and aborted(E, d, o.st, E.field(o.st, o.v, 1, 0)) is True, f"{what} gives {short(o.v, 80)} after the peer has ended", f, trace_of(o.st))
    R.need(k, "send operations after the end of the peer")
    for name, kind in RECV:
        f, a, outs, sent = F.op(name)
        what = short_name(name)
        k = 0
        for o in outs:
            if o.k != "ret": continue
            for e in o.st.ev:
                if e.k == "recv" and E.possible_variants(o.st, e["ret"]) == [0]:
                    k += 1
                    kv = E.variant(o.st, o.v)
                    if kind in ("update", "any"): R.ob(f"{what}: reports the end", kv == 0, f"{what} gives {short(o.v, 80)} after the peer has ended", f, trace_of(o.st))
                    else: R.ob(f"{what}: gives connection aborted", kv == 1 and aborted(E, d, o.st, E.field(o.st, o.v, 1, 0)) is True, f"{what} gives {short(o.v, 80)} after the peer has ended", f, trace_of(o.st))
        R.ob(f"{what}: notices the end of the peer", k > 0, f"{what} has no path for the end of its channel", f)

# ---- C70 -----------------------------------------------------------------------------------------------------------
def c70(R):
    R.rule("Select::poll is interpreted with two arbitrary futures: pending only if both were polled and pending, a ready one is returned in its position together with the other future, which is not finished. "
           "Peer::run is interpreted with its real loops: if the read loop finishes first, the command that ends the command loop is queued once and the command loop is awaited until it ends; nothing finished is polled again.")
    d = dump()
    fs = [f for f in all_roots(d) if f.name.endswith("Future>::poll") and "select::Select" in f.name]
    n = 0
    for f in fs:
        E = engine(R, d)
        pt = pin_target(E, f.locals[1])
        st = State()
        sel = E.const_sym("select", pt)
        b = E.newbox(st, sel, "T")
        starts = [st]
        for x in options_in(E, st, sel, pt):
            nx = []
            for s in starts:
                s2 = s.copy()
                if E.set_variant(s2, x, 1): nx.append(s2)
            starts = nx
        for s0 in starts:
            parts = type_params(E, s0, sel, pt)
            if len(parts) != 2: R.undecided(f"Select holds {len(parts)} futures"); continue
            (pa, va), (pb, vb) = parts
            for o in run(E, f, [("S", f.locals[1], 0, (("ref", b, ()),)), ("cx",)], s0.copy(), await_it=False):
                if o.k == "panic":
                    R.fail("Select::poll does not panic", f"polling an unfinished Select can panic: {short(o.v, 80) if o.v else ''}", f, trace_of(o.st)); continue
                if o.k != "ret": continue
                n += 1
                R.count("select paths")
                polled = {}
                for e in o.st.ev:
                    if e.k != "await": continue
                    for nm, v in (("a", va), ("b", vb)):
                        if E.same_value(o.st, e["future"], v):
                            R.ob("no finished future is polled again", polled.get(nm, (None, [1]))[1] == [1], "a finished future is polled again", f, trace_of(o.st))
                            polled[nm] = (e, E.possible_variants(o.st, e["poll"]) if "poll" in e.d else [0])
                k = E.variant(o.st, o.v)
                if k is None: R.undecided("the result of Select::poll is not determined"); continue
                if k == 1:
                    for nm in ("a", "b"):
                        R.ob("pending only if both are pending", polled.get(nm, (None, None))[1] == [1], f"Select is pending although future {nm} {'was not polled' if nm not in polled else 'is ready'}", f, trace_of(o.st))
                    left = E.load(o.st, b, ())
                    R.ob("a pending Select keeps its futures", E.same_value(o.st, left, sel) or all(mentions(deep(E, o.st, left), v) or E.same_value(o.st, left, sel) for v in (va, vb)), f"a pending Select holds {short(left, 80)}", f, trace_of(o.st))
                    continue
                r = E.field(o.st, o.v, 0, 0)
                rk = enum_name(E, o.st, r)
                ready = [nm for nm in ("a", "b") if polled.get(nm, (None, [1]))[1] == [0]]
                if not R.ob("one future is finished", len(ready) == 1, f"Select returns when {ready or 'none'} of its futures {'is' if len(ready) < 2 else 'are'} finished", f, trace_of(o.st)): continue
                out = polled[ready[0]][0]["ret"]
                other = vb if ready[0] == "a" else va
                okk = rk == ("Left" if ready[0] == "a" else "Right")
                R.ob("the result names the finished future", okk, f"Select returns {rk} when future {ready[0]} is finished", f, trace_of(o.st))
                dv = deep(E, o.st, r)
                R.ob("the output and the other future are handed back", mentions(dv, out) and mentions(dv, other), f"Select returns {short(r, 100)}", f, trace_of(o.st))
    # Peer::run
    F = facts(R); E, m = F.E, F.m
    first = {"read": 0, "cmd": 0}
    def refused(o):
        """a command of Peer::run is refused although the command loop, which holds the receiver, has not ended: this cannot happen"""
        for e in o.st.ev:
            if e.k == "await":
                cs = []
                reach(E, o.st, e["future"], lambda v: cs.append(v[1]) if v[0] == "S" and isinstance(v[1], int) else None)
                if m.cmd["raw"][1][1] in cs and not (e.d.get("poll") is not None and E.possible_variants(o.st, e["poll"]) == [1]): return False
            elif e.k == "loop" and e["info"].id[:2] == m.cmd["li"].id[:2]: return False
            elif e.k == "drop" and any(mentions(deep(E, o.st, x), m.cmd["raw"][1]) for x in e.d.values() if isinstance(x, tuple)): return False
            elif e.k == "send" and e["chan"] == m.cmd_tx and e.site[0].startswith("peer::Peer::run") and E.possible_variants(o.st, e["ret"]) == [1]: return True
        return False
    for o in m.run_outs:
        if refused(o):
            R.count("paths that cannot happen"); continue
        if o.k == "panic":
            entered = any(e.k == "loop" and e["info"].id[:2] in (m.cmd["li"].id[:2], m.read["li"].id[:2]) for e in o.st.ev)
            for e in o.st.ev:
                if e.k == "panic" and (e.site[0].startswith("peer::Peer::run") or not entered):
                    R.fail("Peer::run does not panic", f"Peer::run can panic: {short(o.v, 80) if o.v else ''}", m.runf, trace_of(o.st))
            continue
        if o.k != "ret": continue
        done = set(); order = []
        stop = None
        for i, e in enumerate(o.st.ev):
            nm = None
            if e.k == "await":
                cs = []
                reach(E, o.st, e["future"], lambda v: cs.append(v[1]) if v[0] == "S" and isinstance(v[1], int) else None)
                fn = {E.ty(c).get("fn") for c in cs if E.ty(c)["k"] == "coroutine"}
                if m.read["raw"][1][1] in cs: nm = "read"
                elif m.cmd["raw"][1][1] in cs: nm = "cmd"
            elif e.k == "loop" and e["info"].id[:2] == m.cmd["li"].id[:2]: nm = "cmd"
            elif e.k == "loop" and e["info"].id[:2] == m.read["li"].id[:2]: nm = "read"
            pv = E.possible_variants(o.st, e["poll"]) if e.k == "await" and e.d.get("poll") is not None else [0]
            if nm is not None and pv != [1]:
                R.ob("no finished loop is polled again", nm not in done, f"the {nm} loop is awaited again after its end", m.runf, trace_of(o.st))
                done.add(nm)
                # a poll of which the result is not looked at need not have run the loop to its end
                if pv == [0]: order.append((nm, i))
            if e.k == "send" and e["chan"] == m.cmd_tx and e.site[0].startswith("peer::Peer::run"):
                if stop is not None: R.fail("one stop command", "Peer::run queues several commands", m.runf, trace_of(o.st))
                stop = (i, e)
        if not order:
            R.fail("Peer::run runs its loops", "Peer::run ends without either loop having ended", m.runf, trace_of(o.st)); continue
        first[order[0][0]] += 1
        if order[0][0] == "read":
            R.ob("the command loop is run to its end after the read loop", any(nm == "cmd" for nm, i in order), "when the read loop ends, Peer::run ends without letting the command loop finish", m.runf, trace_of(o.st))
            ci = [i for nm, i in order if nm == "cmd"]
            R.ob("the command loop is told to end", stop is not None and (not ci or order[0][1] < stop[0] < ci[0]), "when the read loop ends, the command loop is not told to stop", m.runf, trace_of(o.st))
            if stop is not None:
                V = stop[1]["value"]
                ocs = F.cmd(V, m.st0)
                for c in ocs:
                    if c.k in ("wait", "exit"): R.ob("the queued command ends the command loop", c.k == "exit", "the command queued at the end of the read loop does not end the command loop", m.cmd["fn"], path_of(c))
                    if c.k in ("wait", "exit"): R.ob("the queued command has no other effect", not [e for e in c.ev if e.k in ("send", "answer", "map_insert", "map_remove") or (e.k == "call" and (e.d.get("trait") or "").endswith("TransportWriteHalf"))], "ending the command loop has another effect", m.cmd["fn"], path_of(c))
        else:
            pass
    R.count("paths of Peer::run", len(m.run_outs))
    R.ob("the read loop can end first", first["read"] > 0, "Peer::run does not react to the end of the read loop", m.runf)
    R.ob("the command loop can end first", first["cmd"] > 0, "Peer::run does not react to the end of the command loop", m.runf)

def pin_target(E, tid):
    a = E.ty(tid)
    for x in a.get("args", []):
        if isinstance(x, int) and E.ty(x)["k"] == "ref": return E.ty(x)["t"]
    ft = E.field_ty(tid, 0, 0)
    return strip_ref(E, ft)
def options_in(E, st, v, tid):
    a = E.adt_of(tid)
    res = []
    if a in E.dump.adts and E.dump.adts[a]["local"]:
        for i in range(len(E.dump.adts[a]["variants"][0]["fields"])):
            ft = E.field_ty(tid, 0, i)
            if E.adt_of(ft) == "core::option::Option": res.append(E.field(st, v, 0, i))
    return res
def type_params(E, st, v, tid, depth=0, out=None, path=()):
    """the opaque generic parts of a value"""
    if out is None: out = []
    if depth > 8: return out
    t = E.ty(tid) if isinstance(tid, int) else None
    if t is None: return out
    if t["k"] == "tuple":
        for i, x in enumerate(t["ts"]): type_params(E, st, E.field(st, v, 0, i), x, depth + 1, out, path + (i,))
        return out
    a = E.adt_of(tid)
    if a is None:
        if t["k"] not in ("int", "uint", "bool", "prim", "ref"): out.append((path, v))
        return out
    if a in E.dump.adts:
        k = E.variant(st, v)
        if k is None: k = 0
        vs = E.dump.adts[a]["variants"]
        for i in range(len(vs[k]["fields"])): type_params(E, st, E.field(st, v, k, i), E.field_ty(tid, k, i), depth + 1, out, path + (i,))
    return out

# ---- C09 -----------------------------------------------------------------------------------------------------------
def c09(R):
    R.rule("Transports: the poll functions are iterated over an arbitrary socket schedule; a pending result is only allowed directly after a socket operation that was pending with the caller's context. All other "
           "functions that return Poll and take a context: on every path that returns pending, the last inner poll got the caller's context and was pending, and no inner poll on that path was ready.")
    r_transport.harness(R, "C09", ("read", "write"), ("stream", "dgram"))
    d = dump()
    n = 0
    for f in sorted(all_roots(d), key=lambda f: f.path):
        if f.kind != "fn" or "macros::interface_example" in f.name: continue
        E = engine(R, d)
        rt = f.locals[0]
        if E.adt_of(rt) != "core::task::poll::Poll": continue
        ci = [i for i in range(f.argc) if "Context" in tystr(E, f.locals[i + 1])]
        if not ci: continue
        if any((f.impl_trait or "").endswith(x) and E.dump.adts.get(E.adt_of(f.impl_self) if isinstance(f.impl_self, int) else f.impl_self, {}).get("local") for x in ("TransportReadHalf", "TransportWriteHalf")): continue
        nm = f.name.split("::", 1)[0] + "::" + short_name(f.name) if "::" in f.name else f.name
        st = State()
        args = [("cx",) if i in ci else sym_arg(E, st, f, i) for i in range(f.argc)]
        try:
            outs = run(E, f, args, st, await_it=False, loops=True)
        except Unsupported as e:
            R.undecided(f"{f.name}: {e}"); continue
        n += 1
        for li in E.loops:
            for g in li.segs:
                if g.k != "back": continue
                R.count("poll laps")
                for e in g.ev:
                    if not is_poll(E, e): continue
                    pend = e["result"] == "pending" if e.k == "io" else 1 in (E.possible_variants(g.st, pollval(e)) or [1])
                    R.ob(f"{f.name}: does not poll again what is pending", not pend, f"{f.name} goes round its loop after {e.d.get('path') or e.k} was pending", f, trace_of(g.st))
        for o in outs:
            if o.k != "ret": continue
            R.count("poll paths")
            polls = [e for e in o.st.ev if is_poll(E, e)]
            ks = E.possible_variants(o.st, o.v)
            if ks is not None and 1 not in ks: continue
            tr = trace_of(o.st)
            if not R.ob(f"{f.name}: pending only after a pending poll", bool(polls), f"{f.name} is pending without having polled anything", f, tr): continue
            if ks is None or len(ks) > 1:
                # the result of an inner poll is passed on
                R.ob(f"{f.name}: passes on the result of the last poll", E.same_value(o.st, o.v, pollval(polls[-1])), f"{f.name} returns {short(o.v, 60)} after polling {polls[-1].d.get('path') or polls[-1].k}", f, tr)
            else:
                for e in polls:
                    if e.k == "io":
                        R.ob(f"{f.name}: no ready result is discarded", e["result"] == "pending", f"{f.name} is pending although the socket was ready", f, tr); continue
                    R.ob(f"{f.name}: no ready result is discarded", E.possible_variants(o.st, pollval(e)) == [1], f"{f.name} is pending although {e.d.get('path') or e.k} may be ready", f, tr)
            cx = pollcx(polls[-1])
            R.ob(f"{f.name}: registers the caller's waker", ("cx",) in cx, f"{f.name} polls with another context", f, tr)
    R.need(n >= 8, "hand-written poll functions")

def is_poll(E, e):
    if e.k in ("await", "recv", "oneshot_recv"): return e.d.get("poll") is not None
    if e.k == "io": return True
    if e.k == "call":
        t = E.tyof(e["ret"])
        if e["ret"][0] == "lz": t = e["ret"][2]
        return isinstance(t, int) and E.adt_of(t) == "core::task::poll::Poll"
    return False
def pollval(e): return e.d.get("poll") if e.d.get("poll") is not None else e["ret"]
def pollcx(e):
    if e.k == "call": return tuple(e["args"])
    if e.k == "io": return (e["cx"],)
    return (e.d.get("cx"),)

RULES = {"C14": guarded(c14), "C23": guarded(c23), "C24": guarded(c24), "C70": guarded(c70), "C09": guarded(c09)}
