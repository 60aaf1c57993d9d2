"""C10-C24, C70: the peer loops and the request handles."""
from lib import *

def reach(E, st, v, f, seen=None, depth=0):
    """calls f on the value and on everything it points to"""
    if seen is None: seen = set()
    if not isinstance(v, tuple) or not v or depth > 40: return
    f(v)
    if v[0] == "ref":
        k = (v[1], v[2])
        if k in seen: return
        seen.add(k)
        try: w = E.load(st, v[1], v[2])
        except Unsupported: return
        reach(E, st, w, f, seen, depth + 1)
        return
    for x in v:
        if isinstance(x, tuple): reach(E, st, x, f, seen, depth + 1)

def havoc(E, st, tid, v, name, seen):
    """forget everything about plain data, keep pointers, channels and the identity of maps"""
    if v[0] == "ref":
        k = (v[1], v[2])
        if k not in seen:
            seen.add(k)
            E.store(st, v[1], v[2], havoc(E, st, E.pointee(tid) if isinstance(tid, int) else None, E.load(st, v[1], v[2]), name + "*", seen))
        return v
    if v[0] in ("tx", "rx"): return v
    if v[0] == "map":
        w = ("map", v[1], 0)
        E.typ.setdefault(w, E.typ.get(v))
        return w
    t = E.ty(tid) if isinstance(tid, int) else None
    if t is None and v[0] == "S" and isinstance(v[1], int): tid = v[1]; t = E.ty(tid)
    if v[0] == "S" and t is not None:
        a = E.adt_of(tid)
        if a is not None and len(E.dump.adts[a]["variants"]) > 1:
            return E.const_sym("h:" + name, tid)
        fs = []
        for i, x in enumerate(v[3]):
            ft = E.field_ty(v[1] if isinstance(v[1], int) else tid, v[2], i)
            fs.append(havoc(E, st, ft, x, f"{name}.{i}", seen))
        return ("S", v[1], v[2], tuple(fs))
    if t is not None and t["k"] in ("int", "uint", "bool", "prim"):
        return E.const_sym("h:" + name, tid)
    return v

class Giveup(Exception):
    """the shape of the peer is not one the machine understands"""

class Op:
    """one path of a public operation"""
    def __init__(self, name, k, st, v, ev, sends, args):
        self.name = name; self.k = k; self.st = st; self.v = v; self.ev = ev; self.sends = sends; self.args = args

class Oc:
    """outcome of one command: waits for the next one, or ends the loop"""
    def __init__(self, k, st, ev, v=None):
        self.k = k; self.st = st; self.ev = ev; self.v = v
    def all(self, *ks): return [e for e in self.ev if e.k in ks]

BASE = 1000000

class Machine:
    def __init__(self, R):
        self.R = R; self.d = dump()
        self.E = E = engine(R, self.d)
        self.snap = {}
        E.on_event = self.on_event
        self.capture = None; self.sent = None; self.waits = None
        new = get(R, self.d, "Peer::new"); self.runf = get(R, self.d, "Peer::run")
        outs = [o for o in run(E, new, [E.const_sym("transport", new.locals[1])]) if o.k == "ret"]
        if len(outs) != 1: raise Giveup("Peer::new has several outcomes")
        self.st0 = outs[0].st.copy()
        self.new_ev = self.st0.ev
        self.st0.ev = ()
        v = outs[0].v
        if v[0] != "S" or len(v[3]) != 2: raise Giveup("Peer::new does not return a pair")
        self.peer, self.handle = v[3]
        self.find_loops()
    # -- events
    def on_event(self, st, e):
        E = self.E
        if e.k == "call":
            tr = e.d.get("trait") or ""
            if tr.endswith("TransportWriteHalf") or tr.endswith("TransportReadHalf"):
                e.d["deref"] = tuple(deep(E, st, a) for a in e.d["args"])
        if e.k in ("await", "recv", "oneshot_recv", "call", "channel", "forget") and self.waits is not None:
            self.waits.append((st.copy(), e))
        if e.k == "await":
            if self.capture is not None: self.capture.append((st.copy(), e))
        elif e.k == "send":
            if self.sent is not None: self.sent.append((st.copy(), e))
    # -- the loops
    def find_loops(self):
        E, d = self.E, self.d
        self.capture = []
        self.run_outs = run(E, self.runf, [self.peer], self.st0.copy(), loops=True)
        cap, self.capture = self.capture, None
        self.run_awaits = cap
        found = {}
        for st, e in cap:
            cs = []
            reach(E, st, e["future"], lambda v: cs.append(v) if v[0] == "S" and isinstance(v[1], int) and E.ty(v[1])["k"] == "coroutine" else None)
            for c in cs:
                if c[1] not in found and E.ty(c[1]).get("fn") is not None: found[c[1]] = (st, c)
        # the command channel: the receiver in the peer that is not handed to the user
        rxs = []
        self.rxs_handle = set()
        reach(E, self.st0, self.handle, lambda v: self.rxs_handle.add(v) if v[0] == "rx" else None)
        reach(E, self.st0, self.peer, lambda v: rxs.append(v) if v[0] == "rx" and v not in rxs else None)
        txs = []
        reach(E, self.st0, self.handle, lambda v: txs.append(v) if v[0] == "tx" and v not in txs else None)
        rxs = [r for r in rxs if ("tx",) + r[1:] in txs]
        if len(rxs) != 1: raise Giveup(f"{len(rxs)} command channels")
        self.cmd_rx = rxs[0]; self.cmd_tx = ("tx",) + rxs[0][1:]
        inc = [r for r in self.rxs_handle]
        if len(inc) != 1: raise Giveup("no single channel of incoming messages")
        self.inc_rx = inc[0]; self.inc_tx = ("tx",) + inc[0][1:]
        cmd, rd = [], []
        for tid, (st, c) in found.items():
            leaf = []
            reach(E, st, c, lambda v: leaf.append(v) if v[0] == "rx" else None)
            (cmd if self.cmd_rx in leaf else rd).append((st, c))
        if len(cmd) != 1 or len(rd) != 1: raise Giveup(f"found {len(cmd)} command loops and {len(rd)} read loops in Peer::run")
        self.cmd = self.prepare(cmd[0], "cmd", lambda ev: ev.k == "recv" and ev["chan"] == self.cmd_rx)
        self.read = self.prepare(rd[0], "read", lambda ev: ev.k == "await" and self.is_read(ev))
    def is_read(self, ev):
        return True
    def prepare(self, found, name, trigger):
        E = self.E
        st, c = found
        st = st.copy(); st.ev = (); st.trace = (); st.nsym = max(st.nsym, 1000)
        hv = havoc(E, st, c[1], c, name, set())
        cf = E.dump.fns[E.ty(c[1])["fn"]]
        E.loops = []
        self.trig = trigger
        self.waits = []
        E.call_fn(cf, [hv, ("cx",)], st.copy())
        waits, self.waits = self.waits, None
        cands = [li for li in E.loops if any(trigger(e) for g in li.segs for e in g.ev)]
        if not cands: raise Giveup(f"no loop in {cf.path}")
        li = max(cands, key=lambda l: len(l.segs))
        return {"raw": (found[0], c), "fn": cf, "st": st, "v": hv, "li": li, "heads": li.heads, "name": name, "trigger": trigger, "waits": waits}
    def merge(self, s, w):
        """add the memory and the facts of another state"""
        for b, v in w.mem.items():
            if b not in s.mem: s.mem[b] = v
        for a, v in w.var.items(): s.var.setdefault(a, v)
        for a, v in w.nvar.items():
            if a not in s.nvar: s.nvar[a] = v
        for k, p in w.pres.items():
            s.pres.setdefault(k, p)
        have = set(s.lin)
        s.lin = s.lin + tuple(x for x in w.lin if x not in have)
        s.ne = s.ne + tuple(x for x in w.ne if x not in s.ne)
        s.nsym = max(s.nsym, w.nsym) + 10
        s.nuid = max(s.nuid, w.nuid) + 10
    def lap(self, loop, inject, extra=None):
        """run the loop from its invariant, from one trigger to the next; inject(E, st, tid) gives the value received"""
        E = self.E
        ocs = []
        def prep(st, h):
            s = h.copy()
            if extra is not None: self.merge(s, extra)
            s.ev = (); s.trace = ()
            s.marks["n"] = 0
            return s
        def trig(E_, st, tid):
            n = st.marks.get("n")
            if n is None: return None
            if n == 0:
                st.marks["n"] = 1; st.marks["at"] = len(st.ev)
                return inject(E_, st, tid) if inject else None
            ocs.append(Oc("wait", st.copy(), st.ev[st.marks["at"]:]))
            return "BLOCK"
        def recv_hook(E_, st, rx, tid, ctx):
            if loop["name"] == "cmd" and rx == self.cmd_rx: return trig(E_, st, tid)
        def await_hook(E_, st, f, tid, ctx):
            if loop["name"] == "read": return trig(E_, st, tid)
        E.recv_hook, E.await_hook = recv_hook, await_hook
        E.replay = {"id": loop["li"].id[:2], "heads": loop["heads"], "prep": prep, "laps": 3}
        try:
            outs = E.call_fn(loop["fn"], [loop["v"], ("cx",)], loop["st"].copy())
        finally:
            E.recv_hook = E.await_hook = E.replay = None
        for o in outs:
            if o.st.marks.get("n") == 1:
                ocs.append(Oc("exit" if o.k == "ret" else o.k, o.st, o.st.ev[o.st.marks["at"]:], o.v))
            elif o.st.marks.get("n") == 0 and o.k == "ret":
                ocs.append(Oc("exit0", o.st, o.st.ev, o.v))
        # the first event is the trigger itself
        for o in ocs:
            o.trig = None
            if o.ev and o.k != "exit0" and loop["trigger"](o.ev[0]): o.trig = o.ev[0]; o.ev = o.ev[1:]
        return ocs
    def command(self, V, vst):
        def inject(E, st, tid):
            return ("S", tid, 1, (V,))
        return self.lap(self.cmd, inject, vst)
    # -- public operations
    def op(self, f, args=None, tag=0, st=None, drop_self=None):
        """paths of a public operation; the values it sends are captured with the state at that moment"""
        E = self.E
        st = (st or self.st0).copy(); st.ev = (); st.trace = ()
        st.nsym += BASE * (tag + 1); st.nuid += BASE * (tag + 1)
        self.sent = []
        if args is None:
            args = [sym_arg(E, st, f, i, f"a{tag}.{i}") for i in range(f.argc)]
        outs = run(E, f, args, st)
        sent, self.sent = self.sent, None
        return args, outs, sent

# ---- facts shared by the rules -------------------------------------------------------------------------------------
REQ, RESP, RQU, RSU, STREAM = "Request", "Response", "RequesterUpdate", "ResponderUpdate", "Stream"
SENDS = [ # operation, message type, body argument, takes the request id of a handle
    ("peer_handle::PeerWriteHandle::send_request", REQ), ("peer_handle::PeerHandle::send_request", REQ),
    ("peer_handle::PeerWriteHandle::send_stream", STREAM), ("peer_handle::PeerHandle::send_stream", STREAM),
    ("request::SentRequestWriteHandle::send_update", RQU), ("request::SentRequestHandle::send_update", RQU),
    ("request::ReceivedRequestWriteHandle::send_update", RSU), ("request::ReceivedRequestHandle::send_update", RSU),
    ("request::ReceivedRequestWriteHandle::send_response", RESP), ("request::ReceivedRequestHandle::send_response", RESP),
    ("request::ReceivedRequestWriteHandle::send_error_response", RESP), ("request::ReceivedRequestHandle::send_error_response", RESP),
]
BOUND = (RQU, RSU, RESP)

def tystr(E, tid):
    return E.ty(tid)["s"] if isinstance(tid, int) else str(tid)
def strip_ref(E, tid):
    while isinstance(tid, int) and E.ty(tid)["k"] == "ref": tid = E.ty(tid)["t"]
    return tid

def leaves(E, st, v, tid, path=(), out=None, depth=0):
    """(path, value, type) of the non-local parts of a value: channels, flags, numbers"""
    if out is None: out = []
    if depth > 12: return out
    if v[0] == "S" and isinstance(v[1], int): tid = v[1]
    t = E.ty(tid) if isinstance(tid, int) else None
    if t is None and v[0] == "ref":
        x = E.load(st, v[1], v[2])
        if x[0] == "S": return leaves(E, st, x, x[1], path, out, depth + 1)
    if t is None:
        out.append((path, v, tid)); return out
    if t["k"] == "ref":
        try: b, p = E.ptr_loc(st, v)
        except Unsupported: return out
        return leaves(E, st, E.load(st, b, p), t["t"], path, out, depth + 1)
    if t["k"] == "tuple":
        for i, x in enumerate(t["ts"]):
            leaves(E, st, E.field(st, v, 0, i), x, path + (i,), out, depth + 1)
        return out
    a = E.adt_of(tid)
    if a == "alloc::boxed::Box":
        try: b, p = E.ptr_loc(st, v)
        except Unsupported: return out
        return leaves(E, st, E.load(st, b, p), E.ty(tid)["args"][0], path, out, depth + 1)
    if a is not None and a in E.dump.adts and (E.dump.adts[a]["local"] or a in ("core::option::Option", "core::result::Result")):
        k = E.variant(st, v)
        if k is None:
            if len(E.dump.adts[a]["variants"]) != 1:
                out.append((path, v, tid)); return out
            k = 0
        for i in range(len(E.dump.adts[a]["variants"][k]["fields"])):
            leaves(E, st, E.field(st, v, k, i), E.field_ty(tid, k, i), path + ((k, i),), out, depth + 1)
        return out
    out.append((path, v, tid))
    return out
def is_flag(E, tid): return "Arc<" in tystr(E, tid) and "Atomic<bool>" in tystr(E, tid) and "UnboundedSender" not in tystr(E, tid)
def is_tx(E, tid): return tystr(E, tid).split("<")[0].endswith("mpsc::unbounded::UnboundedSender") or tystr(E, tid).split("<")[0].endswith("mpsc::bounded::Sender")
def is_rx(E, tid): return tystr(E, tid).split("<")[0].endswith("UnboundedReceiver")
def txs(E, st, v, tid): return [x for p, x, t in leaves(E, st, v, tid) if x[0] == "tx" or is_tx(E, t)]
def rxs(E, st, v, tid): return [x for p, x, t in leaves(E, st, v, tid) if x[0] == "rx" or is_rx(E, t)]
def flags(E, st, v, tid): return [E.ptr_loc(st, x) for p, x, t in leaves(E, st, v, tid) if is_flag(E, t)]
def is_cmd_tx(E, tid): return is_tx(E, tid) and "peer::Command" in tystr(E, tid)

def mentions(v, x):
    if v == x: return True
    return isinstance(v, tuple) and any(mentions(y, x) for y in v if isinstance(y, tuple))

class Facts:
    def __init__(self, R):
        self.R = R
        self.m = Machine(R); self.E = self.m.E; self.d = self.m.d
        self._cmd = {}; self._op = {}; self.tag = 0
    # -- public operations
    def op(self, name, args=None):
        if name not in self._op:
            fs = find(self.d, name)
            if len(fs) != 1: self.R.need(False, f"function {name}")
            self.tag += 1
            a, outs, sent = self.m.op(fs[0], args, self.tag)
            self._op[name] = (fs[0], a, outs, sent)
        return self._op[name]
    def cmd(self, V, vst):
        if V not in self._cmd: self._cmd[V] = self.m.command(V, vst)
        return self._cmd[V]
    def commands(self, name):
        """the distinct command values an operation sends, with the outcomes of each"""
        f, a, outs, sent = self.op(name)
        res = {}
        for s, e in sent:
            if e["value"] not in res: res[e["value"]] = (s, self.cmd(e["value"], s))
        return res
    def drops(self, tid, tag=None):
        """drop glue of a handle type"""
        E = self.E
        k = ("drop", tid)
        if k not in self._op:
            self.tag += 1
            st = self.m.st0.copy(); st.ev = (); st.nsym += BASE * (self.tag + 1); st.nuid += BASE * (self.tag + 1)
            v = E.const_sym(f"d{self.tag}", tid)
            b = E.newbox(st, v, "T")
            self.m.sent = []
            sts = E.drop_value(st, v, tid, mkctx(E, None), (b, ()))
            sent, self.m.sent = self.m.sent, None
            self._op[k] = (None, [v], [Out("ret", s, UNIT) for s in sts], sent)
        return self._op[k]
    # -- incoming messages
    def read_laps(self):
        if not hasattr(self, "_read"): self._read = self.m.lap(self.m.read, None)
        return self._read
    def incoming(self):
        """what the read loop queues for a received message and for an error: (kind, V, state, read outcome)"""
        if hasattr(self, "_in"): return self._in
        res = []
        E = self.E
        seen = set()
        for oc in self.read_laps():
            if oc.k not in ("wait", "exit"): continue
            for e in oc.ev:
                if e.k == "send" and e["chan"] == self.m.cmd_tx and e["value"] not in seen:
                    seen.add(e["value"])
                    res.append((e["value"], oc))
        self._in = res
        return res
    def incoming_msgs(self):
        """outcomes in the command loop of a received message: (message, outcome, V)"""
        if hasattr(self, "_inm"): return self._inm
        E = self.E
        self._inm, self._ine = [], []
        for V, oc in self.incoming():
            res = self.read_result(oc)
            if res is None: continue
            kinds = E.possible_variants(oc.st, res)
            vst = oc.st.copy(); vst.ev = ()
            vst = self.shift_state(vst)
            ocs = self.cmd(V, vst)
            k = E.variant(oc.st, res)
            if k == 0:
                msg = E.field(oc.st, res, 0, 0)
                self._inm += [(msg, o, V) for o in ocs]
            elif k == 1:
                self._ine += [(E.field(oc.st, res, 1, 0), o, V) for o in ocs]
        return self._inm
    def incoming_errs(self):
        self.incoming_msgs(); return self._ine
    def shift_state(self, st):
        # the head of the command loop knows nothing about what the read loop made: only facts, values and boxes move over
        st.nsym += BASE
        st.nuid += BASE
        return st
    def read_result(self, oc):
        return oc.trig["ret"] if oc.trig is not None else None

# -- parts of an outcome
def calls_of(o, tail):
    return [e for e in o.ev if e.k == "call" and (e.d.get("trait") or "").endswith(tail)]
class Write:
    def __init__(self, i, e, hdr, body, res, j): self.i = i; self.e = e; self.hdr = hdr; self.body = body; self.res = res; self.j = j
def unref(v):
    while isinstance(v, tuple) and v and v[0] == "&": v = v[1]
    return v
def writes(o):
    res = []
    for i, e in enumerate(o.ev):
        if e.k == "call" and (e.d.get("trait") or "").endswith("TransportWriteHalf"):
            dr = e.d.get("deref") or ()
            hdr = unref(dr[-2]) if len(dr) >= 3 else None
            body = unref(dr[-1]) if len(dr) >= 3 else None
            aw = [(j, x) for j, x in enumerate(o.ev) if x.k == "await" and mentions(x["future"], e["ret"])]
            r = aw[0][1]["ret"] if aw else None
            res.append(Write(i, e, hdr, body, r, aw[0][0] if aw else None))
    return res
def hfield(E, o, hdr, name):
    return fieldn(E, o.st, hdr, name)
def mtypes(E, o, hdr):
    v = hfield(E, o, hdr, "message_type")
    return enum_names(E, o.st, v) if v is not None else None

def truths(E, st, v):
    t = E.truth(st, v)
    return {t} if t is not None else {True, False}
def call_pure(E, f, args, st):
    """results of a function without effects: [(value, state)]"""
    return [(o.v, o.st) for o in E.call_fn(f, args, st.copy()) if o.k == "ret"]
def fatal(E, d, st, err):
    """whether a transport error is fatal in this state: set of bools"""
    f = find(d, "transport::TransportError::is_fatal")
    if len(f) != 1: raise Giveup("TransportError::is_fatal")
    s = st.copy(); b = E.newbox(s, err, "T")
    r = set()
    for v, s2 in call_pure(E, f[0], [("ref", b, ())], s): r |= truths(E, s2, v)
    return r
def inner(E, d, st, err):
    f = find(d, "transport::TransportError::into_inner")
    if len(f) != 1: raise Giveup("TransportError::into_inner")
    r = call_pure(E, f[0], [err], st)
    return r[0][0] if len(r) == 1 else None

def init_presence(o, m, key, E):
    for e in o.ev:
        if e.k in ("map_remove", "map_insert") and e["map"] == m and E.same_value(o.st, e["key"], key):
            return True if e.k == "map_remove" else (not e["fresh"])
    for (mm, kk), p in o.st.pres.items():
        if mm == m and E.same_value(o.st, kk, key): return p
    return None
def nested_effects(o, kinds, pred=None):
    """effects of these kinds on paths that go round a loop inside the processing of one command"""
    res = []
    for e in o.ev:
        if e.k == "loop":
            for g in e["info"].segs:
                if g.k == "back":
                    res += [x for x in g.ev if x.k in kinds and (pred is None or pred(x))]
    return res

# ---- rules ---------------------------------------------------------------------------------------------------------
def facts(R):
    try:
        return Facts(R)
    except Giveup as e:
        R.undecided(f"the peer is not of a shape the analysis understands: {e}")
        raise Stop()

def guarded(f):
    def g(R):
        try:
            f(R)
        except Giveup as e:
            R.undecided(f"{e}")
    g.__name__ = f.__name__
    return g

def path_of(o): return trace_of(o.st)
def site(e): return (e.site[0], None) if e is not None else None

def reply_tx(E, st, V):
    r = []
    reach(E, st, V, lambda v: r.append(v) if v[0] == "tx" and v[1] == "oneshot" and v not in r else None)
    return r

def send_ops(F, names=None):
    """(operation, message type, command value, state, outcomes)"""
    for name, ty in SENDS:
        if names is not None and ty not in names: continue
        for V, (st, ocs) in F.commands(name).items():
            yield name, ty, V, st, ocs

def short_name(name): return "::".join(name.split("::")[-2:])

def accessor(F, E, st, self_arg, name, method):
    """value of handle.request_id() / service_id() of the handle an operation was called on"""
    f = find(F.d, name.rsplit("::", 1)[0] + "::" + method)
    if len(f) != 1: return None
    r = call_pure(E, f[0], [self_arg], st)
    return r[0][0] if len(r) == 1 else None

def into_ok(E, st, v, arg, evs):
    """the value is the argument, converted by Into/From at most"""
    if E.same_value(st, v, arg): return True
    for e in evs:
        if e.k == "call" and e.d.get("path", "").split("::")[-1] in ("into", "from", "from_error", "as_body") and any(E.same_value(st, x, arg) for x in e["args"]) and E.same_value(st, v, e["ret"]):
            return True
    return False

def c17(R):
    R.rule("Every public send operation is interpreted up to the command it queues; the command loop is interpreted from its loop invariant with that command. On every path: "
           "one command per call carrying the operation's message, one answer per command, Ok only behind an Ok of the transport's write of that message, the write's own error otherwise; the caller gets that answer.")
    F = facts(R); E, m = F.E, F.m
    for name, ty in SENDS:
        f, args, outs, sent = F.op(name)
        nm = short_name(name)
        R.count("send operations")
        cmds = {}
        for s, e in sent: cmds.setdefault(e["value"], (s, e))
        R.ob(f"{nm}: queues a command", len(cmds) >= 1, f"{nm} never queues a command", f)
        # the caller's side
        for o in outs:
            if o.k != "ret":
                R.fail(f"{nm}: returns", f"{nm} ends with {o.k} {short(o.v, 80) if o.v else ''}", f, trace_of(o.st)); continue
            ss = [e for e in o.st.ev if e.k == "send"]
            rs = [e for e in o.st.ev if e.k == "oneshot_recv"]
            v = E.possible_variants(o.st, o.v)
            if not R.ob(f"{nm}: one command per call", len(ss) <= 1, f"{nm} queues {len(ss)} commands in one call", f, trace_of(o.st)): continue
            if not ss or 0 not in (E.possible_variants(o.st, ss[0]["ret"]) or [0, 1]):
                R.ob(f"{nm}: nothing queued gives an error", list(v) == [1], f"{nm} can report success although nothing was queued", f, trace_of(o.st)); continue
            if not R.ob(f"{nm}: waits for the answer", len(rs) == 1, f"{nm} returns without waiting for the answer of the peer", f, trace_of(o.st)): continue
            tx = reply_tx(E, o.st, ss[0]["value"])
            R.ob(f"{nm}: waits for its own answer", len(tx) == 1 and rs[0]["chan"] == ("rx",) + tx[0][1:], f"{nm} waits on {short(rs[0]['chan'])}, the command carries {[short(x) for x in tx]}", f)
            a = rs[0]["ret"]
            ka = E.variant(o.st, a)
            if ka == 1:
                R.ob(f"{nm}: no answer gives an error", list(v) == [1], f"{nm} reports success although the answer channel was closed", f, trace_of(o.st))
            elif ka == 0:
                rep = E.field(o.st, a, 0, 0)
                if E.same_value(o.st, rep, o.v):
                    R.ob(f"{nm}: reports the answer", True, "the answer is returned unchanged", f); continue
                kr = E.variant(o.st, rep)
                if kr == 0:
                    ok = list(v) == [0] and (E.same_value(o.st, E.field(o.st, rep, 0, 0), E.field(o.st, o.v, 0, 0)) or ty != REQ)
                    R.ob(f"{nm}: reports the answer", ok, f"{nm} does not report the success of the write", f, trace_of(o.st))
                elif kr == 1:
                    ok = list(v) == [1] and E.same_value(o.st, E.field(o.st, rep, 1, 0), E.field(o.st, o.v, 1, 0))
                    R.ob(f"{nm}: reports the answer", ok, f"{nm} does not report the error of the write", f, trace_of(o.st))
                else:
                    R.fail(f"{nm}: reports the answer", f"{nm} ignores whether the peer reported an error", f, trace_of(o.st))
            else:
                R.fail(f"{nm}: checks the answer", f"{nm} ignores whether an answer arrived", f, trace_of(o.st))
        # the peer's side
        for V, (s, e) in cmds.items():
            tx = reply_tx(E, s, V)
            if len(tx) != 1: continue
            ocs = F.cmd(V, s)
            R.need(ocs, f"the processing of the command of {nm}")
            for o in ocs:
                if o.k not in ("wait", "exit"): continue
                R.count("command paths")
                ws = writes(o)
                an = [x for x in o.ev if x.k == "answer" and x["chan"] == tx[0]]
                loops = nested_effects(o, ("answer", "call"), lambda x: x.k == "answer" or (x.d.get("trait") or "").endswith("TransportWriteHalf"))
                where = m.cmd["fn"]
                if not R.ob(f"{nm}: written at most once", len(ws) <= 1 and not loops, f"the command of {nm} leads to {len(ws)} writes" + (" in a loop" if loops else ""), where, path_of(o)): continue
                if not R.ob(f"{nm}: one answer", len(an) == 1, f"the command of {nm} gets {len(an)} answers on a path with {len(ws)} writes", where, path_of(o)): continue
                ka = E.variant(o.st, an[0]["value"])
                if not R.ob(f"{nm}: answer is a result", ka is not None, f"the answer to {nm} is {short(an[0]['value'])}", where): continue
                if not ws:
                    R.ob(f"{nm}: no write gives an error", ka == 1, f"{nm} is told it succeeded although nothing was written", where, path_of(o)); continue
                w = ws[0]
                if not R.ob(f"{nm}: the write is awaited", w.res is not None and w.j is not None, f"the write of {nm} is not awaited", where, path_of(o)): continue
                kw = E.variant(o.st, w.res)
                ai = o.ev.index(an[0])
                R.ob(f"{nm}: answered after the write", ai > w.j, f"{nm} is answered before its message was written", where, path_of(o))
                if kw == 0:
                    R.ob(f"{nm}: success reported", ka == 0, f"{nm} gets an error although the write succeeded", where, path_of(o))
                elif kw == 1:
                    err = inner(E, F.d, o.st, E.field(o.st, w.res, 1, 0))
                    R.ob(f"{nm}: write error reported", ka == 1 and err is not None and E.same_value(o.st, E.field(o.st, an[0]["value"], 1, 0), err), f"the error of the write is not what {nm} gets: {short(an[0]['value'], 100)}", where, path_of(o))
                else:
                    R.fail(f"{nm}: write checked", f"the result of the write of {nm} is ignored", where, path_of(o))
                # the message
                ts = mtypes(E, o, w.hdr) if w.hdr is not None else None
                R.ob(f"{nm}: message type", ts == [ty], f"{nm} writes a message of type {ts}", where, path_of(o))
                sid = hfield(E, o, w.hdr, "service_id") if w.hdr is not None else None
                if "error_response" in name:
                    ev = [c for c in s.ev if c.k == "call" and mentions(c["ret"], w.body) or c.k == "call" and mentions(w.body, c["ret"])]
                    R.ob(f"{nm}: error body", any(E.same_value(o.st, c["args"][0], args[1]) or any(E.same_value(o.st, x, args[1]) for x in c["args"]) for c in ev), f"the error response does not carry the message: {short(w.body)}", where)
                    R.ob(f"{nm}: error service", sid is not None and E.eq(o.st, sid, ("c", -1)), f"service ID {short(sid)}", where)
                else:
                    R.ob(f"{nm}: service ID", sid is not None and E.same_value(o.st, sid, args[1]), f"{nm} writes service ID {short(sid)}", where, path_of(o))
                    R.ob(f"{nm}: body", w.body is not None and into_ok(E, o.st, w.body, args[2], s.ev), f"{nm} writes body {short(w.body)}", where, path_of(o))
                if ty in BOUND:
                    rid = hfield(E, o, w.hdr, "request_id")
                    own = accessor(F, E, s, args[0], name, "request_id")
                    R.ob(f"{nm}: request ID", own is not None and rid is not None and E.same_value(o.st, rid, own), f"{nm} writes request ID {short(rid)}, the handle is for {short(own)}", where, path_of(o))


def cells(E, st, v, seen=None, out=None):
    """plain data reachable from a value: location -> value"""
    if out is None: out = {}; seen = set()
    def go(v, loc, tid):
        if not isinstance(v, tuple) or not v: return
        if v[0] == "ref":
            k = (v[1], v[2])
            if k in seen: return
            seen.add(k)
            try: w = E.load(st, v[1], v[2])
            except Unsupported: return
            go(w, k, E.pointee(tid) if isinstance(tid, int) else None); return
        if v[0] in ("tx", "rx", "map", "moved", "bytes"): return
        if v[0] == "S":
            t = v[1] if isinstance(v[1], int) else tid
            a = E.adt_of(t) if isinstance(t, int) else None
            if a is not None and len(E.dump.adts[a]["variants"]) > 1:
                out[loc] = v
                return
            for i, x in enumerate(v[3]):
                go(x, (loc[0], loc[1] + ((v[2], i),)) if loc else None, E.field_ty(t, v[2], i) if isinstance(t, int) else None)
            return
        if loc is not None: out[loc] = v
    go(v, None, None)
    return out
def changes(E, o, loop):
    """locations of the loop's plain data that differ between the beginning and the end of an outcome"""
    res = []
    base = loop["heads"][0]
    for loc, old in cells(E, base, loop["v"]).items():
        try: new = E.load(o.st, loc[0], loc[1])
        except Unsupported: continue
        if not E.same_value(o.st, old, new): res.append((loc, old, new))
    return res

def sent_map(F):
    """the map in which sent requests are registered, with the inserts"""
    ms = set()
    for name, ty, V, st, ocs in send_ops(F, (REQ,)):
        for o in ocs:
            for e in o.ev:
                if e.k == "map_insert": ms.add(e["map"])
    if len(ms) != 1: raise Giveup(f"sent requests are registered in {len(ms)} maps")
    return ms.pop()
def msg_parts(F, o, msg):
    E = F.E
    h = fieldn(E, o.st, msg, "header")
    return h, fieldn(E, o.st, h, "message_type"), fieldn(E, o.st, h, "request_id"), fieldn(E, o.st, h, "service_id"), fieldn(E, o.st, msg, "body")
def received_map(F):
    ms = set()
    for msg, o, V in F.incoming_msgs():
        for e in o.ev:
            if e.k == "map_insert": ms.add(e["map"])
    if len(ms) != 1: raise Giveup(f"received requests are registered in {len(ms)} maps")
    return ms.pop()
def in_type(F, o, msg):
    t = msg_parts(F, o, msg)[1]
    return enum_names(F.E, o.st, t) or []

def handle_of(F, st, v, tid_hint=None):
    return v
def accessor_of(F, st, h, path):
    """request_id()/service_id() of a handle value"""
    E = F.E
    f = find(F.d, path)
    if len(f) != 1: return None
    s = st.copy(); b = E.newbox(s, h, "T")
    r = call_pure(E, f[0], [("ref", b, ())], s)
    return r[0][0] if len(r) == 1 else None

def c10(R):
    R.rule("For every path of the command loop through a send-request command: registration only of a key the map was found not to contain, the key is the ID of the written request and of the handle in the answer; "
           "a path without registration writes nothing and answers with an error; the search moves to another ID on every iteration and cannot overflow.")
    F = facts(R); E, m = F.E, F.m
    where = m.cmd["fn"]
    M = sent_map(F)
    reg = 0
    for name, ty, V, st, ocs in send_ops(F, (REQ,)):
        nm = short_name(name)
        tx = reply_tx(E, st, V)[0]
        for o in ocs:
            if o.k == "panic":
                R.fail("registration cannot panic", f"processing a request to send can panic: {short(o.v, 100) if o.v else ''}", where, path_of(o)); continue
            if o.k not in ("wait", "exit"): continue
            R.count("paths")
            ins = [e for e in o.ev if e.k == "map_insert"]
            lo = nested_effects(o, ("map_insert", "map_bulk"))
            R.ob("registered at most once", len(ins) <= 1 and not lo, f"{len(ins)} registrations for one request", where, path_of(o))
            ws = writes(o)
            an = [e for e in o.ev if e.k == "answer" and e["chan"] == tx]
            ok = [a for a in an if 0 in (E.possible_variants(o.st, a["value"]) or [0])]
            if not ins:
                R.ob("no ID, no request", not ws and not ok, "a request is written or answered with a handle without having been registered", where, path_of(o)); continue
            reg += 1
            e = ins[-1]
            R.ob("only free IDs are registered", e["fresh"] is True and e["map"] == M, f"the registration of ID {short(e['key'], 60)} can replace an open request", where, path_of(o))
            for w in ws:
                R.ob("the written ID is the registered one", E.same_value(o.st, hfield(E, o, w.hdr, "request_id"), e["key"]), f"the request is written with ID {short(hfield(E, o, w.hdr, 'request_id'), 80)}, registered is {short(e['key'], 80)}", where, path_of(o))
            for a in ok:
                h = E.field(o.st, a["value"], 0, 0)
                rid = accessor_of(F, o.st, h, "request::SentRequestHandle::request_id"); sid = accessor_of(F, o.st, h, "request::SentRequestHandle::service_id")
                R.ob("the handle has the registered ID", rid is not None and E.same_value(o.st, rid, e["key"]), f"the handle has ID {short(rid, 80)}, registered is {short(e['key'], 80)}", where, path_of(o))
                sv = fieldn(E, st, E.field(st, V, E.variant(st, V), 0), "service_id") if False else None
                w = ws[0] if ws else None
                if w is not None and sid is not None:
                    R.ob("the handle has the service ID", E.same_value(o.st, sid, hfield(E, o, w.hdr, "service_id")), f"the handle has service ID {short(sid)}", where, path_of(o))
            # the search: each iteration tries another ID
            for l in o.ev:
                if l.k != "loop": continue
                for g in l["info"].segs:
                    if g.k != "back": continue
                    if not any(x[0] == M for x in g.st.pres): continue
                    moved = []
                    for loc, old in cells(E, g.head, m.cmd["v"]).items():
                        try: new = E.load(g.st, loc[0], loc[1])
                        except Unsupported: continue
                        if not E.same_value(g.st, old, new): moved.append(loc)
                    local = [b for b in g.head.mem if b in g.st.mem and g.head.mem[b] != g.st.mem[b]]
                    keys = [k for (mm, k), p in g.st.pres.items() if mm == M and p is True]
                    key_state = any(mentions(k, v) for k in keys for b in local for v in changed_parts(g.head.mem[b], g.st.mem[b])) or any(mentions(k, E.load(g.head, loc[0], loc[1])) for k in keys for loc in moved)
                    R.ob("the search tries another ID", bool(moved) or key_state, "after an ID that is in use the search tries the same ID again", where, trace_of(g.st))
    R.need(reg, "the registration of sent requests")

def changed_parts(v, w):
    """the parts of a value that differ in another value of the same shape"""
    if v == w: return []
    if v[0] == w[0] == "S" and v[2] == w[2] and len(v[3]) == len(w[3]):
        return [p for x, y in zip(v[3], w[3]) for p in changed_parts(x, y)]
    return [v] if v[0] != "c" else []

def c16(R):
    R.rule("For every path of the command loop through a send-request command: the registration precedes the write, the ID is unregistered on every path on which the write failed or the answer could not be delivered, and stays registered on the others.")
    F = facts(R); E, m = F.E, F.m
    where = m.cmd["fn"]
    M = sent_map(F)
    n = 0
    for name, ty, V, st, ocs in send_ops(F, (REQ,)):
        tx = reply_tx(E, st, V)[0]
        for o in ocs:
            if o.k not in ("wait", "exit"): continue
            ins = [(i, e) for i, e in enumerate(o.ev) if e.k == "map_insert" and e["map"] == M]
            ws = writes(o)
            for w in ws:
                R.ob("registered before written", any(i < w.i for i, e in ins), "the request is written before it is registered, so an early reply would be rejected", where, path_of(o))
            if not ins: continue
            n += 1
            key = ins[-1][1]["key"]
            ops = [e for e in o.ev if e.k in ("map_insert", "map_remove") and e["map"] == M and E.same_value(o.st, e["key"], key)]
            gone = ops[-1].k == "map_remove"
            an = [e for e in o.ev if e.k == "answer" and e["chan"] == tx]
            okans = [a for a in an if E.variant(o.st, a["value"]) == 0]
            wrote = bool(ws) and all(w.res is not None and E.variant(o.st, w.res) == 0 for w in ws)
            if not wrote:
                R.ob("a request that was not written is unregistered", gone, "the request stays registered although it was not written", where, path_of(o)); continue
            if not okans:
                R.ob("a request not handed out is unregistered", gone, "the request stays registered although the caller got no handle", where, path_of(o)); continue
            pv = E.possible_variants(o.st, okans[-1]["ret"]) or [0, 1]
            if 1 in pv:
                R.ob("a request whose caller is gone is unregistered", gone, "the request stays registered although the handle could not be delivered", where, path_of(o))
            if 0 in pv:
                R.ob("a delivered request stays registered", not gone, "a request whose handle was delivered is unregistered", where, path_of(o))
            others = [e for e in o.ev if e.k in ("map_remove", "map_bulk") and not (e.k == "map_remove" and e["map"] == M and E.same_value(o.st, e["key"], key))]
            R.ob("no other request is touched", not others, f"sending a request removes another one: {others}", where, path_of(o))
    R.need(n, "the registration of sent requests")

def c11(R):
    R.rule("For every path of the command loop through a received message of each type: it goes to the queue of the entry found under its own ID in the map of its direction, to the peer handle (requests, stream messages), "
           "or produces an error at the peer handle; no other entry is touched.")
    F = facts(R); E, m = F.E, F.m
    where = m.cmd["fn"]
    Ms, Mr = sent_map(F), received_map(F)
    R.ob("the two directions have separate registers", Ms != Mr, "sent and received requests share one map, so IDs of the two directions collide", where)
    seen = set()
    for msg, o, V in F.incoming_msgs():
        if o.k == "panic":
            continue
        if o.k not in ("wait", "exit"): continue
        hdr, mt, rid, sid, body = msg_parts(F, o, msg)
        for t in in_type(F, o, msg):
            R.count("message paths")
            inc = [e for e in o.ev if e.k == "send" and e["chan"] == m.inc_tx]
            qs = [e for e in o.ev if e.k == "send" and e["chan"] not in (m.inc_tx, m.cmd_tx)]
            carrying = [e for e in qs if mentions(e["value"], msg) or mentions(e["value"], body)]
            if t in (REQ, STREAM):
                R.ob(f"{t}: goes to the peer handle only", not carrying, f"an incoming {t} is put in the queue of a request", where, path_of(o))
                if t == STREAM:
                    seen.add((t, True))
                    R.ob("Stream: delivered to the peer handle", len(inc) == 1 and E.variant(o.st, inc[0]["value"]) == 0 and mentions(deep(E, o.st, inc[0]["value"]), msg), f"{len(inc)} deliveries of a stream message", where, path_of(o))
                    touch = [e for e in o.ev if e.k in ("map_insert", "map_remove", "atomic_store")]
                    R.ob("Stream: touches no request", not touch, f"{[e.k for e in touch]}", where, path_of(o))
                elif init_presence(o, Mr, rid, E) is not True:
                    seen.add((t, True))
                    good = len(inc) == 1 and E.variant(o.st, inc[0]["value"]) == 0 and mentions(deep(E, o.st, inc[0]["value"]), body)
                    R.ob("Request: delivered to the peer handle", good, "an incoming request whose ID is free is not delivered", where, path_of(o))
                continue
            M = Mr if t == RQU else Ms
            other = Ms if t == RQU else Mr
            p = init_presence(o, M, rid, E)
            touched = [e for e in o.ev if e.k in ("map_insert", "map_remove", "map_bulk") and (e["map"] == other or e.k != "map_remove" or not E.same_value(o.st, e["key"], rid))]
            R.ob(f"{t}: touches no other request", not touched, f"an incoming {t} changes {[(e.k, short(e['key'] or (), 60)) for e in touched]}", where, path_of(o))
            stores = [e for e in o.ev if e.k == "atomic_store"]
            bad = [e for e in stores if not entry_mention(e["loc"], M, rid)]
            R.ob(f"{t}: closes no other request", not bad, f"an incoming {t} sets the flag {[short(e['loc'], 80) for e in bad]}", where, path_of(o))
            if p is True:
                seen.add((t, True))
                R.ob(f"{t}: goes to its request", len(carrying) == 1 and entry_mention(carrying[0]["chan"], M, rid), f"the message goes to {[short(e['chan'], 100) for e in carrying]}", where, path_of(o))
                for e in carrying:
                    R.ob(f"{t}: unaltered", mentions(deep(E, o.st, e["value"]), msg) or whole_message(E, o, e["value"], hdr, body), f"delivered is {short(e['value'], 100)}", where, path_of(o))
                    pv = E.possible_variants(o.st, e["ret"]) or [0, 1]
                    if 0 in pv:
                        R.ob(f"{t}: no error when delivered", not inc, "an error is reported for a message that was delivered", where, path_of(o))
                    elif t != RESP:
                        R.ob(f"{t}: an undeliverable update is reported", len(inc) == 1 and E.variant(o.st, inc[0]["value"]) == 1, "an update whose request handle is gone is dropped silently", where, path_of(o))
            elif p is False:
                seen.add((t, False))
                R.ob(f"{t}: unknown ID is an error at the peer handle", len(inc) == 1 and E.variant(o.st, inc[0]["value"]) == 1, f"a {t} for an unknown request gives {len(inc)} reports", where, path_of(o))
                R.ob(f"{t}: unknown ID disturbs no request", not qs and not stores, f"a {t} for an unknown request reaches {[short(e['chan'], 80) for e in qs]}", where, path_of(o))
            else:
                R.fail(f"{t}: looked up", f"an incoming {t} is processed without looking its ID up in the right register", where, path_of(o))
    for t, p in (((RESP, True), (RESP, False)) + ((RQU, True), (RQU, False)) + ((RSU, True), (RSU, False)) + ((STREAM, True),)):
        R.ob(f"{t} with {'known' if p else 'unknown'} ID is processed", (t, p) in seen, f"no path of the command loop processes a {t} with {'a known' if p else 'an unknown'} ID", where)

def entry_mention(v, M, key):
    """the value belongs to the entry of the map under the key"""
    if isinstance(v, tuple):
        if v and v[0] == "mapval": return v[1] == M and v[2] == key
        return any(entry_mention(x, M, key) for x in v if isinstance(x, tuple))
    return False
def whole_message(E, o, v, hdr, body):
    found = []
    def f(x):
        if x[0] == "S" and isinstance(x[1], int) and (E.adt_of(x[1]) or "").endswith("message::Message"):
            h = fieldn(E, o.st, x, "header"); b = fieldn(E, o.st, x, "body")
            if h is not None and b is not None and E.same_value(o.st, h, hdr) and E.same_value(o.st, b, body): found.append(x)
    reach(E, o.st, v, f)
    return bool(found)


def all_outcomes(F):
    """(what, outcome) for every command of every origin"""
    for name, ty, V, st, ocs in send_ops(F):
        for o in ocs: yield short_name(name), o
    for msg, o, V in F.incoming_msgs(): yield "incoming message", o
    for err, o, V in F.incoming_errs(): yield "incoming error", o

def boxed_bool(E, st, loc):
    try: v = E.load(st, loc[0], loc[1])
    except Unsupported: return None
    while v[0] == "S" and len(v[3]) == 1: v = v[3][0]
    return v

def removal_rule(R, F, o, what, e, where):
    """a removed entry has its flag set and its reader woken in the same step"""
    E = F.E
    val = e["value"]; tid = E.tyof(val) if val[0] != "S" else val[1]
    fl = flags(E, o.st, val, tid); qs = txs(E, o.st, val, tid)
    if not fl: raise Giveup("tracked requests have no closed flag of a known kind")
    i = o.ev.index(e)
    stores = [x for x in o.ev if x.k == "atomic_store" and E.ptr_loc(o.st, x["loc"]) in fl]
    R.ob("removing a request sets its closed flag", any(E.truth(o.st, x["value"]) is True for x in stores), f"{what}: the request is removed but its write handles are not told", where, path_of(o))
    sends = [(j, x) for j, x in enumerate(o.ev) if x.k == "send" and x["chan"] in qs]
    dropped = [x for x in o.ev if x.k == "drop" and (x["value"] in qs or any(mentions(x["value"], q) for q in qs))]
    R.ob("removing a request wakes its reader", bool(sends) or bool(dropped), f"{what}: the request is removed but its reader is not told", where, path_of(o))
    return fl, qs, sends

def c12(R):
    R.rule("For every path of the command loop: an incoming response for an open request is queued for it, the entry is removed and its flag set without an await in between, and nothing precedes the response in that step's queueing; "
           "every removal of an entry, for whatever reason, sets the flag of exactly that entry and wakes its reader; a written response removes the entry.")
    F = facts(R); E, m = F.E, F.m
    where = m.cmd["fn"]
    Ms, Mr = sent_map(F), received_map(F)
    n = 0
    for msg, o, V in F.incoming_msgs():
        if o.k not in ("wait", "exit") or in_type(F, o, msg) != [RESP]: continue
        hdr, mt, rid, sid, body = msg_parts(F, o, msg)
        if init_presence(o, Ms, rid, E) is not True: continue
        n += 1
        rem = [e for e in o.ev if e.k == "map_remove" and e["map"] == Ms and E.same_value(o.st, e["key"], rid)]
        if not R.ob("a response closes its request", len(rem) == 1, "an incoming response leaves its request registered", where, path_of(o)): continue
        fl, qs, sends = removal_rule(R, F, o, "response", rem[0], where)
        own = [(j, x) for j, x in sends if mentions(x["value"], msg) or whole_message(E, o, x["value"], hdr, body)]
        if not R.ob("the response is queued for its request", len(own) == 1, f"the response is queued {len(own)} times", where, path_of(o)): continue
        R.ob("the response is queued before the end marker", own[0][0] == min(j for j, x in sends), "the end of the request is queued before its response, so the response is lost", where, path_of(o))
        idx = [o.ev.index(rem[0]), own[0][0]] + [j for j, x in enumerate(o.ev) if x.k == "atomic_store"]
        aw = [x for j, x in enumerate(o.ev) if x.k in ("await", "recv", "oneshot_recv") and min(idx) < j < max(idx)]
        R.ob("closing a request is one step", not aw, "the peer waits for something between delivering a response and closing the request", where, path_of(o))
    R.need(n, "the processing of a response for an open request")
    k = 0
    for name, ty, V, st, ocs in send_ops(F, (RESP,)):
        for o in ocs:
            if o.k not in ("wait", "exit"): continue
            ws = writes(o)
            if not ws or ws[-1].res is None or E.variant(o.st, ws[-1].res) != 0: continue
            k += 1
            rid = hfield(E, o, ws[-1].hdr, "request_id")
            rem = [e for e in o.ev if e.k == "map_remove" and e["map"] == Mr and E.same_value(o.st, e["key"], rid)]
            R.ob("a written response closes its request", bool(rem) or init_presence(o, Mr, rid, E) is False, "the request stays registered after its response was written", where, path_of(o))
    R.need(k, "the processing of a written response")
    r = 0
    for what, o in all_outcomes(F):
        if o.k not in ("wait", "exit"): continue
        for e in o.ev:
            if e.k == "map_remove":
                r += 1
                removal_rule(R, F, o, what, e, where)
            if e.k == "map_bulk":
                R.fail("requests are removed one by one", f"{what}: {e['op']} removes requests without closing them", where, path_of(o))
        lo = nested_effects(o, ("map_remove",))
        R.ob("no removal in a loop", not lo, f"{what}: requests are removed in a loop", where, path_of(o))
    R.count("removals", r)

def c13(R):
    R.rule("For every path of the command loop through a message bound to a request: the write is preceded, after the command was taken from the queue, by a load of the closed flag of the handle's request that gave false; "
           "at registration the entry, the handle and all its clones share one fresh flag, initially false; every removal sets the flag of the removed entry; no store clears one.")
    F = facts(R); E, m = F.E, F.m
    where = m.cmd["fn"]
    n = 0
    for name, ty, V, st, ocs in send_ops(F, BOUND):
        nm = short_name(name)
        f, args, outs, sent = F.op(name)
        fl = flags(E, st, args[0], f.locals[1])
        if not fl: raise Giveup("request handles have no closed flag of a known kind")
        for o in ocs:
            if o.k not in ("wait", "exit"): continue
            for w in writes(o):
                n += 1
                lo = [x for x in o.ev[:w.i] if x.k == "atomic_load" and E.ptr_loc(o.st, x["loc"]) in fl and E.truth(o.st, x["ret"]) is False]
                R.ob(f"{nm}: not written after the request was closed", bool(lo), f"the message of {nm} is written without checking, after it was queued, that its request is still open", where, path_of(o))
                if lo:
                    j = o.ev.index(lo[-1])
                    aw = [x for x in o.ev[j:w.i] if x.k in ("await", "recv")]
                    R.ob(f"{nm}: checked right before the write", not aw, "the peer waits for something else between the check and the write", where, path_of(o))
        # the refused sender
        for o in outs:
            pass
    R.need(n, "writes of messages bound to a request")
    # registration
    reg = 0
    for name, ty, V, st, ocs in send_ops(F, (REQ,)):
        tx = reply_tx(E, st, V)[0]
        for o in ocs:
            for e in o.ev:
                if e.k != "map_insert": continue
                for a in o.ev:
                    if a.k == "answer" and a["chan"] == tx and E.variant(o.st, a["value"]) == 0:
                        reg += 1
                        same_flag(R, F, o, e, E.field(o.st, a["value"], 0, 0), "sent request", where)
    for msg, o, V in F.incoming_msgs():
        for e in o.ev:
            if e.k != "map_insert": continue
            for a in o.ev:
                if a.k == "send" and a["chan"] == m.inc_tx and E.variant(o.st, a["value"]) == 0:
                    reg += 1
                    same_flag(R, F, o, e, E.field(o.st, a["value"], 0, 0), "received request", where)
    R.need(reg, "the registration of requests")
    # clones
    cl = 0
    for name in ("request::SentRequestHandle::write_handle", "request::ReceivedRequestHandle::write_handle"):
        f, args, outs, sent = F.op(name)
        for o in outs: clone_rule(R, F, f, args, o, short_name(name)); cl += 1
    for f in impls(F.d, "core::clone::Clone", "clone"):
        t = tystr(E, f.impl_self)
        if "RequestWriteHandle<" in t and "macros" not in t:
            F.tag += 1
            args, outs, sent = m.op(f, None, F.tag)
            for o in outs: clone_rule(R, F, f, args, o, "clone of " + t.split("<")[0]); cl += 1
    R.count("clone paths", cl)
    # stores
    for what, o in all_outcomes(F):
        for e in o.ev:
            if e.k == "atomic_store":
                R.ob("a closed flag is never cleared", E.truth(o.st, e["value"]) is True, f"{what}: a closed flag is set to {short(e['value'])}", where, path_of(o))
            if e.k == "map_remove" and o.k in ("wait", "exit"):
                removal_rule(R, F, o, what, e, where)
            if e.k == "map_insert" and not e["fresh"]:
                R.fail("no open request is replaced", f"{what}: an open request is replaced without being closed", where, path_of(o))

def same_flag(R, F, o, e, h, what, where):
    E = F.E
    fe = flags(E, o.st, e["value"], E.tyof(e["value"]) if e["value"][0] != "S" else e["value"][1])
    fh = flags(E, o.st, h, h[1] if h[0] == "S" else E.tyof(h))
    R.ob(f"{what}: handle and entry share the flag", len(fe) == 1 and len(fh) >= 1 and set(fh) == set(fe), f"the entry's flag is {[short(x, 60) for x in fe]}, the handle's {[short(x, 60) for x in fh]}", where, path_of(o))
    if fe and fe[0][0][0] == "B":
        R.ob(f"{what}: the flag is fresh and false", E.truth(o.st, boxed_bool(E, o.st, fe[0]) or ("c", 1)) is False and fe[0][0] not in F.m.cmd["heads"][0].mem, "a new request starts with a flag that is shared with another one or already set", where, path_of(o))
    elif fe:
        R.fail(f"{what}: the flag is fresh and false", "a new request uses an existing flag", where, path_of(o))

def clone_rule(R, F, f, args, o, what):
    E = F.E
    if o.k != "ret": return
    a = flags(E, o.st, args[0], f.locals[1]); b = flags(E, o.st, o.v, f.locals[0])
    R.ob(f"{what}: keeps the flag", set(a) == set(b) and len(b) >= 1, f"the flag of the new handle is {[short(x) for x in b]}", f, trace_of(o.st))
    ta = txs(E, o.st, args[0], f.locals[1]); tb = txs(E, o.st, o.v, f.locals[0])
    R.ob(f"{what}: keeps the peer", set(ta) >= set(tb) and len(tb) >= 1, "the new handle belongs to another peer", f)
    t = tystr(E, strip_ref(E, f.locals[0])).split("<")[0]
    s = strip_ref(E, f.locals[1]); ts = tystr(E, s).split("<")[0]
    for acc in ("request_id", "service_id"):
        x = accessor_of(F, o.st, o.v, f"{t}::{acc}"); y = accessor(F, E, o.st, args[0], ts + "::x", acc)
        R.ob(f"{what}: keeps the {acc}", x is not None and y is not None and E.same_value(o.st, x, y), f"{acc} of the new handle is {short(x)}", f)

def c15(R):
    R.rule("For every path of the command loop through an incoming request: with a registered ID, exactly an error at the peer handle and no change of any register, flag, queue or wire; with a free ID, a registration of that ID and a handle whose ID, service ID, queue and peer are those of the request.")
    F = facts(R); E, m = F.E, F.m
    where = m.cmd["fn"]
    Mr = received_map(F)
    seen = set()
    for msg, o, V in F.incoming_msgs():
        if REQ not in in_type(F, o, msg): continue
        hdr, mt, rid, sid, body = msg_parts(F, o, msg)
        if o.k not in ("wait", "exit"): continue
        p = init_presence(o, Mr, rid, E)
        R.count("request paths")
        inc = [e for e in o.ev if e.k == "send" and e["chan"] == m.inc_tx]
        if not R.ob("the ID of an incoming request is looked up", p is not None, "an incoming request is processed without looking up whether its ID is in use", where, path_of(o)): continue
        seen.add(p)
        if p:
            eff = [e for e in o.ev if e.k in ("map_insert", "map_remove", "map_bulk", "atomic_store") or (e.k == "send" and e["chan"] != m.inc_tx)] + writes(o)
            R.ob("a duplicate disturbs nothing", not eff, f"a duplicate request ID has the effects {[getattr(e, 'k', 'write') for e in eff]}", where, path_of(o))
            R.ob("a duplicate is reported", len(inc) == 1 and E.variant(o.st, inc[0]["value"]) == 1, "a duplicate request ID is not reported as an error", where, path_of(o))
            R.ob("a duplicate does not stop the peer", o.k == "wait" or handles_gone(F, o), "a duplicate request ID stops the peer", where, path_of(o))
        else:
            ins = [e for e in o.ev if e.k == "map_insert" and e["map"] == Mr and E.same_value(o.st, e["key"], rid)]
            if not R.ob("a new request is registered under its ID", len(ins) == 1 and len([e for e in o.ev if e.k == "map_insert"]) == 1, f"{len(ins)} registrations under the request's ID", where, path_of(o)): continue
            if not R.ob("a new request is delivered", len(inc) == 1 and E.variant(o.st, inc[0]["value"]) == 0, f"{len(inc)} deliveries of a new request", where, path_of(o)): continue
            R.ob("registered before delivered", o.ev.index(ins[0]) < o.ev.index(inc[0]), "the request is delivered before it is registered", where, path_of(o))
            rm = E.field(o.st, inc[0]["value"], 0, 0)
            R.ob("delivered as a request", enum_name(E, o.st, rm) == "Request", f"a request is delivered as {enum_name(E, o.st, rm)}", where, path_of(o))
            k = E.variant(o.st, rm)
            if k is None: continue
            h = E.field(o.st, rm, k, 0); b = E.field(o.st, rm, k, 1)
            x = accessor_of(F, o.st, h, "request::ReceivedRequestHandle::request_id"); y = accessor_of(F, o.st, h, "request::ReceivedRequestHandle::service_id")
            R.ob("the handle has the request's ID", x is not None and E.same_value(o.st, x, rid), f"the handle has ID {short(x)}", where, path_of(o))
            R.ob("the handle has the request's service ID", y is not None and E.same_value(o.st, y, sid), f"the handle has service ID {short(y)}", where, path_of(o))
            R.ob("the body is the request's", E.same_value(o.st, b, body), f"the body delivered is {short(b)}", where, path_of(o))
            handle_rule(R, F, o, ins[0], h, where)
    R.ob("both cases occur", seen >= {True, False}, f"the command loop distinguishes only {seen}", where)
    handle_sent(R, F, where)

def handle_rule(R, F, o, ins, h, where, what="received request"):
    """the handle's queue is the entry's, its peer is this one"""
    E, m = F.E, F.m
    et = ins["value"][1] if ins["value"][0] == "S" else E.tyof(ins["value"])
    ht = h[1] if h[0] == "S" else E.tyof(h)
    te = [x for x in txs(E, o.st, ins["value"], et)]
    rh = rxs(E, o.st, h, ht)
    R.ob(f"{what}: updates reach the handle", len(te) == 1 and len(rh) == 1 and te[0][0] == "tx" and rh[0] == ("rx",) + te[0][1:], f"the entry queues to {[short(x) for x in te]}, the handle reads {[short(x) for x in rh]}", where, path_of(o))
    if te and te[0][0] == "tx":
        made = [e for e in o.ev if e.k == "channel" and e["tx"] == te[0]]
        R.ob(f"{what}: the queue is new and unbounded", len(made) == 1 and made[0]["bound"] is None, "the request shares its queue with another one, or the queue is bounded", where, path_of(o))
    R.ob(f"{what}: the handle belongs to this peer", set(txs(E, o.st, h, ht)) == {m.cmd_tx}, f"the handle sends to {[short(x) for x in txs(E, o.st, h, ht)]}", where, path_of(o))

def handle_sent(R, F, where):
    E = F.E
    for name, ty, V, st, ocs in send_ops(F, (REQ,)):
        tx = reply_tx(E, st, V)[0]
        for o in ocs:
            ins = [e for e in o.ev if e.k == "map_insert"]
            for a in o.ev:
                if ins and a.k == "answer" and a["chan"] == tx and E.variant(o.st, a["value"]) == 0:
                    handle_rule(R, F, o, ins[-1], E.field(o.st, a["value"], 0, 0), where, "sent request")

def c18(R):
    R.rule("For every path of the command loop through a message bound to a request: the received request is unregistered or closed only if the message is its response and the transport's write of it returned Ok, in that order, and only under its own ID; a non-fatal write error leaves the loop running.")
    F = facts(R); E, m = F.E, F.m
    where = m.cmd["fn"]
    n = 0
    for name, ty, V, st, ocs in send_ops(F, BOUND + (STREAM,)):
        nm = short_name(name)
        for o in ocs:
            if o.k not in ("wait", "exit"): continue
            n += 1
            ws = writes(o)
            eff = [(j, e) for j, e in enumerate(o.ev) if e.k in ("map_remove", "map_bulk", "map_insert", "atomic_store") or (e.k == "send" and e["chan"] not in (m.inc_tx, m.cmd_tx))]
            ok = [w for w in ws if w.res is not None and E.variant(o.st, w.res) == 0]
            if ty != RESP:
                R.ob(f"{nm}: closes nothing", not eff, f"{nm} has the effects {[e.k for j, e in eff]} on the registers", where, path_of(o))
            else:
                failed = [w for w in ws if w.res is not None and E.variant(o.st, w.res) == 1 and False in fatal(E, F.d, o.st, E.field(o.st, w.res, 1, 0))]
                if failed or not ws:
                    R.ob(f"{nm}: a response that was not written closes nothing", not eff, f"after a failed write of the response the request is closed ({[e.k for j, e in eff]})", where, path_of(o))
                for w in ok:
                    R.ob(f"{nm}: closed after the write", all(j > w.j for j, e in eff), "the request is closed before its response was written", where, path_of(o))
                    rid = hfield(E, o, w.hdr, "request_id")
                    bad = [e for j, e in eff if e.k == "map_remove" and not E.same_value(o.st, e["key"], rid)]
                    R.ob(f"{nm}: closes its own request", not bad, f"a response closes the request {[short(e['key']) for e in bad]}", where, path_of(o))
            for w in ws:
                if w.res is not None and E.variant(o.st, w.res) == 1 and fatal(E, F.d, o.st, E.field(o.st, w.res, 1, 0)) == {False}:
                    R.ob(f"{nm}: a non-fatal write error leaves the peer running", o.k == "wait" or handles_gone(F, o), "a non-fatal write error stops the peer", where, path_of(o))
    R.need(n, "the processing of messages bound to a request")

# ---- lifetime of the loop --------------------------------------------------------------------------------------------
def handle_tid(F, name):
    """type of a handle, generic in the body"""
    fs = [f for f in all_roots(F.d) if f.kind == "fn" and f.name.startswith(name + "::") and not f.impl_trait and f.argc >= 1]
    for f in fs:
        t = strip_ref(F.E, f.locals[1])
        if isinstance(t, int) and F.E.adt_of(t) == name: return t
    F.R.need(False, f"the type {name}")

def life(F):
    """(location of the write handle counter, location of the read-handle-gone flag), found by what dropping a handle does"""
    if hasattr(F, "_life"): return F._life
    E, m = F.E, F.m
    cnt, flg = set(), set()
    for tn, out in (("peer_handle::PeerWriteHandle", cnt), ("peer_handle::PeerReadHandle", flg)):
        f, args, outs, sent = F.drops(handle_tid(F, tn))
        for s, e in sent:
            for o in F.cmd(e["value"], s):
                if o.k not in ("wait", "exit"): continue
                for loc, old, new in changes(E, o, m.cmd): out.add(loc)
    if len(cnt) != 1 or len(flg) > 1: raise Giveup(f"dropping a write handle changes {len(cnt)} numbers of the peer, dropping the read handle {len(flg)}")
    if not flg:
        # the flag that must be set for the loop to end
        for o in F.cmd_any():
            if o.k == "exit0":
                for loc, v in cells(E, m.cmd["heads"][0], m.cmd["v"]).items():
                    if E.truth(o.st, v) is True and E.truth(m.cmd["heads"][0], v) is None: flg.add(loc)
        if len(flg) != 1: raise Giveup("no single flag for the read handle")
    F._life = (cnt.pop(), flg.pop())
    return F._life
def cmd_any(self):
    f, args, outs, sent = self.drops(handle_tid(self, "peer_handle::PeerWriteHandle"))
    for s, e in sent: return self.cmd(e["value"], s)
    return []
Facts.cmd_any = cmd_any
def handles_gone(F, o):
    """the state says that no handle is left"""
    E = F.E
    c, f = life(F)
    n = E.load(o.st, *c)
    return (E.eq(o.st, n, ("c", 0)) is True or E.le(o.st, n, ("c", 0))) and E.truth(o.st, E.load(o.st, *f)) is True
def handles_left(F, o):
    """the state says that some handle is left"""
    E = F.E
    c, f = life(F)
    if E.truth(o.st, E.load(o.st, *f)) is False: return True
    n = E.load(o.st, *c)
    if E.lt(o.st, ("c", 0), n) is True: return True
    s = E.assume(o.st.copy(), E.cmp("eq", n, ("c", 0)), True)
    return s is None

def effect(F, V, st):
    """what a command does to the life of the loop: (change of the counter, flag set, stops)"""
    E, m = F.E, F.m
    c, f = life(F)
    res = set()
    base = m.cmd["heads"][0]
    for o in F.cmd(V, st):
        if o.k not in ("wait", "exit"): continue
        old, new = E.load(base, *c), E.load(o.st, *c)
        # while a handle's command is queued the count is at least one: it starts with the handles given out and every function keeps it in step
        if not E.add_con(o.st.copy(), lin.le(("c", 1), old)): continue
        d = None
        for k in (0, 1, -1):
            if E.eq(o.st, new, lin.add(old, ("c", k))) is True: d = k
        of, nf = E.load(base, *f), E.load(o.st, *f)
        if E.same_value(o.st, of, nf): fl = "same"
        elif E.truth(o.st, nf) is True: fl = "set"
        else: fl = "other"
        res.add((d, fl, o.k, handles_gone(F, o), handles_left(F, o)))
    return res

def count_adt(E, st, v, tid, name, depth=0):
    """how many values of a type a value owns"""
    if depth > 8: return 0
    if v[0] == "S" and isinstance(v[1], int): tid = v[1]
    t = E.ty(tid) if isinstance(tid, int) else None
    if t is None or t["k"] == "ref" or v[0] == "moved": return 0
    if t["k"] == "tuple": return sum(count_adt(E, st, E.field(st, v, 0, i), x, name, depth + 1) for i, x in enumerate(t["ts"]))
    a = E.adt_of(tid)
    if a == name: return 1
    if a is None or a not in E.dump.adts or not (E.dump.adts[a]["local"] or a in ("core::option::Option", "core::result::Result")): return 0
    k = E.variant(st, v)
    if k is None:
        if len(E.dump.adts[a]["variants"]) != 1: return 0
        k = 0
    return sum(count_adt(E, st, E.field(st, v, k, i), E.field_ty(tid, k, i), name, depth + 1) for i in range(len(E.dump.adts[a]["variants"][k]["fields"])))

WH, RH, CH, PH = "peer_handle::PeerWriteHandle", "peer_handle::PeerReadHandle", "peer_handle::PeerCloseHandle", "peer_handle::PeerHandle"

def c20(R):
    R.rule("The counter and the flag that end the command loop are found by what dropping a handle does to the loop. Every function that creates, clones, consumes or drops peer handles queues commands whose effect on the counter equals the change in the number of live write handles; "
           "the loop waits for another command exactly when the counter is not zero or the flag is not set, and starts from the number of handles Peer::new hands out; every close operation ends it.")
    F = facts(R); E, m = F.E, F.m
    where = m.cmd["fn"]
    c, f = life(F)
    # start values
    rst, rc = m.cmd["raw"]
    hn = count_adt(E, m.st0, m.handle, None, WH)
    v = E.load(rst, *c)
    R.ob("the count starts with the handles given out", E.eq(rst, v, ("c", hn)) is True, f"the count starts at {short(v)}, Peer::new gives out {hn} write handles", m.runf)
    R.ob("the read handle starts alive", E.truth(rst, E.load(rst, *f)) is False, "the loop starts with the read handle marked as gone", m.runf)
    R.ob("Peer::new gives out one read handle", count_adt(E, m.st0, m.handle, None, RH) == 1, "", find(F.d, "Peer::new")[0])
    # commands sent while building the handle
    sent0 = [e for e in m.new_ev if e.k == "send" and e["chan"] == m.cmd_tx]
    R.ob("Peer::new queues nothing", not sent0, f"{len(sent0)} commands are queued by Peer::new", find(F.d, "Peer::new")[0])
    # functions on handles
    def account(fn, name, args, outs, sent, by_value):
        sst = sent[0][0] if sent else None
        for o in outs:
            if o.k != "ret": continue
            cmds = [e for e in o.st.ev if e.k == "send"]
            win = sum(count_adt(E, o.st, a, t, WH) for a, t in by_value)
            rin = sum(count_adt(E, o.st, a, t, RH) for a, t in by_value)
            wout = rout = 0
            if fn is not None:
                rt = E.tyof(o.v) if o.v[0] != "S" else o.v[1]
                wout = count_adt(E, o.st, o.v, rt if isinstance(rt, int) else fn.locals[0], WH); rout = count_adt(E, o.st, o.v, rt if isinstance(rt, int) else fn.locals[0], RH)
            net, reads, unclear = 0, 0, False
            for e in cmds:
                if not E_command(F, e): continue
                cap = next((s for s, x in sent if x["value"] == e["value"]), None)
                effs = {(d, fl) for d, fl, k, g, l in effect(F, e["value"], cap or o.st)}
                ds = {d for d, fl in effs}
                if len(ds) > 1 or None in ds: unclear = True; continue
                net += ds.pop() if ds else 0
                if {fl for d, fl in effs} == {"set"}: reads += 1
            if unclear:
                R.fail(f"{name}: registered", f"a command of {name} changes the handle count in an unclear way", fn or where); continue
            R.ob(f"{name}: write handles counted", wout - win == net, f"{name} changes the number of write handles by {wout - win}, the count by {net}", fn or where, trace_of(o.st), key=f"{name}: write handles counted")
            R.ob(f"{name}: read handle counted", rin - rout == reads, f"{name} drops {rin - rout} read handles, reports {reads}", fn or where, trace_of(o.st))
            R.count("handle functions")
    for h in (WH, RH, CH, PH):
        tid = handle_tid(F, h)
        fn, a, outs, sent = F.drops(tid)
        account(None, "drop of " + h.split("::")[-1], a, outs, sent, [(a[0], tid)])
    todo = []
    for fn in all_roots(F.d):
        if fn.kind != "fn" or "fmt" in fn.name.split("::")[-1] or "test" in fn.path: continue
        if fn.name in ("peer_handle::PeerHandle::new",): continue
        tys = [fn.locals[i + 1] for i in range(fn.argc)]
        names = [E.adt_of(strip_ref(E, t)) for t in tys]
        if not any(n in (WH, RH, CH, PH) for n in names): continue
        if fn.impl_trait and fn.impl_trait.endswith("ops::drop::Drop"): continue
        todo.append((fn, tys))
    known = {fn.name for fn, tys in todo if fn.pub or fn.impl_trait}
    for fn, tys in todo:
        if helper_of(F.d, fn, known): continue
        F.tag += 1
        try:
            args, outs, sent = m.op(fn, None, F.tag)
        except Unsupported as e:
            R.undecided(f"{fn.path}: {e}"); continue
        name = ("clone of " + (E.adt_of(fn.impl_self) or "?").split("::")[-1]) if fn.impl_trait else short_name(fn.name)
        account(fn, name, args, outs, sent, [(a, t) for a, t in zip(args, tys)])
        if fn.name.split("::")[-1] == "close":
            for o in outs:
                if o.k != "ret": continue
                cmds = [e for e in o.st.ev if e.k == "send"]
                stops = False
                for e in cmds:
                    cap = next((s for s, x in sent if x["value"] == e["value"]), None)
                    ks = {k for d, fl, k, g, l in effect(F, e["value"], cap or o.st)}
                    if ks == {"exit"}: stops = True
                R.ob(f"{name}: stops the peer", stops, f"{name} queues {len(cmds)} commands, none of which ends the loop", fn, trace_of(o.st))
    # nobody else makes handles
    # the loop condition
    n = 0
    stopping = set()
    for what, o in life_outcomes(F):
        n += 1
        if o.k == "wait":
            R.ob("the loop ends with the last handle", handles_left(F, o), f"{what}: the loop waits for another command although every handle is gone", where, path_of(o))
        elif o.k == "exit":
            why = "gone" if handles_gone(F, o) else why_exit(F, o)
            R.ob("the loop ends only with the last handle", why is not None or what.startswith("close"), f"{what}: the loop ends although handles are left", where, path_of(o))
        elif o.k == "exit0":
            R.ob("the loop ends only with the last handle", handles_gone(F, o), "the loop ends although handles are left", where, path_of(o))
    R.count("loop paths", n)
    for what, o in life_outcomes(F):
        if o.k not in ("wait", "exit"): continue
        base = m.cmd["heads"][0]
        if what.startswith(("drop", "clone")): continue
        R.ob(f"{what}: does not change the count", E.same_value(o.st, E.load(base, *c), E.load(o.st, *c)), f"{what} changes the number of write handles", where, path_of(o))
        if not E.same_value(o.st, E.load(base, *f), E.load(o.st, *f)):
            bad = [e for e in o.ev if e.k == "send" and e["chan"] == m.inc_tx and 0 not in (E.possible_variants(o.st, e["ret"]) or [0])]
            R.ob(f"{what}: the read handle counts as gone only when it is", bool(bad), f"{what} marks the read handle as gone", where, path_of(o))

def E_command(F, e):
    """is the event a send to a command channel?"""
    t = F.E.tyof(e["chan"])
    return e["chan"] == F.m.cmd_tx or (isinstance(t, int) and is_cmd_tx(F.E, t)) or mentions(e["chan"], F.m.cmd_tx)

def life_outcomes(F):
    yield from all_outcomes(F)
    for h in (WH, RH):
        f, a, outs, sent = F.drops(handle_tid(F, h))
        for s, e in sent:
            for o in F.cmd(e["value"], s): yield "drop of " + h.split("::")[-1], o
    for fn in all_roots(F.d):
        if fn.kind == "fn" and fn.impl_trait and fn.impl_trait.endswith("clone::Clone") and F.E.adt_of(fn.impl_self) == WH:
            F.tag += 1
            args, outs, sent = F.m.op(fn, None, F.tag)
            for s, e in sent:
                for o in F.cmd(e["value"], s): yield "clone of PeerWriteHandle", o

def why_exit(F, o):
    """reasons for which the loop may end while handles are left: a fatal write error, or a failed answer to a request nobody can receive"""
    E, m = F.E, F.m
    for w in writes(o):
        if w.res is not None and E.variant(o.st, w.res) == 1:
            err = E.field(o.st, w.res, 1, 0)
            if True in fatal(E, F.d, o.st, err): return "fatal"
            lost = [e for e in o.ev if e.k == "send" and e["chan"] == m.inc_tx and 0 not in (E.possible_variants(o.st, e["ret"]) or [0])]
            if lost: return "rejection failed"
    return None

def c21(R):
    R.rule("For every path of the read loop: the result of a read is queued for the command loop exactly once, the loop ends exactly after a fatal error (or when the queue is closed). For every path of the command loop: an error is delivered to the peer handle exactly once, "
           "a fatal write error ends the loop after the answer, a non-fatal one does not, and no path panics except on the accounted handle counter.")
    F = facts(R); E, m = F.E, F.m
    rw, where = m.read["fn"], m.cmd["fn"]
    seen = set()
    for o in F.read_laps():
        if o.k == "panic":
            R.fail("the read loop does not panic", f"the read loop can panic: {short(o.v, 100) if o.v else ''}", rw, path_of(o)); continue
        if o.k not in ("wait", "exit"): continue
        R.count("read paths")
        res = F.read_result(o)
        if res is None: continue
        k = E.variant(o.st, res)
        ss = [e for e in o.ev if e.k == "send" and E_command(F, e)]
        if not R.ob("every read result is queued once", len(ss) == 1 and not nested_effects(o, ("send",)), f"a read result leads to {len(ss)} queued commands", rw, path_of(o)): continue
        failed = 0 not in (E.possible_variants(o.st, ss[0]["ret"]) or [0, 1])
        maybe_failed = 1 in (E.possible_variants(o.st, ss[0]["ret"]) or [0, 1])
        if k == 0:
            seen.add("message")
            R.ob("a message is queued unaltered", mentions(deep(E, o.st, ss[0]["value"]), E.field(o.st, res, 0, 0)), f"queued is {short(ss[0]['value'], 100)}", rw, path_of(o))
            R.ob("a message does not stop the read loop", o.k == "wait" or failed, "the read loop stops after a message", rw, path_of(o))
        elif k == 1:
            err = E.field(o.st, res, 1, 0)
            fs = fatal(E, F.d, o.st, err)
            ie = inner(E, F.d, o.st, err)
            R.ob("a read error is queued", ie is not None and mentions(deep(E, o.st, ss[0]["value"]), ie), f"queued is {short(ss[0]['value'], 100)}", rw, path_of(o))
            if True in fs:
                seen.add("fatal")
                R.ob("a fatal read error stops the read loop", o.k == "exit", "the read loop goes on after a fatal error", rw, path_of(o))
            if False in fs:
                seen.add("nonfatal")
                R.ob("a non-fatal read error does not stop the read loop", o.k == "wait" or failed, "the read loop stops after a non-fatal error", rw, path_of(o))
        else:
            # neither branch was taken: the result is passed on as it is
            R.ob("the read result is checked", False, "the read loop does not look at the kind of the read result", rw, path_of(o))
        if failed:
            R.ob("the read loop ends with the command loop", o.k == "exit", "the read loop goes on although nobody takes its messages", rw, path_of(o))
    R.ob("messages, fatal and non-fatal errors occur", seen == {"message", "fatal", "nonfatal"}, f"the read loop distinguishes only {sorted(seen)}", rw)
    n = 0
    for err, o, V in F.incoming_errs():
        if o.k not in ("wait", "exit"): continue
        n += 1
        inc = [e for e in o.ev if e.k == "send" and e["chan"] == m.inc_tx]
        ok = len(inc) == 1 and E.variant(o.st, inc[0]["value"]) == 1
        R.ob("a read error is delivered to the peer handle", ok, f"{len(inc)} deliveries of a read error", where, path_of(o))
        if ok:
            ie = inner(E, F.d, o.st, err)
            R.ob("the delivered error is the read error", ie is not None and E.same_value(o.st, E.field(o.st, inc[0]["value"], 1, 0), ie), f"delivered is {short(inc[0]['value'], 100)}", where, path_of(o))
        R.ob("a read error does not stop the command loop", o.k == "wait" or handles_gone(F, o), "delivering a read error stops the command loop", where, path_of(o))
    R.need(n, "the processing of read errors")
    for msg, o, V in F.incoming_msgs():
        if o.k not in ("wait", "exit"): continue
        hdr, mt, rid, sid, body = msg_parts(F, o, msg)
        for e in o.ev:
            if e.k == "send" and e["chan"] == m.inc_tx and E.variant(o.st, e["value"]) == 1:
                R.ob("a protocol error does not stop the peer", o.k == "wait" or handles_gone(F, o), "a protocol error stops the peer", where, path_of(o))
        inc = [e for e in o.ev if e.k == "send" and e["chan"] == m.inc_tx]
        qs = [e for e in o.ev if e.k == "send" and e["chan"] != m.inc_tx]
        R.ob("every message has an effect or gives an error", bool(inc) or bool(qs), "an incoming message disappears without a trace", where, path_of(o))
    for what, o in life_outcomes(F):
        if o.k == "panic":
            if what.startswith(("drop of PeerWrite", "clone")): continue     # the counter: C20 shows it is balanced
            R.fail("the command loop does not panic", f"{what}: the command loop can panic ({short(o.v, 100) if o.v else ''})", where, path_of(o)); continue
        if o.k not in ("wait", "exit"): continue
        for w in writes(o):
            if w.res is None or E.variant(o.st, w.res) != 1: continue
            fs = fatal(E, F.d, o.st, E.field(o.st, w.res, 1, 0))
            if fs == {True}:
                R.ob("a fatal write error stops the command loop", o.k == "exit", f"{what}: the command loop goes on after a fatal write error", where, path_of(o))
            elif False in fs:
                lost = [e for e in o.ev if e.k == "send" and e["chan"] == m.inc_tx and 0 not in (E.possible_variants(o.st, e["ret"]) or [0])]
                R.ob("a non-fatal write error does not stop the command loop", o.k == "wait" or handles_gone(F, o) or bool(lost), f"{what}: a non-fatal write error stops the peer", where, path_of(o))
                if True in fs:
                    R.ob("a fatal write error stops the command loop", o.k == "exit", f"{what}: the command loop does not look at whether a write error is fatal", where, path_of(o))

def c22(R):
    R.rule("For every path of the command loop through an incoming request or stream message whose delivery to the peer handle failed: for a request, one error response with its own ID is written and its entry removed, and a failed write ends the loop; for a stream message nothing happens.")
    F = facts(R); E, m = F.E, F.m
    where = m.cmd["fn"]
    Mr = received_map(F)
    n = {REQ: 0, STREAM: 0}
    for msg, o, V in F.incoming_msgs():
        if o.k not in ("wait", "exit"): continue
        hdr, mt, rid, sid, body = msg_parts(F, o, msg)
        for t in in_type(F, o, msg):
            if t not in (REQ, STREAM): continue
            inc = [e for e in o.ev if e.k == "send" and e["chan"] == m.inc_tx and E.variant(o.st, e["value"]) == 0]
            if not inc: continue
            pv = E.possible_variants(o.st, inc[0]["ret"]) or [0, 1]
            ws = writes(o)
            if pv == [0]:
                R.ob(f"{t}: a delivered one is not answered by the peer", not ws, f"the peer itself answers a {t} that was delivered", where, path_of(o)); continue
            n[t] += 1
            if t == STREAM:
                eff = ws + [e for e in o.ev if e.k in ("map_insert", "map_remove", "atomic_store", "answer")]
                R.ob("an unreceivable stream message is dropped", not eff and (o.k == "wait" or handles_gone(F, o)), "a stream message that nobody can receive has an effect", where, path_of(o)); continue
            if 0 in pv:
                R.fail("an unreceivable request is answered", "the peer does not look at whether a request could be delivered", where, path_of(o)); continue
            if not R.ob("an unreceivable request is answered", len(ws) == 1, f"{len(ws)} answers to a request nobody can receive", where, path_of(o)): continue
            w = ws[0]
            R.ob("the answer is an error response", mtypes(E, o, w.hdr) == [RESP] and E.eq(o.st, hfield(E, o, w.hdr, "service_id"), ("c", -1)) is True, f"the answer has type {mtypes(E, o, w.hdr)} and service ID {short(hfield(E, o, w.hdr, 'service_id'))}", where, path_of(o))
            R.ob("the answer has the request's ID", E.same_value(o.st, hfield(E, o, w.hdr, "request_id"), rid), f"the answer has the ID {short(hfield(E, o, w.hdr, 'request_id'))}", where, path_of(o))
            rem = [e for e in o.ev if e.k == "map_remove" and e["map"] == Mr and E.same_value(o.st, e["key"], rid)]
            R.ob("the ID becomes free", bool(rem), "the ID of a rejected request stays in use", where, path_of(o))
            if w.res is None:
                R.fail("the answer is awaited", "the answer is not awaited", where, path_of(o)); continue
            kw = E.variant(o.st, w.res)
            if kw == 0:
                R.ob("the peer goes on after the answer", o.k == "wait" or handles_gone(F, o), "the peer stops after rejecting a request", where, path_of(o))
            elif kw == 1:
                R.ob("the peer stops if it cannot answer", o.k == "exit", "the peer goes on although a request was neither delivered nor answered", where, path_of(o))
            else:
                R.fail("the result of the answer is checked", "the peer does not look at whether the answer was written", where, path_of(o))
    for t in n: R.ob(f"an unreceivable {t} occurs", n[t] > 0, f"the failed delivery of a {t} is not distinguished", where)

RULES = {"C17": guarded(c17), "C10": guarded(c10), "C16": guarded(c16), "C11": guarded(c11), "C12": guarded(c12), "C13": guarded(c13), "C15": guarded(c15), "C18": guarded(c18),
         "C20": guarded(c20), "C21": guarded(c21), "C22": guarded(c22)}
