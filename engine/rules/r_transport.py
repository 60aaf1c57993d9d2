"""C32 configuration reaches the right half; C02-C08 framing, limits and error classes of the transports."""
from lib import *
from report import AFTER_FAILURE
from r_message import TYPES, KIND, enc_is

CUR = ("s", "cur", 0, None)
OLD = ("s", "old", 0, None)
FATAL_TYPES = ("core::result::Result",)

class Col:
    """obligations of the transport harness, tagged with the properties they belong to"""
    def __init__(self, pid):
        self.pid = pid
        self.items = []
        self.engines = []
    def ob(self, tags, name, ok, text, where=None, path=None, key=None):
        tags = tags.split()
        if not ok and self.pid in tags and not any(self.pid in t and not k for t, _, k, *_ in self.items):
            lin.stop_soon(AFTER_FAILURE)
        self.items.append((tags, name, bool(ok), text, where, path, key))
        return ok
    def emit(self, R, pid):
        for tags, name, ok, text, where, path, key in self.items:
            if pid in tags:
                R.ob(name, ok, text, where, path, key)
        for E in self.engines:
            R.use(E)

# ---- the transports of the library ------------------------------------------------------------------------
class Half: pass

def adt_path(d, tid):
    t = d.ty(tid)
    return t.get("adt") if t["k"] == "adt" else None

def transports(R, d):
    """(name, split fn, into_transport fn) of every Transport implementation"""
    res = []
    for f in impls(d, "transport::Transport", "split"):
        t = d.ty(f.locals[1])
        its = [g for g in impls(d, "IntoTransport", "into_transport") if g.locals[0] == t.get("t")]
        R.need(its, f"IntoTransport for the socket of {d.ty(t['t'])['s']}")
        res.append((f.impl_self_name if hasattr(f, "impl_self_name") else d.ty(t["t"])["s"].split("<")[0].split("::")[-1] + "<" + d.ty(t["t"])["s"].split("<")[-1].rstrip(">").split("::")[-1] + ">", f, its[0]))
    R.need(len(res) >= 3, "the three Transport implementations")
    return sorted(res, key=lambda x: x[0])

def poll_impl(d, trait, method, half_tid):
    a = adt_path(d, half_tid)
    if a is None: return None
    for f in impls(d, trait, method):
        if isinstance(f.impl_self, int) and adt_path(d, f.impl_self) == a:
            return f
    return None

def split_halves(R, E, d, tr, st):
    """compose into_transport and split; returns [(state, config, transport box, read half, write half)]"""
    name, split, into = tr
    sock = E.const_sym("socket", into.locals[1])
    cfg = E.const_sym("config", into.locals[2])
    res = []
    for o in run(E, into, [sock, cfg], st, await_it=False):
        if o.k != "ret":
            R.fail(f"{name}: into_transport total", f"into_transport ends with {o.k}", into); continue
        b = E.newbox(o.st, o.v)
        for p in run(E, split, [("ref", b, ())], o.st, await_it=False):
            if p.k != "ret":
                R.fail(f"{name}: split total", f"split ends with {p.k} {short(p.v) if p.v else ''}", split, trace_of(p.st)); continue
            res.append((p.st, cfg, b, E.field(p.st, p.v, 0, 0), E.field(p.st, p.v, 0, 1), E.ty(E.tyof(p.v)) if p.v[0] != "S" else E.ty(p.v[1])))
    R.need(res, f"{name}: a returning path of split")
    return res

def config_fields(E, d, tid):
    a = d.adts.get(adt_path(d, tid))
    return [] if a is None else [f["name"] if isinstance(f, dict) else f for f in a["variants"][0]["fields"]]

def mentions(v, x, seen=None):
    if v == x: return True
    if isinstance(v, tuple):
        return any(mentions(y, x) for y in v)
    return False

def leaves(E, st, v, depth=0):
    """the values stored in a struct"""
    out = []
    if depth > 5: return out
    if v[0] == "S" and v[3]:
        for x in v[3]: out += leaves(E, st, x, depth + 1)
    else:
        out.append(v)
    return out

# ---- C32 ---------------------------------------------------------------------------------------------------
DEFAULTS = {"StreamConfig": {"max_body_len_read": 8192, "max_body_len_write": 8192, "endian": "LittleEndian"},
            "UnixConfig": {"max_body_len_read": 4096, "max_body_len_write": 4096, "max_fds_read": 10, "max_fds_write": 10, "endian": "NativeEndian"}}

def c32(R):
    R.rule("into_transport and split of every transport are composed with a symbolic configuration: the read half must hold exactly the read limits, the write half exactly "
           "the write limits, and both the endianness. Constructors, connect futures, accept and bind are interpreted and the configuration they pass on is compared with the one given.")
    d = dump()
    for tr in transports(R, d):
        name, split, into = tr
        E = engine(R, d)
        for st, cfg, b, rh, wh, _ in split_halves(R, E, d, tr, State()):
            fs = config_fields(E, d, into.locals[2])
            R.need("endian" in fs and "max_body_len_read" in fs and "max_body_len_write" in fs, f"{name}: the configuration fields")
            for side, half in (("read", rh), ("write", wh)):
                lv = leaves(E, st, half)
                for fn in fs:
                    val = fieldn(E, st, cfg, fn)
                    own = fn == "endian" or fn.endswith("_" + side)
                    n = sum(1 for x in lv if x == val)
                    m = sum(1 for x in lv if mentions(x, val))
                    if own:
                        R.ob(f"{name}: {side} half has {fn}", n >= 1 or m >= 1, f"config.{fn} is stored in the {side} half", split, key=f"{name}: the {side} half does not get config.{fn}")
                    else:
                        R.ob(f"{name}: {side} half without {fn}", m == 0, f"the {side} half does not depend on config.{fn}", split, key=f"{name}: the {side} half uses config.{fn}")
    # constructors that take a socket
    seen = 0
    for f in all_roots(d):
        if f.kind != "fn" or not f.pub or f.name.split("::")[-1] not in ("new", "new_default"): continue
        owner = f.name.split("::")[-2]
        if owner not in ("StreamTransport", "UnixTransport"): continue
        E = engine(R, d)
        st = State()
        args = [sym_arg(E, st, f, i) for i in range(f.argc)]
        for o in run(E, f, args, st, await_it=False):
            if o.k != "ret":
                R.fail(f"{owner}::{f.name.split('::')[-1]} total", f"ends with {o.k}", f); continue
            seen += 1
            lv = [x for x in (o.v[3] if o.v[0] == "S" else ())]
            R.ob(f"{owner}::{f.name.split('::')[-1]} keeps the socket", args[0] in lv, "the given socket is stored", f)
            if len(args) == 2:
                cfgs = [x for x in lv if E.same_value(o.st, x, args[1])]
                R.ob(f"{owner}::new keeps the configuration", len(cfgs) == 1, f"the given configuration is stored ({short(o.v, 160)})", f)
            else:
                cfgname = {"StreamTransport": "StreamConfig", "UnixTransport": "UnixConfig"}[owner]
                check_default(R, E, d, o.st, o.v, cfgname, f"{owner}::new_default", f)
    R.ob("transport constructors found", seen >= 2, f"{seen} paths of transport constructors", key="anchor: transport constructors")
    # Default implementations of the configurations
    nd = 0
    for cfgname in DEFAULTS:
        for f in impls(d, "Default", "default"):
            if d.ty(f.locals[0]).get("adt", "").split("::")[-1] != cfgname: continue
            nd += 1
            E = engine(R, d)
            for o in run(E, f, [], State(), await_it=False):
                R.ob(f"{cfgname}::default total", o.k == "ret", f"ends with {o.k}", f)
                if o.k == "ret": check_default(R, E, d, o.st, o.v, cfgname, f"{cfgname}::default", f)
        # convenience constructors with documented endianness
    R.need(nd == 2, "Default of StreamConfig and UnixConfig")
    for f in all_roots(d):
        if f.kind == "fn" and f.pub and f.argc == 0 and f.name.split("::")[-2:-1] == ["Endian"] and f.name.split("::")[-1] == "native":
            pass
    # connect
    nc = 0
    for f in impls(d, "Connect", "connect"):
        E = engine(R, d)
        st = State()
        args = [sym_arg(E, st, f, i) for i in range(f.argc)]
        okpaths = 0
        for o in run(E, f, args, st, await_it=True):
            if o.k != "ret":
                R.fail(f"connect total ({short_fn(f)})", f"connect ends with {o.k}", f, trace_of(o.st)); continue
            k = E.variant(o.st, o.v)
            evs = [e for e in o.st.ev if e.k in ("await", "call", "io")]
            con = [e for e in evs if e.k == "call" and e["path"].split("::")[-1] == "connect"]
            R.ob(f"{short_fn(f)}: connects to the address", len(con) >= 1 and con[0]["args"][0] == args[0], f"connects to {short(con[0]['args'][0]) if con else None}", f)
            if k == 0:
                okpaths += 1
                t = E.field(o.st, o.v, 0, 0)
                lv = t[3] if t[0] == "S" else ()
                R.ob(f"{short_fn(f)}: uses the configuration", any(E.same_value(o.st, x, args[1]) for x in lv), f"the transport is {short(t, 160)}", f, key=f"{short_fn(f)}: the given configuration is not used")
            else:
                R.ob(f"{short_fn(f)}: fails only if connecting failed", k == 1 and len(con) >= 1, f"result {short(o.v)}", f)
        R.ob(f"{short_fn(f)}: can succeed", okpaths >= 1, "has a path that returns a transport", f)
        nc += 1
    R.ob("connect implementations found", nc >= 3, f"{nc} implementations", key="anchor: connect implementations")
    # Peer::connect passes its configuration to Connect::connect
    for f in all_roots(d):
        if f.kind != "fn" or not f.pub: continue
        nm = f.name.split("::")
        if nm[-1] == "connect" and nm[-2] == "Peer":
            E = engine(R, d); E.no_await_inline = None
            st = State()
            args = [sym_arg(E, st, f, i) for i in range(f.argc)]
            n = 0
            for o in run(E, f, args, st):
                calls = [e for e in o.st.ev if e.k == "call" and e["path"].split("::")[-1] == "connect"]
                if calls:
                    n += 1
                    R.ob("Peer::connect passes address and configuration", list(calls[0]["args"]) == args, f"Connect::connect gets {[short(x) for x in calls[0]['args']]}", f)
            R.ob("Peer::connect connects", n >= 1, "calls Connect::connect", f, key="anchor: Peer::connect")
    R.count("connect implementations", nc)

def short_fn(f):
    p = f.path
    if " for " in p: p = p.split(" for ")[-1]
    return p.split("<")[0].split("::")[-1] + "::" + f.name.split("::")[-1] + "<" + p.split("<")[-1].split(">")[0].split("::")[-1] + ">" if "<" in p else f.name

def check_default(R, E, d, st, v, cfgname, what, f):
    """find a value of the configuration type in v and compare it with the documented defaults"""
    a = adt(d, cfgname)
    cands = []
    def walk(x, depth=0):
        if depth > 4 or not isinstance(x, tuple): return
        if x[0] == "S" and isinstance(x[1], int) and E.adt_of(x[1]) == a["path"]: cands.append(x)
        elif x[0] == "S":
            for y in x[3]: walk(y, depth + 1)
    walk(v)
    if not R.ob(f"{what}: builds a configuration", len(cands) == 1, f"result {short(v, 160)}", f): return
    for fn, exp in DEFAULTS[cfgname].items():
        x = fieldn(E, st, cands[0], fn)
        if isinstance(exp, str):
            got = enum_name(E, st, x) if x else None
            R.ob(f"{what}: {fn}", got == exp, f"default {fn} is {got}, documented {exp}", f)
        else:
            R.ob(f"{what}: {fn}", x == ("c", exp), f"default {fn} is {short(x) if x else None}, documented {exp}", f)


# ---- harness for poll functions -----------------------------------------------------------------------------
def map_terms(E, v, m):
    """subst that keeps the types of atoms"""
    if not isinstance(v, tuple): return v
    r = m.get(v)
    if r is not None: return r
    if v and v[0] == "lin":
        out = ("c", v[1])
        for a, k in v[2]:
            out = lin.add(out, map_terms(E, a, m), k)
        return out
    new = tuple(map_terms(E, x, m) for x in v)
    if new == v: return v
    t = E.typ.get(v)
    if t is not None: E.typ.setdefault(new, t)
    return new

def touches(v, syms):
    if v in syms: return True
    if isinstance(v, tuple): return any(touches(x, syms) for x in v)
    return False

def next_message(E, st, ren):
    """a message is complete: what is still stored about it is data of an old message"""
    syms = set(ren) | set(ren.values())
    for b in list(st.mem):
        st.mem[b] = junk(map_terms(E, st.mem[b], ren), syms)
    cons = lin.project(list(st.lin), lambda a: not touches(a, syms))
    st.lin = tuple(c for c in (cons or ()) if c not in (None, False))
    st.var = {a: v for a, v in st.var.items() if not touches(a, syms)}
    st.nvar = {a: v for a, v in st.nvar.items() if not touches(a, syms)}
    st.ne = tuple(x for x in st.ne if not touches(x, syms))
    st.pres = {a: v for a, v in st.pres.items() if not touches(a, syms)}

def junk(v, syms):
    """buffers that hold data of an old message: their contents do not matter any more"""
    if not isinstance(v, tuple) or not v: return v
    if v[0] == "bytes" and touches(v[2:], syms):
        return ("bytes", v[1], ("junk",), ())
    if v[0] == "S":
        return ("S", v[1], v[2], tuple(junk(x, syms) for x in v[3]))
    return v

def same_content(E, st, a, b):
    return a == b or a[0] == b[0] == "stream" and a[1] == b[1] and E.eq(st, a[2], b[2])

def last_io(st):
    for e in reversed(st.ev):
        if e.k == "io": return e
    return None

def is_fatal(E, d, st, te):
    """value of the public is_fatal accessor for a transport error; None if it depends"""
    f = find(d, "TransportError::is_fatal")
    if len(f) != 1: return None
    s = st.copy()
    b = E.newbox(s, te)
    vals = set()
    for o in run(E, f[0], [("ref", b, ())], s, await_it=False):
        if o.k != "ret": return None
        vals.add(E.truth(o.st, o.v))
    return vals.pop() if len(vals) == 1 else None

def inner_error(E, d, st, te):
    f = find(d, "TransportError::into_inner")
    if len(f) != 1: return None
    os_ = [o for o in run(E, f[0], [te], st.copy(), await_it=False) if o.k == "ret"]
    return os_[0].v if len(os_) == 1 else None

def io_error_value(E, d, st, ioerr):
    f = find(d, "Error::io_error")
    if len(f) != 1: return None
    os_ = [o for o in run(E, f[0], [ioerr], st.copy(), await_it=False) if o.k == "ret"]
    return os_[0].v if len(os_) == 1 else None

class Harness:
    """the poll function of one half of one transport, polled again and again for a sequence of messages"""
    def __init__(self, C, R, d, tr, side, variant):
        self.C = C; self.R = R; self.d = d; self.side = side
        self.name, self.split, self.into = tr
        self.endian = adt(d, "Endian")["variants"][variant]["name"]
        self.kind = KIND.get(self.endian)
        R.need(self.kind, f"endianness {self.endian}")
        E = self.E = Engine(d)
        C.engines.append(E)
        self.id = f"{self.name} {side} [{self.endian}]"
        st = State()
        halves = split_halves(R, E, d, tr, st)
        self.heads = []
        for st, cfg, box, rh, wh, tt in halves:
            E.set_variant(st, fieldn(E, st, cfg, "endian"), variant)
            self.limit = fieldn(E, st, cfg, f"max_body_len_{side}")
            self.max_fds = fieldn(E, st, cfg, f"max_fds_{side}")
            half = rh if side == "read" else wh
            tid = tt["ts"][0 if side == "read" else 1]
            trait, method = ("TransportReadHalf", "poll_read_msg") if side == "read" else ("TransportWriteHalf", "poll_write_msg")
            f = poll_impl(d, trait, method, tid)
            R.need(f, f"{method} of the {side} half of {self.name}")
            self.fn = f
            self.dgram = self.max_fds is not None
            self.start(st, half)
    def ob(self, tags, name, ok, text, st=None, key=None, site=None):
        w = (self.fn.path, f"{self.fn.file}:{self.fn.line}")
        if site is not None: w = (site[0], f"line {site[1]}")
        return self.C.ob(tags, f"{self.id}: {name}", ok, text, w, trace_of(st) if st is not None else None, key=f"{self.name} {self.side}: {key or name}")
    def start(self, st, half):
        E = self.E
        b = E.newbox(st, half)
        self.box = b
        for g in ("roff", "woff", "dgrams", "sent"):
            M.set_ghost(st, g, ("c", 0))
        st.marks["rmsg"] = CUR
        self.cx = E.const_sym("cx", self.fn.locals[2])
        if self.side == "write":
            self.hdr = E.const_sym("header", E.pointee(self.fn.locals[3]))
            self.body = E.const_sym("body", E.pointee(self.fn.locals[4]))
            E.write_hook = self.on_write
        else:
            E.read_hook = self.on_read
            E.on_event = self.on_event
        E.partition = self.partition
        li = LoopInfo(); li.id = ("harness", 0, 0); li.fn = self.fn; li.header = -1; li.heads = []; li.segs = []
        self.li = li
        entry = st.copy(); entry.ev = ()
        self.npoll = 0
        self.seen = set()
        try:
            E.fixpoint(entry, self.step, li, "poll")
        except Unsupported as e:
            self.R.undecided(f"{self.id}: {e}")
        self.summary()
    def partition(self, st):
        """keep apart: between messages, inside the first 16 bytes, behind them"""
        if self.dgram: return None
        E = self.E
        r = M.ghost(st, "roff" if self.side == "read" else "woff")
        if E.eq(st, r, ("c", 0)): return 0
        if E.le(st, ("c", 16), r): return 2
        return 1
    # -- one poll
    def step(self, st):
        E = self.E; d = self.d
        st = st.copy(); st.ev = (); st.trace = ()
        args = [("S", self.fn.locals[1], 0, (("ref", self.box, ()),)), self.cx]
        if self.side == "write":
            hb = ("B", "header"); bb = ("B", "body")
            st.mem[hb] = self.hdr; st.mem[bb] = self.body
            args += [("ref", hb, ()), ("ref", bb, ())]
        self.npoll += 1
        outs = []
        for o in E.call_fn(self.fn, args, st):
            if o.k == "panic":
                self.ob("C06" if self.side == "read" else "C02 C03 C05", "no panic", False, f"{self.fn.name.split('::')[-1]} can panic: {short(o.v) if o.v else ''}", o.st)
                continue
            if o.k != "ret":
                continue
            s = o.st
            k = E.variant(s, o.v)
            if k is None:
                self.R.undecided(f"{self.id}: result {short(o.v)} is not determined"); continue
            if k == 1:
                self.seen.add("pending")
                e = last_io(s)
                self.ob("C09", "pending only after a pending socket", e is not None and e["result"] == "pending", f"returns pending after {e['op'] + ' ' + e['result'] if e else 'no socket operation'}", s)
                if e is not None and e["result"] == "pending":
                    self.ob("C09", "registers the caller's waker", e["cx"] == self.cx, f"the socket was polled with {short(e['cx'])}", s)
                outs.append(("back", s, o))
                continue
            r = E.field(s, o.v, 0, 0)
            rk = E.variant(s, r)
            if rk is None:
                self.R.undecided(f"{self.id}: result {short(r)} is not determined"); continue
            v = E.field(s, r, rk, 0)
            fatal = False
            if rk == 0:
                self.seen.add("ok")
                (self.delivered if self.side == "read" else self.written)(s, v)
            else:
                self.dead = False
                fatal = self.failed(s, v) or self.dead
            if fatal:
                # the transport is unusable: nothing is claimed about later calls
                outs.append(("exit", s, o))
                continue
            self.reset(s)
            outs.append(("back", s, o))
        return outs
    def reset(self, s):
        E = self.E
        for g in ("roff", "woff", "dgrams", "sent"):
            M.set_ghost(s, g, ("c", 0))
        if self.side == "read":
            next_message(E, s, {CUR: OLD})
            s.marks.pop("recv_n", None); s.marks.pop("recv_total", None)
        else:
            for b in [b for b in s.mem if b in (("B", "header"), ("B", "body"))]: del s.mem[b]
            next_message(E, s, {self.hdr: E.const_sym("old_header", E.tyof(self.hdr)), self.body: E.const_sym("old_body", E.tyof(self.body))})
    def summary(self):
        if "ok" not in self.seen and any(u.startswith(self.id) for u in self.R.undecided_): return
        self.ob("C02 C03 C04 C05 C06 C07 C08", "can succeed", "ok" in self.seen, "has a path that completes a message")
    # -- reading
    def word(self, off, ity="u32"):
        return self.E.typed(("dec", self.kind, ity, ("stream", CUR, ("c", off)), 4), ity)
    def total(self):
        """length of the current frame behind the length field"""
        return self.E.typed(("dgramlen", CUR), "usize") if self.dgram else self.word(0)
    def on_event(self, st, e):
        if e.k == "alloc" and self.E is not None:
            E = self.E
            bound = lin.add(self.limit, ("c", 64))
            ok = E.le(st, e["size"], bound)
            if not ok and self.max_fds is not None:
                # buffer for descriptors
                ok = E.le(st, e["size"], lin.add(lin.scale(self.max_fds, 32), ("c", 1024)))
            if not touches(e["size"], {CUR}) and not ok and e["size"][0] != "c":
                # not announced by the peer
                ok = True
            self.ob("C05", "allocations are within the limit", ok, f"allocates {short(e['size'])} bytes, the read limit is {short(self.limit)}", st, site=e.site)
    def on_read(self, E, st, target, ctx):
        if self.dgram:
            if target is None:
                self.R.undecided(f"{self.id}: receive buffers are not determined"); return
            return
        r = M.ghost(st, "roff")
        n = target[4]
        end = lin.add(r, n)
        a = self.total()
        ok = E.le(st, end, ("c", 16)) or (E.le(st, ("c", 4), r) and E.le(st, end, lin.add(a, ("c", 4))))
        self.ob("C04", "never reads beyond the current message", ok, f"a buffer of {short(n)} bytes is offered at offset {short(r)} of the frame", st, site=ctx.site)
        self.ob("C04", "reads into a buffer with room", E.le(st, ("c", 1), n), f"a buffer of {short(n)} bytes is offered", st, site=ctx.site)
    def delivered(self, st, msg):
        E = self.E; d = self.d
        h = fieldn(E, st, msg, "header"); body = fieldn(E, st, msg, "body")
        base = 0 if self.dgram else 4
        mt = fieldn(E, st, h, "message_type")
        k = E.variant(st, mt)
        vs = adt(d, "MessageType")["variants"]
        tags = "C02 C04" if not self.dgram else "C02 C08"
        raw = self.word(base)
        if k is None:
            self.ob(tags, "message type of the frame", False, f"the message type {short(mt)} is not determined", st)
        else:
            self.ob(tags, "message type of the frame", E.eq(st, raw, ("c", TYPES.get(vs[k]["name"], -1))), f"type {vs[k]['name']} comes from the number at offset {base}", st)
        for fname, off, ity in (("request_id", 4, "u32"), ("service_id", 8, "i32")):
            v = fieldn(E, st, h, fname); w = self.word(base + off, ity)
            self.ob(tags, f"{fname} of the frame", v == w or v[0] == w[0] == "dec" and v[1:3] == w[1:3] and same_content(E, st, v[3], w[3]), f"{fname} is {short(v, 160)}, expected {short(w, 160)}", st)
        data = fieldn(E, st, body, "data")
        n = E.len_of(st, data)
        a = self.total()
        hlen = 12
        self.ob("C02" if not self.dgram else "C05 C08", "body length is the announced one", E.eq(st, n, lin.sub(a, ("c", hlen))), f"the body has {short(n)} bytes, the frame {short(a)}", st)
        c = M.content_of(E, st, data, ("c", 0), n)
        exp = ("stream", CUR, ("c", 12 + base))
        self.ob("C04 C02" if not self.dgram else "C05 C08", "body holds the bytes of the message", same_content(E, st, c, exp) or E.eq(st, n, ("c", 0)), f"the body holds {short(c, 200)}, expected {short(exp)}", st)
        if not self.dgram:
            self.ob("C04", "delivered when complete", E.eq(st, M.ghost(st, "roff"), lin.add(a, ("c", 4))), f"{short(M.ghost(st, 'roff'))} bytes were read, the frame has 4 + {short(a)}", st)
        else:
            self.ob("C08 C05", "one datagram per message", E.eq(st, M.ghost(st, "dgrams"), ("c", 1)), f"{short(M.ghost(st, 'dgrams'))} datagrams were received for the message", st)
        self.ob("C05", "delivered body is within the read limit", E.le(st, n, self.limit), f"the body has {short(n)} bytes, the limit is {short(self.limit)}", st)
        if self.dgram:
            self.delivered_fds(st, fieldn(E, st, body, "fds"))
    def failed(self, st, te):
        """check an error result; returns whether it is fatal"""
        E = self.E; d = self.d
        fatal = is_fatal(E, d, st, te)
        inner = inner_error(E, d, st, te)
        if fatal is None:
            self.ob("C07", "fatal flag is determined", False, f"the fatal flag of {short(te)} is not determined", st)
        e = last_io(st)
        if e is not None and e["result"] == "err":
            self.seen.add("ioerr")
            self.ob("C07", "socket errors are fatal", fatal is True, "a socket error is reported as " + ("fatal" if fatal else "non-fatal"), st)
            want = io_error_value(E, d, st, e["err"])
            self.ob("C07", "socket errors are passed on unchanged", inner is not None and want is not None and E.same_value(st, inner, want), f"the inner error is {short(inner) if inner else None}, the socket reported {short(want) if want else None}", st)
            return bool(fatal)
        if e is not None and e["result"] == "pending":
            self.ob("C09 C03 C04", "pending sockets are not errors", False, "an error is returned because the socket is not ready", st)
        if self.side == "read": self.read_rejected(st, inner, fatal, e)
        else: self.write_rejected(st, inner, fatal, e)
        return bool(fatal)
    def read_rejected(self, st, inner, fatal, e):
        E = self.E
        a = self.total()
        base = 0 if self.dgram else 4
        body = lin.sub(a, ("c", 12))
        r = M.ghost(st, "dgrams" if self.dgram else "roff")
        got = lambda n: E.le(st, ("c", n), r)
        why = None
        if e is not None and e["result"] == "ok" and E.eq(st, e["n"], ("c", 0)):
            why = "end of stream"
        elif (self.dgram or got(4)) and E.lt(st, a, ("c", 12)):
            why = "too short"
        elif (self.dgram or got(4)) and E.lt(st, self.limit, body):
            why = "too large"
        elif (self.dgram or got(8)) and self.bad_type(st, self.word(base)):
            why = "bad type"
        elif self.dgram and self.fds_over(st):
            why = "too many descriptors"
        self.seen.add(why)
        self.ob("C05 C04 C06" if not self.dgram else "C05 C08 C06", "valid messages are not rejected", why is not None, f"an error ({short(inner) if inner else '?'}) is returned although the message is not known to be bad", st, key="a message may be rejected without a reason")
        if why is None: return
        if not self.dgram:
            # the rest of the frame would be taken for the next message: nothing is claimed about later calls
            self.ob("C07 C04 C02", "malformed frames are fatal", fatal is True, f"a stream frame that is {why} is reported as non-fatal", st)
            self.dead = True
        elif fatal is True and why in ("too large", "too many descriptors") and not self.bad_type(st, self.word(base)):
            self.ob("C07", "a datagram over a limit is not fatal", False, f"a datagram that is {why} and was consumed completely is reported as fatal", st)
        elif fatal is False:
            self.ob("C07", "non-fatal read errors consume the whole datagram", E.eq(st, r, ("c", 1)), f"{short(r)} datagrams were consumed", st)
            self.ob("C07", "end of stream is fatal", why != "end of stream", "the end of the stream is reported as non-fatal", st)
    def bad_type(self, st, raw):
        E = self.E
        return all(not E.add_eq(st.copy(), raw, ("c", n)) for n in TYPES.values())
    # -- descriptors of a received datagram
    def fds_over(self, st):
        """the path established that the number of descriptors is over the limit"""
        E = self.E
        vecs = self.fd_vecs(st)
        for b, p, _ in vecs:
            try: v = E.load(st, b, p)
            except Exception: continue
            n = E.len_of(st, v)
            if E.lt(st, self.max_fds, n): return True
        # any length the path compared with the limit
        for c in st.lin:
            if any(mentions(t, self.max_fds) for t, _ in c[0]):
                for t, k in c[0]:
                    if t[0] == "len" and self.fd_like(st, t[1]) and E.lt(st, self.max_fds, t): return True
        return False
    def fd_like(self, st, v):
        tid = self.E.tyof(v)
        return tid is not None and "FileDesc" in self.E.ty(tid)["s"] or mentions_name(v, "anc")
    def fd_vecs(self, st):
        """vectors that received descriptors: (base, path, how)"""
        res = []
        evs = list(st.ev)
        for e in st.ev:
            if e.k == "loop":
                for s in e["info"].segs: evs += list(s.ev)
        for e in evs:
            if e.k in ("extend", "push") and mentions_name(e["source"] if e.k == "extend" else e["value"], "anc"):
                res.append((e["vec"][0], e["vec"][1], e))
        return res
    def delivered_fds(self, st, fds):
        E = self.E
        if fds is None:
            self.ob("C08", "descriptors are delivered", False, "the body has no descriptors field", st); return
        loops = [e["info"] for e in st.ev if e.k == "loop" and any(x.k == "anc_next" for s in e["info"].segs for x in s.ev)]
        own = [e for e in st.ev if e.k == "anc_owned"]
        if not loops:
            dep = mentions_name(fds, "anc")
            if dep: self.R.undecided(f"{self.id}: descriptors reach the body through {short(fds)}")
            else: self.ob("C08", "descriptors are delivered", False, f"the delivered descriptors {short(fds)} do not come from the datagram", st)
            return
        io = [e for e in st.ev if e.k == "io" and e["op"] == "recv" and e["result"] == "ok"]
        for li in loops:
            vecs = set()
            for s in li.segs:
                nx = [x for x in s.ev if x.k == "anc_next"]
                for x in nx:
                    self.ob("C08", "descriptors of the received datagram", bool(io) and mentions(x["iter"], io[-1]["reader"]), "the control messages are those of the datagram", s.st)
                    k = E.variant(s.st, x["ret"])
                    if k == 1:
                        item = E.field(s.st, x["ret"], 1, 0)
                        ik = enum_name(E, s.st, item)
                        left = enum_names(E, s.st, item)
                        if ik is None and left is not None and "FileDescriptors" not in left:
                            ik = "another kind"
                        if ik is None:
                            self.ob("C08", "all control messages are examined", False, "a control message is dropped without looking at its kind, its descriptors are not delivered", s.st)
                        elif ik == "FileDescriptors":
                            sunk = [y for y in s.ev if y.k in ("extend", "push") and derives(s.ev, y["source"] if y.k == "extend" else y["value"], item)]
                            inner = [y for y in s.ev if y.k == "loop"]
                            if not sunk and inner:
                                sunk = [y for l in inner for t in l["info"].segs for y in t.ev if y.k in ("extend", "push")]
                                for l in inner:
                                    for t in l["info"].segs:
                                        for c in t.ev:
                                            if c.k == "call" and c["path"].endswith("::next") and E.variant(t.st, c["ret"]) == 1:
                                                fd = E.field(t.st, c["ret"], 1, 0)
                                                self.ob("C08", "every descriptor is kept", any(y.k in ("push", "extend") and derives(t.ev, y["value"] if y.k == "push" else y["source"], fd) for y in t.ev), "each descriptor taken from the control message is stored", t.st)
                            self.ob("C08", "descriptors are stored", len(sunk) >= 1, "the descriptors of a control message are moved into a vector", s.st)
                            for y in sunk: vecs.add(y["vec"])
                            # adaptors between the control message and the vector must keep every descriptor
                            for y in s.ev:
                                if y.k == "call" and y["path"].split("::")[-1] in ("take", "skip", "filter", "step_by", "rev", "take_while", "skip_while", "filter_map"):
                                    self.ob("C08", "no descriptor is left out", False, f"the descriptors go through {y['path'].split('::')[-1]}", s.st)
                    elif k is None:
                        self.R.undecided(f"{self.id}: control message iteration is not determined")
                if s.k != "back":
                    done = any(E.variant(s.st, x["ret"]) == 0 for x in nx)
                    if s.k == "exit": self.ob("C08", "all control messages are read", done or not nx, "the loop over the control messages ends early", s.st)
            if vecs:
                ok = False
                for b, p in vecs:
                    for s in li.segs:
                        if s.k == "back": continue
                        try: w = E.load(s.st, b, p)
                        except Exception: continue
                        if E.same_value(st, w, fds): ok = True
                conv = any(e.k == "call" and e["ret"] == fds and any(mentions_name(a, "phi") for a in e["args"]) for e in st.ev)
                if not ok and conv: self.R.undecided(f"{self.id}: delivered descriptors are converted by a call")
                else: self.ob("C08", "all received descriptors are delivered", ok, f"the delivered descriptors are {short(fds)}, not the collected ones", st)
        n = E.len_of(st, fds)
        self.ob("C08", "delivered descriptors are within the read limit", E.le(st, n, self.max_fds), f"{short(n)} descriptors are delivered, the limit is {short(self.max_fds)}", st)
        for e in io:
            if e["anc"] is not None and e["anc"][0] == "slice":
                self.ob("C08", "control buffer reveals an excess", E.le(st, lin.add(lin.scale(self.max_fds, 4), ("c", 20)), e["anc"][4]), f"the control buffer has {short(e['anc'][4])} bytes: too few for one descriptor more than the limit, an excess would be cut off silently", st)
            if e["bufs"] is not None:
                tot = ("c", 0)
                for b in e["bufs"]: tot = lin.add(tot, b[4])
    # -- writing
    def frame_pos(self, st, content):
        """position in the current frame of a piece of data, and its length; None if it is not part of it"""
        E = self.E
        base = 0 if self.dgram else 4
        hdr = self.hdr
        data = fieldn(E, st, self.body, "data")
        L = E.len_of(st, data)
        if not self.dgram and enc_is(E, st, content, self.kind, lin.add(L, ("c", 12))): return ("c", 0)
        mt = fieldn(E, st, hdr, "message_type")
        if content[0] == "enc":
            disc = E.discr(st, mt, E.tyof(mt))
            if enc_is(E, st, content, self.kind, disc): return ("c", base)
            if enc_is(E, st, content, self.kind, fieldn(E, st, hdr, "request_id")): return ("c", base + 4)
            if enc_is(E, st, content, self.kind, fieldn(E, st, hdr, "service_id")): return ("c", base + 8)
        if content == ("val", data): return ("c", base + 12)
        if content[0] == "sub":
            p = self.frame_pos(st, content[1])
            return None if p is None else lin.add(p, content[2])
        return None
    def check_pieces(self, st, bufs, at, ctx):
        """the buffers hold the frame from position `at` on"""
        E = self.E
        pos = at
        total = ("c", 0)
        for b in bufs:
            if b[0] != "slice": return False, f"buffer {short(b)}"
            v = E.load(st, b[1], b[2])
            start, n = b[3], b[4]
            if E.eq(st, n, ("c", 0)): continue
            segs = []
            vb = M.as_bytes(E, st, v) if v[0] != "bytes" else v
            allsegs = list(vb[3]) + [(("c", 0), vb[1], vb[2])] if not vb[3] else self.with_base(st, vb)
            for s, ln, c in allsegs:
                if ln is None: return False, "overlapping data"
                # does the segment overlap the slice at all?
                if E.le(st, lin.add(s, ln), start) or E.le(st, lin.add(start, n), s): continue
                p = self.frame_pos(st, c)
                if p is None: return False, f"bytes {short(start)}.. hold {short(c, 100)}"
                # the byte at index start of this slice is frame byte p + (start - s)
                if not E.eq(st, lin.add(p, lin.sub(start, s)), pos):
                    return False, f"frame position {short(lin.add(p, lin.sub(start, s)))} is written where {short(pos)} is due"
            pos = lin.add(pos, n)
            total = lin.add(total, n)
        return True, pos
    def with_base(self, st, vb):
        ps = M.bytes_read(self.E, st, vb, ("c", 0), vb[1])
        return [(a, n, c) for a, n, c in ps]
    def on_write(self, E, st, bufs, ctx, writer=None):
        if bufs is None:
            self.R.undecided(f"{self.id}: written buffers are not determined"); return
        data = fieldn(E, st, self.body, "data")
        L = E.len_of(st, data)
        at = ("c", 0) if self.dgram else M.ghost(st, "woff")
        end = lin.add(L, ("c", 12 if self.dgram else 16))
        # a joined state may only know that the position is inside the header
        ok, pos = self.check_pieces(st, bufs, at, ctx)
        tags = "C02 C03" if not self.dgram else "C08 C02"
        self.ob(tags, "writes the bytes of the frame in order", ok, f"at frame position {short(at)}: {pos if not ok else 'the next bytes of the frame'}", st, site=ctx.site)
        if ok:
            self.ob(tags, "writes not beyond the frame" if not self.dgram else "sends the whole message at once", E.eq(st, pos, end) if self.dgram else E.le(st, pos, end), f"data up to position {short(pos)} is offered, the frame has {short(end)} bytes", st, site=ctx.site)
        self.ob("C05", "writes only messages within the limit", E.le(st, L, self.limit), f"a body of {short(L)} bytes is written, the limit is {short(self.limit)}", st, site=ctx.site)
        if not self.dgram:
            self.ob("C02", "the length field cannot wrap", E.le(st, lin.add(L, ("c", 12)), ("c", 2**32 - 1)), f"12 + {short(L)} may not fit in 32 bits", st, site=ctx.site)
        else:
            self.sent_fds(st, writer, ctx)
    def sent_fds(self, st, writer, ctx):
        E = self.E
        fds = fieldn(E, st, self.body, "fds")
        n = E.len_of(st, fds)
        self.ob("C08", "sends no more descriptors than the limit", E.le(st, n, self.max_fds), f"{short(n)} descriptors are sent, the limit is {short(self.max_fds)}", st, site=ctx.site)
        l = E.field(st, writer, 0, 1) if writer[0] == "S" else None
        if l is None or l[0] != "S":
            self.R.undecided(f"{self.id}: control data is not determined"); return
        ancs = l[3]
        if not ancs:
            self.ob("C08", "descriptors are sent with their message", E.eq(st, n, ("c", 0)), "the datagram is sent without the descriptors of the body", st, site=ctx.site); return
        self.ob("C08", "descriptors are sent once", len(ancs) == 1, f"{len(ancs)} control messages", st, site=ctx.site)
        src, a, ln = ancs[0][3]
        own = mentions(src, self.body) or mentions_base(src, ("B", "body"))
        self.ob("C08", "descriptors of this message are sent", own, f"the control message holds {short(src)}", st, site=ctx.site)
        self.ob("C08", "all descriptors of the message are sent", E.eq(st, a, ("c", 0)) and (E.eq(st, ln, n) or E.eq(st, ln, E.len_of(st, src))) and not any(mentions_name(src, x) for x in ("take", "skip", "filter", "rev", "step_by")), f"the control message holds {short(ln)} descriptors of {short(src)}", st, site=ctx.site)
        buf = E.field(st, writer, 0, 0)
        if buf[0] == "slice":
            self.ob("C08", "control buffer has room", E.le(st, lin.add(lin.scale(n, 4), ("c", 20)), buf[4]), f"the control buffer has {short(buf[4])} bytes for {short(n)} descriptors", st, site=ctx.site)
    def written(self, st, v):
        E = self.E
        L = E.len_of(st, fieldn(E, st, self.body, "data"))
        if self.dgram:
            self.ob("C08 C03", "success means one datagram was sent", E.eq(st, M.ghost(st, "sent"), ("c", 1)), f"{short(M.ghost(st, 'sent'))} datagrams were sent", st)
        else:
            self.ob("C03 C02", "success means the whole frame was written", E.eq(st, M.ghost(st, "woff"), lin.add(L, ("c", 16))), f"{short(M.ghost(st, 'woff'))} bytes were accepted, the frame has 16 + {short(L)}", st)
    def write_rejected(self, st, inner, fatal, e):
        E = self.E
        L = E.len_of(st, fieldn(E, st, self.body, "data"))
        g = M.ghost(st, "sent" if self.dgram else "woff")
        if E.lt(st, self.limit, L): why = "too large"
        elif not self.dgram and E.lt(st, ("c", 2**32 - 1 - 12), L): why = "does not fit in the length field"
        elif self.dgram and E.lt(st, self.max_fds, E.len_of(st, fieldn(E, st, self.body, "fds"))): why = "too many descriptors"
        elif self.dgram and any(x.k == "add_fds" and not x["ok"] for x in st.ev): why = "descriptors do not fit"
        elif e is not None and e["result"] == "ok" and e["op"] == "write" and E.eq(st, e["n"], ("c", 0)): why = "socket accepts nothing"
        else: why = None
        self.seen.add(why)
        self.ob("C05 C03" if not self.dgram else "C05 C08", "messages within the limits are not refused", why is not None, f"an error ({short(inner) if inner else '?'}) is returned although the message is within the limits", st)
        if why == "socket accepts nothing":
            self.ob("C07", "a dead socket is fatal", fatal is True, "reported as non-fatal", st); return
        if why:
            t = "C05 C07" if "descr" not in why else "C08 C07"
            self.ob(t, f"refused before anything is written", E.eq(st, g, ("c", 0)), f"the message is refused ({why}) after {short(g)} {'datagrams' if self.dgram else 'bytes'} were written", st)
            self.ob(t, "refused with a non-fatal error", fatal is False, f"a message that is {why} gives a fatal error", st)
        if fatal is False:
            self.ob("C07", "non-fatal write errors leave the stream untouched", E.eq(st, g, ("c", 0)), f"a non-fatal error after {short(g)} {'datagrams' if self.dgram else 'bytes'} were written", st)

def derives(ev, value, item):
    """is the value made from the item, possibly through opaque calls?"""
    vals = [value]
    for e in reversed(ev):
        if any(mentions(v, item) for v in vals): return True
        if e.k == "call" and any(mentions(v, e["ret"]) for v in vals): vals.extend(e["args"])
    return any(mentions(v, item) for v in vals)

def mentions_name(v, name):
    if isinstance(v, str): return name in v
    if isinstance(v, tuple): return any(mentions_name(x, name) for x in v)
    return False
def mentions_base(v, b):
    return mentions(v, b)

def harness(R, pid, sides, kinds):
    d = dump()
    nv = len(R.need(adt(d, "Endian"), "type Endian")["variants"])
    jobs = []
    for tr in transports(R, d):
        dgram = any("fds" in f for f in config_fields(Engine(d), d, tr[2].locals[2]))
        if ("dgram" if dgram else "stream") not in kinds: continue
        for side in sides:
            for v in range(nv):
                jobs.append((f"{tr[0]} {side} {v}", lambda S, tr=tr, side=side, v=v: one_half(S, pid, d, tr, side, v)))
    in_parallel(R, jobs, budget=200)

def one_half(R, pid, d, tr, side, v):
    C = Col(pid)
    H = None
    try:
        H = Harness(C, R, d, tr, side, v)
    except (lin.Timeout, Unsupported) as e:
        R.undecided(f"{tr[0]} {side}: the fixpoint over the polls was not reached ({e})")
    R.count("harness runs")
    if H: R.count("polls interpreted", H.npoll); R.count("abstract poll states", len(H.li.heads))
    C.emit(R, pid)

BASE = ("The poll function of each half, made by composing into_transport and split with a symbolic configuration, is interpreted in a fixpoint over arbitrarily many polls and messages, "
        "with every split of the data into partial transfers, pending results and errors. ")

def c02(R):
    R.rule(BASE + "Written buffers must be the frame (length 12+L, header, body) in the configured endianness with a length that cannot wrap; read messages must be decoded from the same offsets with the body of exactly length-12 bytes.")
    harness(R, "C02", ("read", "write"), ("stream",))
def c03(R):
    R.rule(BASE + "With G the number of bytes accepted so far, each write must offer the frame bytes from position G on, success requires G = 16+L, and G starts at 0 for the next message.")
    harness(R, "C03", ("write",), ("stream",))
def c04(R):
    R.rule(BASE + "With R the number of bytes read so far, no read may offer room beyond the current frame, a delivered message must hold stream bytes 4.. of that message, in order, with R = 4 + announced length.")
    harness(R, "C04", ("read",), ("stream",))
def c05(R):
    R.rule(BASE + "Sizes are compared with the configured limits on every path: refused writes touch nothing, delivered bodies are within the limit and untruncated, allocations with announced sizes are bounded by the limit, errors are only raised for a reason.")
    harness(R, "C05", ("read", "write"), ("stream", "dgram"))
def c06(R):
    R.rule(BASE + "No path of the receiving side may reach a panic, an out-of-range index, or an arithmetic operation that wraps, for any received bytes.")
    harness(R, "C06", ("read",), ("stream", "dgram"))
def c07(R):
    R.rule(BASE + "Each error path is classified by what happened on it (socket error, malformed frame, refused message) and its fatal flag and inner error, observed through the public accessors, are compared with that.")
    harness(R, "C07", ("read", "write"), ("stream", "dgram"))
    errors_carry(R)
def c08(R):
    R.rule(BASE + "For seqpacket sockets: one datagram per message with header, body and all descriptors; received descriptors are owned by an iterator at once and each one is moved into the vector that is delivered, on every path to a delivered message; limits bound both directions.")
    harness(R, "C08", ("read", "write"), ("dgram",))

def errors_carry(R):
    """constructors and accessors of TransportError keep flag and inner error"""
    d = dump()
    for nm, want in (("new_fatal", True), ("new_non_fatal", False)):
        for f in find(d, f"TransportError::{nm}"):
            E = engine(R, d); st = State()
            a = sym_arg(E, st, f, 0)
            for o in run(E, f, [a], st, await_it=False):
                if o.k != "ret": continue
                R.ob(f"TransportError::{nm} flag", is_fatal(E, d, o.st, o.v) is want, f"is_fatal of {short(o.v)}", f)
    f = get(R, d, "TransportError::into_inner"); g = get(R, d, "TransportError::inner"); h = get(R, d, "TransportError::is_fatal")
    E = engine(R, d); st = State()
    te = E.const_sym("te", f.locals[1])
    b = E.newbox(st, te)
    i1 = [o for o in run(E, f, [te], st.copy(), await_it=False) if o.k == "ret"]
    i2 = [o for o in run(E, g, [("ref", b, ())], st.copy(), await_it=False) if o.k == "ret"]
    ok = len(i1) == 1 and len(i2) == 1 and E.same_value(i2[0].st, i1[0].v, E.load(i2[0].st, *E.ptr_loc(i2[0].st, i2[0].v)))
    R.ob("inner and into_inner agree", ok, "both return the stored error", f)
    # conversions keep the inner error
    for c in impls(d, "From", "from"):
        a0 = d.ty(c.locals[1]).get("adt", "") if d.ty(c.locals[1])["k"] == "adt" else ""
        r0 = d.ty(c.locals[0]).get("adt", "") if d.ty(c.locals[0])["k"] == "adt" else ""
        if a0.split("::")[-1] != "TransportError": continue
        E = engine(R, d); st = State()
        te = E.const_sym("te", c.locals[1])
        inner = inner_error(E, d, st, te)
        for o in run(E, c, [te], st, await_it=False):
            R.ob(f"conversion of TransportError to {r0.split('::')[-1]} keeps the error", o.k == "ret" and inner is not None and (E.same_value(o.st, o.v, inner) or mentions(o.v, inner)), f"gives {short(o.v)}", c)

RULES = {"C32": c32, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08}
