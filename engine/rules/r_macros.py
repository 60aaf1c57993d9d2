"""C40, C42, C43, C44: the code generated by interface!, for witness interfaces (see witness.py)."""
from lib import *
from r_peer import call_pure, guarded, Giveup
from r_handles import messages_in, leaves_opt
import witness
from front import WitnessError

ERROR_ID = -1
MSG = "message::Message"
REQ_UPD, RESP_UPD, RESP, REQ, STREAM = "RequesterUpdate", "ResponderUpdate", "Response", "Request", "Stream"

def camel(s): return "".join(p[:1].upper() + p[1:] for p in s.split("_") if p)
def doc_text(lines):
    full = [(" " + l) if l else "" for l in lines]
    body = [l for l in full if l.strip(" ")]
    cut = min((len(l) - len(l.lstrip(" ")) for l in body), default=0)
    return "".join((l[cut:] if l.strip(" ") else "") + "\n" for l in full)

class W:
    """a witness: its dump and the declared interfaces"""
    def __init__(self, R, which):
        self.R = R
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.ifs = witness.fixed() if which == "fixed" else witness.generated(which * 7919 + seed, 12)
        tys = sorted({t for i in self.ifs for t in witness.types_of(i)})
        self.text = witness.module(self.ifs, tys)
        self.name = "witness-fixed" if which == "fixed" else f"witness-gen{which}"
        try:
            self.d = dump(self.name, self.text)
        except WitnessError as e:
            errs = [l for l in str(e).split("\n") if l.startswith("error")][:4]
            R.fail("a valid interface is accepted", "an interface that declares valid, distinct names and IDs does not compile: " + "; ".join(errs), ("macros/src/interface", None), str(e).split("\n")[:30])
            raise Stop()
        self.byname = {}
        for f in all_roots(self.d):
            if f.kind == "fn": self.byname.setdefault(f.name, []).append(f)
        self.E = engine(R, self.d)
        self.tid = {}
        for k, t in enumerate(tys):
            f = self.fn(f"verif_witness::ty_{k}")
            self.tid[t] = f.locals[1]
        self.enames = {}
    def fn(self, name):
        fs = self.byname.get(name, [])
        self.R.need(len(fs) == 1, f"generated function {name}")
        return fs[0]
    def has(self, name): return name in self.byname
    def err_kind(self, st, v):
        """the kind of a library error: name of the innermost known enum variant"""
        E = self.E
        for _ in range(4):
            if v is None: return None
            n = enum_name(E, st, v)
            if n is None: return None
            a = E.adt_of(v[1] if v[0] == "S" else v[2] if v[0] == "lz" else E.tyof(v))
            if a is None: return None
            if a.endswith("InnerError"): return n
            k = E.variant(st, v)
            v = E.field(st, v, k, 0)
        return None

def mod(i): return "verif_witness::" + i["mod"]

# ---- what happens on a path ------------------------------------------------------------------------------------------
def calls(E, o, method):
    return [e for e in o.st.ev if e.k == "call" and e["path"].split("::")[-1] == method]
def enc_of(E, o): return [e for e in calls(E, o, "encode_body")]
def dec_of(E, o): return [e for e in calls(E, o, "decode_body")]
def ierr_of(E, o): return [e for e in calls(E, o, "into_error")]
def gty(e):
    a = e["callee"].get("args") or []
    return a[-1] if a else None

def ptr_eq(E, st, a, b):
    """the same value, or a reference to it"""
    if E.same_value(st, a, b): return True
    def tgt(x):
        for _ in range(3):
            if x[0] == "ref": x = E.load(st, x[1], x[2])
            else: return x
        return x
    x, y = tgt(a), tgt(b)
    if E.same_value(st, x, y): return True
    return x == ("deref", b) or y == ("deref", a) or x == ("deref", y) or y == ("deref", x)

def commands(E, o):
    """what the path hands to the peer: [(event, kind, service ID, body, header)]"""
    out = []
    for e in o.st.ev:
        if e.k != "send": continue
        v = e["value"]
        x = payload(E, o.st, v)
        if x is not None: out.append((e,) + x)
    return out

def payload(E, st, v, depth=0):
    if depth > 5 or not isinstance(v, tuple) or v[0] not in ("S", "lz", "s", "fld"): return None
    a = E.adt_of(v[1]) if v[0] == "S" and isinstance(v[1], int) else E.adt_of(E.tyof(v)) if isinstance(E.tyof(v), int) else None
    if a is None or a not in E.dump.adts: return None
    if a == MSG:
        h = fieldn(E, st, v, "header")
        mt = enum_name(E, st, fieldn(E, st, h, "message_type"))
        return (mt, fieldn(E, st, h, "service_id"), fieldn(E, st, v, "body"), h)
    names = [f["name"] if isinstance(f, dict) else f for f in E.dump.adts[a]["variants"][0]["fields"]] if len(E.dump.adts[a]["variants"]) == 1 else []
    if "service_id" in names and "body" in names:
        return (REQ, fieldn(E, st, v, "service_id"), fieldn(E, st, v, "body"), None)
    k = E.variant(st, v)
    if k is None: return None
    for i in range(len(E.dump.adts[a]["variants"][k]["fields"])):
        r = payload(E, st, E.field(st, v, k, i), depth + 1)
        if r is not None: return r
    return None

def known_int(E, st, v):
    return v[1] if isinstance(v, tuple) and v[0] == "c" else v if isinstance(v, int) else None
def is_id(E, st, v, n):
    """v is certainly n"""
    return v is not None and E.same_value(st, v, ("c", n))
def can_be(E, st, v, n):
    s = E.assume(st.copy(), E.cmp("eq", v, ("c", n)), True)
    return s is not None and s is not False and not (isinstance(s, list) and not s)

# ---- sending -----------------------------------------------------------------------------------------------------------
def check_send(R, w, f, kinds, sid, ty, argi=1, what=None, role="C40", follow=None):
    """every path of a generated send function"""
    E = w.E; nm = f.name.replace("verif_witness::", "")
    st = State()
    args = [sym_arg(E, st, f, i) for i in range(f.argc)]
    okpaths = 0
    for o in run(E, f, args, st):
        if o.k == "panic":
            R.fail(f"{role}: {what} does not panic", f"{nm} can panic", f, trace_of(o.st)); continue
        if o.k != "ret": continue
        R.count("send paths")
        tr = trace_of(o.st)
        enc, snt = enc_of(E, o), commands(E, o)
        R.ob(f"{what}: encodes its argument once", len(enc) == 1, f"{nm} encodes {len(enc)} bodies on one path", f, tr, key=f"{what}: encodes once")
        if len(enc) != 1: continue
        e = enc[0]
        if role == "C40":
            R.ob(f"{what}: encodes the declared type", gty(e) == w.tid[ty], f"{nm} encodes a {E.ty_name(gty(e)) if gty(e) is not None else '?'} where {ty} is declared", f, tr)
            if ty != "()" and f.argc > argi:
                R.ob(f"{what}: encodes the caller's value", ptr_eq(E, o.st, e["args"][0], args[argi]), f"{nm} encodes {short(e['args'][0], 60)} instead of its argument", f, tr)
        k = E.possible_variants(o.st, e["ret"])
        if k == [1]:
            if role in ("C40", "C42"):
                R.ob(f"{what}: sends nothing if the encoding failed", not snt, f"{nm} sends a message although encoding failed", f, tr)
                err = E.field(o.st, o.v, 1, 0) if E.variant(o.st, o.v) == 1 else None
                R.ob(f"{what}: a failed encoding is an error", err is not None and w.err_kind(o.st, err) == "EncodeFailed", f"{nm} returns {short(o.v, 60)} when encoding fails", f, tr)
            continue
        R.ob(f"{what}: looks at the result of the encoding", k == [0], f"{nm} goes on without looking at the result of the encoding", f, tr)
        R.ob(f"{what}: one message", len(snt) <= 1, f"{nm} sends {len(snt)} messages", f, tr)
        if not snt:
            # only possible if the command could not be sent or the handle refused
            if role == "C17": R.ob(f"{what}: not sending is an error", E.variant(o.st, o.v) == 1, f"{nm} reports success without sending anything", f, tr)
            continue
        okpaths += 1
        c = snt[0]
        if role == "C40":
            R.ob(f"{what}: the message type", c[1] in kinds, f"{nm} sends a {c[1]} message, expected {' or '.join(kinds)}", f, tr)
            R.ob(f"{what}: the declared ID", is_id(E, o.st, c[2], sid), f"{nm} sends service ID {short(c[2], 40)}, declared is {sid}", f, tr)
            R.ob(f"{what}: the encoded body", E.same_value(o.st, c[3], E.field(o.st, e["ret"], 0, 0)), f"{nm} sends {short(c[3], 60)} instead of the encoded body", f, tr)
        if role == "C17" and not follow: outcome(R, w, f, o, c[0], what, nm, tr)
        if follow: follow(o, c, tr)
    R.ob(f"{what}: sends", okpaths > 0, f"{nm} never sends anything", f)

def outcome(R, w, f, o, send, what, nm, tr):
    """the result is the answer of the peer loop to this write"""
    E = w.E
    k = E.variant(o.st, o.v)
    ans = [e for e in o.st.ev if e.k == "oneshot_recv"]
    if not ans:
        R.ob(f"{what}: an unanswered write is not a success", k == 1, f"{nm} reports success without waiting for the outcome of the write", f, tr); return
    kk = E.possible_variants(o.st, ans[-1]["ret"])
    if kk == [1]:
        R.ob(f"{what}: an unanswered write is not a success", k == 1, f"{nm} reports success although the write was not answered", f, tr); return
    if kk != [0]:
        R.fail(f"{what}: looks at the outcome", f"{nm} returns {short(o.v, 40)} without looking at the outcome of the write", f, tr); return
    rep = E.field(o.st, ans[-1]["ret"], 0, 0)
    rk = E.possible_variants(o.st, rep)
    if rk == [0]: R.ob(f"{what}: success is success", k == 0, f"{nm} fails although the write succeeded", f, tr)
    elif rk == [1]: R.ob(f"{what}: failure is failure", k == 1 and E.same_value(o.st, E.field(o.st, o.v, 1, 0), E.field(o.st, rep, 1, 0)), f"{nm} does not report the error of the write", f, tr)
    else: R.ob(f"{what}: the outcome is passed on", E.same_value(o.st, o.v, rep), f"{nm} does not look at the outcome of the write", f, tr)

# ---- receiving -----------------------------------------------------------------------------------------------------------
def consumption(R, w, f):
    """paths of a receive function on a handle: (path, consumed messages)"""
    E = w.E
    pt = E.pointee(f.locals[1])
    st = State()
    h0 = E.const_sym("handle", pt)
    b = E.newbox(st, h0, "T")
    sts = [st]
    for p, x, t in leaves_opt(E, st, h0, pt, MSG):
        nx = []
        for s in sts:
            for k in (0, 1):
                s2 = s.copy()
                if E.set_variant(s2, x, k): nx.append(s2)
        sts = nx
    for s0 in sts:
        held0 = messages_in(E, s0, h0, pt, MSG)
        for o in run(E, f, [("ref", b, ())], s0.copy()):
            if o.k == "panic":
                R.fail("receiving does not panic", f"{f.name} can panic", f, trace_of(o.st)); continue
            if o.k != "ret": continue
            held1 = messages_in(E, o.st, E.load(o.st, b, ()), pt, MSG)
            got = held0 + taken(E, o)
            yield o, [m for m in got if not any(E.same_value(o.st, m, h) for h in held1)]

def taken(E, o):
    got = []
    for e in o.st.ev:
        if e.k == "recv" and E.possible_variants(o.st, e["ret"]) == [1]:
            it = E.field(o.st, e["ret"], 1, 0)
            ik = enum_names(E, o.st, it)
            if ik is not None and len(ik) != 1: continue
            got += messages_in(E, o.st, it, E.tyof(it), MSG)
    return got

def pending(E, o):
    """messages that came with the handle of a request that was just sent, as far as the path looked"""
    got = []
    for e in o.st.ev:
        if e.k == "oneshot_recv" and E.possible_variants(o.st, e["ret"]) == [0]:
            rep = E.field(o.st, e["ret"], 0, 0)
            if E.possible_variants(o.st, rep) != [0]: continue
            h = E.field(o.st, rep, 0, 0)
            t = E.tyof(h)
            for p, x, t in leaves_opt(E, o.st, h, t, MSG):
                if E.possible_variants(o.st, x) == [1]: got.append(E.field(o.st, x, 1, 0))
    return got

def hdr_sid(E, st, m):
    h = fieldn(E, st, m, "header")
    return h, fieldn(E, st, h, "service_id")

def check_response(R, w, f, o, m, ty, what, role):
    """a response message m was taken: what was made of it"""
    E = w.E; nm = f.name.replace("verif_witness::", ""); tr = trace_of(o.st)
    h, sid = hdr_sid(E, o.st, m)
    body = fieldn(E, o.st, m, "body")
    mt = enum_names(E, o.st, fieldn(E, o.st, h, "message_type")) or []
    dec, ie = dec_of(E, o), ierr_of(E, o)
    err = E.field(o.st, o.v, 1, 0) if E.variant(o.st, o.v) == 1 else None
    kind = w.err_kind(o.st, err) if err is not None else None
    if mt != [RESP]:
        R.ob(f"{what}: only a response is a response", not dec and not ie and E.variant(o.st, o.v) == 1, f"{nm} treats a {'/'.join(mt)} message as the response", f, tr)
        return
    maybe_err, maybe_ok = can_be(E, o.st, sid, ERROR_ID), not is_id(E, o.st, sid, ERROR_ID)
    R.ob(f"{what}: errors and other responses are told apart", maybe_err != maybe_ok, f"{nm} handles a response without looking whether its service ID is that of an error", f, tr)
    if maybe_err == maybe_ok: return
    if maybe_err:
        R.count("error response paths")
        R.ob(f"{what}: an error response is not decoded", not dec, f"{nm} decodes the body of an error response as {ty}", f, tr)
        R.ob(f"{what}: the text of the error response is read", len(ie) == 1 and E.same_value(o.st, ie[0]["args"][0], body), f"{nm} does not read the text of the error response", f, tr)
        if len(ie) == 1:
            k = E.possible_variants(o.st, ie[0]["ret"])
            if k == [0]:
                txt = E.field(o.st, ie[0]["ret"], 0, 0)
                R.ob(f"{what}: an error response is a remote error", kind == "RemoteError" and mentions(E, o.st, err, txt), f"{nm} returns {short(o.v, 80)} for an error response", f, tr)
            elif k == [1]:
                R.ob(f"{what}: an unreadable error response is an error", err is not None and kind == "DecodeFailed", f"{nm} returns {short(o.v, 80)} for an unreadable error response", f, tr)
            else:
                R.fail(f"{what}: an error response is a remote error", f"{nm} does not look at the text of the error response", f, tr)
    else:
        R.count("success response paths")
        R.ob(f"{what}: a response that is no error is decoded", len(dec) == 1 and not ie and E.same_value(o.st, dec[0]["args"][0], body), f"{nm} does not decode the body of the response", f, tr)
        if len(dec) != 1: return
        R.ob(f"{what}: decodes the declared type", gty(dec[0]) == w.tid[ty], f"{nm} decodes a {E.ty_name(gty(dec[0]))}, declared is {ty}", f, tr)
        dk = E.possible_variants(o.st, dec[0]["ret"])
        if dk == [0]:
            ok = E.variant(o.st, o.v) == 0 and (ty == "()" or E.same_value(o.st, E.field(o.st, o.v, 0, 0), E.field(o.st, dec[0]["ret"], 0, 0)))
            R.ob(f"{what}: a decoded response is the result", ok, f"{nm} returns {short(o.v, 80)} for a decoded response", f, tr)
        elif dk == [1]:
            R.ob(f"{what}: a failed decoding is an error", kind == "DecodeFailed", f"{nm} returns {short(o.v, 80)} when decoding fails", f, tr)
        else:
            R.fail(f"{what}: looks at the result of the decoding", f"{nm} does not look at the result of the decoding", f, tr)

def mentions(E, st, v, x, depth=0):
    if E.same_value(st, v, x): return True
    if depth > 5: return False
    if v[0] == "ref": return mentions(E, st, E.load(st, v[1], v[2]), x, depth + 1)
    if v[0] == "S": return any(mentions(E, st, y, x, depth + 1) for y in v[3])
    if v[0] == "lz":
        k = E.variant(st, v)
        return k is not None and any(mentions(E, st, y, x, depth + 1) for y in dict(v[3])[k])
    if v[0] == "app": return any(isinstance(y, tuple) and mentions(E, st, y, x, depth + 1) for y in v[1:])
    return False

def recv_response(R, w, f, ty, what, role):
    E = w.E; n = set()
    for o, got in consumption(R, w, f):
        R.count("receive paths")
        tr = trace_of(o.st)
        R.ob(f"{what}: one message at a time", len(got) <= 1, f"{f.name} takes {len(got)} messages", f, tr)
        if got:
            n.add(1)
            check_response(R, w, f, o, got[0], ty, what, role)
        else:
            R.ob(f"{what}: nothing is made up", not dec_of(E, o) and not ierr_of(E, o) and E.variant(o.st, o.v) == 1, f"{f.name} returns {short(o.v, 60)} without a response", f, tr)
    R.ob(f"{what}: can receive a response", bool(n), f"{f.name} never takes a response", f)

def check_decoded(R, w, f, o, what, table, sid, hdr, body, whole, v, unknown, invalid, invalid_with, unwrap, role):
    """a message with an ID and a body was turned into the result v: the right variant of the right type, or the right
    error. unwrap(value) gives (variant name, payload) of a success"""
    E = w.E; nm = f.name.replace("verif_witness::", ""); tr = trace_of(o.st)
    dec = dec_of(E, o)
    k = E.variant(o.st, v)
    if k == 0:
        vn, pl = unwrap(E, o.st, E.field(o.st, v, 0, 0))
        u = next((u for u in table if camel(u["name"]) == vn), None)
        if not R.ob(f"{what}: success is a declared variant", u is not None, f"{nm} returns {short(v, 80)}", f, tr): return None
        R.ob(f"{what}: the variant belongs to the ID", is_id(E, o.st, sid, u["id"]), f"{nm} returns {vn} for service ID {short(sid, 40)}, which is declared with {u['id']}", f, tr)
        if not R.ob(f"{what}: the body is decoded once", len(dec) == 1, f"{nm} decodes {len(dec)} times", f, tr): return u
        ty = u.get("ty") or u.get("req")
        R.ob(f"{what}: decodes the declared type", gty(dec[0]) == w.tid[ty], f"{nm} decodes a {E.ty_name(gty(dec[0]))} for {u['name']}, declared is {ty}", f, tr)
        R.ob(f"{what}: decodes the body of the message", E.same_value(o.st, dec[0]["args"][0], body), f"{nm} decodes {short(dec[0]['args'][0], 60)}", f, tr)
        R.ob(f"{what}: returns what was decoded", E.possible_variants(o.st, dec[0]["ret"]) == [0] and (ty == "()" or E.same_value(o.st, pl, E.field(o.st, dec[0]["ret"], 0, 0))), f"{nm} returns {short(v, 80)}", f, tr)
        return u
    if k != 1:
        R.fail(f"{what}: a known result", f"{nm} returns {short(v, 80)}", f, tr); return None
    err = E.field(o.st, v, 1, 0)
    en = enum_name(E, o.st, err)
    if not dec:
        R.ob(f"{what}: a message that is not decoded is unknown", en == unknown, f"{nm} returns {short(v, 80)} ({en}) for a message it did not decode", f, tr)
        for u in table:
            R.ob(f"{what}: a declared ID is known", not can_be(E, o.st, sid, u["id"]), f"{nm} reports a message with the declared service ID {u['id']} of {u['name']} as unknown", f, tr, key=f"{what}: {u['name']} is known")
        ek = E.variant(o.st, err)
        ps = [E.field(o.st, err, ek, i) for i in range(len(whole))]
        R.ob(f"{what}: an unknown message is handed over whole", all(E.same_value(o.st, x, y) for x, y in zip(ps, whole)), f"{nm} reports {short(err, 80)} for an unknown message", f, tr)
        return None
    e = dec[0]
    R.ob(f"{what}: the body is decoded once", len(dec) == 1, f"{nm} decodes {len(dec)} times", f, tr)
    R.ob(f"{what}: a decoded message is not lost", E.possible_variants(o.st, e["ret"]) == [1], f"{nm} returns an error although the body was decoded", f, tr)
    us = [u for u in table if can_be(E, o.st, sid, u["id"])]
    R.ob(f"{what}: decodes the declared type", len(us) == 1 and gty(e) == w.tid[us[0].get("ty") or us[0].get("req")], f"{nm} decodes a {E.ty_name(gty(e))} for the service ID {short(sid, 40)}", f, tr)
    R.ob(f"{what}: decodes the body of the message", E.same_value(o.st, e["args"][0], body), f"{nm} decodes {short(e['args'][0], 60)}", f, tr)
    R.ob(f"{what}: a message that cannot be decoded is invalid", en == invalid, f"{nm} returns {en} when decoding fails", f, tr)
    if en == invalid:
        ek = E.variant(o.st, err)
        R.ob(f"{what}: an invalid message is handed over with what identifies it", E.same_value(o.st, E.field(o.st, err, ek, 0), invalid_with), f"{nm} reports {short(err, 80)}", f, tr)
        R.ob(f"{what}: an invalid message is handed over with the decode error", mentions(E, o.st, E.field(o.st, err, ek, 1), E.field(o.st, e["ret"], 1, 0)), f"{nm} reports {short(err, 80)}", f, tr)
    return us[0] if len(us) == 1 else None

def recv_update(R, w, f, table, what, role):
    E = w.E; seen, bad = set(), set()
    def unwrap(E, st, x):
        return enum_name(E, st, x), E.field(st, x, E.variant(st, x) or 0, 0)
    for o, got in consumption(R, w, f):
        R.count("receive paths")
        tr = trace_of(o.st)
        R.ob(f"{what}: one message at a time", len(got) <= 1, f"{f.name} takes {len(got)} messages", f, tr)
        if not got:
            R.ob(f"{what}: nothing is made up", not dec_of(E, o) and E.variant(o.st, o.v) == 0, f"{f.name} returns {short(o.v, 60)} without an update", f, tr); continue
        m = got[0]
        h, sid = hdr_sid(E, o.st, m)
        if not R.ob(f"{what}: no update is dropped", E.variant(o.st, o.v) == 1, f"{f.name} takes an update and returns None", f, tr): continue
        u = check_decoded(R, w, f, o, what, table, sid, h, fieldn(E, o.st, m, "body"), [m], E.field(o.st, o.v, 1, 0), "UnknownUpdate", "InvalidUpdate", h, unwrap, role)
        if u is not None: (seen if E.variant(o.st, E.field(o.st, o.v, 1, 0)) == 0 else bad).add(u["name"])
    for u in table:
        R.ob(f"{what}: every declared update can be received", u["name"] in seen, f"{f.name} never returns {camel(u['name'])}", f, key=f"{what}: {u['name']} is received")
        R.ob(f"{what}: every declared update can be invalid", u["name"] in bad, f"{f.name} never reports an undecodable {u['name']}", f, key=f"{what}: {u['name']} can be invalid")

def recv_message(R, w, f, i, role):
    E = w.E; what = "recv_message"; seen, bad = set(), set()
    acc = get(R, w.d, "request::ReceivedRequestHandle::service_id")
    st = State()
    for o in run(E, f, None, st):
        if o.k == "panic":
            R.fail(f"{what} does not panic", f"{f.name} can panic", f, trace_of(o.st)); continue
        if o.k != "ret": continue
        R.count("receive paths")
        tr = trace_of(o.st)
        items = [E.field(o.st, e["ret"], 1, 0) for e in o.st.ev if e.k == "recv" and E.possible_variants(o.st, e["ret"]) == [1]]
        R.ob(f"{what}: one message at a time", len(items) <= 1, f"{f.name} takes {len(items)} messages", f, tr)
        if not items or E.variant(o.st, items[0]) != 0:
            R.ob(f"{what}: a connection error is an error", E.variant(o.st, o.v) == 1 and not dec_of(E, o), f"{f.name} returns {short(o.v, 60)} at the end of the connection", f, tr)
            if items: R.ob(f"{what}: the connection error is passed on", E.variant(o.st, o.v) == 1 and mentions(E, o.st, o.v, E.field(o.st, items[0], 1, 0)), f"{f.name} returns {short(o.v, 60)} for a connection error", f, tr)
            continue
        raw = E.field(o.st, items[0], 0, 0)
        rn = enum_names(E, o.st, raw)
        if not R.ob(f"{what}: streams and requests are told apart", rn is not None and len(rn) == 1, f"{f.name} does not look whether it received a request or a stream message", f, tr): continue
        def unwrap_in(group):
            def unwrap(E, st, x):
                g = enum_name(E, st, x)
                if g != group: return (f"{g}", None)
                y = E.field(st, x, E.variant(st, x) or 0, 0)
                yk = E.variant(st, y)
                if group == "Stream": return enum_name(E, st, y), E.field(st, y, yk or 0, 0)
                return enum_name(E, st, y), E.field(st, y, yk or 0, 1)
            return unwrap
        if rn == ["Stream"]:
            m = E.field(o.st, raw, E.variant(o.st, raw), 0)
            h, sid = hdr_sid(E, o.st, m)
            u = check_decoded(R, w, f, o, f"{what} (streams)", i["streams"], sid, h, fieldn(E, o.st, m, "body"), [m], o.v, "UnknownStream", "InvalidStream", h, unwrap_in("Stream"), role)
            if u: (seen if E.variant(o.st, o.v) == 0 else bad).add(("stream", u["name"]))
        else:
            k = E.variant(o.st, raw)
            h, body = E.field(o.st, raw, k, 0), E.field(o.st, raw, k, 1)
            s2 = o.st.copy(); b = E.newbox(s2, h, "T")
            rs = call_pure(E, acc, [("ref", b, ())], s2)
            if len(rs) != 1: raise Giveup("service ID of a request handle")
            sid = rs[0][0]
            u = check_decoded(R, w, f, o, f"{what} (requests)", i["services"], sid, None, body, [h, body], o.v, "UnknownRequest", "InvalidRequest", h, unwrap_in("Request"), role)
            if u and E.variant(o.st, o.v) == 0:
                y = E.field(o.st, E.field(o.st, o.v, 0, 0), E.variant(o.st, E.field(o.st, o.v, 0, 0)) or 0, 0)
                hh = E.field(o.st, y, E.variant(o.st, y) or 0, 0)
                R.ob(f"{what}: a request comes with its own handle", mentions(E, o.st, hh, h), f"{f.name} returns {short(y, 80)}", f, tr)
            if u: (seen if E.variant(o.st, o.v) == 0 else bad).add(("service", u["name"]))
    for kind, us in (("stream", i["streams"]), ("service", i["services"])):
        for u in us:
            R.ob(f"{what}: every declared {kind} can be received", (kind, u["name"]) in seen, f"{f.name} never returns the {kind} {u['name']}", f, key=f"{what}: {kind} {u['name']} is received")
            R.ob(f"{what}: every declared {kind} can be invalid", (kind, u["name"]) in bad, f"{f.name} never reports an undecodable {kind} {u['name']}", f, key=f"{what}: {kind} {u['name']} can be invalid")

# ---- message enums -----------------------------------------------------------------------------------------------------
def impl_fn(w, trait, method, self_path):
    r = []
    for f in all_roots(w.d):
        if f.kind == "fn" and f.impl_trait and f.name.split("::")[-1] == method and trait in f.impl_trait and strip_generics(f.name).startswith(f"<{self_path} as "): r.append(f)
    return r

def check_enum(R, w, path, table):
    E = w.E; d = w.d
    a = d.adts.get(path)
    R.need(a, f"enum {path}")
    names = [v["name"] for v in a["variants"]]
    what = "message enum"
    R.ob(f"{what}: one variant per item", names == [camel(u["name"]) for u in table], f"{path} has the variants {names}", (path, None))
    idx = {u["name"]: names.index(camel(u["name"])) for u in table if camel(u["name"]) in names}
    tid = next((i for i, t in enumerate(d.types) if t["k"] == "adt" and t["adt"] == path), None)
    for u in table:
        if u["name"] not in idx: continue
        k = idx[u["name"]]
        R.ob(f"{what}: the payload has the declared type", E.field_ty(tid, k, 0) == w.tid[u["ty"]], f"{path}::{camel(u['name'])} holds a {E.ty_name(E.field_ty(tid, k, 0))}, declared is {u['ty']}", (path, None))
    # from_message
    fm, tm = impl_fn(w, "FromMessage", "from_message", path), impl_fn(w, "ToMessage", "to_message", path)
    R.need(len(fm) == 1, f"from_message of {path}"); R.need(len(tm) == 1, f"to_message of {path}")
    f = fm[0]; st = State(); m = sym_arg(E, st, f, 0)
    seen = set()
    for o in run(E, f, [m], st):
        if o.k != "ret":
            if o.k == "panic": R.fail("from_message does not panic", f"{path}::from_message can panic", f, trace_of(o.st))
            continue
        tr = trace_of(o.st)
        h, sid = hdr_sid(E, o.st, m); body = fieldn(E, o.st, m, "body"); dec = dec_of(E, o)
        k = E.variant(o.st, o.v)
        if k == 0:
            x = E.field(o.st, o.v, 0, 0); vn = enum_name(E, o.st, x)
            u = next((u for u in table if camel(u["name"]) == vn), None)
            if not R.ob("from_message: a declared variant", u is not None, f"{path}::from_message returns {short(o.v, 60)}", f, tr): continue
            seen.add(u["name"])
            R.ob("from_message: the variant belongs to the ID", is_id(E, o.st, sid, u["id"]), f"{path}::from_message returns {vn} for {short(sid, 40)}, declared is {u['id']}", f, tr)
            R.ob("from_message: decodes the body as the declared type", len(dec) == 1 and gty(dec[0]) == w.tid[u["ty"]] and E.same_value(o.st, dec[0]["args"][0], body)
                 and (u["ty"] == "()" or E.same_value(o.st, E.field(o.st, x, E.variant(o.st, x) or 0, 0), E.field(o.st, dec[0]["ret"], 0, 0))), f"{path}::from_message does not decode {vn} as {u['ty']}", f, tr)
        else:
            kind = w.err_kind(o.st, E.field(o.st, o.v, 1, 0))
            if dec: R.ob("from_message: a failed decoding is an error", kind == "DecodeFailed" and E.possible_variants(o.st, dec[0]["ret"]) == [1], f"{path}::from_message returns {short(o.v, 60)}", f, tr)
            else:
                R.ob("from_message: an unknown ID is reported", kind == "UnexpectedServiceId" and mentions(E, o.st, o.v, sid), f"{path}::from_message returns {short(o.v, 60)} for an unknown ID", f, tr)
                for u in table: R.ob("from_message: a declared ID is known", not can_be(E, o.st, sid, u["id"]), f"{path}::from_message does not know {u['name']}", f, tr)
    for u in table: R.ob("from_message: knows every item", u["name"] in seen, f"{path}::from_message never returns {camel(u['name'])}", f)
    # functions of &self / self
    for u in table:
        if u["name"] not in idx: continue
        for v in table:
            if v["name"] not in idx: continue
            k = idx[v["name"]]
            st = State(); x = E.const_sym("message", tid)
            if not E.set_variant(st, x, k): continue
            b = E.newbox(st, x, "T"); pl = E.field(st, x, k, 0)
            if u is v:
                for o in run(E, tm[0], [("ref", b, ())], st.copy()):
                    if o.k != "ret": continue
                    enc = enc_of(E, o); tr = trace_of(o.st); f = tm[0]
                    if not R.ob("to_message: encodes once", len(enc) == 1, f"{path}::to_message encodes {len(enc)} bodies", f, tr): continue
                    R.ob("to_message: encodes the payload as the declared type", gty(enc[0]) == w.tid[u["ty"]] and (u["ty"] == "()" or same_target(E, o.st, enc[0]["args"][0], pl)), f"{path}::to_message does not encode the payload of {camel(u['name'])} as {u['ty']}", f, tr)
                    ek = E.possible_variants(o.st, enc[0]["ret"]); k2 = E.variant(o.st, o.v)
                    if ek == [0]:
                        t = E.field(o.st, o.v, 0, 0) if k2 == 0 else None
                        R.ob("to_message: the declared ID", t is not None and is_id(E, o.st, E.field(o.st, t, 0, 0), u["id"]), f"{path}::to_message gives {short(o.v, 60)} for {camel(u['name'])}, declared is {u['id']}", f, tr)
                        R.ob("to_message: the encoded body", t is not None and E.same_value(o.st, E.field(o.st, t, 0, 1), E.field(o.st, enc[0]["ret"], 0, 0)), f"{path}::to_message gives {short(o.v, 60)}", f, tr)
                    else: R.ob("to_message: a failed encoding is an error", k2 == 1, f"{path}::to_message gives {short(o.v, 60)} when encoding fails", f, tr)
            for fname, arg in ((f"is_{u['name']}", ("ref", b, ())), (f"as_{u['name']}", ("ref", b, ())), (f"into_{u['name']}", x)):
                f = w.fn(f"{path}::{fname}")
                for o in run(E, f, [arg], st.copy()):
                    if o.k != "ret":
                        if o.k == "panic": R.fail("message enum: does not panic", f"{path}::{fname} can panic", f, trace_of(o.st))
                        continue
                    tr = trace_of(o.st)
                    if fname.startswith("is_"):
                        R.ob("message enum: is_* names the variant", E.truth(o.st, o.v) == (u is v), f"{path}::{fname} is {short(o.v)} for {camel(v['name'])}", f, tr)
                    elif fname.startswith("as_"):
                        kk = E.variant(o.st, o.v)
                        R.ob("message enum: as_* gives the payload", kk == (1 if u is v else 0) and (u is not v or u["ty"] == "()" or same_target(E, o.st, E.field(o.st, o.v, 1, 0), pl)), f"{path}::{fname} gives {short(o.v, 60)} for {camel(v['name'])}", f, tr)
                    else:
                        kk = E.variant(o.st, o.v)
                        if u is v: R.ob("message enum: into_* gives the payload", kk == 0 and (u["ty"] == "()" or E.same_value(o.st, E.field(o.st, o.v, 0, 0), pl)), f"{path}::{fname} gives {short(o.v, 60)} for {camel(v['name'])}", f, tr)
                        else:
                            err = E.field(o.st, o.v, 1, 0) if kk == 1 else None
                            R.ob("message enum: into_* reports the other ID", err is not None and w.err_kind(o.st, err) == "UnexpectedServiceId" and mentions(E, o.st, err, ("c", v["id"])), f"{path}::{fname} gives {short(o.v, 60)} for {camel(v['name'])}, whose ID is {v['id']}", f, tr)

def same_target(E, st, r, x):
    if r[0] == "ref": return E.same_value(st, E.load(st, r[1], r[2]), x)
    return ptr_eq(E, st, r, x)

# ---- all items -----------------------------------------------------------------------------------------------------------
def senders(w, i):
    """generated send functions: (function, message types, ID, type, index of the argument, text)"""
    m = mod(i)
    for u in i["streams"]:
        yield w.fn(f"{m}::Client::send_{u['name']}"), (STREAM,), u["id"], u["ty"], 1, "send of a stream message"
    for s in i["services"]:
        p = f"{m}::{s['name']}"
        for h in ("ReceivedRequestHandle", "ReceivedRequestWriteHandle"):
            yield w.fn(f"{p}::{h}::send_response"), (RESP,), s["id"], s["resp"], 1, f"{h}::send_response"
            for u in s["su"]: yield w.fn(f"{p}::{h}::send_{u['name']}_update"), (RESP_UPD,), u["id"], u["ty"], 1, f"{h}::send_*_update"
        if s["ru"] or s["su"]:
            for h in ("SentRequestHandle", "SentRequestWriteHandle"):
                for u in s["ru"]: yield w.fn(f"{p}::{h}::send_{u['name']}_update"), (REQ_UPD,), u["id"], u["ty"], 1, f"{h}::send_*_update"

def service_calls(w, i):
    for s in i["services"]:
        yield s, w.fn(f"{mod(i)}::Client::{s['name']}")

def direct(s): return not (s["ru"] or s["su"])

def check_service_call(R, w, s, f, role):
    E = w.E
    got_any = set()
    def follow(o, c, tr):
        if role == "C17": return
        if direct(s):
            got = taken(E, o) + pending(E, o)
            if got:
                got_any.add(1)
                for m in got[:1]: check_response(R, w, f, o, m, s["resp"], "service call", role)
                R.ob("service call: one response", len(got) == 1, f"{f.name} takes {len(got)} messages", f, tr)
            else:
                R.ob("service call: nothing is made up", E.variant(o.st, o.v) == 1 and not dec_of(E, o) and not ierr_of(E, o), f"{f.name} returns {short(o.v, 60)} without a response", f, tr)
        else:
            R.ob("service call: the response is not awaited", not taken(E, o), f"{f.name} takes messages of the request", f, tr)
            if E.variant(o.st, o.v) == 0: got_any.add(1)
    check_send(R, w, f, (REQ,), s["id"], s["req"], 1, "service call", role, follow)
    if role != "C17": R.ob("service call: can succeed", bool(got_any), f"{f.name} never gets a response", f)

def for_all(R, which, part):
    w = W(R, which)
    for i in w.ifs:
        try: part(R, w, i)
        except Unsupported as e: R.undecided(f"{i['mod']}: {e}")
        R.count("interfaces"); R.count("services", len(i["services"])); R.count("streams", len(i["streams"]))
        R.count("updates", sum(len(s["ru"]) + len(s["su"]) for s in i["services"]))

def both(part):
    def g(R):
        which = ["fixed", 0] + (list(range(1, 16)) if os.environ.get("VERIF_DEPTH") == "thorough" else [])
        in_parallel(R, [(str(k), (lambda k: lambda S: for_all(S, k, part))(k)) for k in which], budget=600.0)
    return g

def c40_part(R, w, i):
    for f, kinds, sid, ty, ai, what in senders(w, i): check_send(R, w, f, kinds, sid, ty, ai, what, "C40")
    for s, f in service_calls(w, i): check_service_call(R, w, s, f, "C40")
    receivers(R, w, i, "C40")
    if i["streams"]: check_enum(R, w, f"{mod(i)}::StreamMessage", i["streams"])
    for s in i["services"]:
        # the enums of updates exist where updates can be exchanged by generated code
        if s["ru"]: check_enum(R, w, f"{mod(i)}::{s['name']}::RequestUpdate", s["ru"])
        if s["su"]: check_enum(R, w, f"{mod(i)}::{s['name']}::ResponseUpdate", s["su"])

def receivers(R, w, i, role):
    if i["services"] or i["streams"]: recv_message(R, w, w.fn(f"{mod(i)}::Server::recv_message"), i, role)
    for s in i["services"]:
        p = f"{mod(i)}::{s['name']}"
        if s["ru"]: recv_update(R, w, w.fn(f"{p}::ReceivedRequestHandle::recv_update"), s["ru"], "ReceivedRequestHandle::recv_update", role)
        if s["su"]: recv_update(R, w, w.fn(f"{p}::SentRequestHandle::recv_update"), s["su"], "SentRequestHandle::recv_update", role)
        if not direct(s): recv_response(R, w, w.fn(f"{p}::SentRequestHandle::recv_response"), s["resp"], "SentRequestHandle::recv_response", role)

def c40(R):
    R.rule("Witness interfaces with every kind of item, in every position, with unit, equal and distinct types and extreme IDs are expanded by the macro of the current tree; every generated function is interpreted for "
           "every format (the format stays a type parameter). Each send function must encode the caller's value as the declared type and hand it to the peer with the declared ID and the right message type; each receive "
           "function must decode the body as the type declared for the ID it has established and return the variant of that item.")
    both(c40_part)(R)

def c42_part(R, w, i):
    for f, kinds, sid, ty, ai, what in senders(w, i): check_send(R, w, f, kinds, sid, ty, ai, what, "C42")
    for s, f in service_calls(w, i): check_service_call(R, w, s, f, "C42")
    for s in i["services"]:
        if not direct(s): recv_response(R, w, w.fn(f"{mod(i)}::{s['name']}::SentRequestHandle::recv_response"), s["resp"], "SentRequestHandle::recv_response", "C42")
        for h in ("ReceivedRequestHandle", "ReceivedRequestWriteHandle"): error_response(R, w, w.fn(f"{mod(i)}::{s['name']}::{h}::send_error_response"), f"{h}::send_error_response")

def error_response(R, w, f, what):
    """send_error_response sends an error response with the caller's text"""
    E = w.E; st = State(); args = [sym_arg(E, st, f, i) for i in range(f.argc)]; n = 0
    for o in run(E, f, args, st):
        if o.k != "ret": continue
        snt = commands(E, o); tr = trace_of(o.st)
        if not snt:
            R.ob(f"{what}: not sending is an error", E.variant(o.st, o.v) == 1, f"{f.name} reports success without sending anything", f, tr); continue
        n += 1
        c = snt[0]
        R.ob(f"{what}: sends an error response", len(snt) == 1 and c[1] == RESP and is_id(E, o.st, c[2], ERROR_ID), f"{f.name} sends a {c[1]} message with service ID {short(c[2], 40)}", f, tr)
        fe = calls(E, o, "from_error")
        R.ob(f"{what}: sends the caller's text", len(fe) == 1 and ptr_eq(E, o.st, fe[0]["args"][0], args[1]) and E.same_value(o.st, c[3], fe[0]["ret"]), f"{f.name} sends {short(c[3], 60)}", f, tr)
    R.ob(f"{what}: sends", n > 0, f"{f.name} never sends anything", f)

def c42(R):
    R.rule("For the same witness interfaces: on every path on which generated code takes a response, it has established whether the service ID is the one of errors; if so the body goes to Body::into_error and nothing is "
           "decoded, and its text becomes a remote error; if not the body is decoded as the declared type and becomes the result. On every path on which encoding failed nothing is sent and an encode error is returned.")
    both(c42_part)(R)

def c43(R):
    R.rule("For the same witness interfaces: every path of the generated recv_message and recv_update that takes a message from the peer returns it decoded, or as unknown with the message unchanged (only for IDs that are not "
           "declared), or as invalid with its header or request handle and the decode error; and for every declared item both a success and an invalid result are possible.")
    both(lambda R, w, i: receivers_only(R, w, i))(R)

def receivers_only(R, w, i):
    if i["services"] or i["streams"]: recv_message(R, w, w.fn(f"{mod(i)}::Server::recv_message"), i, "C43")
    for s in i["services"]:
        p = f"{mod(i)}::{s['name']}"
        if s["ru"]: recv_update(R, w, w.fn(f"{p}::ReceivedRequestHandle::recv_update"), s["ru"], "ReceivedRequestHandle::recv_update", "C43")
        if s["su"]: recv_update(R, w, w.fn(f"{p}::SentRequestHandle::recv_update"), s["su"], "SentRequestHandle::recv_update", "C43")

# ---- introspection -------------------------------------------------------------------------------------------------------
def c44_part(R, w, i):
    E = w.E; m = mod(i) + "::Interface"
    def text(v):
        return v[1] if isinstance(v, tuple) and v[0] == "str" else None
    def one(f, args=()):
        outs = [o for o in run(E, f, list(args)) if o.k == "ret"]
        if len(outs) != 1: raise Giveup(f"{f.name} has {len(outs)} paths")
        return outs[0]
    def info(o, v, ty, what, f):
        e = next((e for e in calls(E, o, "type_info") if E.same_value(o.st, e["ret"], v)), None)
        R.ob(f"{what}: type information of the declared type", e is not None and gty(e) == w.tid[ty], f"{f.name}: the type information given for {ty} is {short(v, 60)}" + (f" of {E.ty_name(gty(e))}" if e else ""), f)
    def seq(o, v):
        """elements of a vector with known contents"""
        if v[0] == "S" and E.adt_of(v[1]) == "alloc::vec::Vec": return list(v[3])
        raise Giveup(f"contents of {short(v, 60)}")
    def item(o, v, u, what, f):
        st = o.st
        R.ob(f"{what}: name", text(fieldn(E, st, v, "name")) == u["name"], f"{f.name} lists {short(fieldn(E, st, v, 'name'))}, declared is {u['name']}", f)
        R.ob(f"{what}: documentation", text(fieldn(E, st, v, "doc")) == doc_text(u["doc"]), f"{f.name} documents {u['name']} as {short(fieldn(E, st, v, 'doc'))}", f)
        R.ob(f"{what}: hidden flag", E.truth(st, fieldn(E, st, v, "hidden")) == u["hidden"], f"{f.name} gives hidden = {short(fieldn(E, st, v, 'hidden'))} for {u['name']}", f)
        R.ob(f"{what}: ID", is_id(E, st, fieldn(E, st, v, "service_id"), u["id"]), f"{f.name} lists {u['name']} with ID {short(fieldn(E, st, v, 'service_id'))}, declared is {u['id']}", f)
    def updates(o, v, us, what, f):
        xs = seq(o, v)
        if not R.ob(f"{what}: every item once", len(xs) == len(us), f"{f.name} lists {len(xs)} updates, declared are {len(us)}", f): return
        for x, u in zip(xs, us):
            item(o, x, u, what, f); info(o, fieldn(E, o.st, x, "body"), u["ty"], what, f)
    def streams(o, v, f):
        xs = seq(o, v)
        if not R.ob("streams: every item once", len(xs) == len(i["streams"]), f"{f.name} lists {len(xs)} streams, declared are {len(i['streams'])}", f): return
        for x, u in zip(xs, i["streams"]):
            item(o, x, u, "streams", f); info(o, fieldn(E, o.st, x, "body"), u["ty"], "streams", f)
    def services(o, v, f):
        xs = seq(o, v)
        if not R.ob("services: every item once", len(xs) == len(i["services"]), f"{f.name} lists {len(xs)} services, declared are {len(i['services'])}", f): return
        for x, s in zip(xs, i["services"]):
            item(o, x, s, "services", f)
            info(o, fieldn(E, o.st, x, "request_body"), s["req"], "requests", f)
            info(o, fieldn(E, o.st, x, "response_body"), s["resp"], "responses", f)
            updates(o, fieldn(E, o.st, x, "request_updates"), s["ru"], "request updates", f)
            updates(o, fieldn(E, o.st, x, "response_updates"), s["su"], "response updates", f)
    try:
        f = w.fn(m + "::name"); o = one(f)
        R.ob("interface: name", text(o.v) == i["name"], f"{f.name} is {short(o.v)}", f)
        f = w.fn(m + "::doc"); o = one(f)
        R.ob("interface: documentation", text(o.v) == doc_text(i["doc"]), f"{f.name} is {short(o.v)}", f)
        f = w.fn(m + "::services"); o = one(f); services(o, o.v, f)
        f = w.fn(m + "::streams"); o = one(f); streams(o, o.v, f)
        f = w.fn(m + "::definition"); o = one(f)
        R.ob("interface: name", text(fieldn(E, o.st, o.v, "name")) == i["name"], f"{f.name} gives the name {short(fieldn(E, o.st, o.v, 'name'))}", f)
        R.ob("interface: documentation", text(fieldn(E, o.st, o.v, "doc")) == doc_text(i["doc"]), f"{f.name} gives {short(fieldn(E, o.st, o.v, 'doc'))}", f)
        R.ob("interface: hidden flag", E.truth(o.st, fieldn(E, o.st, o.v, "hidden")) == i["hidden"], f"{f.name} gives hidden = {short(fieldn(E, o.st, o.v, 'hidden'))}", f)
        services(o, fieldn(E, o.st, o.v, "services"), f); streams(o, fieldn(E, o.st, o.v, "streams"), f)
    except Giveup as e:
        R.undecided(f"{i['mod']}: {e}")

def c44(R):
    R.rule("The generated introspection functions of the witness interfaces are interpreted for every format; their results are compared, item by item and in order, with what was declared: names, documentation, IDs, "
           "hidden flags, and the type argument of the FormatTypeInfo call behind each type information, which must be the type generated code encodes and decodes (C40).")
    both(c44_part)(R)

# ---- C45: what the generated handles wrap --------------------------------------------------------------------------------
WRAPS = {"Client": "peer_handle::PeerWriteHandle", "Server": "peer_handle::PeerReadHandle", "SentRequestHandle": "request::SentRequestHandle", "SentRequestWriteHandle": "request::SentRequestWriteHandle",
         "ReceivedRequestHandle": "request::ReceivedRequestHandle", "ReceivedRequestWriteHandle": "request::ReceivedRequestWriteHandle"}
FORWARDS = ("request_id", "service_id", "write_handle", "close", "close_handle", "clone", "same_peer")

def unwrap(E, st, v, tid):
    """the library value in a generated value; references are followed"""
    for _ in range(4):
        if v[0] == "ref":
            v = E.load(st, v[1], v[2])
            tid = v[1] if v[0] == "S" and isinstance(v[1], int) else E.tyof(v) if isinstance(E.tyof(v), int) else tid
            continue
        t = v[1] if v[0] == "S" and isinstance(v[1], int) else E.tyof(v)
        if not isinstance(t, int): t = tid
        while isinstance(t, int) and E.ty(t)["k"] == "ref": t = E.ty(t)["t"]
        a = E.adt_of(t) if isinstance(t, int) else None
        if a is None or not a.startswith("verif_witness::"): return v, t
        k = None
        for i in range(len(E.dump.adts[a]["variants"][0]["fields"])):
            b = E.adt_of(E.field_ty(t, 0, i))
            if b in WRAPS.values(): k = i
        if k is None: return v, t
        v, tid = E.field(st, v, 0, k), E.field_ty(t, 0, k)
    return v, tid

def happened(E, st, n0):
    """what was done to channels, as comparable values"""
    out = []
    for e in list(st.ev)[n0:]:
        if e.k == "send": out.append((e["chan"], enum_name(E, st, e["value"])))
        elif e.k == "call" and not (e.get("path") if hasattr(e, "get") else e.d.get("path", "")).split("::")[-1] in ("drop",): out.append(("call", e.d.get("path")))
    return out

def c45_part(R, w, i):
    E, d = w.E, w.d
    m = mod(i)
    paths = [f"{m}::Client", f"{m}::Server"] + [f"{m}::{s['name']}::{h}" for s in i["services"] for h in WRAPS if h.endswith("Handle")]
    sids = {f"{m}::{s['name']}": s["id"] for s in i["services"]}
    for p in paths:
        a = d.adts.get(p)
        if a is None: continue
        nm = p.split("::")[-1]
        lib = WRAPS[nm]
        seen = set()
        for f in all_roots(d):
            if f.kind != "fn" or not isinstance(f.impl_self, int) or E.adt_of(f.impl_self) != p: continue
            fn = f.name.split("::")[-1]
            if fn in ("new", "from"): made_of(R, w, f, p, lib); seen.add(fn); continue
            if fn in ("inner", "inner_mut", "into_inner"):
                st = State(); h = E.const_sym("handle", f.impl_self)
                b = E.newbox(st, h, "T")
                arg = ("ref", b, ()) if E.ty(f.locals[1])["k"] == "ref" else h
                k = 0
                for o in run(E, f, [arg], st, await_it=False):
                    if o.k != "ret": R.fail(f"{nm}::{fn} returns", f"{f.name} can panic", f, trace_of(o.st)); continue
                    k += 1
                    x = o.v
                    R.ob(f"{nm}::{fn} gives the wrapped handle", same_target(E, o.st, x, unwrap(E, o.st, h, f.impl_self)[0]), f"{f.name} gives {short(x, 60)}", f, trace_of(o.st))
                R.ob(f"{nm}::{fn} returns", k > 0, f"{f.name} does not return", f)
                t = E.ty(f.locals[0]); form = E.ty(f.locals[0])["s"]
                want = {"inner": t["k"] == "ref" and not form.startswith("&mut"), "inner_mut": t["k"] == "ref" and form.startswith("&mut"), "into_inner": t["k"] != "ref"}[fn]
                R.ob(f"{nm}::{fn} gives the promised form of access", want, f"{f.name} gives {form}", f)
                seen.add(fn)
            if fn in FORWARDS: forwards(R, w, f, p, lib, fn, sids.get(p.rsplit("::", 1)[0])); seen.add(fn)
        R.count("generated handle types")
        need = {"Client": {"new", "from", "close", "close_handle", "clone"}, "Server": {"from", "close", "close_handle"}}.get(nm, {"request_id", "service_id", "inner", "into_inner"} | ({"write_handle"} if not nm.endswith("WriteHandle") else {"clone"}))
        for x in sorted(need - seen): R.fail(f"{nm} has {x}", f"{p} has no {x}", ("macros/src/interface/generate", None), [])

def forwards(R, w, f, p, lib, fn, sid=None):
    E, d = w.E, w.d
    nm = p.split("::")[-1]
    g = [x for x in all_roots(d) if x.kind == "fn" and isinstance(x.impl_self, int) and E.adt_of(x.impl_self) == lib and x.name.split("::")[-1] == fn and (fn != "clone" or x.impl_trait)]
    if len(g) != 1: R.undecided(f"{lib} has no {fn}"); return
    g = g[0]
    st = State(); h = E.const_sym("handle", f.impl_self)
    inner, it = unwrap(E, st, h, f.impl_self)
    if E.adt_of(it) != lib: R.fail(f"{nm} wraps the library's handle", f"{p} wraps {E.ty_name(it)}", f, []); return
    n0 = len(list(st.ev))
    def go(fun, v):
        s = st.copy(); b = E.newbox(s, v, "T")
        arg = ("ref", b, ()) if E.ty(fun.locals[1])["k"] == "ref" else v
        return run(E, fun, [arg], s, await_it=False)
    theirs = [o for o in go(g, inner) if o.k == "ret"]
    k = 0
    for o in go(f, h):
        tr = trace_of(o.st)
        if o.k == "panic": R.fail(f"{nm}::{fn} does not panic", f"{f.name} can panic", f, tr); continue
        if o.k != "ret": continue
        k += 1
        R.count("forwarded calls")
        v, t = unwrap(E, o.st, o.v, f.locals[0])
        # a handle of a service is only made for requests of that service
        ok = fn == "service_id" and sid is not None and E.same_value(o.st, o.v, ("c", sid)) and not happened(E, o.st, n0)
        for q in theirs:
            u, _ = unwrap(E, q.st, q.v, g.locals[0])
            mine, his = happened(E, o.st, n0), happened(E, q.st, n0)
            ok |= E.same_value(o.st, v, u) and (mine == his or (fn == "close" and all(x in mine for x in his) and {x[0] for x in mine} == {x[0] for x in his} and {x[1] for x in mine} - {x[1] for x in his} <= {"UnregisterReadHandle", "UnregisterWriteHandle"}))
        R.ob(f"{nm}::{fn} does what the wrapped handle does", ok, f"{f.name} gives {short(v, 80)} and does {happened(E, o.st, n0)}; {g.name} gives {[short(q.v, 60) for q in theirs]}", f, tr)
    R.ob(f"{nm}::{fn} returns", k > 0, f"{f.name} does not return", f)

def made_of(R, w, f, p, lib):
    """new and From: the handle that was given, or its half, is wrapped"""
    E, d = w.E, w.d
    nm = p.split("::")[-1]
    st = State(); arg = sym_arg(E, st, f, 0)
    a = E.adt_of(f.locals[1])
    k = 0
    for o in run(E, f, [arg], st.copy(), await_it=False):
        tr = trace_of(o.st)
        if o.k == "panic": R.fail(f"{nm} can be made of a handle", f"{f.name} can panic", f, tr); continue
        if o.k != "ret": continue
        k += 1
        R.count("generated conversions")
        v, t = unwrap(E, o.st, o.v, f.locals[0])
        want = None
        if a == lib: want = arg
        elif a is not None and a in d.adts:
            sp = find(d, a + "::split")
            R.need(len(sp) == 1, f"{a}::split")
            for pr, s2 in call_pure(E, sp[0], [arg], st):
                for j in (0, 1):
                    x = E.field(s2, pr, 0, j)
                    if E.adt_of(E.field_ty(sp[0].locals[0], 0, j)) == lib: want = x
        R.ob(f"{nm} wraps the handle it was made of", want is not None and E.same_value(o.st, v, want), f"{f.name} wraps {short(v, 80)}", f, tr)
    R.ob(f"{nm} can be made of a handle", k > 0, f"{f.name} does not return", f)

def c45(R):
    R.rule("For the same witness interfaces: every constructor and conversion of the generated Client, Server and request handles wraps exactly the library handle it was given (or the right half of it); inner, inner_mut and into_inner give "
           "that handle; request_id, service_id, write_handle, close, close_handle and clone are interpreted side by side with the library's function of the wrapped handle and give the same value and have the same effect on its channels.")
    both(c45_part)(R)

def c17_generated(R):
    def part(R, w, i):
        for f, kinds, sid, ty, ai, what in senders(w, i): check_send(R, w, f, kinds, sid, ty, ai, "generated " + what, "C17")
    for_all(R, "fixed", part)

def c17(R):
    import r_peer
    r_peer.RULES["C17"](R)
    if not any(v for v in R.viol): c17_generated(R)
    R.rule(R.rule_text + " The same holds for every send function that interface! generates for the witness interfaces (see C40).")

EXTENDS = {"C17": guarded(c17)}  # rules of other modules with more obligations
RULES = {"C40": guarded(c40), "C42": guarded(c42), "C43": guarded(c43), "C44": guarded(c44), "C45": guarded(c45)}
