"""C01 header codec and message constructors; C60 error predicates."""
from lib import *

TYPES = {"Request": 0, "Response": 1, "RequesterUpdate": 2, "ResponderUpdate": 3, "Stream": 4}
KIND = {"LittleEndian": "le", "BigEndian": "be", "NativeEndian": "le" if sys.byteorder == "little" else "be"}

def byte_buf(E, st, name, tid, minlen=None, exact=None):
    """a symbolic byte buffer behind a slice reference"""
    n = E.typed(("s", name + ".len", 0, None), "usize") if exact is None else ("c", exact)
    b = ("B", name)
    st.mem[b] = ("bytes", n, ("val", ("s", name, 0, None)), ())
    if minlen is not None:
        E.add_con(st, lin.le(("c", minlen), n))
    return ("slice", b, (), ("c", 0), n), n

def enc_is(E, st, content, kind, v):
    """content is the 4 byte encoding of the 32 bit value v"""
    if content[0] != "enc" or content[2] != 4 or content[1] != kind: return False
    return E.eq(st, content[3], v) or (content[3][0] == "cast" and E.eq(st, content[3][2], v))

def c01(R):
    R.rule("MessageHeader::encode/decode are interpreted for every endianness with symbolic field values and symbolic buffers of any sufficient length; "
           "the resulting byte map (offset -> encoded field) is compared with the documented layout. Constructors are interpreted with symbolic arguments.")
    d = dump()
    endian = R.need(adt(d, "Endian"), "type Endian")
    mt = R.need(adt(d, "MessageType"), "type MessageType")
    names = {v["name"]: int(v["discr"]) for v in mt["variants"]}
    R.ob("message type numbers", names == TYPES, f"message types and numbers are {names}, documented {TYPES}", mt["path"])
    enc = get(R, d, "MessageHeader::encode")
    dec = get(R, d, "MessageHeader::decode")
    for i, v in enumerate(endian["variants"]):
        en = v["name"]
        kind = R.need(KIND.get(en), f"endianness {en}")
        # encode
        E = engine(R, d)
        st = State()
        hdr = sym_arg(E, st, enc, 0)
        sl, n = byte_buf(E, st, "buf", enc.locals[2])
        e = ("S", enc.locals[3], i, ())
        outs = run(E, enc, [hdr, sl, e], st)
        nret = 0
        for o in outs:
            if o.k == "panic":
                ok = not E.le(o.st, ("c", 12), n) and E.add_con(o.st.copy(), lin.lt(n, ("c", 12)))
                # a panic is only allowed for a buffer that is too small
                s2 = o.st.copy()
                bad = E.add_con(s2, lin.le(("c", 12), n))
                R.ob(f"encode-panic[{en}]", not bad, "encode panics only if the buffer is shorter than 12 bytes", enc, trace_of(o.st), key=f"encode can panic for a buffer of 12 bytes or more ({en})")
                continue
            if o.k != "ret": continue
            s2 = o.st
            if not E.add_con(s2, lin.le(("c", 12), n)): continue
            nret += 1
            h = E.load(s2, *E.ptr_loc(s2, hdr))
            mtv = fieldn(E, s2, h, "message_type")
            disc = E.discr(s2, mtv, E.tyof(mtv))
            exp = {0: disc, 4: fieldn(E, s2, h, "request_id"), 8: fieldn(E, s2, h, "service_id")}
            for off, fv in exp.items():
                c = M.content_of(E, s2, E.load(s2, ("B", "buf"), ()), ("c", off), ("c", 4))
                R.ob(f"encode[{en}]@{off}", enc_is(E, s2, c, kind, fv), f"bytes {off}..{off+4} hold {short(c, 200)}, expected the {kind} encoding of {short(fv)}", enc, trace_of(s2), key=f"encode writes the wrong bytes at offset {off} ({en})")
            rest = M.content_of(E, s2, E.load(s2, ("B", "buf"), ()), ("c", 12), lin.sub(n, ("c", 12)))
            R.ob(f"encode[{en}] nothing else", rest[0] == "sub" and rest[1] == ("val", ("s", "buf", 0, None)) or E.eq(s2, n, ("c", 12)), f"bytes from 12 on hold {short(rest)}", enc, key=f"encode changes bytes behind the header ({en})")
        R.ob(f"encode[{en}] returns", nret >= 1, "encode returns for a buffer of at least 12 bytes", enc)
        # decode
        E = engine(R, d)
        st = State()
        sl, n = byte_buf(E, st, "buf", dec.locals[1])
        E.add_con(st, lin.le(("c", 12), n))
        outs = run(E, dec, [sl, ("S", dec.locals[2], i, ())], st)
        seen_ok = set(); seen_err = 0
        for o in outs:
            R.ob(f"decode[{en}] no panic", o.k == "ret", f"decode does not panic on a buffer of at least 12 bytes ({o.k} {short(o.v) if o.v else ''})", dec, trace_of(o.st), key=f"decode can panic ({en})")
            if o.k != "ret": continue
            s2 = o.st
            word = lambda off, ity: E.typed(("dec", kind, ity, M.content_of(E, s2, E.load(s2, ("B", "buf"), ()), ("c", off), ("c", 4)), 4), ity)
            r = E.variant(s2, o.v)
            raw = word(0, "u32")
            if r == 0:
                h = E.field(s2, o.v, 0, 0)
                m = fieldn(E, s2, h, "message_type")
                k = E.variant(s2, m)
                if k is None:
                    R.fail(f"decode[{en}] type", f"the decoded message type {short(m)} is not determined", dec, trace_of(s2)); continue
                num = TYPES[mt["variants"][k]["name"]] if mt["variants"][k]["name"] in TYPES else -1
                seen_ok.add(num)
                R.ob(f"decode[{en}] type {num}", E.eq(s2, raw, ("c", num)), f"message type {mt['variants'][k]['name']} is decoded from the number {num} at offset 0 (known about it: {[short(raw, 80)]})", dec, trace_of(s2), key=f"decode maps a wrong number to {mt['variants'][k]['name']} ({en})")
                for fname, off, ity in (("request_id", 4, "u32"), ("service_id", 8, "i32")):
                    v = fieldn(E, s2, h, fname)
                    w = word(off, ity)
                    R.ob(f"decode[{en}] {fname}", v == w or E.eq(s2, v, w) and E.intlike(v), f"{fname} is {short(v, 200)}, expected {short(w, 200)}", dec, trace_of(s2), key=f"decode reads {fname} wrongly ({en})")
            else:
                seen_err += 1
                for num in TYPES.values():
                    s3 = s2.copy()
                    R.ob(f"decode[{en}] error for unknown numbers only", not E.add_eq(s3, raw, ("c", num)), f"the error path excludes the valid number {num}", dec, trace_of(s2), key=f"decode rejects the valid message type {num} ({en})")
        R.ob(f"decode[{en}] accepts all types", seen_ok == set(TYPES.values()), f"decoded types: {sorted(seen_ok)}", dec)
        R.ob(f"decode[{en}] rejects others", seen_err >= 1, "unknown message types give an error", dec)
    R.count("endiannesses", len(endian["variants"]))
    # constructors
    cons = {"request": "Request", "response": "Response", "requester_update": "RequesterUpdate", "responder_update": "ResponderUpdate", "stream": "Stream"}
    err_id = ("c", -1)
    for base in ("MessageHeader", "Message"):
        for nm, tyn in list(cons.items()) + [("error_response", "Response")]:
            f = get(R, d, f"{base}::{nm}")
            E = engine(R, d)
            st = State()
            args = [sym_arg(E, st, f, i) for i in range(f.argc)]
            for o in run(E, f, args, st):
                if o.k != "ret":
                    R.fail(f"{base}::{nm} total", f"{base}::{nm} can end with {o.k}", f, trace_of(o.st)); continue
                s2 = o.st
                h = fieldn(E, s2, o.v, "header") if base == "Message" else o.v
                got = enum_name(E, s2, fieldn(E, s2, h, "message_type"))
                sid = err_id if nm == "error_response" else args[1]
                good = got == tyn and fieldn(E, s2, h, "request_id") == args[0] and E.eq(s2, fieldn(E, s2, h, "service_id"), sid)
                R.ob(f"{base}::{nm} header", good, f"makes {short(deep(E, s2, h), 200)}", f, key=f"{base}::{nm} makes a wrong header")
                if base == "Message":
                    b = fieldn(E, s2, o.v, "body")
                    if nm == "error_response":
                        ev = [e for e in s2.ev if e.k == "call" and e["path"].endswith("Body::from_error") and e["ret"] == b]
                        R.ob(f"{base}::{nm} body", len(ev) == 1 and ev[0]["args"][0] == args[1], "the body is made from exactly the given text", f, key=f"{base}::{nm} makes a wrong body")
                    else:
                        R.ob(f"{base}::{nm} body", b == args[2], f"the body is {short(b)}", f, key=f"{base}::{nm} changes the body")
    f = get(R, d, "Message::new")
    E = engine(R, d); st = State()
    args = [sym_arg(E, st, f, i) for i in range(f.argc)]
    for o in run(E, f, args, st):
        R.ob("Message::new", o.k == "ret" and fieldn(E, o.st, o.v, "header") == args[0] and fieldn(E, o.st, o.v, "body") == args[1], "keeps header and body", f)
    # type predicates and from_u32
    for nm, tyn in cons.items():
        f = get(R, d, f"MessageType::is_{nm}")
        for i, v in enumerate(mt["variants"]):
            E = engine(R, d); st = State()
            for o in run(E, f, [("S", f.locals[1], i, ())], st):
                t = E.truth(o.st, o.v) if o.k == "ret" else None
                R.ob(f"is_{nm}({v['name']})", t == (v["name"] == tyn), f"is_{nm} answers {t} for {v['name']}", f)
    # the constant that is reserved for errors
    f = get(R, d, "MessageType::from_u32")
    E = engine(R, d); st = State()
    x = E.typed(("s", "value", 0, None), "u32")
    for o in run(E, f, [x], st):
        if o.k != "ret":
            R.fail("from_u32 total", "from_u32 can panic", f, trace_of(o.st)); continue
        if E.variant(o.st, o.v) == 0:
            m = E.field(o.st, o.v, 0, 0)
            n = enum_name(E, o.st, m)
            R.ob(f"from_u32 {n}", n in TYPES and E.eq(o.st, x, ("c", TYPES[n])), f"{n} is returned for {TYPES.get(n)}", f, trace_of(o.st))
        else:
            R.ob("from_u32 rejects only unknown", all(not E.add_eq(o.st.copy(), x, ("c", k)) for k in TYPES.values()), "the error path excludes every documented number", f, trace_of(o.st))

RULES = {"C01": c01}

# ---- C60 -------------------------------------------------------------------------------------------
def error_value(E, st, d, k):
    """a symbolic Error whose inner error has variant k, behind a reference"""
    tid = next(i for i, t in enumerate(d.types) if t["k"] == "adt" and t["adt"] == adt(d, "error::Error")["path"])
    v = E.const_sym("err", tid)
    b = ("B", "err")
    st.mem[b] = v
    return v, ("ref", b, ())

def c60(R):
    R.rule("Every predicate and accessor of Error and RecvMessageError is interpreted for every variant of the error (enumerated from the type) with symbolic contents; "
           "the answer of each path is compared with the variant that the matching constructor makes.")
    d = dump()
    ea = R.need(adt(d, "error::Error"), "type Error")
    inner_path = None
    # the variants made by the constructors
    def made_by(name, nargs=1):
        f = get(R, d, name)
        E = engine(R, d); st = State()
        args = [sym_arg(E, st, f, i) for i in range(f.argc)]
        outs = [o for o in run(E, f, args, st)]
        R.ob(f"{name} total", len(outs) == 1 and outs[0].k == "ret", "the constructor returns on its only path", f)
        o = outs[0]
        inner = fieldn(E, o.st, o.v, "inner")
        if inner is None: inner = E.field(o.st, o.v, 0, 0)
        return E, o.st, args, inner
    E, st, args, inn = made_by("error::Error::remote_error")
    R.need(inn[0] == "S", "the inner error of a remote error")
    remote = inn[2]
    R.ob("remote_error keeps the text", inn[3] == (args[0],), f"the remote error holds {short(inn)}", key="Error::remote_error does not keep the text")
    E, st, args, inn = made_by("error::Error::io_error")
    io = inn[2]
    R.ob("io_error keeps the error", inn[3] == (args[0],), f"the I/O error holds {short(inn)}")
    itid = inn[1]
    ia = d.adts[E.adt_of(itid)]
    R.count("inner error variants", len(ia["variants"]))
    umt = None
    for i, v in enumerate(ia["variants"]):
        vf = d.types[itid].get("vf", [])
        if i < len(vf) and len(vf[i]) == 1 and vf[i][0] >= 0 and d.types[vf[i][0]]["s"].endswith("UnexpectedMessageType"): umt = i
    R.need(umt is not None, "the error variant for unexpected message types")
    for nm, expect in (("is_remote_error", {remote}), ("is_unexpected_message_type", {umt})):
        f = get(R, d, f"error::Error::{nm}")
        for i, v in enumerate(ia["variants"]):
            E = engine(R, d); st = State()
            ev, ref = error_value(E, st, d, i)
            iv = E.field(st, ev, 0, 0)
            E.set_variant(st, iv, i)
            for o in run(E, f, [ref], st):
                t = E.truth(o.st, o.v) if o.k == "ret" else None
                R.ob(f"{nm}({v['name']})", t == (i in expect), f"{nm} answers {t} for {v['name']}", f, trace_of(o.st))
    # aborted connections
    for nm in ("error::Error::is_connection_aborted", "RecvMessageError::is_connection_aborted"):
        f = get(R, d, nm)
        recv = "RecvMessageError" in nm
        rm = adt(d, "RecvMessageError")
        cases = [(j, i) for j in range(len(rm["variants"])) for i in (range(len(ia["variants"])) if rm["variants"][j]["name"] == "Other" else [None])] if recv else [(None, i) for i in range(len(ia["variants"]))]
        for j, i in cases:
            E = engine(R, d); st = State()
            self_ = E.const_sym("self", E.pointee(f.locals[1]))
            st.mem[("B", "self")] = self_
            e = self_
            if recv:
                E.set_variant(st, self_, j)
                if i is not None: e = E.field(st, self_, j, 0)
            if i is not None:
                E.set_variant(st, E.field(st, e, 0, 0), i)
            label = "/".join(x for x in ((rm["variants"][j]["name"] if j is not None else None), (ia["variants"][i]["name"] if i is not None else None)) if x)
            ans = {}
            for o in run(E, f, [("ref", ("B", "self"), ())], st):
                t = E.truth(o.st, o.v) if o.k == "ret" else None
                if i != io or i is None:
                    R.ob(f"{nm}({label})", t is False, f"answers {t}", f, trace_of(o.st)); continue
                kind = ("app", "iokind", E.field(o.st, E.field(o.st, e, 0, 0), io, 0))
                ka = d.adts.get("core::io::error::ErrorKind") or d.adts.get("std::io::error::ErrorKind")
                ab = vidx(d, ka, "ConnectionAborted")
                tid = E.tyof(kind)
                yes = o.st.copy()
                can_yes = E.set_variant(yes, kind, ab)
                no = o.st.copy()
                can_no = E.excl_variant(no, kind, [ab])
                if t is None:
                    R.fail(f"{nm}({label}) decided", f"the answer {short(o.v)} does not depend on the kind of the I/O error alone", f, trace_of(o.st)); continue
                R.ob(f"{nm}({label}) = {t}", (not can_no) if t else (not can_yes), f"answers {t} when the kind is {'possibly another' if t else 'ConnectionAborted'}" if (can_no if t else can_yes) else f"answers {t} exactly for that kind", f, trace_of(o.st))
                ans[t] = 1
            if i == io:
                R.ob(f"{nm} both answers", set(ans) == {True, False}, "there is a path for aborted and for other I/O errors", f)
    # accessors of remote errors
    for nm in ("as_remote_error", "into_remote_error"):
        f = get(R, d, f"error::Error::{nm}")
        for i, v in enumerate(ia["variants"]):
            E = engine(R, d); st = State()
            ev, ref = error_value(E, st, d, i)
            iv = E.field(st, ev, 0, 0)
            E.set_variant(st, iv, i)
            for o in run(E, f, [ref if nm.startswith("as") else ev], st):
                if o.k != "ret":
                    R.fail(f"{nm}({v['name']})", f"ends with {o.k}", f, trace_of(o.st)); continue
                k = E.variant(o.st, o.v)
                if i != remote:
                    R.ob(f"{nm}({v['name']})", k == 0, "is None", f, trace_of(o.st))
                else:
                    x = E.field(o.st, o.v, 1, 0) if k == 1 else None
                    text = E.field(o.st, iv, remote, 0)
                    if x is not None and nm.startswith("as"):
                        loc = E.ptr_loc(o.st, M.slice_of(E, o.st, x)) if x[0] != "ref" else x[1:]
                        x = E.load(o.st, *loc)
                        good = x == text or x in (("deref", text),)
                    else:
                        good = x == text
                    R.ob(f"{nm}({v['name']})", bool(good), f"is the text of the error ({short(x) if x else None})", f, trace_of(o.st))
    # request handles
    rm = adt(d, "RecvMessageError")
    withreq = {"UnknownRequest": 0, "InvalidRequest": 0}
    for nm in ("request_handle", "request_handle_mut"):
        f = get(R, d, f"RecvMessageError::{nm}")
        for j, v in enumerate(rm["variants"]):
            E = engine(R, d); st = State()
            self_ = E.const_sym("self", E.pointee(f.locals[1]))
            st.mem[("B", "self")] = self_
            E.set_variant(st, self_, j)
            for o in run(E, f, [("ref", ("B", "self"), ())], st):
                k = E.variant(o.st, o.v) if o.k == "ret" else None
                if v["name"] in withreq:
                    x = E.field(o.st, o.v, 1, 0) if k == 1 else None
                    R.ob(f"{nm}({v['name']})", x is not None and E.ptr_loc(o.st, x) == (("B", "self"), ((j, 0),)), f"refers to the handle in the error ({short(x) if x else None})", f)
                else:
                    R.ob(f"{nm}({v['name']})", k == 0, "is None", f)

RULES["C60"] = c60
