"""C71 forwarding implementations, C70 select future (first part), C09 wakeups."""
from lib import *

TRAITS = ("transport::TransportReadHalf", "transport::TransportWriteHalf", "accept::Listener")

def derived_from(E, st, v, arg, calls):
    """is the pointer value the referent of the argument (directly or through its own deref)?"""
    v = M.pin_ptr(E, st, v)
    p = M.pin_ptr(E, st, arg)
    while p[0] not in ("S", "ref") and E.adt_of(E.tyof(p)) == "core::pin::Pin":
        p = E.field(st, p, 0, 0)
    if v == E.deref_term(p): return True
    if v[0] == "ref" and v[1] == ("P", E.deref_term(p)) and v[2] == (): return True
    for c in calls:
        if c["ret"] == v and c["trait"] in ("core::ops::deref::DerefMut", "core::ops::deref::Deref"):
            a = c["args"][0]
            loc = E.ptr_loc(st, a)
            if loc == (("P", p), ((0, 0),)) or loc == (("P", p), ()):
                return True
    return False

def check_forward(R, f, method, trait_tail):
    E = engine(R)
    E.opaque_fns.add(strip_generics(f.path))
    st = State()
    args = [sym_arg(E, st, f, i) for i in range(f.argc)]
    outs = run(E, f, args, st, await_it=False)
    key = f"{f.impl_trait.split('::')[-1]} for {E.ty(f.impl_self)['s'] if isinstance(f.impl_self, int) else f.impl_self}"
    for o in outs:
        if o.k != "ret":
            R.fail(f"{key}: {method} total", f"ends with {o.k} {short(o.v) if o.v else ''}", f, trace_of(o.st)); continue
        calls = [e for e in o.st.ev if e.k in ("call", "callvalue", "io", "send", "recv")]
        rel = [e for e in calls if not (e.k == "call" and (e["trait"] in ("core::ops::deref::DerefMut", "core::ops::deref::Deref")))]
        if not R.ob(f"{key}: one forwarded call", len(rel) == 1 and rel[0].k == "call", f"{method} makes {len(rel)} calls: {[e['path'] if e.k == 'call' else e.k for e in rel]}", f, trace_of(o.st)): continue
        c = rel[0]
        nm = c["path"].split("::")[-1]
        selfrec = strip_generics(c["path"]) == strip_generics(f.path)
        R.ob(f"{key}: forwards to the same operation of the inner object", nm == method and (c["trait"] or "").endswith(trait_tail) and not selfrec, f"{method} calls {c['path']}" + (" (itself)" if selfrec else ""), f)
        R.ob(f"{key}: uses the inner object", derived_from(E, o.st, c["args"][0], args[0], calls), f"the forwarded self is {short(deep(E, o.st, c['args'][0]), 120)}", f)
        R.ob(f"{key}: passes its arguments", list(c["args"][1:]) == args[1:], f"arguments {[short(x, 60) for x in c['args'][1:]]}", f)
        R.ob(f"{key}: returns the result", E.same_value(o.st, o.v, c["ret"]), f"returns {short(o.v, 120)}", f)
    R.ob(f"{key}: returns", any(o.k == "ret" for o in outs), "has a returning path", f)

def c71(R):
    R.rule("Each forwarding impl (trait impl for &mut T, Box<T>, Pin<P>) and each trait future is interpreted with an opaque inner object: "
           "exactly one call, to the same trait operation, on the referent of self, with the own arguments; the returned value is that call's result. Format::encode_message and decode_message are exactly the conversions of the message type.")
    d = dump()
    n = 0
    for tail in TRAITS:
        for f in all_roots(d):
            if f.kind != "fn" or not f.impl_trait or not strip_generics(f.impl_trait).split("<")[0].endswith(tail): continue
            t = d.ty(f.impl_self) if isinstance(f.impl_self, int) else None
            s = f.path.split(" as ")[0].lstrip("<")
            if not (s.startswith("&mut ") or s.startswith("alloc::boxed::Box<") or s.startswith("core::pin::Pin<")): continue
            n += 1
            check_forward(R, f, f.name.split("::")[-1], tail)
    R.ob("forwarding impls found", n >= 9, f"{n} forwarding methods (references, boxes and pins of 3 traits)", key="anchor: forwarding impls")
    R.count("forwarding methods", n)
    # futures
    for make, poll, tail, extra in (("TransportReadHalf::read_msg", "poll_read_msg", "TransportReadHalf", 0), ("TransportWriteHalf::write_msg", "poll_write_msg", "TransportWriteHalf", 2), ("accept::Listener::accept", "poll_accept", "Listener", 0)):
        f = get(R, d, make)
        E = engine(R)
        st = State()
        args = [sym_arg(E, st, f, i) for i in range(f.argc)]
        for o in run(E, f, args, st, await_it=False):
            if o.k != "ret":
                R.fail(f"{make} total", f"ends with {o.k}", f); continue
            tid = o.v[1] if o.v[0] == "S" else E.tyof(o.v)
            pf = E.future_impl(tid) if isinstance(tid, int) else None
            if not R.ob(f"{make} makes a library future", pf is not None, f"returns {short(o.v)}", f): continue
            s2 = o.st.copy()
            b = E.newbox(s2, o.v)
            cx = E.const_sym("cx", pf.locals[2])
            for p in run(E, pf, [("S", pf.locals[1], 0, (("ref", b, ()),)), cx], s2, await_it=False):
                if p.k != "ret":
                    R.fail(f"{make} future total", f"poll ends with {p.k}", pf, trace_of(p.st)); continue
                calls = [e for e in p.st.ev if e.k in ("call", "io")]
                if not R.ob(f"{make} future: one poll", len(calls) == 1 and calls[0].k == "call" and calls[0]["path"].split("::")[-1] == poll, f"calls {[e['path'] if e.k == 'call' else e.k for e in calls]}", pf): continue
                c = calls[0]
                ptr = M.pin_ptr(E, p.st, c["args"][0])
                R.ob(f"{make} future: polls its object", ptr == args[0] or E.ptr_loc(p.st, ptr) == (("P", args[0]), ()), f"polls {short(ptr)}", pf)
                R.ob(f"{make} future: passes context and arguments", c["args"][1] == cx and list(c["args"][2:]) == args[1:], f"passes {[short(x) for x in c['args'][1:]]}", pf)
                R.ob(f"{make} future: returns the result", E.same_value(p.st, p.v, c["ret"]), f"returns {short(p.v)}", pf)
    # the socket abstraction of the listener
    for m, target in (("into_transport", "into_transport"), ("transport_info", "info")):
        fs = impls(d, "ListeningSocket", m)
        for f in fs:
            E = engine(R); st = State()
            args = [sym_arg(E, st, f, i) for i in range(f.argc)]
            for o in run(E, f, args, st, await_it=False):
                calls = [e for e in o.st.ev if e.k == "call"]
                R.ob(f"ListeningSocket::{m} forwards", o.k == "ret" and len(calls) == 1 and calls[0]["path"].split("::")[-1] == target and list(calls[0]["args"]) == args and E.same_value(o.st, o.v, calls[0]["ret"]), f"calls {[e['path'] for e in calls]}", f)
        R.need(fs, f"ListeningSocket::{m}")
    fs = find(d, "IntoTransport::into_default_transport")
    R.need(fs, "IntoTransport::into_default_transport")
    for f in fs:
        E = engine(R); st = State()
        args = [sym_arg(E, st, f, i) for i in range(f.argc)]
        for o in run(E, f, args, st, await_it=False):
            calls = [e for e in o.st.ev if e.k == "call"]
            df = [e for e in calls if e["path"].endswith("Default::default")]
            it = [e for e in calls if e["path"].split("::")[-1] == "into_transport"]
            R.ob("into_default_transport", o.k == "ret" and len(df) == 1 and len(it) == 1 and it[0]["args"] == (args[0], df[0]["ret"]) and E.same_value(o.st, o.v, it[0]["ret"]), "forwards to into_transport with the default configuration", f)
    # the message conversions of a format
    for m, target in (("encode_message", "to_message"), ("decode_message", "from_message")):
        f = get(R, d, "format::Format::" + m)
        E = engine(R); st = State()
        args = [sym_arg(E, st, f, i) for i in range(f.argc)]
        k = 0
        for o in run(E, f, args, st, await_it=False):
            if o.k == "panic": R.fail(f"Format::{m} total", f"Format::{m} can panic", f, trace_of(o.st)); continue
            if o.k != "ret": continue
            k += 1
            calls = [e for e in o.st.ev if e.k == "call"]
            R.ob(f"Format::{m} is the conversion of the message type", len(calls) == 1 and calls[0]["path"].split("::")[-1] == target and len(calls[0]["args"]) == 1
                 and E.same_value(o.st, calls[0]["args"][0], args[0]) and E.same_value(o.st, o.v, calls[0]["ret"]), f"Format::{m} does {[e['path'] for e in calls]} and gives {short(o.v, 80)}", f, trace_of(o.st))
        R.ob(f"Format::{m} returns", k > 0, f"Format::{m} has no path that returns", f)

RULES = {"C71": c71}
