"""C41, C50, C51: witness programs that the compiler must accept, paired with nearly identical ones it must reject.

Nothing is run: the deciding step is the type checker (and, for C41, the expansion of the macro) of the compiler
on the library of the current tree."""
import os, itertools, concurrent.futures as cf
import front
from front import BuildError

ALL = ("macros", "tcp", "unix-stream", "unix-seqpacket")

def library(features=ALL):
    front.lock()          # held until the end of the process: the witnesses need the files that are built here
    rmeta, deps, err = front.check_library(features, fresh=True)
    if rmeta is None: raise BuildError("the working tree does not type-check:\n" + err[-4000:])
    return rmeta, deps

class Batch:
    """programs that must be accepted share a file; every line of it belongs to one witness"""
    def __init__(self, prelude=""):
        self.lines = prelude.splitlines(); self.owner = [None] * len(self.lines)
    def add(self, name, code):
        for l in code.strip("\n").splitlines():
            self.lines.append(l); self.owner.append(name)
    def text(self): return "\n".join(self.lines) + "\n"
    def owners(self, lines): return {self.owner[i - 1] for i in lines if 0 < i <= len(self.owner)} - {None}

def run_batch(name, b, lib):
    """name of witness -> errors; None -> errors that belong to no witness"""
    res = {}
    for code, lines, msg in front.compile_witness(name, b.text(), *lib):
        for o in b.owners(lines) or {None}: res.setdefault(o, []).append((code, msg))
    return res

# ---------------------------------------------------------------------------------------------- C41
TYPES = ("()", "String", "u32", "Vec<u8>")

def iface(items): return "fizyr_rpc::interface! {\n\tpub interface Witness {\n" + "".join("\t\t" + x.replace("\n", "\n\t\t") + "\n" for x in items) + "\t}\n}\n"
def item(scope, id, name, k=0, hidden=False, doc=False, body=False):
    pre = ("/// Text.\n" if doc else "") + ("#[hidden]\n" if hidden else "")
    t = TYPES[k % 4]
    if scope == "service": return pre + f"service {id} {name}: {t} -> {TYPES[(k + 1) % 4]}" + (" {\n\trequest_update 1 inner: (),\n\tresponse_update 1 inner: (),\n}" if body else ",")
    if scope == "stream": return pre + f"stream {id} {name}: {t},"
    return pre + f"{scope} {id} {name}: {t},"
def other(scope): return {"service": "stream", "stream": "service", "request_update": "response_update", "response_update": "request_update"}[scope]
def wrap(scope, items, where="first"):
    """the items of one scope (given as text) as a whole interface"""
    if scope in ("service", "stream"): return iface(items)
    svc = "service 1 host: () -> () {\n" + "".join("\t" + x.replace("\n", "\n\t") + "\n" for x in items) + "}"
    if where == "first": return iface([svc])
    if where == "second": return iface(["service 7 before: () -> (),", "service 8 also_before: String -> () {\n\trequest_update 3 x: (),\n}", svc])
    return iface([svc, "service 7 after: () -> () {\n\tresponse_update 3 x: (),\n}", "stream 1 after: (),"])

SCOPES = ("service", "stream", "request_update", "response_update")
NAMES = ("alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa")

T2 = ("()", "String", "u32")
SERVICE_BODIES = {
    "no updates": ",", "an empty block": " {}",
    "request updates": " {\n\trequest_update 1 a: (),\n\trequest_update 2 b: String,\n}",
    "response updates": " {\n\tresponse_update 1 a: (),\n}",
    "both updates": " {\n\trequest_update 1 a: String,\n\tresponse_update 1 b: (),\n}",
}

def c41_pairs():
    """(name, program that must be accepted, program that must be rejected)"""
    for sc in SCOPES:
        upd = sc.endswith("update")
        places = ("first", "second", "before") if upd else ("first",)
        # every pair of positions among n items, for a clash of IDs and of names; same or different body types
        for n in (2, 3, 5):
            for i, j in itertools.combinations(range(n), 2):
                if n == 5 and (i, j) not in ((0, 4), (0, 2), (1, 4), (3, 4)): continue
                for what in ("ID", "name"):
                    for types in ("same", "different"):
                        if n == 5 and types == "same": continue
                        def build(bad):
                            out = []
                            for q in range(n):
                                id, nm = 10 + q, NAMES[q]
                                if bad and q == j:
                                    if what == "ID": id = 10 + i
                                    else: nm = NAMES[i]
                                out.append(item(sc, id, nm, q if types == "different" else 0))
                            return out
                        w = places[(i + j + n) % len(places)]
                        yield f"{sc}: {what} of item {j} of {n} is that of item {i}, {types} types", wrap(sc, build(False), w), wrap(sc, build(True), w)
        # interleaved with items of the other kind of scope which use the same IDs and names
        for what in ("ID", "name"):
            def build(bad):
                out = []
                for q in range(3):
                    id, nm = 20 + q, NAMES[q]
                    out.append(item(other(sc), 20 + q, NAMES[q], q + 1))
                    if bad and q == 2:
                        if what == "ID": id = 20
                        else: nm = NAMES[0]
                    out.append(item(sc, id, nm, q))
                return out
            for w in places:
                yield f"{sc}: {what} clash among interleaved {other(sc)} items with equal IDs and names ({w})", wrap(sc, build(False), w), wrap(sc, build(True), w)
        # among many items
        for i, j in ((0, 23), (0, 12), (22, 23), (11, 12), (13, 23), (7, 18)):
            for what in ("ID", "name"):
                mk = lambda bad: wrap(sc, [item(sc, 300 - 7 * (i if bad and what == "ID" and q == j else q), f"n{i if bad and what == 'name' and q == j else q}", q) for q in range(24)], places[j % len(places)])
                yield f"{sc}: {what} of item {j} of 24 is that of item {i}", mk(False), mk(True)
        # several clashes at once
        mk = lambda ids: wrap(sc, [item(sc, k, n, k) for k, n in zip(ids, NAMES)])
        yield f"{sc}: three items with one ID", mk((1, 2, 3, 4)), mk((1, 2, 1, 1))
        yield f"{sc}: two pairs of items with equal IDs", mk((1, 2, 3, 4)), mk((1, 2, 2, 1))
        # what else is declared for the items makes no difference
        if sc == "service":
            for first in SERVICE_BODIES:
                for second in SERVICE_BODIES:
                    for what in ("ID", "name"):
                        mk = lambda bad: iface([f"service 3 alpha: {T2[0]} -> {T2[1]}{SERVICE_BODIES[first]}", f"service {3 if bad and what == 'ID' else 4} {'alpha' if bad and what == 'name' else 'beta'}: {T2[2]} -> {T2[0]}{SERVICE_BODIES[second]}"])
                        yield f"service: {what} clash of a service with {first} and one with {second}", mk(False), mk(True)
        # spelling, attributes and bodies make no difference
        for a, b, c in (("16", "0x10", "0x11"), ("1000", "1_000", "1_001"), ("5", "0b101", "0b100"), ("-7", "-0x7", "-0x8"), ("0", "0x0", "1"), ("2147483647", "0x7fffffff", "0x7ffffffe"), ("-2147483648", "-0x80000000", "-0x7fffffff"), ("8", "0o10", "0o11")):
            yield f"{sc}: {a} and {b} are the same ID", wrap(sc, [item(sc, a, "alpha"), item(sc, c, "beta")]), wrap(sc, [item(sc, a, "alpha"), item(sc, b, "beta")])
        for h in ("hidden", "doc", "both"):
            for first in (True, False):
                kw = dict(hidden=h != "doc", doc=h != "hidden")
                mk = lambda id: wrap(sc, [item(sc, 3, "alpha", **(kw if first else {})), item(sc, id, "beta", **({} if first and h != "both" else kw))])
                yield f"{sc}: ID clash with a {h} item {'first' if first else 'second'}", mk(4), mk(3)
                mk = lambda nm: wrap(sc, [item(sc, 3, "alpha", **(kw if first else {})), item(sc, 4, nm, **({} if first and h != "both" else kw))])
                yield f"{sc}: name clash with a {h} item {'first' if first else 'second'}", mk("beta"), mk("alpha")
        # IDs that do not fit
        for good, bad in (("2147483647", "2147483648"), ("-2147483648", "-2147483649"), ("0x7fffffff", "0xffffffff"), ("1", "4294967296"), ("1", "4294967297"), ("1", "18446744073709551617"), ("2", "340282366920938463463374607431768211458"), ("-1" if sc != "service" else "-2", "-4294967297"), ("5", "-9223372036854775808")):
            for k in range(2):
                fill = [item(sc, 77, "filler", 2)]
                yield f"{sc}: ID {bad} does not fit ({'first' if k else 'last'})", wrap(sc, (fill if not k else []) + [item(sc, good, "alpha")] + (fill if k else [])), wrap(sc, (fill if not k else []) + [item(sc, bad, "alpha")] + (fill if k else []))
        for good, bad in (("1", '"1"'), ("1", "1.0"), ("1", "one"), ("1", "-"), ("1", "'1'")):
            yield f"{sc}: {bad} is not an ID", wrap(sc, [item(sc, good, "alpha")]), wrap(sc, [item(sc, bad, "alpha")])
    # the reserved ID of error responses
    for good, bad in (("-2", "-1"), ("-0x2", "-0x1"), ("-2", "-1_"), ("1", "-1"), ("-0b10", "-0b1")):
        for body in (False, True):
            yield f"service ID {bad} is reserved{' (with updates)' if body else ''}", iface([item("service", good, "alpha", body=body)]), iface([item("service", bad, "alpha", body=body)])
            for pos in ("first", "last"):
                mk = lambda x: iface(([item("service", x, "alpha", body=body)] if pos == "first" else []) + [item("service", 5, "beta", body=not body), item("stream", 5, "beta")] + ([item("service", x, "alpha", body=body)] if pos == "last" else []))
                yield f"service ID {bad} is reserved, as the {pos} item{' (with updates)' if body else ''}", mk(good), mk(bad)
    for h in ("hidden", "doc"):
        mk = lambda x: iface([item("service", x, "alpha", **{h: True})])
        yield f"service ID -1 is reserved for a {h} service", mk("-2"), mk("-1")
    # services with updates on one side only
    for kind in ("request_update", "response_update"):
        for what in ("ID", "name"):
            mk = lambda bad: iface(["service 1 host: () -> () {\n" + f"\t{kind} 1 a: (),\n\t{kind} 2 b: (),\n\t{kind} {1 if bad and what == 'ID' else 3} {'a' if bad and what == 'name' else 'c'}: String,\n" + "}"])
            yield f"{kind}: {what} clash in a service without other updates", mk(False), mk(True)
            mk = lambda bad: iface(["service 1 host: () -> () {\n" + f"\t{kind} 1 a: (),\n\t{kind} {1 if bad and what == 'ID' else 3} {'a' if bad and what == 'name' else 'c'}: String\n" + "}"])
            yield f"{kind}: {what} clash, last item without a comma", mk(False), mk(True)

def c41_accepted():
    """equal IDs and names in different scopes"""
    yield "service and stream share ID and name", iface(["service 1 alpha: () -> (),", "stream 1 alpha: (),"])
    yield "stream before a service with the same ID and name", iface(["stream 1 alpha: (),", "service 1 alpha: () -> (),"])
    yield "request and response updates share ID and name", iface(["service 1 host: () -> () {\n\trequest_update 1 a: (),\n\tresponse_update 1 a: (),\n}"])
    yield "updates share the ID and name of their service", iface(["service 4 host: () -> () {\n\trequest_update 4 host: String,\n\tresponse_update 4 host: String,\n}"])
    yield "updates of different services share IDs and names", iface(["service 1 one: () -> () {\n\trequest_update 1 a: (),\n\tresponse_update 2 b: (),\n}", "service 2 two: () -> () {\n\trequest_update 1 a: (),\n\tresponse_update 2 b: (),\n}"])
    yield "an update shares ID and name with another service", iface(["service 1 one: () -> (),", "service 2 two: () -> () {\n\trequest_update 1 one: (),\n\tresponse_update 1 one: (),\n}"])
    yield "an update shares ID and name with a stream", iface(["stream 3 one: (),", "service 2 two: () -> () {\n\trequest_update 3 one: (),\n\tresponse_update 3 one: (),\n}"])
    yield "ID -1 for streams and updates", iface(["stream -1 one: (),", "service 2 two: () -> () {\n\trequest_update -1 a: (),\n\tresponse_update -1 b: (),\n}"])
    yield "extreme IDs", iface(["service 2147483647 a: () -> (),", "service -2147483648 b: () -> (),", "service 0 c: () -> (),", "stream 2147483647 a: (),", "stream -2147483648 b: (),", "stream 0 c: (),"])
    yield "two interfaces in different modules", "pub mod x {\n" + iface(["service 1 a: () -> (),"]) + "}\npub mod y {\n" + iface(["service 1 a: () -> (),"]) + "}\n"

def c41(R):
    R.rule("For every kind of clash, scope, position, spelling and attribute an interface that must be rejected is compiled against the library of the current tree, next to the same interface without the clash, which must be accepted. A rejected interface that compiles is a violation, and so is an accepted one that does not.")
    lib = library()
    pairs, good = list(c41_pairs()), list(c41_accepted())
    b = Batch()
    seen = {}
    for n, p, _ in pairs:
        if p not in seen: seen[p] = n
    for k, (p, n) in enumerate([(p, n) for p, n in seen.items()] + [(p, n) for n, p in good]):
        b.add(n, f"pub mod m{k} {{\n{p}\n}}")
    # the accepted programs in chunks, the rejected ones one by one
    jobs = {}
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        jobs["pass"] = ex.submit(run_batch, "c41-pass", b, lib)
        bads = {}
        for n, _, p in pairs: bads.setdefault(p, n)
        for k, (p, n) in enumerate(bads.items()): jobs[n] = ex.submit(front.compile_witness, f"c41-{k}", p, *lib)
        res = {k: v.result() for k, v in jobs.items()}
    errs = res.pop("pass")
    lost = {id(e): e for o, es in errs.items() for e in es}
    for n in list(dict.fromkeys(list(seen.values()) + [n for n, _ in good])):
        e = errs.get(n)
        R.ob(f"a valid interface is accepted: {n}", not e, "the valid interface compiles" if not e else f"the macro rejects a valid interface ({n}): {e[0][1]}", key=f"accepted:{n}")
    if None in errs: R.fail("valid interfaces are accepted", f"valid interfaces do not compile: {errs[None][0][1]}")
    for n, es in res.items():
        if es and not any(lines for _, lines, _ in es): raise RuntimeError(f"the compiler did not work on {n}: {es}")
        R.ob(f"rejected: {n}", bool(es), f"rejected with: {es[0][2] if es else ''}" if es else f"the macro accepts an invalid interface: {n}", where="macros/src/interface/parse.rs", key=f"rejected:{n}")
        if es: R.count("rejected with a message of the macro" if any(not c for c, _, _ in es) else "rejected by the type checker only")
    R.count("witness programs", len(res) + len(seen) + len(good))


# ---------------------------------------------------------------------------------------------- C50
PRELUDE50 = """#![allow(warnings)]
use fizyr_rpc::*;
use fizyr_rpc::transport::{Transport, TransportReadHalf, TransportWriteHalf};
pub fn need_send<T: Send>() {}
pub fn need_sync<T: Sync>() {}
pub fn need_clone<T: Clone>() {}
pub fn need_named<T>() {}
pub fn need_static<T: 'static>() {}
pub fn need_error<T: std::error::Error + Send + 'static>() {}
pub fn is_send<T: Send>(_: T) {}
pub fn is_any<T>(_: T) {}
pub struct Plain(Vec<u8>);
impl Body for Plain {
    fn empty() -> Self { Plain(Vec::new()) }
    fn from_error(message: &str) -> Self { Plain(message.as_bytes().to_vec()) }
    fn as_error(&self) -> Result<&str, std::str::Utf8Error> { std::str::from_utf8(&self.0) }
    fn into_error(self) -> Result<String, std::string::FromUtf8Error> { String::from_utf8(self.0) }
}
pub struct Format0;
impl format::Format for Format0 { type Body = Plain; }
impl<T> format::EncodeBody<T> for Format0 { fn encode_body(value: &T) -> Result<Plain, Box<dyn std::error::Error + Send>> { loop {} } }
impl<T> format::DecodeBody<T> for Format0 { fn decode_body(body: Plain) -> Result<T, Box<dyn std::error::Error + Send>> { loop {} } }
pub struct FormatS;
impl format::Format for FormatS { type Body = StreamBody; }
impl<T> format::EncodeBody<T> for FormatS { fn encode_body(value: &T) -> Result<StreamBody, Box<dyn std::error::Error + Send>> { loop {} } }
impl<T> format::DecodeBody<T> for FormatS { fn decode_body(body: StreamBody) -> Result<T, Box<dyn std::error::Error + Send>> { loop {} } }
pub mod rpc {
    fizyr_rpc::interface! {
        pub interface Witness {
            service 1 plain: String -> String,
            service 2 full: String -> String {
                request_update 1 up: String,
                request_update 2 upper: (),
                response_update 1 down: String,
                response_update 2 downer: (),
            }
            service 3 half: () -> () {
                response_update 1 down: u32,
            }
            stream 1 news: String,
            stream 2 nothing: (),
        }
    }
}
"""
WRITE = ("PeerWriteHandle", "PeerCloseHandle", "SentRequestWriteHandle", "ReceivedRequestWriteHandle")
READ = ("PeerHandle", "PeerReadHandle", "SentRequestHandle", "ReceivedRequestHandle")
BODIES = ("Plain", "StreamBody", "UnixBody")
GEN_WRITE = ("rpc::Client", "rpc::full::SentRequestWriteHandle", "rpc::full::ReceivedRequestWriteHandle", "rpc::plain::ReceivedRequestWriteHandle", "rpc::half::ReceivedRequestWriteHandle", "rpc::half::SentRequestWriteHandle")
GEN_READ = ("rpc::Server", "rpc::full::SentRequestHandle", "rpc::full::ReceivedRequestHandle", "rpc::half::SentRequestHandle", "rpc::half::ReceivedRequestHandle", "rpc::plain::ReceivedRequestHandle", "rpc::ReceivedRequestHandle")

SOCKETS = (("TcpTransport", "TcpListener"), ("UnixStreamTransport", "UnixStreamListener"), ("UnixSeqpacketTransport", "UnixSeqpacketListener"))

def c50_accepted():
    for t in READ + WRITE + ("ReceivedMessage",):
        yield f"{t}<B> is Send for every body type", f"fn f<B: Body>() {{ need_send::<{t}<B>>() }}"
        yield f"{t}<B> has no lifetime of its own", f"fn f<B: Body>() {{ need_static::<{t}<B>>() }}"
        for b in BODIES: yield f"{t}<{b}> is Send", f"fn f() {{ need_send::<{t}<{b}>>() }}"
    for t in ("Message<B>", "RecvMessageError<B>", "ParseUpdateError<B>", "Error"):
        yield f"{t} is Send", f"fn f<B: Body>() {{ need_send::<{t}>() }}"
    yield "Error is an error", "fn f() { need_error::<Error>() }"
    for t in WRITE:
        yield f"{t}<B> is Clone for every body type", f"fn f<B: Body>() {{ need_clone::<{t}<B>>() }}"
        for b in BODIES: yield f"{t}<{b}> is Clone", f"fn f() {{ need_clone::<{t}<{b}>>() }}"
    for t in GEN_WRITE:
        yield f"generated {t}<F> is Clone for every format", f"fn f<F: format::Format>() {{ need_clone::<{t}<F>>() }}"
        for b in ("Format0", "FormatS"): yield f"generated {t}<{b}> is Clone", f"fn f() {{ need_clone::<{t}<{b}>>() }}"
    for t in GEN_WRITE + GEN_READ:
        yield f"generated {t}<F> is Send for every format", f"fn f<F: format::Format>() {{ need_send::<{t}<F>>() }}"
    yield "generated ReceivedMessage<F> is Send for every format", "fn f<F: format::Format>() where F: format::DecodeBody<String> + format::DecodeBody<()> { need_send::<rpc::ReceivedMessage<F>>() }"
    # twins of what must be rejected: the types can be named
    for t in READ + ("ReceivedMessage",):
        yield f"{t} exists", f"fn f<B: Body>() {{ need_named::<{t}<B>>() }} fn g() {{ need_named::<{t}<StreamBody>>() }}"
    for t in GEN_READ: yield f"{t} exists", f"fn f<F: format::Format>() {{ need_named::<{t}<F>>() }} fn g() {{ need_named::<{t}<FormatS>>() }}"
    # futures
    B = "<B: Body>"
    for name, args, call in (
        ("PeerHandle::recv_message", "x: &mut PeerHandle<B>", "x.recv_message()"),
        ("PeerHandle::send_request", "x: &PeerHandle<B>, b: B", "x.send_request(1, b)"),
        ("PeerHandle::send_stream", "x: &PeerHandle<B>, b: B", "x.send_stream(1, b)"),
        ("PeerReadHandle::recv_message", "x: &mut PeerReadHandle<B>", "x.recv_message()"),
        ("PeerWriteHandle::send_request", "x: &PeerWriteHandle<B>, b: B", "x.send_request(1, b)"),
        ("PeerWriteHandle::send_stream", "x: &PeerWriteHandle<B>, b: B", "x.send_stream(1, b)"),
        ("SentRequestHandle::recv_update", "x: &mut SentRequestHandle<B>", "x.recv_update()"),
        ("SentRequestHandle::recv_response", "x: &mut SentRequestHandle<B>", "x.recv_response()"),
        ("SentRequestHandle::send_update", "x: &SentRequestHandle<B>, b: B", "x.send_update(1, b)"),
        ("SentRequestWriteHandle::send_update", "x: &SentRequestWriteHandle<B>, b: B", "x.send_update(1, b)"),
        ("ReceivedRequestHandle::recv_update", "x: &mut ReceivedRequestHandle<B>", "x.recv_update()"),
        ("ReceivedRequestHandle::send_update", "x: &ReceivedRequestHandle<B>, b: B", "x.send_update(1, b)"),
        ("ReceivedRequestHandle::send_response", "x: &ReceivedRequestHandle<B>, b: B", "x.send_response(1, b)"),
        ("ReceivedRequestHandle::send_error_response", "x: &ReceivedRequestHandle<B>", "x.send_error_response(\"text\")"),
        ("ReceivedRequestWriteHandle::send_update", "x: &ReceivedRequestWriteHandle<B>, b: B", "x.send_update(1, b)"),
        ("ReceivedRequestWriteHandle::send_response", "x: &ReceivedRequestWriteHandle<B>, b: B", "x.send_response(1, b)"),
        ("ReceivedRequestWriteHandle::send_error_response", "x: &ReceivedRequestWriteHandle<B>", "x.send_error_response(\"text\")"),
    ):
        yield f"the future of {name} is Send for every body type", f"fn f<B: Body>({args}) {{ is_send({call}) }}"
    yield "Peer<T> is Send", "fn f<T: Transport>() { need_send::<Peer<T>>() }"
    yield "the future of Peer::run is Send for every transport", "fn f<T: Transport>(x: Peer<T>) { is_send(x.run()) }"
    for t, l in SOCKETS:
        yield f"the future of Peer::<{t}>::run is Send", f"fn f(x: Peer<{t}>) {{ is_send(x.run()) }}"
        yield f"the future of {l}::accept is Send", f"fn f(x: &mut {l}) {{ is_send(x.accept()) }}"
        yield f"the future of {l}::run is Send", f"fn f(x: &mut {l}) {{ is_send(x.run(|peer, info| async move {{ drop(peer); }})) }}"
    F = "Format0"
    for name, args, call in (
        ("Client::plain", f"x: &rpc::Client<{F}>", "x.plain(&String::new())"), ("Client::full", f"x: &rpc::Client<{F}>", "x.full(&String::new())"), ("Client::half", f"x: &rpc::Client<{F}>", "x.half()"),
        ("Client::news", f"x: &rpc::Client<{F}>", "x.send_news(&String::new())"), ("Client::nothing", f"x: &rpc::Client<{F}>", "x.send_nothing()"),
        ("Server::recv_message", f"x: &mut rpc::Server<{F}>", "x.recv_message()"),
        ("full::SentRequestHandle::recv_update", f"x: &mut rpc::full::SentRequestHandle<{F}>", "x.recv_update()"),
        ("full::SentRequestHandle::recv_response", f"x: &mut rpc::full::SentRequestHandle<{F}>", "x.recv_response()"),
        ("full::SentRequestWriteHandle::send_up_update", f"x: &rpc::full::SentRequestWriteHandle<{F}>", "x.send_up_update(&String::new())"),
        ("full::SentRequestHandle::send_upper_update", f"x: &rpc::full::SentRequestHandle<{F}>", "x.send_upper_update()"),
        ("full::ReceivedRequestHandle::recv_update", f"x: &mut rpc::full::ReceivedRequestHandle<{F}>", "x.recv_update()"),
        ("full::ReceivedRequestHandle::send_response", f"x: &rpc::full::ReceivedRequestHandle<{F}>", "x.send_response(&String::new())"),
        ("full::ReceivedRequestHandle::send_error_response", f"x: &rpc::full::ReceivedRequestHandle<{F}>", "x.send_error_response(\"text\")"),
        ("full::ReceivedRequestWriteHandle::send_response", f"x: &rpc::full::ReceivedRequestWriteHandle<{F}>", "x.send_response(&String::new())"),
        ("full::ReceivedRequestWriteHandle::send_down_update", f"x: &rpc::full::ReceivedRequestWriteHandle<{F}>", "x.send_down_update(&String::new())"),
        ("full::ReceivedRequestHandle::send_downer_update", f"x: &rpc::full::ReceivedRequestHandle<{F}>", "x.send_downer_update()"),
    ):
        yield f"the future of generated {name} is Send", f"fn f({args}) {{ is_send({call}) }}"
    # write operations need only a shared borrow: many can be under way, also while a receive is
    yield "sends and a receive can be under way together", "async fn f<B: Body>(x: PeerHandle<B>, b: B, c: B) { let (mut r, w) = x.split(); let p = r.recv_message(); let q = w.send_request(1, b); let v = w.send_stream(1, c); drop((p, q, v)); }"
    yield "a write handle works while a receive borrows the request", "async fn f<B: Body>(mut x: SentRequestHandle<B>, b: B) { let w = x.write_handle(); let p = x.recv_update(); let q = w.send_update(1, b); drop((p, q)); }"
    yield "a write handle answers while a receive borrows the request", "async fn f<B: Body>(mut x: ReceivedRequestHandle<B>, b: B) { let w = x.write_handle(); let p = x.recv_update(); let q = w.send_response(1, b); drop((p, q)); }"
    yield "a handle can be used before it is split", "fn f<B: Body>(mut x: PeerHandle<B>) { drop(x.recv_message()); let _ = x.split(); }"
    yield "a peer can be used before it runs", "fn f<T: Transport>(x: Peer<T>) { x.transport(); drop(x.run()); }"
    yield "a write half is used before a transport is dropped", "fn f<T: Transport>(mut x: T) { let h = x.split(); drop(h); drop(x); }"

def c50_rejected():
    """(name, program, error codes the rejection must have)"""
    for t in READ + ("ReceivedMessage",):
        for b in BODIES: yield f"{t}<{b}> is not Clone", f"fn f() {{ need_clone::<{t}<{b}>>() }}", ("E0277",)
        yield f"{t}<B> is not Clone", f"fn f<B: Body + Clone>() {{ need_clone::<{t}<B>>() }}", ("E0277",)
    yield "Peer is not Clone", "fn f<T: Transport + Clone>() { need_clone::<Peer<T>>() }", ("E0277",)
    for t in GEN_READ:
        for b in ("Format0", "FormatS"): yield f"generated {t}<{b}> is not Clone", f"fn f() {{ need_clone::<{t}<{b}>>() }}", ("E0277",)
    yield "generated ReceivedMessage is not Clone", "fn f() { need_clone::<rpc::ReceivedMessage<FormatS>>() }", ("E0277",)
    # the probes themselves can fail
    yield "probe: Send is checked", "fn f() { need_send::<std::rc::Rc<u8>>() }", ("E0277",)
    yield "probe: the future of a receive is checked", "fn f() { let r = std::rc::Rc::new(1); is_send(async move { std::future::ready(()).await; drop(r); }) }", ("E0277", "")

def c50_borrow():
    yield "a full handle cannot be used after it was split", "fn f<B: Body>(mut x: PeerHandle<B>) { let _ = x.split(); drop(x.recv_message()); }", ("E0382",)
    yield "a full handle cannot be split twice", "fn f<B: Body>(x: PeerHandle<B>) { let _ = x.split(); let _ = x.split(); }", ("E0382",)
    yield "a full handle cannot be used after it was closed", "fn f<B: Body>(mut x: PeerHandle<B>) { x.close(); drop(x.recv_message()); }", ("E0382",)
    yield "a peer cannot be run twice", "fn f<T: Transport>(x: Peer<T>) { drop(x.run()); drop(x.run()); }", ("E0382",)
    yield "a peer cannot be used while it runs", "fn f<T: Transport>(x: Peer<T>) { let r = x.run(); x.transport(); drop(r); }", ("E0382", "E0505", "E0502")
    for t, m in (("PeerHandle", "recv_message"), ("PeerReadHandle", "recv_message"), ("SentRequestHandle", "recv_update"), ("SentRequestHandle", "recv_response"), ("ReceivedRequestHandle", "recv_update")):
        yield f"two {m} of one {t} cannot be under way together", f"fn f<B: Body>(mut x: {t}<B>) {{ let a = x.{m}(); let b = x.{m}(); drop((a, b)); }}", ("E0499",)
    yield "recv_update and recv_response cannot be under way together", "fn f<B: Body>(mut x: SentRequestHandle<B>) { let a = x.recv_update(); let b = x.recv_response(); drop((a, b)); }", ("E0499",)
    yield "a listener accepts once at a time", "fn f(mut x: TcpListener) { let a = x.accept(); let b = x.accept(); drop((a, b)); }", ("E0499",)
    yield "a transport is split once at a time", "fn f<T: Transport>(mut x: T) { let a = x.split(); let b = x.split(); drop((a, b)); }", ("E0499",)
    yield "a transport outlives its halves", "fn f<T: Transport>(mut x: T) { let h = x.split(); drop(x); drop(h); }", ("E0505",)

def c50(R):
    R.rule("Witness programs state the auto traits, Clone impls and borrows of the handle types, generic over the body type, the transport and the format. The type checker must accept every program that the documentation allows and reject every one that it rules out, with an error about exactly that obligation.")
    lib = library()
    ok, no, bo = Batch(PRELUDE50), Batch(PRELUDE50), Batch(PRELUDE50)
    acc, rej, bor = list(c50_accepted()), list(c50_rejected()), list(c50_borrow())
    for k, (n, p) in enumerate(acc): ok.add(n, f"pub mod a{k} {{ use super::*; {p} }}")
    for k, (n, p, _) in enumerate(rej): no.add(n, f"pub mod a{k} {{ use super::*; {p} }}")
    for k, (n, p, _) in enumerate(bor): bo.add(n, f"pub mod a{k} {{ use super::*; {p} }}")
    with cf.ThreadPoolExecutor(max_workers=3) as ex:
        r1, r2, r3 = ex.map(lambda a: run_batch(*a, lib), (("c50-ok", ok), ("c50-no", no), ("c50-borrow", bo)))
    for r in (r1, r2, r3):
        if None in r: R.fail("the witnesses' common part compiles", f"the common part of the witness programs does not compile: {r[None][0][1]}")
    # a program that does not name existing things any more says nothing about the property
    for n, _ in acc:
        e = r1.get(n)
        R.ob(f"accepted: {n}", not e, "the program type-checks" if not e else f"{n}: {e[0][0]} {e[0][1]}", key=f"accepted:{n}")
    for lst, r in ((rej, r2), (bor, r3)):
        for n, _, codes in lst:
            e = r.get(n) or []
            R.ob(f"rejected: {n}", any(c in codes for c, _ in e), f"the compiler rejects it: {e[0][1] if e else ''}" if e else f"the compiler accepts a program that must not exist: {n}", key=f"rejected:{n}")
    R.count("witness programs", len(acc) + len(rej) + len(bor))

# ---------------------------------------------------------------------------------------------- C46
# visibility -> how far the generated items can be used: 0 their own module, 1 the parent, 2 a named ancestor, 3 the crate, 4 everywhere
VIS46 = {"": 0, "pub(self)": 0, "pub(super)": 1, "pub(in crate::outer)": 2, "pub(crate)": 3, "pub": 4}
ITEMS46 = ("Interface", "Client", "Server", "StreamMessage", "ReceivedMessage", "ReceivedRequestHandle", "Format", "plain", "full", "half")
NESTED46 = ("full::SentRequestHandle", "full::SentRequestWriteHandle", "full::ReceivedRequestHandle", "full::ReceivedRequestWriteHandle", "full::RequestUpdate", "full::ResponseUpdate",
            "half::SentRequestHandle", "half::ReceivedRequestHandle", "half::ResponseUpdate", "plain::ReceivedRequestHandle", "plain::ReceivedRequestWriteHandle")
BODY46 = """
                service 1 plain: String -> String,
                service 2 full: String -> u32 {
                    request_update 1 up: String,
                    request_update 2 upper: (),
                    response_update 1 down: String,
                    response_update 2 downer: (),
                }
                service 3 half: () -> () {
                    response_update 1 down: u32,
                }
                stream 1 news: String,
                stream 2 nothing: (),
"""
F46 = "FormatS"
METHODS46 = (
    ("Client", ("x.close_handle()", "x.clone()", "x.plain(&String::new())", "x.full(&String::new())", "x.half()", "x.send_news(&String::new())", "x.send_nothing()", "x.close()")),
    ("Server", ("x.close_handle()", "x.recv_message()", "x.close()")),
    ("StreamMessage", ("x.is_news()", "x.as_news()", "x.is_nothing()", "x.as_nothing()", "x.into_news()")),
    ("full::SentRequestHandle", ("x.inner()", "x.inner_mut()", "x.request_id()", "x.service_id()", "x.write_handle()", "x.recv_update()", "x.recv_response()",
        "x.send_up_update(&String::new())", "x.send_upper_update()", "x.into_inner()")),
    ("full::SentRequestWriteHandle", ("x.inner()", "x.inner_mut()", "x.request_id()", "x.service_id()", "x.send_up_update(&String::new())", "x.send_upper_update()", "x.clone()", "x.into_inner()")),
    ("full::ReceivedRequestHandle", ("x.inner()", "x.inner_mut()", "x.request_id()", "x.service_id()", "x.write_handle()", "x.recv_update()", "x.send_response(&1)", "x.send_error_response(\"t\")",
        "x.send_down_update(&String::new())", "x.send_downer_update()", "x.into_inner()")),
    ("full::ReceivedRequestWriteHandle", ("x.inner()", "x.inner_mut()", "x.request_id()", "x.service_id()", "x.send_response(&1)", "x.send_error_response(\"t\")", "x.send_down_update(&String::new())",
        "x.send_downer_update()", "x.clone()", "x.into_inner()")),
    ("full::RequestUpdate", ("x.is_up()", "x.as_up()", "x.is_upper()", "x.into_up()")),
    ("full::ResponseUpdate", ("x.is_down()", "x.as_down()", "x.is_downer()", "x.into_down()")),
)
PLAIN46 = ("StreamMessage", "full::RequestUpdate", "full::ResponseUpdate")          # without a format

def c46_source(b_ok, b_no, prog):
    """add the modules with the interfaces; prog(batch, kind, text) adds one program"""
    for b, ok in ((b_ok, True), (b_no, False)):
        def put(vis, level, where, path, item):
            # where: how far the place is away from the interface
            if (where <= level) != ok: return
            if where == 4 and level == 3 and item in NESTED46: return          # the language lets items of a narrower module be re-exported
            name = f"an item of a {vis or 'private'} interface, {item}, {PLACE46[where]}"
            k = len(b.lines)
            use = f"pub use {path}::{item} as X" if where == 4 else f"use {path}::{item} as X"
            b.add(name, f"pub mod p{k} {{ {use}; }}")
            prog[name] = ok
        com = lambda t: b.add(None, t)
        items = ITEMS46 + NESTED46
        com("pub mod outer { pub mod mid {")
        for n, (vis, level) in enumerate(VIS46.items()):
            com(f"pub mod w{n} {{ use super::super::super::*;\nfizyr_rpc::interface! {{ {vis} interface Witness {{")
            com(BODY46)
            com("} }")
            for x in items: put(vis, level, 0, "super", x)
            com("}\npub mod s%d {" % n)
            for x in items: put(vis, level, 1, f"super::super::w{n}", x)
            com("}")
        com("}\npub mod uncle {")
        for n, (vis, level) in enumerate(VIS46.items()):
            for x in items: put(vis, level, 2, f"super::super::mid::w{n}", x)
        com("} }\npub mod far {")
        for n, (vis, level) in enumerate(VIS46.items()):
            for x in items:
                put(vis, level, 3, f"crate::outer::mid::w{n}", x)
                put(vis, level, 4, f"crate::outer::mid::w{n}", x)
        com("}")
PLACE46 = {0: "inside its module", 1: "in the parent module", 2: "in the module of its grandparent", 3: "elsewhere in the crate", 4: "outside of the crate"}

def c46(R):
    R.rule("Witness interfaces with every visibility are expanded, and witness programs use each generated item (Interface, Client, Server, StreamMessage, ReceivedMessage, ReceivedRequestHandle, Format, the module of "
           "each service and everything in it) at each distance: in the module, its parent, an ancestor, the crate, and re-exported. The compiler must accept the use exactly as far as the interface "
           "is declared visible; a refused use must be refused for privacy (E0603, E0364, E0365). The methods of the items of a pub interface can all be called from another module.")
    lib = library()
    ok, no, me = Batch(PRELUDE50), Batch(PRELUDE50), Batch(PRELUDE50)
    prog = {}
    c46_source(ok, no, prog)
    me.add(None, "pub mod m { fizyr_rpc::interface! { pub interface Witness {")
    me.add(None, BODY46)
    me.add(None, "} } }")
    calls = []
    for t, cs in METHODS46:
        for c in cs:
            name = f"{t}: {c.replace('x.', '', 1)} can be called where the interface is visible"
            calls.append(name)
            me.add(name, f"pub mod c{len(me.lines)} {{ use super::*; use super::m as w; fn f(mut x: w::{t}{'' if t in PLAIN46 else '<' + F46 + '>'}) {{ let _ = {c}; }} }}")
    with cf.ThreadPoolExecutor(max_workers=3) as ex:
        r1, r2, r3 = ex.map(lambda a: run_batch(*a, lib), (("c46-ok", ok), ("c46-no", no), ("c46-methods", me)))
    for r in (r1, r2, r3):
        if None in r: R.fail("the witnesses' common part compiles", f"the common part of the witness programs does not compile: {r[None][0][1]}")
    for n, good in sorted(prog.items()):
        e = (r1 if good else r2).get(n) or []
        if good: R.ob(f"accepted: {n}", not e, "the program type-checks" if not e else f"{n}: {e[0][0]} {e[0][1]}", key=f"accepted:{n}")
        else: R.ob(f"refused: {n}", any(c in ("E0603", "E0364", "E0365") for c, _ in e), f"the compiler refuses it: {e[0][1]}" if e else f"the compiler accepts a use that the declared visibility excludes: {n}", key=f"refused:{n}")
    for n in calls:
        e = r3.get(n) or []
        R.ob(f"accepted: {n}", not e, "the program type-checks" if not e else f"{n}: {e[0][0]} {e[0][1]}", key=f"accepted:{n}")
    R.count("witness programs", len(prog) + len(calls))

# ---------------------------------------------------------------------------------------------- C51
# item -> what enables it: a feature, None (always), or several features of which one is enough
TRANSPORT_ITEMS = {
    "tcp": ("TcpTransport", "TcpPeer", "TcpListener", "transport::TcpStreamInfo"),
    "unix-stream": ("UnixStreamTransport", "UnixStreamPeer", "UnixStreamListener", "transport::UnixStreamInfo"),
    "unix-seqpacket": ("UnixSeqpacketTransport", "UnixSeqpacketPeer", "UnixSeqpacketListener", "transport::UnixSeqpacketInfo"),
}
ALWAYS_TYPES = ("Error", "StreamBody", "StreamConfig", "UnixBody", "UnixConfig", "MessageHeader", "MessageType", "transport::Endian", "transport::TransportError") 
ALWAYS_BODY = ("PeerHandle", "PeerReadHandle", "PeerWriteHandle", "PeerCloseHandle", "SentRequestHandle", "SentRequestWriteHandle", "ReceivedRequestHandle", "ReceivedRequestWriteHandle", "ReceivedMessage", "Message", "RecvMessageError", "ParseUpdateError")
ALWAYS_PATHS = ("Body", "Peer", "Listener", "ListeningSocket", "HEADER_LEN", "MAX_PAYLOAD_LEN", "service_id", "service_id::ERROR", "introspection::InterfaceDefinition", "introspection::ServiceDefinition", "introspection::StreamDefinition", "introspection::UpdateDefinition",
    "format::Format", "format::EncodeBody", "format::DecodeBody", "format::ToMessage", "format::FromMessage", "transport::Transport", "transport::TransportReadHalf", "transport::TransportWriteHalf", "transport::StreamTransport", "transport::UnixTransport",
    "util::Bind", "util::Connect", "util::IntoTransport", "util::Listener", "util::Accept")
MACRO_USE = "fizyr_rpc::interface! { pub interface W { service 1 a: () -> String { request_update 1 u: (), response_update 1 v: (), } service 2 b: String -> (), stream 1 s: (), } }"

def c51_items():
    for f, ts in TRANSPORT_ITEMS.items():
        for t in ts: yield t, f, f"use fizyr_rpc::{t} as X; pub fn f(_: &X) {{}}"
    for f, p in (("tcp", "Tcp"), ("unix-stream", "UnixStream"), ("unix-seqpacket", "UnixSeqpacket")):
        cfg = "UnixConfig" if f == "unix-seqpacket" else "StreamConfig"
        addr = "&'static str" if f == "tcp" else "&'static std::path::Path"
        yield f"{p}Peer::connect", f, f"pub fn f(a: {addr}) {{ drop(fizyr_rpc::{p}Peer::connect(a, fizyr_rpc::{cfg}::default())) }}"
        yield f"{p}Peer::spawn", f, f"pub fn f(a: fizyr_rpc::{p}Transport) {{ drop(fizyr_rpc::{p}Peer::spawn(a)) }}"
        yield f"{p}Listener::bind", f, f"pub fn f(a: {addr}) {{ drop(fizyr_rpc::{p}Listener::bind(a, fizyr_rpc::{cfg}::default())) }}"
        yield f"{p}Listener::accept", f, f"pub fn f(a: &mut fizyr_rpc::{p}Listener) {{ drop(a.accept()) }}"
        yield f"{p}Listener::run", f, f"pub fn f(a: &mut fizyr_rpc::{p}Listener) {{ drop(a.run(|p, i| async move {{ drop(p) }})) }}"
    yield "interface!", "macros", MACRO_USE
    yield "interface_example", "macros", "use fizyr_rpc::interface_example as X; pub fn f<F: fizyr_rpc::format::Format>(_: &X::Client<F>) {}"
    for t in ALWAYS_TYPES: yield t, None, f"use fizyr_rpc::{t} as X; pub fn f(_: &X) {{}}"
    for t in ALWAYS_BODY: yield t, None, f"use fizyr_rpc::{t} as X; pub fn f<B: fizyr_rpc::Body>(_: &X<B>) {{}}"
    for t in ALWAYS_PATHS: yield t, None, f"use fizyr_rpc::{t} as _;" if not t.startswith("service_id") and not t.isupper() else f"pub use fizyr_rpc::{t};"

def c51_combo(R, feats):
    name = "+".join(feats) or "no feature"
    front.lock()
    try:
        rmeta, deps, err = front.check_library(feats, fresh=True)
        first = [l for l in (err or "").splitlines() if l.strip()][:1]
        where = next((l.strip(" ->") for l in (err or "").splitlines() if l.strip().startswith("-->")), None)
        R.ob(f"type-checks: {name}", rmeta is not None, "cargo check succeeds with exactly these features" if rmeta else f"the library does not type-check with {name}: {first[0] if first else ''}", where=where, key=f"build:{name}")
        R.count("feature combinations")
        if rmeta is None: return
        items = [i for i in c51_items()]
        b, missing = Batch("#![allow(warnings)]"), Batch("#![allow(warnings)]")
        for k, (t, need, p) in enumerate(items):
            (b if need is None or need in feats else missing).add(t, f"pub mod m{k} {{ {p} }}")
        tag = "".join("01"[f in feats] for f in ALL)
        res = run_batch(f"c51-{tag}", b, (rmeta, deps))
        absent = run_batch(f"c51-{tag}-n", missing, (rmeta, deps)) if missing.owner[1:] else {}
    finally:
        front.unlock()
    for r in (res, absent):
        if None in r: R.fail(f"the witnesses compile with {name}", f"{r[None][0][1]}")
    for t, need, p in items:
        R.count("item witnesses")
        if need is None or need in feats:
            e = res.get(t)
            R.ob(f"{t} is available with {name}", not e, "the program that uses it compiles" if not e else f"{t} cannot be used with {name}: {e[0][1]}", key=f"available:{t}:{name}")
        else:
            e = absent.get(t)
            R.ob(f"{t} is absent with {name}", bool(e), "the program that uses it does not compile" if e else f"{t} is available without the feature {need} ({name})", key=f"absent:{t}:{name}")

def c51(R):
    R.rule("The compiler type-checks the library with each of the 16 feature combinations (its own feature resolution, without the features that tests add), and for each of them a witness program per documented item: it must compile exactly if the feature of the item is enabled.")
    for n in range(len(ALL) + 1):
        for feats in itertools.combinations(ALL, n): c51_combo(R, feats)

RULES = {"C41": c41, "C46": c46, "C50": c50, "C51": c51}
