"""C80: the Wireshark dissector and the library agree on the wire format."""
import glob
from lib import *
import front
import lua
from lua import Obj, Fn, lin as llin, same, add
from r_message import byte_buf, KIND

HEADER = 12
NAMES = {"Request": ("Request",), "Response": ("Response",), "RequesterUpdate": ("RequesterUpdate", "RequestUpdate"), "ResponderUpdate": ("ResponderUpdate", "ResponseUpdate"), "Stream": ("Stream",)}
LIBRARY = {"print", "tostring", "tonumber", "string", "table", "math", "pairs", "ipairs", "type", "assert", "error", "select", "set_plugin_info", "gui_enabled", "register_menu",
           "ftypes", "Pref", "Dissector", "Listener", "info", "debug", "warn", "critical", "message", "DESEGMENT_ONE_MORE_SEGMENT", "bit", "bit32", "UInt64", "Int64", "ByteArray", "Tvb", "expert", "ProtoExpert"}

class Api:
    """what the dissector uses of Wireshark"""
    def __init__(self):
        self.tables = {}; self.adds = []; self.pdus = []; self.reads = []
        self.globals = {n: Obj("api", name=n) for n in ("Proto", "ProtoField", "Field", "base", "DissectorTable", "dissect_tcp_pdus", *LIBRARY)}
    def get(self, n): return self.globals.get(n)
    def index(self, ev, o, key, ln):
        if o.kind == "api": return Obj("api", name=f"{o.name}.{key}")
        if o.kind == "fieldinfo":
            if key == "value": return Obj("num", lin={("field", o.name): 1})
            if key == "range": return Obj("opaque", what="range of another field")
            if key == "len": return Obj("opaque", what="length of another field")
        if o.kind in ("pinfo", "cols", "opaque"): return Obj("opaque", what=str(key))
        if o.kind == "proto": return o.t.get(key)
        raise lua.LuaError(f"line {ln}: field {key} of a {o.kind}")
    def rng(self, buf, args, ln):
        off = args[0] if args else 0
        n = args[1] if len(args) > 1 else None
        if llin(off) is None or (n is not None and llin(n) is None): return Obj("opaque", what=f"range at line {ln}")
        if n == -1: n = None
        r = Obj("range", buf=buf.name, off=add(llin(buf.off), llin(off)), len=n, line=ln)
        if n is None and buf.len is not None: r.len = add(llin(buf.len), llin(off), -1)
        self.reads.append(r)
        return r
    def call(self, ev, f, args, ln):
        if not isinstance(f, Obj): raise lua.LuaError(f"line {ln}: call of {f!r}")
        if f.kind == "tvb": return self.rng(f, args, ln)
        if f.kind == "range": return self.rng(Obj("tvb", name=f.buf, off=f.off, len=f.len), args, ln)
        if f.kind == "field": return Obj("fieldinfo", name=f.name)
        if f.kind == "fieldinfo": return Obj("num", lin={("field", f.name): 1})
        if f.kind == "api":
            if f.name == "Proto": return Obj("proto", name=args[0])
            if f.name in ("Proto.new",): return Obj("proto", name=args[0])
            if f.name.startswith("ProtoField."):
                ty = f.name.split(".")[1]
                if ty == "new": return Obj("pf", abbr=args[1], type=args[2].name.split(".")[-1].lower() if isinstance(args[2], Obj) and args[2].kind == "api" else "?", args=args, line=ln)
                return Obj("pf", abbr=args[0], type=ty, args=args, line=ln)
            if f.name == "Field.new": return Obj("field", name=args[0])
            if f.name == "DissectorTable.get": return Obj("dtable", name=args[0])
            if f.name == "dissect_tcp_pdus":
                self.pdus.append((args, ln)); return None
        if f.kind in ("api", "opaque"): return Obj("opaque", what=f"call at line {ln}")
        raise lua.LuaError(f"line {ln}: call of a {f.kind}")
    def method(self, ev, o, name, args, ln):
        if o.kind == "dtable":
            if name in ("add", "set", "add_for_decode_as"):
                self.tables.setdefault(o.name, []).append((args[-1], ln)); return None
        if o.kind == "tvb":
            if name == "range": return self.rng(o, args, ln)
            if name in ("len", "captured_len", "reported_len", "reported_length_remaining"): return Obj("num", lin={("len", o.name): 1}) if name != "reported_length_remaining" else Obj("opaque", what=name)
            if name == "offset": return Obj("opaque", what=name)
        if o.kind == "range":
            m = {"uint": ("uint", "be"), "le_uint": ("uint", "le"), "int": ("int", "be"), "le_int": ("int", "le")}.get(name)
            if m: return Obj("num", lin={("read", m[0], m[1], o.buf, key(o.off), key(o.len)): 1})
            if name == "len": return o.len if o.len is not None else Obj("opaque", what=name)
            if name == "range": return self.rng(Obj("tvb", name=o.buf, off=o.off, len=o.len), args, ln)
            if name == "tvb": return Obj("tvb", name=o.buf, off=o.off, len=o.len)
            return Obj("opaque", what=name)
        if o.kind == "tree":
            if name in ("add", "add_le"):
                what = args[0] if args else None
                if isinstance(what, Obj) and what.kind == "pf":
                    self.adds.append((what, name == "add_le", args[1:], ln))
                return Obj("tree")
            return Obj("tree")
        if o.kind == "api": return self.call(ev, Obj("api", name=f"{o.name}.{name}"), args, ln)
        if o.kind in ("opaque", "pinfo", "cols"): return Obj("opaque", what=name)
        raise lua.LuaError(f"line {ln}: method {name} of a {o.kind}")

def key(x):
    l = llin(x)
    return None if l is None else tuple(sorted(((k, v) for k, v in l.items()), key=repr))

def layout(R):
    """the fields of an encoded header: name -> (offset, size, signed), from MessageHeader::encode, and the byte order used by default"""
    d = dump()
    enc = get(R, d, "MessageHeader::encode")
    endian = R.need(adt(d, "Endian"), "type Endian")
    cfg = R.need(adt(d, "StreamConfig"), "type StreamConfig")
    order = None
    for f in all_roots(d):
        if f.kind == "fn" and f.impl_trait and f.impl_trait.endswith("default::Default"):
            E = engine(R, d)
            if E.adt_of(f.impl_self) != cfg["path"]: continue
            for o in run(E, f, [], State()):
                if o.k == "ret": order = enum_name(E, o.st, fieldn(E, o.st, o.v, "endian"))
    R.need(order, "the default endianness of streams")
    i = next(i for i, v in enumerate(endian["variants"]) if v["name"] == order)
    E = engine(R, d); st = State()
    hdr = sym_arg(E, st, enc, 0)
    sl, n = byte_buf(E, st, "buf", enc.locals[2])
    E.add_con(st, lin.le(("c", HEADER), n))
    out = {}
    for o in run(E, enc, [hdr, sl, ("S", enc.locals[3], i, ())], st):
        if o.k != "ret": continue
        h = E.load(o.st, *E.ptr_loc(o.st, hdr))
        fs = {"message_type": E.discr(o.st, fieldn(E, o.st, h, "message_type"), E.tyof(fieldn(E, o.st, h, "message_type")))}
        for x in ("request_id", "service_id"): fs[x] = fieldn(E, o.st, h, x)
        for x, v in fs.items():
            for off in range(0, HEADER - 3):
                c = M.content_of(E, o.st, E.load(o.st, ("B", "buf"), ()), ("c", off), ("c", 4))
                if c[0] == "enc" and c[2] == 4 and (c[3] == v or E.same_value(o.st, c[3], v) or (c[3][0] == "cast" and E.same_value(o.st, c[3][2], v))):
                    out[x] = (off, c[1])
    mt = R.need(adt(d, "MessageType"), "type MessageType")
    return out, KIND[order], {v["name"]: int(v["discr"]) for v in mt["variants"]}

def c80(R):
    R.rule("The Lua source of the dissector is parsed and evaluated over a symbolic segment: every range it reads and every field it shows is a term in the offset of the message. Compared are the length it "
           "announces for a message at any offset, and the position, size, byte order and signedness of every field, with the layout that MessageHeader::encode of the current tree produces.")
    files = sorted(glob.glob(front.REPO + "/wireshark/*.lua"))
    if not files:
        R.undecided("there is no Wireshark dissector"); return
    fields, order, types = layout(R)
    R.need(len(fields) == 3, "the fields of the encoded header")
    tcp = 0
    for path in files:
        rel = path[len(front.REPO) + 1:]
        api = Api(); ev = lua.Eval(api)
        try:
            ev.run(lua.Parser(open(path).read()).chunk())
            R.count("Lua files")
            for table, entries in api.tables.items():
                for proto, ln in entries:
                    if not isinstance(proto, Obj) or proto.kind != "proto": continue
                    f = proto.t.get("dissector")
                    if not R.ob(f"{proto.name}: has a dissector", isinstance(f, Fn), f"{proto.name} is registered without a dissector function", f"{rel}:{ln}"): continue
                    where = f"{rel}:{f.line} (dissector of {proto.name})"
                    if table == "tcp.port":
                        tcp += 1
                        check_tcp(R, ev, api, proto, f, rel, where, fields, order, types)
                    elif table == "udp.port":
                        check_message(R, ev, api, proto, f, rel, where, fields, order, types, 0, "datagram")
        except lua.LuaError as e:
            if not ev.undefined: R.undecided(f"{rel}: {e}")
        for n, ln in sorted(set(ev.undefined)):
            R.fail(f"{rel}: defined names", f"the dissector uses {n}, which is not defined", f"{rel}:{ln}", key=f"{rel}: {n} is not defined")
    if not tcp: R.undecided("no dissector is registered for TCP ports")

def check_tcp(R, ev, api, proto, f, rel, where, fields, order, types):
    api.pdus.clear(); api.adds.clear()
    buf, tree, pinfo = Obj("tvb", name="segment", off=0, len=None), Obj("tree"), Obj("pinfo")
    ev.call(f, [buf, pinfo, tree], f.line)
    if not R.ob(f"{proto.name}: splits the stream into messages", len(api.pdus) == 1 and not api.adds, f"{proto.name} does not leave the splitting of the stream to dissect_tcp_pdus", where): return
    args, ln = api.pdus[0]
    at = f"{rel}:{ln}"
    ok = len(args) >= 5 and args[0] is buf and isinstance(args[2], int) and isinstance(args[3], Fn) and isinstance(args[4], Fn)
    if not R.ob(f"{proto.name}: passes on the whole segment", ok, "dissect_tcp_pdus does not get the segment, a size and two functions that exist", at): return
    need, length, show = args[2], args[3], args[4]
    R.ob(f"{proto.name}: bytes needed for the length", 4 <= need <= 4 + HEADER, f"{need} bytes are asked for before the length is read; the length takes 4 and the smallest message {4 + HEADER}", at)
    # the length of the message that starts at any offset of the segment
    off = Obj("num", lin={("offset",): 1})
    api.reads.clear()
    got = ev.call(length, [buf, pinfo, off], length.line)
    want = Obj("num", lin={(): 4, ("read", "uint", order, "segment", key(off), key(4)): 1})
    w = f"{rel}:{length.line}"
    R.ob(f"{proto.name}: length of a message", same(got, want), f"the length of a message at some offset is taken as {show_num(got)}, it is {show_num(want)}", w)
    for r in api.reads:
        rel_off = add(llin(r.off), llin(off), -1)
        R.ob(f"{proto.name}: reads only what is there", isinstance(rel_off, int) and 0 <= rel_off and isinstance(r.len, int) and rel_off + r.len <= need,
             "the length function reads outside of the bytes that are there", f"{rel}:{r.line}")
    check_message(R, ev, api, proto, show, rel, f"{rel}:{show.line} (messages of {proto.name})", fields, order, types, 4, "message")

def show_num(x):
    l = llin(x)
    if l is None: return "?"
    return " + ".join((str(v) if k == () else ("" if v == 1 else f"{v}*") + (f"{k[2]} {k[1]} at {show_num(Obj('num', lin=dict(k[4])))}" if k[0] == "read" else str(k[0]))) for k, v in sorted(l.items(), key=repr)) or "0"

def check_message(R, ev, api, proto, f, rel, where, fields, order, types, start, what):
    api.adds.clear(); api.reads.clear()
    name = f"{proto.name} {what}"
    buf = Obj("tvb", name=what, off=0, len=None)
    ev.call(f, [buf, Obj("pinfo"), Obj("tree")], f.line)
    R.count("dissected message layouts")
    shown = {}
    for pf, le, args, ln in api.adds:
        shown.setdefault(str(pf.abbr).split(".")[-1], []).append((pf, le, args, ln))
    want = {x: (start + off, 4, "int32" if x == "service_id" else "uint32", kind) for x, (off, kind) in fields.items()}
    if start: want["message_length"] = (0, 4, "uint32", order)
    known = registered(api)
    for x, (off, n, ty, kind) in want.items():
        es = shown.get(x, [])
        if not R.ob(f"{name}: shows {x}", len(es) == 1, f"the field {x} is shown {len(es)} times", where): continue
        pf, le, args, ln = es[0]
        at = f"{rel}:{ln}"
        r = args[0] if args else None
        good = isinstance(r, Obj) and r.kind == "range" and same(r.off, off) and same(r.len, n)
        R.ob(f"{name}: place of {x}", good, f"{x} is read from {place(r)}, it is at {off}, {n} bytes", at)
        R.ob(f"{name}: type of {x}", pf.type == ty, f"{x} is shown as {pf.type}, it is {ty}", f"{rel}:{pf.line}")
        if len(args) > 1 and llin(args[1]) is not None:
            w = Obj("num", lin={("read", ty[:-2], kind, what, key(off), key(n)): 1})
            R.ob(f"{name}: byte order of {x}", same(args[1], w), f"the value of {x} is {show_num(args[1])}", at)
        else:
            R.ob(f"{name}: byte order of {x}", le == (kind == "le"), f"{x} is read in the wrong byte order", at)
        if x == "message_type":
            tables = [a for a in pf.args[1:] if isinstance(a, dict)]
            t = tables[0] if tables else {}
            R.ob(f"{name}: names of the message types", len(t) == len(types) and all(t.get(v) in NAMES.get(k, (k,)) for k, v in types.items()), f"the message types are shown as {t}, they are {types}", f"{rel}:{pf.line}")
    es = shown.get("body", [])
    if R.ob(f"{name}: shows the body", len(es) == 1, f"the body is shown {len(es)} times", where):
        pf, le, args, ln = es[0]
        r = args[0] if args else None
        rest = isinstance(r, Obj) and r.kind == "range" and same(r.off, start + HEADER) and (r.len is None or same(r.len, Obj("num", lin={("len", what): 1, (): -(start + HEADER)})))
        R.ob(f"{name}: place of the body", rest, f"the body is read from {place(r)}, it is everything from {start + HEADER} on", f"{rel}:{ln}")
    for pf, le, args, ln in api.adds:
        if not any(pf is k for k in known): R.fail(f"{name}: fields are registered", f"the field {pf.abbr} is not registered with a protocol", f"{rel}:{ln}")
    for x, es in shown.items():
        for pf, le, args, ln in es:
            r = args[0] if args else None
            if x not in want and x != "body" and isinstance(r, Obj) and r.kind == "fieldinfo":
                R.fail(f"{name}: values are numbers", f"{x} is shown with a field object instead of its value", f"{rel}:{ln}")
            if x == "message_length" and not start:
                ok = r is not None and (llin(r) is not None)
                R.ob(f"{name}: length", ok and same(r, Obj("num", lin={("field", "udp.length"): 1, (): -8})), "the length of the message is not the length of the datagram without the UDP header", f"{rel}:{ln}")

def place(r):
    if not isinstance(r, Obj) or r.kind != "range": return "?"
    return f"{show_num(r.off)}, {'the rest' if r.len is None else show_num(r.len) + ' bytes'}"

def registered(api):
    out = []
    for es in api.tables.values():
        for p, _ in es:
            if isinstance(p, Obj) and p.kind == "proto":
                fs = p.t.get("fields")
                if isinstance(fs, dict): out += list(fs.values())
    return out

RULES = {"C80": c80}
