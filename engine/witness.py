"""Witness crates: generated programs that use the interface! macro, with the table of what was declared in them.

Each interface is described by plain data; the same description is printed as Rust source and used as the oracle."""
import random

def U(id, name, ty, doc=(), hidden=False): return dict(id=id, name=name, ty=ty, doc=list(doc), hidden=hidden)
def S(id, name, req, resp, ru=(), su=(), doc=(), hidden=False, order=None, block=None):
    return dict(id=id, name=name, req=req, resp=resp, ru=list(ru), su=list(su), doc=list(doc), hidden=hidden, order=order, block=bool(ru or su) if block is None else block)
def I(mod, name, services=(), streams=(), doc=(), hidden=False, vis="pub ", order=None):
    return dict(mod=mod, name=name, services=list(services), streams=list(streams), doc=list(doc), hidden=hidden, vis=vis, order=order)

MAX, MIN = 2**31 - 1, -2**31
NTYPES = 24
T = lambda n: f"crate::verif_witness::T{n}"

# documentation: indentation, empty lines, lines of spaces, characters that need escapes
DOCS = [["    wide", " x"], ["", "b", "", "    c", ""], ["   ", "y"], ["quote \" back\\slash {brace} {} #x 'single' \u00e9\u4e2d"], [" a", "  b", "a"], ["  ", "     two", "    one", "   ", "      three"], ["", ""], ["`code`  ", "\tTab"]]

def fixed():
    """every kind of item in every position that matters"""
    r = []
    r.append(I("w_plain", "Plain", [
        S(3, "alpha", T(0), T(1), doc=["Alpha.", "", "  indented"]),
        S(1, "beta", "()", T(2)),
        S(2, "gamma_two", T(3), "()", hidden=True),
        S(7, "delta", "()", "()"),
    ], doc=["Services without updates."]))
    r.append(I("w_same_types", "SameTypes", [
        S(10, "first", "String", "String", [U(5, "left", "String"), U(6, "right", "String"), U(4, "middle", "String")], [U(6, "left", "String"), U(4, "right", "String"), U(5, "other", "String")]),
        S(11, "second", "String", "String", [U(6, "left", "String"), U(5, "right", "String")], [U(5, "left", "String"), U(6, "right", "String")]),
        S(12, "third", "String", "String"),
    ], [U(10, "first", "String"), U(12, "second", "String"), U(11, "thirds", "String")]))
    r.append(I("w_updates", "Updates", [
        S(1, "none_block", T(0), T(1), block=True),
        S(2, "one_request", T(2), T(3), [U(1, "up", T(4))]),
        S(3, "one_response", T(5), T(6), [], [U(1, "down", T(7))]),
        S(4, "both", "()", "()", [U(1, "up", "()")], [U(1, "down", "()")]),
        S(5, "many", "()", T(8), [U(9, "a", T(9), hidden=True), U(8, "b_b", "()", doc=["doc of b"]), U(7, "c3", T(10))], [U(7, "d", "()"), U(8, "e_e_e", T(11)), U(9, "f", T(12), hidden=True, doc=["doc of f"])], order="rsrsrs"),
        S(6, "resp_first", T(13), "()", [U(2, "x", T(14)), U(1, "y", T(15))], [U(2, "x", T(16)), U(1, "y", T(17))], order="ssrr", hidden=True),
    ], hidden=True))
    r.append(I("w_streams", "Streams", [], [U(4, "one", T(0)), U(2, "two", "()", hidden=True), U(9, "three_x", T(1), doc=["third"])], doc=["Only streams.", "More."]))
    r.append(I("w_one_stream", "OneStream", [], [U(0, "only", T(0))], vis="pub(crate) "))
    r.append(I("w_one_service", "OneService", [S(0, "only", T(0), T(1))], vis=""))
    r.append(I("w_extreme", "Extreme", [
        S(MAX, "biggest", T(0), T(1), [U(MAX, "up", T(2)), U(MIN, "down", T(3))], [U(0, "up", T(4)), U(-2, "down", T(5))]),
        S(MIN, "smallest", T(6), T(7)),
        S(0, "zero", T(8), T(9)),
        S(-2, "near_error", T(10), T(11), [], [U(1, "z", T(12))]),
    ], [U(MAX, "biggest", T(13)), U(MIN, "smallest", T(14)), U(-2, "near_error", "()"), U(0, "nought", T(15))]))
    r.append(I("w_mixed", "Mixed", [
        S(1, "svc", T(0), T(1)), S(2, "svd", T(1), T(0), [U(1, "ping", T(0)), U(2, "pong", T(1))], [U(2, "ping", T(0)), U(1, "pong", T(1))]),
    ], [U(2, "sta", T(0)), U(1, "stb", T(1))], order="tstu", doc=["mixed"]))
    r.append(I("w_std_types", "StdTypes", [
        S(21, "v", "Vec<u8>", "Option<String>", [U(1, "t", "(u8, u16)")], [U(1, "b", "Box<[u32]>")]),
        S(22, "w", "std::collections::BTreeMap<String, u32>", "Result<u8, String>"),
    ], [U(1, "arr", "[u8; 4]"), U(2, "f", "f64")]))
    r.append(I("w_docs", "Docs", [
        S(1, "da", T(0), T(1), [U(1, "db", T(2), doc=DOCS[0]), U(2, "dc", T(3), doc=DOCS[1])], [U(1, "dd", T(4), doc=DOCS[2]), U(2, "de", T(5), doc=DOCS[3])], doc=DOCS[4]),
        S(2, "df", T(6), T(7), doc=DOCS[5]), S(3, "dg", T(8), T(9), doc=DOCS[6]),
    ], [U(1, "dh", T(10), doc=DOCS[0]), U(2, "di", T(11), doc=DOCS[7]), U(3, "dj", T(12), doc=DOCS[5], hidden=True)], doc=DOCS[0]))
    r.append(I("w_names", "odd_Names", [
        S(1, "double__under", T(0), T(1), [U(1, "_lead", T(2)), U(2, "mixedCase", T(3))], [U(1, "trail_", T(4)), U(2, "UPPER_CASE", T(5))]),
        S(2, "mixedCase", T(6), T(7)), S(3, "UPPER", T(8), T(9)), S(4, "trail_", T(10), T(11)), S(5, "_lead", T(12), T(13)), S(6, "x", T(14), "()"),
    ], [U(1, "double__under", T(15)), U(2, "mixedCase", T(16)), U(3, "UPPER", T(17)), U(4, "trail__", T(18)), U(5, "__lead", T(19)), U(6, "z_9", T(20))]))
    # more items than any special case is written for
    names = ["n%d%s" % (i, "_x" * (i % 3)) for i in range(20)]
    r.append(I("w_large", "Large", [
        S(100 - 7 * i, n, T(i), T((i + 1) % NTYPES), *([[U(20 - j, "up_" + m, T(j)) for j, m in enumerate(names)], [U(j, "down_" + m, T(NTYPES - 1 - j)) for j, m in enumerate(names)]] if i == 17 else []))
        for i, n in enumerate(names)
    ], [U(3 * i, n, T(i)) for i, n in enumerate(names)]))
    return r

def generated(seed, n):
    rnd = random.Random(seed)
    words = ["red", "blue", "green_light", "x1", "y_2_z", "run", "stop_it", "go", "k", "load", "store_all", "tick", "tock", "q9", "merge", "split_up"]
    ids = lambda k: rnd.sample([0, 1, 2, 3, 4, 5, 17, 255, 256, 65536, -2, -3, -100, MAX, MIN, MAX - 1], k)
    tys = lambda: rnd.choice(["()", "String"] + [T(rnd.randrange(NTYPES)) for _ in range(4)])
    def ups(k):
        ii, nn = ids(k), rnd.sample(words, k)
        return [U(ii[j], nn[j], tys(), doc=rnd.choice(DOCS) if rnd.random() < .5 else (), hidden=rnd.random() < .2) for j in range(k)]
    out = []
    for j in range(n):
        ns, nt = rnd.choice([(0, 2), (1, 0), (2, 1), (3, 3), (4, 2), (2, 0), (1, 4)])
        si, sn = ids(ns), rnd.sample(words, ns)
        svc = []
        for q in range(ns):
            a, b = rnd.choice([(0, 0), (1, 0), (0, 1), (2, 2), (3, 1), (1, 4), (0, 3)])
            order = None
            if rnd.random() < .5:
                o = ["r"] * a + ["s"] * b; rnd.shuffle(o); order = "".join(o)
            svc.append(S(si[q], sn[q], tys(), tys(), ups(a), ups(b), doc=rnd.choice(DOCS) if rnd.random() < .5 else (), hidden=rnd.random() < .2, order=order))
        out.append(I(f"g_{j}", f"Gen{j}", svc, ups(nt), hidden=rnd.random() < .2))
    return out

def lit(i, name=""):
    """the number, in one of the ways Rust can write it"""
    s, n = ("-" if i < 0 else ""), abs(i)
    k = sum(map(ord, name)) % 5
    if k == 1: return f"{s}0x{n:X}"
    if k == 2: return f"{s}{n:_}"
    if k == 3: return f"{s}0b{n:b}"
    if k == 4: return f"{s}{n}i32" if i > MIN else str(i)
    return str(i)
def attrs(x, ind):
    s = "".join(f"{ind}///{' ' + l if l else ''}\n" for l in x["doc"])
    return s + (f"{ind}#[hidden]\n" if x["hidden"] else "")

def update_src(kind, u, ind): return attrs(u, ind) + f"{ind}{kind} {lit(u['id'], u['name'])} {u['name']}: {u['ty']},\n"
def service_src(s):
    ind = "\t\t\t"
    r = attrs(s, ind) + f"{ind}service {lit(s['id'], s['name'])} {s['name']}: {s['req']} -> {s['resp']}"
    if not s["block"]: return r + ",\n"
    r += " {\n"
    ru, su = list(s["ru"]), list(s["su"])
    for o in (s["order"] or "r" * len(ru) + "s" * len(su)):
        r += update_src("request_update", ru.pop(0), ind + "\t") if o == "r" else update_src("response_update", su.pop(0), ind + "\t")
    return r + ind + "}\n"

def interface_src(i, pub=True):
    r = f"pub mod {i['mod']} {{\n\tcrate::interface! {{\n" + attrs(i, "\t\t") + f"\t\t{i['vis']}interface {i['name']} {{\n"
    sv, st = list(i["services"]), list(i["streams"])
    parts = []
    if i["order"]:
        for o in i["order"]:
            if o in "su": parts.append(service_src(sv.pop(0)))
            else: parts.append(update_src("stream", st.pop(0), "\t\t\t"))
    parts += [service_src(s) for s in sv] + [update_src("stream", u, "\t\t\t") for u in st]
    return r + "".join(parts) + "\t\t}\n\t}\n}\n"

def types_of(i):
    r = {u["ty"] for u in i["streams"]}
    for s in i["services"]: r |= {s["req"], s["resp"]} | {u["ty"] for u in s["ru"] + s["su"]}
    return r

def module(interfaces, types=()):
    """the text of the witness module; ty_<n> are there to name the types"""
    src = "//! generated by engine/witness.py\n"
    for n in range(NTYPES):
        src += f"#[derive(Debug)]\npub struct T{n}(pub u{[8, 16, 32, 64][n % 4]}, pub String);\n"
    src += "".join(f"pub fn ty_{k}(_: {t}) {{}}\n" for k, t in enumerate(types))
    return src + "".join(interface_src(i) for i in interfaces)
