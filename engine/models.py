"""Transfer functions for library operations, for the abstract interpreter (absint.py).

Each model m(E, st, args, ctx) returns a list of Out, or None when it does not apply (then the body is interpreted
if it is in the dump, or the call becomes an opaque event).
"""
import lin
from absint import Out, Ev, UNIT, MOVED, TRUE, FALSE, Unsupported, subst
from lin import LEN_MAX
from mir import strip_generics

MODELS = {}
PURE = set()

def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco

def ret(st, v=UNIT):
    return [Out("ret", st, v)]

def panic(E, st, ctx, why):
    s = st.copy()
    E.emit(s, ctx, "panic", why=why, op=None)
    return Out("panic", s, (why, None))

PURE_PREFIX = ("core::fmt", "alloc::fmt", "<T as alloc::string::ToString>", "alloc::string", "<alloc::string::String", "core::any", "core::hash", "core::str",
               "core::net", "<core::net", "core::hint", "core::intrinsics", "core::panicking", "<core::fmt", "tokio::net::unix::ucred", "tokio_seqpacket::ucred",
               "core::io", "<core::io", "alloc::io", "core::num", "<u32", "<i32", "<str", "core::cell", "core::time", "core::char")
def is_pure(name):
    return name.startswith(PURE_PREFIX) or name in PURE

# ---- helpers -----------------------------------------------------------------------------------------
def deref(E, st, ptr):
    """value behind a pointer"""
    b, p = E.ptr_loc(st, ptr)
    return E.load(st, b, p)

def pin_ptr(E, st, v):
    """unwrap Pin<&mut T> / Pin<Box<T>> to the pointer"""
    n = 0
    while v[0] == "S" and len(v[3]) >= 1 and n < 5:
        v = v[3][0]; n += 1
    return v

def lz(E, st, tag, tid, *variants):
    st.nsym += 1
    a = ("s", tag, st.nsym, tid)
    E.typ[a] = tid
    return ("lz", a, tid, tuple(variants))

def enum_arg(E, tid, i):
    """i-th generic argument of an adt type"""
    t = E.ty(tid)
    return t["args"][i] if t["k"] == "adt" and i < len(t["args"]) else None

def result_parts(E, tid):
    """types of Ok and Err of a Result"""
    return enum_arg(E, tid, 0), enum_arg(E, tid, 1)

def payload(E, st, tag, tid):
    if tid is None:
        st.nsym += 1
        return ("s", tag, st.nsym, None)
    return E.fresh_ret(st, tag, tid)

def slice_of(E, st, v, tid=None):
    """normalise a pointer to bytes/elements into a slice value"""
    if v[0] == "slice" or v[0] == "str":
        return v
    if v[0] == "S":
        return slice_of(E, st, pin_ptr(E, st, v))
    b, p = E.ptr_loc(st, v)
    w = E.load(st, b, p)
    if w[0] in ("slice", "str"):
        return w
    return ("slice", b, p, ("c", 0), E.len_of(st, w))

# ---- byte strings ---------------------------------------------------------------------------------------
def clip(E, st, seg, start, length):
    """part of a segment inside [start, start+length): list of (rel, n, content) or None if undecided"""
    s, n, c = seg
    end = lin.add(s, n); wend = lin.add(start, length)
    if E.le(st, end, start) or E.le(st, wend, s):
        return []
    lo = start if E.le(st, s, start) else s if E.le(st, start, s) else None
    hi = wend if E.le(st, wend, end) else end if E.le(st, end, wend) else None
    if lo is None or hi is None:
        return None
    return [(lin.sub(lo, start), lin.sub(hi, lo), subcontent(E, st, c, lin.sub(lo, s), lin.sub(hi, lo), n))]

def subcontent(E, st, c, off, n, total):
    if c[0] == "stream":
        return ("stream", c[1], lin.add(c[2], off))
    if off == ("c", 0) and (n == total or E.eq(st, n, total)):
        return c
    if c[0] == "fill":
        return c
    if c[0] == "sub":
        return ("sub", c[1], lin.add(c[2], off))
    if c[0] == "lit" and off[0] == "c" and n[0] == "c":
        return ("lit", c[1][off[1]:off[1] + n[1]])
    return ("sub", c, off)

def bytes_read(E, st, v, start, length):
    """contents of a range: list of (rel, n, content), sorted, covering everything that is known"""
    if v[0] != "bytes":
        v = as_bytes(E, st, v)
    out = []
    for seg in v[3]:
        r = clip(E, st, seg, start, length)
        if r is None:
            out.append((lin.sub(seg[0], start), seg[1], ("maybe", seg[2])))
        else:
            out += r
    if not out:
        return [(("c", 0), length, subcontent(E, st, v[2], start, length, v[1]))]
    # fill holes with the base
    out.sort(key=lambda s: sort_key(s[0]))
    res = []
    cur = ("c", 0)
    for s in out:
        if not E.eq(st, cur, s[0]):
            if E.lt(st, cur, s[0]) or E.le(st, cur, s[0]):
                res.append((cur, lin.sub(s[0], cur), subcontent(E, st, v[2], lin.add(start, cur), lin.sub(s[0], cur), v[1])))
            else:
                res.append((cur, None, ("overlap",)))
        res.append(s)
        cur = lin.add(s[0], s[1])
    if not E.le(st, length, cur):
        res.append((cur, lin.sub(length, cur), subcontent(E, st, v[2], lin.add(start, cur), lin.sub(length, cur), v[1])))
    return merge_pieces(E, st, res)

def sort_key(t):
    c, parts = (t[1], ()) if t[0] == "c" else (t[1], t[2]) if t[0] == "lin" else (0, ((t, 1),))
    return (len(parts), c, repr(parts))

def merge_pieces(E, st, ps):
    res = []
    for p in ps:
        if p[1] is not None and p[1] == ("c", 0):
            continue
        if res and p[1] is not None and res[-1][1] is not None:
            a = res[-1]
            if E.eq(st, lin.add(a[0], a[1]), p[0]):
                ca, cb = a[2], p[2]
                if ca[0] == "stream" and cb[0] == "stream" and ca[1] == cb[1] and E.eq(st, lin.add(ca[2], a[1]), cb[2]):
                    res[-1] = (a[0], lin.add(a[1], p[1]), ca); continue
                if ca[0] == "fill" and ca == cb:
                    res[-1] = (a[0], lin.add(a[1], p[1]), ca); continue
                if ca[0] == "sub" and cb[0] == "sub" and ca[1] == cb[1] and E.eq(st, lin.add(ca[2], a[1]), cb[2]):
                    res[-1] = (a[0], lin.add(a[1], p[1]), ca); continue
        res.append(p)
    return res

def content_of(E, st, v, start, length):
    """a single term describing the contents of a range"""
    ps = bytes_read(E, st, v, start, length)
    if len(ps) == 1 and ps[0][0] == ("c", 0) and ps[0][1] is not None and E.eq(st, ps[0][1], length):
        return ps[0][2]
    if not ps:
        return ("lit", ())
    return ("cat", tuple((p[1] if p[1] is not None else ("c", -1), p[2]) for p in ps))

def as_bytes(E, st, v):
    if v[0] == "bytes":
        return v
    if v[0] == "str":
        return ("bytes", ("c", len(v[1].encode())), ("lit", tuple(v[1].encode())), ())
    if v[0] == "S" and all(x[0] == "c" for x in v[3]):
        return ("bytes", ("c", len(v[3])), ("lit", tuple(x[1] for x in v[3])), ())
    if v[0] == "S" and v[3]:
        c = bytes_from_fields(E, st, v[3])
        if c is not None:
            return ("bytes", ("c", len(v[3])), c, ())
    return ("bytes", E.len_of(st, v), ("val", v), ())

def bytes_from_fields(E, st, fs):
    # [e[i], e[i + 1], e[i + 2], e[i + 3]] of one byte string
    if all(f[0] == "elem" for f in fs):
        b, i0 = fs[0][1], fs[0][2]
        if all(f[1] == b and lin.sub(f[2], i0) == ("c", i) for i, f in enumerate(fs)):
            if b[0] in ("enc", "dec", "stream"): return b if i0 == ("c", 0) else None
            if i0 == ("c", 0) and b[0] not in ("bytes", "S"): return ("val", b)
            return content_of(E, st, as_bytes(E, st, b), i0, ("c", len(fs)))
    return None

def bytes_write(E, st, v, start, length, content):
    v = as_bytes(E, st, v) if v[0] != "bytes" else v
    start = E.simp(st, start); length = E.simp(st, length)
    if content[0] in ("stream", "sub"):
        content = (content[0], content[1], E.simp(st, content[2]))
    if length == ("c", 0):
        return v
    total = v[1]
    if start == ("c", 0) and E.eq(st, length, total) and content[0] != "stream":
        return ("bytes", total, content, ())
    segs = []
    end = lin.add(start, length)
    for s in v[3]:
        se = lin.add(s[0], s[1])
        if E.le(st, se, start) or E.le(st, end, s[0]):
            segs.append(s); continue
        if E.le(st, start, s[0]) and E.le(st, se, end):
            continue
        # partial overlap: keep what is left of it
        if E.le(st, s[0], start):
            segs.append((s[0], lin.sub(start, s[0]), subcontent(E, st, s[2], ("c", 0), lin.sub(start, s[0]), s[1])))
            if E.lt(st, end, se):
                segs.append((end, lin.sub(se, end), subcontent(E, st, s[2], lin.sub(end, s[0]), lin.sub(se, end), s[1])))
            elif not E.le(st, se, end):
                segs.append((s[0], s[1], ("maybe", s[2])))
            continue
        segs.append((s[0], s[1], ("maybe", s[2])))
    # append, joining with a neighbour that continues the same source
    if content[0] in ("stream", "sub"):
        for i, s in enumerate(segs):
            if s[2][0] == content[0] and s[2][1] == content[1] and E.eq(st, lin.add(s[0], s[1]), start) and E.eq(st, lin.add(s[2][2], s[1]), content[2]):
                n = lin.add(s[1], length)
                # all bytes of an encoded number: the encoding itself
                whole = content[0] == "sub" and s[2][1][0] == "enc" and s[2][2] == ("c", 0) and n == ("c", s[2][1][2])
                if whole and start != ("c", 0):
                    rest = ("bytes", total, v[2], tuple(x for j, x in enumerate(segs) if j != i))
                    return bytes_write(E, st, rest, s[0], n, s[2][1])
                segs[i] = (s[0], n, s[2])
                return ("bytes", total, v[2], tuple(segs))
    segs.append((start, length, content))
    segs.sort(key=lambda s: sort_key(s[0]))
    return ("bytes", total, v[2], tuple(segs))

def byte_content(E, st, val):
    """the content of one stored byte"""
    if val[0] == "c": return ("lit", (val[1] & 255,))
    if val[0] == "elem":
        b, i = val[1], val[2]
        if b[0] == "enc": return ("sub", b, i)
        if b[0] == "stream": return ("stream", b[1], lin.add(b[2], i))
        if b[0] in ("bytes", "S"): return content_of(E, st, as_bytes(E, st, b), i, ("c", 1))
        return ("sub", ("val", b), i)
    return ("byte", val)

def write_slice(E, st, sl, content, length=None):
    """overwrite the memory behind a slice"""
    _, b, p, start, n = sl
    cur = E.load(st, b, p)
    E.store(st, b, p, bytes_write(E, st, cur, start, n if length is None else length, content))

def read_slice(E, st, sl):
    """pieces of the memory behind a slice"""
    if sl[0] == "str":
        return [(("c", 0), ("c", len(sl[1].encode())), ("lit", tuple(sl[1].encode())))]
    _, b, p, start, n = sl
    return bytes_read(E, st, E.load(st, b, p), start, n)

def slice_content(E, st, sl):
    if sl[0] == "str":
        return ("lit", tuple(sl[1].encode()))
    _, b, p, start, n = sl
    v = E.load(st, b, p)
    if v[0] != "bytes" and start == ("c", 0) and E.eq(st, n, E.len_of(st, v)):
        return ("val", v)
    return content_of(E, st, v, start, n)

def is_u8(E, tid):
    return tid is not None and E.ty(tid)["s"] == "u8"

# integer <-> bytes
def _to_bytes(kind):
    def m(E, st, args, ctx):
        ity = E.ty_name(ctx.arg_tys[0]) if ctx.arg_tys and ctx.arg_tys[0] is not None else None
        n = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16}.get(ity)
        if n is None:
            t = E.ty(ctx.dst_ty)
            n = t.get("len") or 4
            ity = {1: "u8", 2: "u16", 4: "u32", 8: "u64"}.get(n, "u32")
        return ret(st, ("bytes", ("c", n), encode(E, kind, ity, n, args[0]), ()))
    return m
def encode(E, kind, ity, n, v):
    if v[0] == "app" and v[1] == "bswap":
        return encode(E, "be" if kind == "le" else "le", ity, n, v[2])
    if v[0] == "dec" and v[1] == kind and v[4] == n:
        return v[3]
    if v[0] == "cast":
        w = E.tyof(v[2])
        if w is not None and E.ty_name(w) in SIZE and SIZE[E.ty_name(w)] == n and SIZE.get(v[1]) == n:
            v = v[2]
    if v[0] == "c":
        v = ("c", v[1] % (1 << (8 * n)))
    return ("enc", kind, n, v)
SIZE = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8}
def _from_bytes(kind):
    def m(E, st, args, ctx):
        ity = E.ty_name(ctx.dst_ty)
        n = SIZE.get(ity)
        v = args[0]
        c = content_of(E, st, as_bytes(E, st, v), ("c", 0), ("c", n))
        if c[0] == "enc" and c[1] == kind and c[2] == n:
            x = c[3]
            t = E.tyof(x)
            if x[0] == "c":
                lo, hi = lin.INT_RANGE[ity]
                return ret(st, ("c", (x[1] - lo) % (hi - lo + 1) + lo))
            if t is None or E.ty_name(t) == ity:
                return ret(st, x)
            return ret(st, E.typed(("cast", ity, x), ity))
        d = ("dec", kind, ity, c, n)
        return ret(st, E.typed(d, ity))
    return m
for ity in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize"):
    for nm, kind in (("le", "le"), ("be", "be"), ("ne", "le")):
        MODELS[f"core::num::to_{nm}_bytes"] = _to_bytes(kind)
        MODELS[f"core::num::from_{nm}_bytes"] = _from_bytes(kind)

# ---- slices, arrays, vectors ---------------------------------------------------------------------------------
RANGES = {"core::ops::range::Range": "range", "core::ops::range::RangeFrom": "from", "core::ops::range::RangeTo": "to", "core::ops::range::RangeFull": "full",
          "core::ops::range::RangeInclusive": "incl", "core::ops::range::RangeToInclusive": "toincl"}

def index_range(E, st, idx, tid, n):
    """(start, end) of an index value, or ("one", i)"""
    t = E.ty(tid) if tid is not None else {"k": "?"}
    if idx[0] == "S" and isinstance(idx[1], int):
        t = E.ty(idx[1])
    if t["k"] == "adt" and t["adt"] in RANGES:
        k = RANGES[t["adt"]]
        f = lambda i: E.field(st, idx, 0, i)
        if k == "range": return f(0), f(1)
        if k == "from": return f(0), n
        if k == "to": return ("c", 0), f(0)
        if k == "full": return ("c", 0), n
        if k == "incl": return f(0), lin.add(f(1), ("c", 1))
        if k == "toincl": return ("c", 0), lin.add(f(0), ("c", 1))
    return None

def do_index(E, st, base, idx, idx_ty, ctx):
    sl = slice_of(E, st, base)
    if sl[0] == "str":
        b = E.newbox(st, as_bytes(E, st, sl), "T")
        sl = ("slice", b, (), ("c", 0), ("c", len(sl[1].encode())))
    n = sl[4]
    r = index_range(E, st, idx, idx_ty, n)
    outs = []
    if r is None:
        b1 = st.copy()
        if E.add_con(b1, lin.le(n, idx)):
            outs.append(panic(E, b1, ctx, "index out of bounds"))
        if E.add_con(st, lin.lt(idx, n)):
            outs.append(Out("ret", st, E.mkref(st, sl[1], sl[2] + (("idx", lin.add(sl[3], idx)),))))
        return outs
    lo, hi = r
    if hi != n:
        b1 = st.copy()
        if E.add_con(b1, lin.lt(n, hi)):
            outs.append(panic(E, b1, ctx, "range end out of bounds"))
    if lo != ("c", 0):
        b2 = st.copy()
        if E.add_con(b2, lin.lt(hi, lo)):
            outs.append(panic(E, b2, ctx, "range start out of bounds"))
    if E.add_con(st, lin.le(hi, n)) and E.add_con(st, lin.le(lo, hi)):
        outs.append(Out("ret", st, ("slice", sl[1], sl[2], lin.add(sl[3], lo), lin.sub(hi, lo))))
    return outs

@model("core::slice::index::index", "core::slice::index::index_mut", "core::array::index", "core::array::index_mut", "<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index",
       "<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut", "core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def _index(E, st, args, ctx):
    st = st.copy()
    return do_index(E, st, args[0], args[1], ctx.arg_tys[1] if ctx.arg_tys else None, ctx)

@model("core::slice::get", "core::slice::get_mut")
def _get(E, st, args, ctx):
    st = st.copy()
    sl = slice_of(E, st, args[0])
    r = index_range(E, st, args[1], ctx.arg_tys[1] if ctx.arg_tys else None, sl[4])
    outs = []
    bad = st.copy()
    if r is None:
        idx = args[1]
        if E.add_con(bad, lin.le(sl[4], idx)):
            outs.append(Out("ret", bad, ("S", ctx.dst_ty, 0, ())))
        if E.add_con(st, lin.lt(idx, sl[4])):
            cs = ("cmp", "lt", idx, sl[4])
            if E.small_index(cs) and E.load(st, sl[1], sl[2])[0] == "S":
                for g in E.fork_values(st, idx, sl[4][1]):
                    i = E.simp(g, idx)
                    outs.append(Out("ret", g, ("S", ctx.dst_ty, 1, (E.mkref(g, sl[1], sl[2] + (("idx", lin.add(sl[3], i)),)),))))
                return outs
            outs.append(Out("ret", st, ("S", ctx.dst_ty, 1, (E.mkref(st, sl[1], sl[2] + (("idx", lin.add(sl[3], idx)),)),))))
        return outs
    lo, hi = r
    if E.le(st, lo, hi) and E.le(st, hi, sl[4]):
        return ret(st, ("S", ctx.dst_ty, 1, (("slice", sl[1], sl[2], lin.add(sl[3], lo), lin.sub(hi, lo)),)))
    outs.append(Out("ret", bad, ("S", ctx.dst_ty, 0, ())))
    if E.add_con(st, lin.le(hi, sl[4])) and E.add_con(st, lin.le(lo, hi)):
        outs.append(Out("ret", st, ("S", ctx.dst_ty, 1, (("slice", sl[1], sl[2], lin.add(sl[3], lo), lin.sub(hi, lo)),))))
    return outs

@model("core::slice::split_at", "core::slice::split_at_mut")
def _split_at(E, st, args, ctx):
    st = st.copy()
    sl = slice_of(E, st, args[0]); m = args[1]
    outs = []
    bad = st.copy()
    if E.add_con(bad, lin.lt(sl[4], m)):
        outs.append(panic(E, bad, ctx, "split_at out of bounds"))
    if E.add_con(st, lin.le(m, sl[4])):
        a = ("slice", sl[1], sl[2], sl[3], m)
        b = ("slice", sl[1], sl[2], lin.add(sl[3], m), lin.sub(sl[4], m))
        outs.append(Out("ret", st, ("S", ctx.dst_ty, 0, (a, b))))
    return outs

@model("core::slice::first_chunk", "core::slice::first_chunk_mut", "core::slice::split_first_chunk", "core::slice::last_chunk", "core::slice::split_last_chunk")
def _first_chunk(E, st, args, ctx):
    """Option<&[T; N]>, or Option<(&[T; N], &[T])>"""
    st = st.copy()
    sl = slice_of(E, st, args[0])
    name = strip_generics(ctx.callee["path"]).split("::")[-1]
    some = enum_arg(E, ctx.dst_ty, 0)
    pair = E.ty(some)["ts"] if "split" in name else None
    at = E.ty(E.pointee(pair[0 if "first" in name else 1] if pair else some))
    n = at.get("len")
    if n is None or not is_u8(E, at.get("t")):
        return None
    if name.endswith("_mut") and "split" in name: return None
    outs = []
    bad = st.copy()
    if E.add_con(bad, lin.lt(sl[4], ("c", n))):
        outs.append(Out("ret", bad, ("S", ctx.dst_ty, 0, ())))
    if E.add_con(st, lin.le(("c", n), sl[4])):
        rest_len = lin.sub(sl[4], ("c", n))
        first = "first" in name
        start = sl[3] if first else lin.add(sl[3], rest_len)
        chunk = ("slice", sl[1], sl[2], start, ("c", n))
        v = chunk if name.endswith("_mut") else ("ref", E.newbox(st, ("bytes", ("c", n), slice_content(E, st, chunk), ()), "T"), ())
        if pair:
            rest = ("slice", sl[1], sl[2], lin.add(sl[3], ("c", n)) if first else sl[3], rest_len)
            v = ("S", some, 0, (v, rest) if first else (rest, v))
        outs.append(Out("ret", st, ("S", ctx.dst_ty, 1, (v,))))
    return outs

@model("core::slice::len", "alloc::vec::Vec::len", "alloc::string::String::len", "core::str::len", "alloc::collections::vec_deque::VecDeque::len")
def _len(E, st, args, ctx):
    v = args[0]
    if v[0] in ("slice", "str"):
        return ret(st, slice_of(E, st, v)[4] if v[0] == "slice" else E.len_of(st, v))
    return ret(st, slice_of(E, st, v)[4])

@model("core::slice::is_empty", "alloc::vec::Vec::is_empty", "alloc::string::String::is_empty", "core::str::is_empty")
def _is_empty(E, st, args, ctx):
    v = args[0]
    n = E.len_of(st, v) if v[0] == "str" else slice_of(E, st, v)[4]
    return ret(st, E.cmp("eq", n, ("c", 0)))

@model("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def _copy_from_slice(E, st, args, ctx):
    st = st.copy()
    d, s = slice_of(E, st, args[0]), slice_of(E, st, args[1])
    outs = []
    sn = E.len_of(st, s) if s[0] == "str" else s[4]
    bad = E.assume(st.copy(), ("cmp", "eq", d[4], sn), False)
    if bad is not None:
        outs.append(panic(E, bad, ctx, "source slice length does not match destination slice length"))
    if E.add_eq(st, d[4], sn):
        write_slice(E, st, d, slice_content(E, st, s))
        outs.append(Out("ret", st, UNIT))
    return outs

@model("core::slice::fill")
def _fill(E, st, args, ctx):
    st = st.copy()
    d = slice_of(E, st, args[0])
    write_slice(E, st, d, ("fill", args[1]))
    return ret(st)

@model("core::array::try_from")
def _array_try_from(E, st, args, ctx):
    st = st.copy()
    sl = slice_of(E, st, args[0])
    okty = enum_arg(E, ctx.dst_ty, 0)
    t = E.ty(okty) if okty is not None else {}
    byref = t.get("k") == "ref"
    at = E.ty(t["t"]) if byref else t
    n = at.get("len")
    if n is None:
        return None
    outs = []
    bad = E.assume(st.copy(), ("cmp", "eq", sl[4], ("c", n)), False)
    if bad is not None:
        outs.append(Out("ret", bad, ("S", ctx.dst_ty, 1, (UNIT,))))
    if E.add_eq(st, sl[4], ("c", n)):
        v = ("bytes", ("c", n), slice_content(E, st, sl), ()) if is_u8(E, at.get("t")) else payload(E, st, "arr", okty)
        if byref and t.get("mut"):
            v = sl
        elif byref:
            v = ("ref", E.newbox(st, v, "T"), ())
        outs.append(Out("ret", st, ("S", ctx.dst_ty, 0, (v,))))
    return outs

def vec_elem(E, tid):
    t = E.ty(tid) if tid is not None else {"k": "?"}
    if t["k"] == "ref":
        return vec_elem(E, t["t"])
    if t["k"] == "adt" and t["args"]:
        return t["args"][0]
    return None

def empty_vec(E, tid):
    if is_u8(E, vec_elem(E, tid)):
        return ("bytes", ("c", 0), ("lit", ()), ())
    return ("S", tid, 0, ())

@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "<alloc::vec::Vec<T> as core::default::Default>::default")
def _vec_new(E, st, args, ctx):
    if E.adt_of(ctx.dst_ty) != "alloc::vec::Vec":
        return None
    if args and strip_generics(ctx.callee["path"]).endswith("with_capacity"):
        E.emit(st, ctx, "alloc", size=args[0])
    return ret(st, empty_vec(E, ctx.dst_ty))

def default_of(E, st, tid):
    """the default value of a type of the standard library, or None if it is not known here"""
    if tid is None: return None
    t = E.ty(tid); n = t.get("adt") if t["k"] == "adt" else None
    if n == "alloc::vec::Vec": return empty_vec(E, tid)
    if n in ("alloc::rcs::arc::Arc", "alloc::sync::Arc", "alloc::boxed::Box", "alloc::rc::Rc"):
        v = default_of(E, st, enum_arg(E, tid, 0))
        return v and ("ref", E.newbox(st, v), ())
    if n == "core::option::Option": return ("S", tid, 0, ())
    if n == "core::sync::atomic::Atomic":
        v = default_of(E, st, enum_arg(E, tid, 0))
        return v and ("S", tid, 0, (v,))
    if n and n.startswith("core::sync::atomic::Atomic"): return ("S", tid, 0, (("c", 0),))
    if n in MAPS:
        st.nsym += 1
        return E.typed(("map", st.nsym, 1), tid)
    name = E.ty_name(tid)
    if name == "bool" or name in lin.INT_RANGE: return ("c", 0)
    if t["k"] == "tuple" and not t["ts"]: return UNIT
    return None

@model("core::default::Default::default")
def _default(E, st, args, ctx):
    st = st.copy()
    v = default_of(E, st, ctx.dst_ty)
    return ret(st, v) if v is not None else None

@model("alloc::vec::from_elem")
def _from_elem(E, st, args, ctx):
    E.emit(st, ctx, "alloc", size=args[1])
    if is_u8(E, vec_elem(E, ctx.dst_ty)):
        return ret(st, ("bytes", args[1], ("fill", args[0]), ()))
    st.nsym += 1
    return ret(st, E.typed(("app", "from_elem", args[0], args[1]), ctx.dst_ty))

@model("alloc::vec::Vec::resize")
def _resize(E, st, args, ctx):
    st = st.copy()
    b, p = E.ptr_loc(st, args[0])
    v = as_bytes(E, st, E.load(st, b, p))
    n = args[1]
    E.emit(st, ctx, "alloc", size=n)
    segs = []
    for s in v[3]:
        se = lin.add(s[0], s[1])
        if E.le(st, se, n): segs.append(s)
        elif E.le(st, n, s[0]): pass
        elif E.le(st, s[0], n): segs.append((s[0], lin.sub(n, s[0]), s[2]))
        else: segs.append((s[0], s[1], ("maybe", s[2])))
    base = v[2]
    if E.eq(st, v[1], n):
        pass
    elif E.le(st, n, v[1]):
        if base[0] not in ("fill",):
            base = subcontent(E, st, base, ("c", 0), n, v[1])
    elif v[1] == ("c", 0):
        base = ("fill", args[2])
    else:
        base = ("resized", v[2], v[1], args[2])
    E.store(st, b, p, ("bytes", n, base, tuple(segs)))
    return ret(st)

@model("alloc::vec::Vec::truncate")
def _truncate(E, st, args, ctx):
    outs = []
    st = st.copy()
    b, p = E.ptr_loc(st, args[0])
    v = as_bytes(E, st, E.load(st, b, p))
    for s, cond in ((st.copy(), lin.le(v[1], args[1])), (st, lin.lt(args[1], v[1]))):
        if not E.add_con(s, cond): continue
        if s is st:
            outs += _resize(E, s, [args[0], args[1], ("c", 0)], ctx)
        else:
            outs.append(Out("ret", s, UNIT))
    return outs

@model("core::slice::reverse")
def _reverse(E, st, args, ctx):
    sl = slice_of(E, st, args[0])
    v = E.load(st, sl[1], sl[2]) if sl[0] == "slice" else None
    if v is None or v[0] != "S" or sl[3] != ("c", 0) or sl[4] != ("c", len(v[3])): return None
    st = st.copy()
    E.store(st, sl[1], sl[2], ("S", v[1], v[2], tuple(reversed(v[3]))))
    return ret(st)

@model("alloc::vec::Vec::clear")
def _clear(E, st, args, ctx):
    b, p = E.ptr_loc(st, args[0])
    t = E.pointee(ctx.arg_tys[0])
    E.store(st, b, p, empty_vec(E, t))
    return ret(st)

@model("alloc::collections::vec_deque::VecDeque::new", "alloc::collections::vec_deque::VecDeque::with_capacity",
       "<alloc::collections::vec_deque::VecDeque<T> as core::default::Default>::default")
def _deque_new(E, st, args, ctx):
    if E.adt_of(ctx.dst_ty) != "alloc::collections::vec_deque::VecDeque" or is_u8(E, vec_elem(E, ctx.dst_ty)): return None
    return ret(st, ("S", ctx.dst_ty, 0, ()))

@model("alloc::collections::vec_deque::VecDeque::push_back", "alloc::collections::vec_deque::VecDeque::push_front")
def _deque_push(E, st, args, ctx):
    b, p = E.ptr_loc(st, args[0])
    v = E.load(st, b, p)
    if v[0] != "S": return None
    st = st.copy()
    back = strip_generics(ctx.callee["path"]).endswith("_back")
    E.store(st, b, p, ("S", v[1], v[2], v[3] + (args[1],) if back else (args[1],) + v[3]))
    return ret(st)

@model("alloc::vec::Vec::pop", "alloc::collections::vec_deque::VecDeque::pop_back", "alloc::collections::vec_deque::VecDeque::pop_front")
def _pop(E, st, args, ctx):
    """taking an element from a list of known elements"""
    b, p = E.ptr_loc(st, args[0])
    v = E.load(st, b, p)
    if v[0] != "S": return None
    if not v[3]: return ret(st, ("S", ctx.dst_ty, 0, ()))
    st = st.copy()
    x, rest = (v[3][0], v[3][1:]) if strip_generics(ctx.callee["path"]).endswith("_front") else (v[3][-1], v[3][:-1])
    E.store(st, b, p, ("S", v[1], v[2], rest))
    return ret(st, ("S", ctx.dst_ty, 1, (x,)))

@model("alloc::collections::vec_deque::VecDeque::is_empty")
def _deque_is_empty(E, st, args, ctx):
    v = deref(E, st, args[0])
    if v[0] != "S": return None
    return ret(st, E.cmp("eq", ("c", len(v[3])), ("c", 0)))

@model("alloc::vec::Vec::push")
def _push(E, st, args, ctx):
    st = st.copy()
    b, p = E.ptr_loc(st, args[0])
    v = E.load(st, b, p)
    if v[0] == "S":
        E.store(st, b, p, ("S", v[1], v[2], v[3] + (args[1],)))
    else:
        E.store(st, b, p, E.typed(("app", "push", v, args[1]), E.pointee(ctx.arg_tys[0])))
    E.emit(st, ctx, "push", vec=(b, p), value=args[1])
    return ret(st)

@model("<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref", "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut",
       "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice", "core::array::as_slice", "core::array::as_mut_slice", "core::slice::as_ref", "core::slice::as_mut",
       "<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref", "<alloc::vec::Vec<T, A> as core::convert::AsMut<[T]>>::as_mut", "<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow",
       "core::array::as_ref", "core::array::as_mut")
def _vec_deref(E, st, args, ctx):
    return ret(st, slice_of(E, st, args[0]))

@model("<alloc::string::String as core::ops::deref::Deref>::deref", "alloc::string::String::as_str", "core::str::as_bytes", "alloc::string::String::as_bytes", "alloc::string::String::into_bytes",
       "<alloc::string::String as core::convert::AsRef<str>>::as_ref", "<str as core::convert::AsRef<[u8]>>::as_ref")
def _str_deref(E, st, args, ctx):
    return ret(st, args[0])

@model("<alloc::vec::Vec<T, A> as core::clone::Clone>::clone", "<alloc::string::String as core::clone::Clone>::clone")
def _clone_deep(E, st, args, ctx):
    return ret(st, deref(E, st, args[0]))

@model("alloc::slice::to_vec", "<alloc::vec::Vec<T> as core::convert::From<&[T]>>::from", "<alloc::vec::Vec<T> as core::convert::From<&mut [T]>>::from", "alloc::slice::to_owned")
def _to_vec(E, st, args, ctx):
    st = st.copy()
    sl = slice_of(E, st, args[0])
    n = E.len_of(st, sl) if sl[0] == "str" else sl[4]
    E.emit(st, ctx, "alloc", size=n)
    if is_u8(E, vec_elem(E, ctx.dst_ty)):
        return ret(st, ("bytes", n, slice_content(E, st, sl), ()))
    return ret(st, E.typed(("app", "to_vec", slice_content(E, st, sl)), ctx.dst_ty))

@model("<alloc::vec::Vec<T, A> as core::convert::From<alloc::boxed::Box<[T], A>>>::from")
def _vec_from_box(E, st, args, ctx):
    b = args[0]
    if b[0] in ("ref", "slice"):
        return ret(st, deref(E, st, b))
    return ret(st, E.typed(("app", "vec_from_box", b), ctx.dst_ty))

# iteration over vectors and maps of vectors: values stay symbolic
@model("<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend", "alloc::vec::Vec::append", "alloc::vec::Vec::extend_from_slice")
def _extend(E, st, args, ctx):
    st = st.copy()
    b, p = E.ptr_loc(st, args[0])
    v = E.load(st, b, p)
    src = args[1]
    name = strip_generics(ctx.callee["path"]).split("::")[-1]
    vt = E.pointee(ctx.arg_tys[0])
    if name == "extend_from_slice" and is_u8(E, vec_elem(E, vt)):
        v = as_bytes(E, st, v)
        sl = slice_of(E, st, src)
        n = E.len_of(st, sl) if sl[0] == "str" else sl[4]
        segs = v[3] + ((v[1], n, slice_content(E, st, sl)),)
        E.store(st, b, p, ("bytes", lin.add(v[1], n), v[2], segs))
        return ret(st)
    if name == "append":
        sb, sp = E.ptr_loc(st, src)
        sv = E.load(st, sb, sp)
        E.store(st, sb, sp, empty_vec(E, vt))
        src = sv
    E.emit(st, ctx, "extend", vec=(b, p), source=src)
    E.store(st, b, p, E.typed(("app", "extend", v, src), vt))
    return ret(st)

# Iteration over a table of a few known entries. The position is the variant number of the iterator, so that loops are unrolled.
def table_iter(E, st, sl, ctx):
    if known_elements(E, st, sl):
        return ret(st, ("S", ctx.dst_ty, 0, (sl,)))
    return None

def known_elements(E, st, sl):
    if sl[0] == "slice" and sl[4][0] == "c" and sl[4][1] <= 8:
        v = E.load(st, sl[1], sl[2])
        return E.holds_bytes(v) or sl[3] == ("c", 0) and v[0] == "S" and len(v[3]) == sl[4][1]
    return False

@model("core::array::iter::into_iter", "<[T; N] as core::iter::traits::collect::IntoIterator>::into_iter")
def _array_into_iter(E, st, args, ctx):
    v = args[0]
    v = known_array(E, v)
    if v is not None:
        return ret(st, ("S", ctx.dst_ty, 0, (v,)))
    return None

def known_array(E, v):
    """an array of a few elements"""
    if v[0] == "bytes" and v[1][0] == "c" and v[1][1] <= 8:
        return ("S", None, 0, tuple(("elem", v, ("c", i)) for i in range(v[1][1])))
    return v if v[0] == "S" and len(v[3]) <= 8 else None

@model("core::iter::traits::iterator::Iterator::zip", "core::iter::adapters::zip::zip")
def _zip(E, st, args, ctx):
    """of iterators over a few known elements"""
    its = []
    for i, a in enumerate(args):
        ty = enum_arg(E, ctx.dst_ty, i)
        kind = E.adt_of(ty)
        if kind == "core::array::iter::IntoIter" and not (a[0] == "S" and a[1] == ty):
            a = known_array(E, a)
            a = a and ("S", ty, 0, (a,))
        elif kind in TABLE_ITERS and a[0] in ("ref", "slice"):
            sl = slice_of(E, st, a)
            a = ("S", ty, 0, (sl,)) if known_elements(E, st, sl) else None
        if a is None or a[0] != "S" or kind not in TABLE_ITERS: return None
        its.append(a)
    return ret(st, ("S", ctx.dst_ty, 0, tuple(its)))

@model("<core::iter::adapters::zip::Zip<A, B> as core::iter::traits::iterator::Iterator>::next")
def _zip_next(E, st, args, ctx):
    b, p = E.ptr_loc(st, args[0])
    it = E.load(st, b, p)
    if it[0] != "S" or len(it[3]) != 2: return None
    st = st.copy()
    items, new = [], []
    for x in it[3]:
        r = table_advance(E, st, x)
        if r is None: return None
        if r == (): return ret(st, ("S", ctx.dst_ty, 0, ()))
        items.append(r[0]); new.append(r[1])
    E.store(st, b, p, ("S", it[1], it[2], tuple(new)))
    return ret(st, ("S", ctx.dst_ty, 1, (("S", enum_arg(E, ctx.dst_ty, 0), 0, tuple(items)),)))

TABLE_ITERS = ("core::array::iter::IntoIter", "core::slice::iter::Iter", "core::slice::iter::IterMut")

def table_advance(E, st, it):
    """(item, advanced iterator), () at the end"""
    if it[0] != "S" or len(it[3]) != 1 or E.adt_of(it[1]) not in TABLE_ITERS: return None
    x, pos = it[3][0], it[2]
    n = x[4][1] if x[0] == "slice" and x[4][0] == "c" else len(x[3]) if x[0] == "S" else None
    if n is None: return None
    if pos >= n: return ()
    item = E.mkref(st, x[1], x[2] + (("idx", lin.add(x[3], ("c", pos))),)) if x[0] == "slice" else x[3][pos]
    return item, ("S", it[1], pos + 1, it[3])

@model("<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::next", "<core::array::iter::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::next", "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next")
def _table_next(E, st, args, ctx):
    b, p = E.ptr_loc(st, args[0])
    it = E.load(st, b, p)
    st = st.copy()
    r = table_advance(E, st, it)
    if r is None: return None
    if r == (): return ret(st, ("S", ctx.dst_ty, 0, ()))
    E.store(st, b, p, r[1])
    return ret(st, ("S", ctx.dst_ty, 1, (r[0],)))

@model("core::slice::iter", "core::slice::iter_mut", "<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter", "core::slice::iter::into_iter")
def _iter(E, st, args, ctx):
    r = table_iter(E, st, slice_of(E, st, args[0]), ctx)
    if r is not None:
        return r
    return ret(st, E.typed(("app", "iter", slice_of(E, st, args[0])), ctx.dst_ty))

@model("<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter")
def _from_iter(E, st, args, ctx):
    return ret(st, E.typed(("app", "collect", args[0]), ctx.dst_ty))

# ---- integers, intrinsics ----------------------------------------------------------------------------------------
@model("core::intrinsics::integer_min", "core::cmp::Ord::min", "core::cmp::min")
def _min(E, st, args, ctx):
    a, b = args
    if E.le(st, a, b): return ret(st, a)
    if E.le(st, b, a): return ret(st, b)
    outs = []
    for x, con in ((a, lin.le(a, b)), (b, lin.lt(b, a))):
        s = st.copy()
        if E.add_con(s, con): outs.append(Out("ret", s, x))
    return outs
@model("core::intrinsics::integer_max", "core::cmp::Ord::max", "core::cmp::max")
def _max(E, st, args, ctx):
    a, b = args
    if E.le(st, a, b): return ret(st, b)
    if E.le(st, b, a): return ret(st, a)
    outs = []
    for x, con in ((b, lin.le(a, b)), (a, lin.lt(b, a))):
        s = st.copy()
        if E.add_con(s, con): outs.append(Out("ret", s, x))
    return outs
@model("core::intrinsics::bswap", "core::num::swap_bytes")
def _bswap(E, st, args, ctx):
    x = args[0]
    if x[0] == "dec" and x[1] in ("le", "be"):
        return ret(st, E.typed(("dec", "be" if x[1] == "le" else "le") + x[2:], ctx.dst_ty))
    if x[0] == "app" and x[1] == "bswap":
        return ret(st, x[2])
    n = SIZE.get(E.ty_name(ctx.dst_ty))
    if x[0] == "c" and n:
        lo, hi = lin.INT_RANGE[E.ty_name(ctx.dst_ty)]
        y = int.from_bytes((x[1] % (1 << (8 * n))).to_bytes(n, "little"), "big")
        return ret(st, ("c", (y - lo) % (hi - lo + 1) + lo))
    return ret(st, E.typed(("app", "bswap", x), ctx.dst_ty))
@model("core::intrinsics::discriminant_value")
def _discriminant_value(E, st, args, ctx):
    b, p = E.ptr_loc(st, args[0])
    v = E.load(st, b, p)
    return ret(st, E.discr(st, v, E.pointee(ctx.arg_tys[0]) if ctx.arg_tys else E.tyof(v)))
@model("core::intrinsics::cold_path", "core::hint::black_box", "core::intrinsics::assume", "core::hint::unreachable_unchecked::precondition_check")
def _nop(E, st, args, ctx):
    return ret(st)
@model("core::hint::must_use", "core::convert::identity")
def _ident(E, st, args, ctx):
    return ret(st, args[0])
@model("core::num::wrapping_add", "core::num::wrapping_sub", "core::num::wrapping_mul", "core::intrinsics::wrapping_add", "core::intrinsics::wrapping_sub")
def _wrapping(E, st, args, ctx):
    op = strip_generics(ctx.callee["path"]).split("_")[-1]
    ity = E.ty_name(ctx.dst_ty)
    if op in ("add", "sub"):
        r = lin.add(args[0], args[1]) if op == "add" else lin.sub(args[0], args[1])
        lo, hi = lin.INT_RANGE[ity]
        if r[0] == "c":
            return ret(st, ("c", (r[1] - lo) % (hi - lo + 1) + lo))
        if E.le(st, ("c", lo), r) and E.le(st, r, ("c", hi)):
            return ret(st, r)
    return ret(st, E.typed(("app", "w" + op, args[0], args[1]), ctx.dst_ty))
def _checked(op):
    def m(E, st, args, ctx):
        ity = E.ty_name(enum_arg(E, ctx.dst_ty, 0))
        if ity not in lin.INT_RANGE: return None
        lo, hi = lin.INT_RANGE[ity]
        r = lin.add(args[0], args[1]) if op == "add" else lin.sub(args[0], args[1])
        st = st.copy()
        for a in args[:2]:      # operands lie in the range of their type
            if not (E.add_con(st, lin.le(("c", lo), a)) and E.add_con(st, lin.le(a, ("c", hi)))): return []
        outs = []
        for con in (lin.lt(r, ("c", lo)), lin.lt(("c", hi), r)):
            s = st.copy()
            if E.add_con(s, con): outs.append(Out("ret", s, ("S", ctx.dst_ty, 0, ())))
        s = st.copy()
        if E.add_con(s, lin.le(("c", lo), r)) and E.add_con(s, lin.le(r, ("c", hi))):
            outs.append(Out("ret", s, ("S", ctx.dst_ty, 1, (r,))))
        return outs
    return m
MODELS["core::num::checked_add"] = _checked("add")
MODELS["core::num::checked_sub"] = _checked("sub")
def _saturating(op):
    def m(E, st, args, ctx):
        ity = E.ty_name(ctx.dst_ty)
        lo, hi = lin.INT_RANGE[ity]
        r = lin.add(args[0], args[1]) if op == "add" else lin.sub(args[0], args[1])
        st = st.copy()
        for a in args[:2]:      # operands lie in the range of their type
            if not (E.add_con(st, lin.le(("c", lo), a)) and E.add_con(st, lin.le(a, ("c", hi)))): return []
        outs = []
        for con, v in ((lin.lt(r, ("c", lo)), ("c", lo)), (lin.lt(("c", hi), r), ("c", hi))):
            s = st.copy()
            if E.add_con(s, con): outs.append(Out("ret", s, v))
        s = st.copy()
        if E.add_con(s, lin.le(("c", lo), r)) and E.add_con(s, lin.le(r, ("c", hi))):
            outs.append(Out("ret", s, r))
        return outs
    return m
MODELS["core::num::saturating_add"] = _saturating("add")
MODELS["core::num::saturating_sub"] = _saturating("sub")

# ---- panics --------------------------------------------------------------------------------------------------
def _panic(E, st, args, ctx):
    why = args[0][1] if args and args[0][0] == "str" else strip_generics(ctx.callee["path"]).split("::")[-1]
    return [panic(E, st, ctx, why)]
for n in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_display", "core::panicking::panic_str_2015", "core::panicking::panic_explicit", "core::panicking::unreachable_display",
          "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed",
          "core::result::unwrap_failed::unwrap_failed_inner", "core::panicking::panic_bounds_check", "core::panicking::assert_failed", "core::panicking::assert_failed_inner", "std::rt::begin_panic", "std::rt::panic_fmt",
          "core::panicking::panic_nounwind", "std::process::abort", "std::process::exit"):
    MODELS[n] = _panic

# ---- smart pointers -------------------------------------------------------------------------------------------
@model("alloc::boxed::Box::new", "alloc::rcs::arc::Arc::new", "alloc::rc::Rc::new", "alloc::sync::Arc::new")
def _box_new(E, st, args, ctx):
    st = st.copy()
    return ret(st, ("ref", E.newbox(st, args[0]), ()))
@model("alloc::boxed::Box::pin", "alloc::boxed::Box::into_pin", "alloc::rcs::arc::Arc::pin")
def _box_pin(E, st, args, ctx):
    st = st.copy()
    if "into_pin" in ctx.callee["path"]:
        return ret(st, ("S", ctx.dst_ty, 0, (args[0],)))
    return ret(st, ("S", ctx.dst_ty, 0, (("ref", E.newbox(st, args[0]), ()),)))
@model("alloc::boxed::convert::from")
def _box_from(E, st, args, ctx):
    return ret(st, E.typed(("app", "box_from", args[0]), ctx.dst_ty))
@model("<alloc::rcs::arc::Arc<T, A> as core::clone::Clone>::clone")
def _arc_clone(E, st, args, ctx):
    return ret(st, deref(E, st, args[0]))
@model("<alloc::rcs::arc::Arc<T, A> as core::ops::deref::Deref>::deref", "<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref", "<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut",
       "<alloc::rcs::arc::Arc<T, A> as core::convert::AsRef<T>>::as_ref", "<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref", "<alloc::boxed::Box<T, A> as core::convert::AsMut<T>>::as_mut")
def _ptr_deref(E, st, args, ctx):
    v = deref(E, st, args[0])
    return ret(st, E.typed(v, None) if v[0] in ("ref", "slice") else v)
@model("<&mut T as core::ops::deref::Deref>::deref", "<&mut T as core::ops::deref::DerefMut>::deref_mut", "<&T as core::ops::deref::Deref>::deref")
def _ref_deref(E, st, args, ctx):
    return ret(st, deref(E, st, args[0]))
@model("alloc::rcs::arc::Arc::ptr_eq")
def _ptr_eq(E, st, args, ctx):
    a, b = deref(E, st, args[0]), deref(E, st, args[1])
    return ret(st, TRUE if a == b else E.cmp("eq", a, b))
@model("core::mem::drop", "core::ops::drop::drop")
def _drop(E, st, args, ctx):
    states = E.drop_value(st, args[0], ctx.arg_tys[0] if ctx.arg_tys else E.tyof(args[0]), ctx)
    return [Out("ret", s, UNIT) for s in states]
@model("core::mem::forget", "core::mem::manually_drop::ManuallyDrop::new")
def _forget(E, st, args, ctx):
    st = st.copy()
    E.emit(st, ctx, "forget", value=args[0], ty=E.ty_name(ctx.arg_tys[0]) if ctx.arg_tys else "?", tid=ctx.arg_tys[0] if ctx.arg_tys else None)
    if "ManuallyDrop" in ctx.callee["path"]:
        return ret(st, ("S", ctx.dst_ty, 0, (args[0],)))
    return ret(st)
@model("core::mem::take")
def _take(E, st, args, ctx):
    b, p = E.ptr_loc(st, args[0])
    v = E.load(st, b, p)
    t = E.pointee(ctx.arg_tys[0]) if ctx.arg_tys else E.tyof(v)
    if E.adt_of(t) == "alloc::vec::Vec":
        st = st.copy()
        E.store(st, b, p, empty_vec(E, t))
        return ret(st, v)
    if E.adt_of(t) == "core::option::Option":
        st = st.copy()
        E.store(st, b, p, ("S", t, 0, ()))
        return ret(st, v)
    return None
@model("core::mem::replace")
def _replace(E, st, args, ctx):
    st = st.copy()
    b, p = E.ptr_loc(st, args[0])
    v = E.load(st, b, p)
    E.store(st, b, p, args[1])
    return ret(st, v)
@model("core::mem::swap")
def _swap(E, st, args, ctx):
    st = st.copy()
    b, p = E.ptr_loc(st, args[0]); c, q = E.ptr_loc(st, args[1])
    v, w = E.load(st, b, p), E.load(st, c, q)
    E.store(st, b, p, w); E.store(st, c, q, v)
    return ret(st)

# ---- atomics -------------------------------------------------------------------------------------------------------
@model("core::sync::atomic::Atomic::new", "core::sync::atomic::AtomicBool::new")
def _atomic_new(E, st, args, ctx):
    return ret(st, ("S", ctx.dst_ty, 0, (args[0],)))
@model("core::sync::atomic::Atomic::load")
def _atomic_load(E, st, args, ctx):
    st = st.copy()
    r = E.sym(st, "aload", ctx.dst_ty)
    E.emit(st, ctx, "atomic_load", loc=args[0], ret=r, ord=args[1])
    if E.atomic_load_hook:
        r = E.atomic_load_hook(E, st, args[0], r)
    return ret(st, r)
@model("core::sync::atomic::Atomic::store")
def _atomic_store(E, st, args, ctx):
    st = st.copy()
    E.emit(st, ctx, "atomic_store", loc=args[0], value=args[1], ord=args[2])
    b, p = E.ptr_loc(st, args[0])
    return ret(st)
@model("core::sync::atomic::Atomic::swap", "core::sync::atomic::Atomic::fetch_or", "core::sync::atomic::Atomic::fetch_and", "core::sync::atomic::Atomic::fetch_add", "core::sync::atomic::Atomic::fetch_sub", "core::sync::atomic::Atomic::fetch_xor")
def _atomic_rmw(E, st, args, ctx):
    st = st.copy()
    op = strip_generics(ctx.callee["path"]).split("::")[-1]
    r = E.sym(st, "aload", ctx.dst_ty)
    E.emit(st, ctx, "atomic_load", loc=args[0], ret=r, ord=args[2])
    if E.atomic_load_hook:
        r = E.atomic_load_hook(E, st, args[0], r)
    v = args[1] if op == "swap" or (op == "fetch_or" and args[1] == TRUE) or (op == "fetch_and" and args[1] == FALSE) else ("app", op, r, args[1])
    E.emit(st, ctx, "atomic_store", loc=args[0], value=v, ord=args[2])
    return ret(st, r)
@model("core::sync::atomic::Atomic::compare_exchange", "core::sync::atomic::Atomic::compare_exchange_weak")
def _atomic_cas(E, st, args, ctx):
    outs = []
    for ok in (True, False):
        s = st.copy()
        r = E.sym(s, "aload", enum_arg(E, ctx.dst_ty, 0))
        E.emit(s, ctx, "atomic_load", loc=args[0], ret=r, ord=args[3])
        if E.atomic_load_hook:
            r = E.atomic_load_hook(E, s, args[0], r)
        weak = "weak" in ctx.callee["path"]
        if ok:
            s = E.assume(s, E.cmp("eq", r, args[1]), True) if args[1][0] != "c" or r[0] == "c" else E.assume(s, r, bool(args[1][1]))
            if s is None: continue
            E.emit(s, ctx, "atomic_store", loc=args[0], value=args[2], ord=args[3])
            outs.append(Out("ret", s, ("S", ctx.dst_ty, 0, (r,))))
        else:
            if not weak:
                s = E.assume(s, E.cmp("eq", r, args[1]), False) if args[1][0] != "c" or r[0] == "c" else E.assume(s, r, not bool(args[1][1]))
                if s is None: continue
            outs.append(Out("ret", s, ("S", ctx.dst_ty, 1, (r,))))
    return outs

# ---- maps ----------------------------------------------------------------------------------------------------------
MAPS = ("alloc::collections::btree::map::BTreeMap", "std::collections::hash::map::HashMap")
def mapmodel(*ops):
    def deco(f):
        for m in MAPS:
            for o in ops:
                MODELS[f"{m}::{o}"] = f
        return f
    return deco
def entrymodel(*ops):
    def deco(f):
        for o in ops:
            MODELS[f"alloc::collections::btree::map::entry::{o}"] = f
            MODELS[f"std::collections::hash::map::{o}"] = f
        return f
    return deco
for n in [f"{m}::{c}" for m in MAPS for c in ("new", "with_capacity")]:
    def _map_new(E, st, args, ctx):
        st.nsym += 1
        v = ("map", st.nsym, 1)
        E.typ.setdefault(v, ctx.dst_ty)
        return ret(st, v)
    MODELS[n] = _map_new
MODELS["<alloc::collections::btree::map::BTreeMap<K, V> as core::default::Default>::default"] = _map_new

def keyval(E, st, k):
    if k[0] == "ref" or (k[0] not in ("S", "lz", "c", "lin") and E.tyof(k) is not None and not isinstance(E.tyof(k), str) and E.ty(E.tyof(k))["k"] == "ref"):
        return deref(E, st, k)
    return k
def presence(E, st, m, k):
    for (mm, kk), p in st.pres.items():
        if mm == m and E.same_value(st, kk, k):
            return p
    b, p = m
    v = E.load(st, b, p)
    if v[0] == "map" and not any(mm == m for (mm, _) in st.pres) and v[2] == 1:
        return False
    return None
def set_presence(E, st, m, k, val):
    drop = []
    for (mm, kk), p in st.pres.items():
        if mm != m: continue
        if E.same_value(st, kk, k):
            drop.append((mm, kk))
        elif p != val:
            s = E.assume(st.copy(), ("cmp", "eq", kk, k), True)
            if s is not None: drop.append((mm, kk))
    for d in drop: st.pres.pop(d, None)
    st.pres[(m, k)] = val
def slot(E, st, m, k):
    for base in st.mem:
        if base[0] == "MV" and base[1] == m and E.same_value(st, base[2], k):
            return base
    return ("MV", m, k)
def map_value_ty(E, tid):
    t = E.ty(tid) if tid is not None else {"k": "?"}
    while t["k"] == "ref": t = E.ty(t["t"])
    if t["k"] == "adt":
        args = [a for a in t["args"]]
        # V is the second type argument
        return args[1] if len(args) > 1 else None
    return None
def slot_value(E, st, m, k, vty):
    b = slot(E, st, m, k)
    if b not in st.mem:
        v = ("mapval", m, k)
        E.typ.setdefault(v, vty)
        st.mem[b] = v
    return b
def do_insert(E, st, ctx, m, k, v, old):
    b = slot(E, st, m, k)
    E.emit(st, ctx, "map_insert", map=m, key=k, value=v, fresh=old)
    st.mem[b] = v
    set_presence(E, st, m, k, True)
    return b
def do_remove(E, st, ctx, m, k, vty):
    b = slot_value(E, st, m, k, vty)
    v = st.mem.pop(b)
    for x in [x for x in st.mem if x[0] == "MV" and x[1] == m and x != b]:
        pass
    E.emit(st, ctx, "map_remove", map=m, key=k, value=v)
    set_presence(E, st, m, k, False)
    return v
def split_presence(E, st, m, k):
    p = presence(E, st, m, k)
    res = []
    for val in (True, False):
        if p is None or p == val:
            s = st.copy()
            s.pres[(m, k)] = val
            s.trace = s.trace + ((("map", None, f"key {'present' if val else 'absent'}")),)
            res.append((s, val))
    return res
@mapmodel("entry")
def _entry(E, st, args, ctx):
    m = E.ptr_loc(st, args[0]); k = args[1]
    outs = []
    for s, val in split_presence(E, st, m, k):
        # variant order: Vacant, Occupied
        vidx = entry_variant(E, ctx.dst_ty, "Occupied" if val else "Vacant")
        e = ("S", "Entry", 0, (("maploc",) + m, k, ("k", E.pointee(ctx.arg_tys[0]) if ctx.arg_tys else None)))
        outs.append(Out("ret", s, ("S", ctx.dst_ty, vidx, (e,))))
    return outs
def entry_variant(E, tid, name):
    a = E.adt_of(tid)
    for i, v in enumerate(E.dump.adts[a]["variants"]):
        if v["name"] == name: return i
    return 0 if name == "Vacant" else 1
def entry_parts(E, st, e):
    if e[0] == "ref":
        e = deref(E, st, e)
    if e[0] != "S" or e[1] != "Entry":
        raise Unsupported("map entry of unknown origin")
    return (e[3][0][1], e[3][0][2]), e[3][1], map_value_ty(E, e[3][2][1])
@entrymodel("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut")
def _occ_get(E, st, args, ctx):
    st = st.copy()
    m, k, vt = entry_parts(E, st, args[0])
    return ret(st, ("ref", slot_value(E, st, m, k, vt), ()))
@entrymodel("OccupiedEntry::remove", "OccupiedEntry::remove_entry")
def _occ_remove(E, st, args, ctx):
    st = st.copy()
    m, k, vt = entry_parts(E, st, args[0])
    v = do_remove(E, st, ctx, m, k, vt)
    if "remove_entry" in ctx.callee["path"]:
        v = ("S", ctx.dst_ty, 0, (k, v))
    return ret(st, v)
@entrymodel("OccupiedEntry::insert")
def _occ_insert(E, st, args, ctx):
    st = st.copy()
    m, k, vt = entry_parts(E, st, args[0])
    b = slot_value(E, st, m, k, vt)
    old = st.mem[b]
    do_insert(E, st, ctx, m, k, args[1], False)
    return ret(st, old)
@entrymodel("VacantEntry::insert")
def _vac_insert(E, st, args, ctx):
    st = st.copy()
    m, k, vt = entry_parts(E, st, args[0])
    b = do_insert(E, st, ctx, m, k, args[1], True)
    return ret(st, ("ref", b, ()))
@entrymodel("VacantEntry::key", "OccupiedEntry::key", "VacantEntry::into_key")
def _entry_key(E, st, args, ctx):
    st = st.copy()
    m, k, vt = entry_parts(E, st, args[0])
    if "into_key" in ctx.callee["path"]: return ret(st, k)
    return ret(st, ("ref", E.newbox(st, k, "T"), ()))
@entrymodel("Entry::or_insert", "Entry::or_insert_with")
def _or_insert(E, st, args, ctx):
    e = args[0]
    if e[0] != "S": return None
    st = st.copy()
    m, k, vt = entry_parts(E, st, e[3][0])
    occ = entry_variant(E, e[1], "Occupied") == e[2]
    if occ:
        return ret(st, ("ref", slot_value(E, st, m, k, vt), ()))
    if "or_insert_with" in ctx.callee["path"]:
        outs = []
        for o in E.call_value(args[1], [], st, ctx):
            if o.k != "ret": outs.append(o); continue
            s = o.st.copy()
            outs.append(Out("ret", s, ("ref", do_insert(E, s, ctx, m, k, o.v, True), ())))
        return outs
    return ret(st, ("ref", do_insert(E, st, ctx, m, k, args[1], True), ()))
@mapmodel("remove", "remove_entry")
def _map_remove(E, st, args, ctx):
    m = E.ptr_loc(st, args[0]); k = keyval(E, st, args[1])
    vt = map_value_ty(E, ctx.arg_tys[0]) if ctx.arg_tys else None
    outs = []
    for s, val in split_presence(E, st, m, k):
        if val:
            v = do_remove(E, s, ctx, m, k, vt)
            if "remove_entry" in ctx.callee["path"]: v = ("S", "tuple", 0, (k, v))
            outs.append(Out("ret", s, ("S", ctx.dst_ty, 1, (v,))))
        else:
            outs.append(Out("ret", s, ("S", ctx.dst_ty, 0, ())))
    return outs
@mapmodel("get", "get_mut")
def _map_get(E, st, args, ctx):
    m = E.ptr_loc(st, args[0]); k = keyval(E, st, args[1])
    vt = map_value_ty(E, ctx.arg_tys[0]) if ctx.arg_tys else None
    outs = []
    for s, val in split_presence(E, st, m, k):
        outs.append(Out("ret", s, ("S", ctx.dst_ty, 1, (("ref", slot_value(E, s, m, k, vt), ()),)) if val else ("S", ctx.dst_ty, 0, ())))
    return outs
@mapmodel("contains_key")
def _map_contains(E, st, args, ctx):
    m = E.ptr_loc(st, args[0]); k = keyval(E, st, args[1])
    return [Out("ret", s, TRUE if val else FALSE) for s, val in split_presence(E, st, m, k)]
@mapmodel("insert")
def _map_insert(E, st, args, ctx):
    m = E.ptr_loc(st, args[0]); k = args[1]
    vt = map_value_ty(E, ctx.arg_tys[0]) if ctx.arg_tys else None
    outs = []
    for s, val in split_presence(E, st, m, k):
        old = s.mem[slot_value(E, s, m, k, vt)] if val else None
        do_insert(E, s, ctx, m, k, args[2], not val)
        outs.append(Out("ret", s, ("S", ctx.dst_ty, 1, (old,)) if val else ("S", ctx.dst_ty, 0, ())))
    return outs
@mapmodel("len", "is_empty", "keys", "values", "iter", "values_mut", "iter_mut", "contains_value", "first_key_value", "last_key_value")
def _map_query(E, st, args, ctx):
    st = st.copy()
    r = E.fresh_ret(st, "mapq", ctx.dst_ty)
    E.emit(st, ctx, "map_query", map=E.ptr_loc(st, args[0]), op=strip_generics(ctx.callee["path"]).split("::")[-1], ret=r)
    return ret(st, r)
@mapmodel("clear", "retain", "append", "pop_first", "pop_last", "drain")
def _map_clear(E, st, args, ctx):
    st = st.copy()
    m = E.ptr_loc(st, args[0])
    st.pres = {k: v for k, v in st.pres.items() if k[0] != m}
    b, p = m
    E.store(st, b, p, E.sym(st, "map", E.pointee(ctx.arg_tys[0])))
    for x in [x for x in st.mem if x[0] == "MV" and x[1] == m]: st.mem.pop(x)
    r = E.fresh_ret(st, "mapq", ctx.dst_ty)
    E.emit(st, ctx, "map_bulk", map=m, op=strip_generics(ctx.callee["path"]).split("::")[-1], ret=r)
    return ret(st, r)

# ---- channels --------------------------------------------------------------------------------------------------------
def channel_pair(E, st, ctx, kind):
    st.nuid += 1
    n = st.nuid
    t = E.ty(ctx.dst_ty)
    tx, rx = ("tx", kind, n), ("rx", kind, n)
    if t["k"] == "tuple":
        E.typ[tx] = t["ts"][0]; E.typ[rx] = t["ts"][1]
    return ("S", ctx.dst_ty, 0, (tx, rx))
@model("tokio::sync::mpsc::unbounded::unbounded_channel")
def _unbounded(E, st, args, ctx):
    st = st.copy()
    v = channel_pair(E, st, ctx, "mpsc")
    E.emit(st, ctx, "channel", tx=v[3][0], rx=v[3][1], bound=None)
    return ret(st, v)
@model("tokio::sync::mpsc::bounded::channel")
def _bounded(E, st, args, ctx):
    st = st.copy()
    v = channel_pair(E, st, ctx, "bounded")
    E.emit(st, ctx, "channel", tx=v[3][0], rx=v[3][1], bound=args[0])
    return ret(st, v)
@model("tokio::sync::oneshot::channel")
def _oneshot(E, st, args, ctx):
    st = st.copy()
    v = channel_pair(E, st, ctx, "oneshot")
    return ret(st, v)
@model("<tokio::sync::mpsc::unbounded::UnboundedSender<T> as core::clone::Clone>::clone", "<tokio::sync::mpsc::bounded::Sender<T> as core::clone::Clone>::clone")
def _tx_clone(E, st, args, ctx):
    st = st.copy()
    v = deref(E, st, args[0])
    E.emit(st, ctx, "clone_tx", chan=v)
    return ret(st, v)
@model("tokio::sync::mpsc::unbounded::UnboundedSender::downgrade")
def _downgrade(E, st, args, ctx):
    return ret(st, E.typed(("app", "weak", deref(E, st, args[0])), ctx.dst_ty))
@model("tokio::sync::mpsc::unbounded::WeakUnboundedSender::upgrade")
def _upgrade(E, st, args, ctx):
    st = st.copy()
    w = deref(E, st, args[0])
    tid = enum_arg(E, ctx.dst_ty, 0)
    inner = w[2] if w[0] == "app" and w[1] == "weak" else E.typed(("app", "strong", w), tid)
    return ret(st, lz(E, st, "upgrade", ctx.dst_ty, (0, ()), (1, (inner,))))
@model("tokio::sync::mpsc::unbounded::UnboundedSender::send")
def _send(E, st, args, ctx):
    st = st.copy()
    ch = deref(E, st, args[0])
    err_ty = enum_arg(E, ctx.dst_ty, 1)
    r = lz(E, st, "send", ctx.dst_ty, (0, (UNIT,)), (1, (("S", err_ty, 0, (args[1],)),)))
    E.emit(st, ctx, "send", chan=ch, value=args[1], ret=r)
    if E.send_hook:
        x = E.send_hook(E, st, ch, args[1], r, ctx)
        if x is not None: return x
    return ret(st, r)
@model("tokio::sync::oneshot::Sender::send")
def _answer(E, st, args, ctx):
    st = st.copy()
    r = lz(E, st, "answer", ctx.dst_ty, (0, (UNIT,)), (1, (args[1],)))
    E.emit(st, ctx, "answer", chan=args[0], value=args[1], ret=r)
    return ret(st, r)
@model("tokio::sync::mpsc::unbounded::UnboundedSender::same_channel")
def _same_channel(E, st, args, ctx):
    a, b = deref(E, st, args[0]), deref(E, st, args[1])
    return ret(st, TRUE if a == b else E.cmp("eq", a, b))
@model("tokio::sync::mpsc::unbounded::UnboundedSender::is_closed", "tokio::sync::oneshot::Sender::is_closed")
def _is_closed(E, st, args, ctx):
    st = st.copy()
    r = E.sym(st, "is_closed", ctx.dst_ty)
    E.emit(st, ctx, "is_closed", chan=deref(E, st, args[0]), ret=r)
    return ret(st, r)
@model("tokio::sync::mpsc::unbounded::UnboundedReceiver::close", "tokio::sync::oneshot::Receiver::close")
def _rx_close(E, st, args, ctx):
    st = st.copy()
    E.emit(st, ctx, "rx_close", chan=deref(E, st, args[0]))
    return ret(st)
@model("tokio::sync::mpsc::unbounded::UnboundedReceiver::recv")
def _recv(E, st, args, ctx):
    return ret(st, ("S", ctx.dst_ty, 0, (args[0],)))
@model("tokio::sync::mpsc::unbounded::UnboundedReceiver::try_recv")
def _try_recv(E, st, args, ctx):
    st = st.copy()
    rx = deref(E, st, args[0])
    okty, errty = result_parts(E, ctx.dst_ty)
    r = lz(E, st, "try_recv", ctx.dst_ty, (0, (payload(E, st, "msg", okty),)), (1, (payload(E, st, "tryerr", errty),)))
    E.emit(st, ctx, "try_recv", chan=rx, ret=r)
    return ret(st, r)
@model("tokio::sync::mpsc::unbounded::UnboundedReceiver::poll_recv")
def _poll_recv(E, st, args, ctx):
    st = st.copy()
    rx = deref(E, st, args[0])
    return poll_result(E, st, ctx, "recv", lambda s, tid: recv_value(E, s, rx, tid, ctx), chan=rx, cx=args[1] if len(args) > 1 else None)

def recv_value(E, st, rx, tid, ctx):
    if E.recv_hook:
        v = E.recv_hook(E, st, rx, tid, ctx)
        if v == "BLOCK": return None
        if v is not None: return v
    return lz(E, st, "recv", tid, (0, ()), (1, (payload(E, st, "msg", enum_arg(E, tid, 0)),)))

def poll_result(E, st, ctx, kind, make, pending=None, **d):
    """outcome of polling an external future; at an await only the finished one"""
    tid = enum_arg(E, ctx.dst_ty, 0)
    v = make(st, tid)
    if v is None:
        return []
    if ctx.ds == "Await" or E.await_mode:
        E.emit(st, ctx, kind, ret=v, awaited=True, **d)
        return ret(st, ("S", ctx.dst_ty, 0, (v,)))
    r = lz(E, st, "poll", ctx.dst_ty, (0, (v,)), (1, ()))
    E.emit(st, ctx, kind, ret=v, awaited=False, poll=r, **d)
    return ret(st, r)

def recv_poll(E, st, args, ctx):
    st = st.copy()
    f = deref(E, st, pin_ptr(E, st, args[0]))
    rx = deref(E, st, E.field(st, f, 0, 0))
    return poll_result(E, st, ctx, "recv", lambda s, tid: recv_value(E, s, rx, tid, ctx), chan=rx, cx=args[1] if len(args) > 1 else None)
MODELS["tokio::sync::mpsc::unbounded::UnboundedReceiver::recv::{closure#0}"] = recv_poll

@model("<tokio::sync::oneshot::Receiver<T> as core::future::future::Future>::poll")
def _oneshot_poll(E, st, args, ctx):
    st = st.copy()
    rx = deref(E, st, pin_ptr(E, st, args[0]))
    def make(s, tid):
        okty, errty = result_parts(E, tid)
        return lz(E, s, "answered", tid, (0, (payload(E, s, "reply", okty),)), (1, (payload(E, s, "RecvError", errty),)))
    return poll_result(E, st, ctx, "oneshot_recv", make, chan=rx)

# ghost counters live in memory cells so that loops generalise them like program variables
def ghost(st, name):
    return st.mem.get(("G", name), ("c", 0))
def set_ghost(st, name, v):
    st.mem[("G", name)] = v

# ---- I/O ----------------------------------------------------------------------------------------------------------------
@model("core::io::io_slice::IoSlice::new", "core::io::io_slice::IoSliceMut::new", "std::io::IoSlice::new", "std::io::IoSliceMut::new")
def _ioslice(E, st, args, ctx):
    return ret(st, ("S", ctx.dst_ty, 0, (slice_of(E, st, args[0]),)))
@model("core::io::io_slice::IoSlice::deref", "<core::io::io_slice::IoSlice<'a> as core::ops::deref::Deref>::deref")
def _ioslice_deref(E, st, args, ctx):
    return ret(st, E.field(st, deref(E, st, args[0]), 0, 0))
@model("tokio::io::read_buf::ReadBuf::new")
def _readbuf_new(E, st, args, ctx):
    return ret(st, ("S", ctx.dst_ty, 0, (slice_of(E, st, args[0]), ("c", 0))))
@model("tokio::io::read_buf::ReadBuf::filled")
def _readbuf_filled(E, st, args, ctx):
    rb = deref(E, st, args[0])
    sl, n = E.field(st, rb, 0, 0), E.field(st, rb, 0, 1)
    if sl[0] != "slice": return None
    return ret(st, ("slice", sl[1], sl[2], sl[3], n))
@model("tokio::io::read_buf::ReadBuf::remaining", "tokio::io::read_buf::ReadBuf::capacity")
def _readbuf_rem(E, st, args, ctx):
    rb = deref(E, st, args[0])
    sl, n = E.field(st, rb, 0, 0), E.field(st, rb, 0, 1)
    if sl[0] != "slice": return None
    return ret(st, lin.sub(sl[4], n) if ctx.callee["path"].endswith("remaining") else sl[4])

def iolist(E, st, v):
    """slices of a vectored buffer list (a reference to an array of IoSlice)"""
    if v[0] == "slice":
        arr = E.load(st, v[1], v[2])
        if arr[0] == "S" and v[3] == ("c", 0) and v[4][0] == "c":
            return [E.field(st, x, 0, 0) for x in arr[3][:v[4][1]]]
        if arr[0] == "S" and v[3][0] == "c" and v[4][0] == "c":
            return [E.field(st, x, 0, 0) for x in arr[3][v[3][1]:v[3][1] + v[4][1]]]
    else:
        arr = deref(E, st, v)
        if arr[0] == "S":
            return [E.field(st, x, 0, 0) for x in arr[3]]
    return None

def io_err(E, st, tid):
    return payload(E, st, "ioerr", tid)

@model("tokio::io::async_read::AsyncRead::poll_read")
def _poll_read(E, st, args, ctx):
    """Pending | Ready(Err) | Ready(Ok) with 0 <= n <= remaining bytes appended to the buffer"""
    outs = []
    rbp = E.ptr_loc(st, args[2])
    rb = E.load(st, *rbp)
    sl, filled = E.field(st, rb, 0, 0), E.field(st, rb, 0, 1)
    rty = enum_arg(E, ctx.dst_ty, 0)
    target = ("slice", sl[1], sl[2], lin.add(sl[3], filled), lin.sub(sl[4], filled))
    if E.read_hook:
        E.read_hook(E, st, target, ctx)
    s = st.copy()
    E.emit(s, ctx, "io", op="read", result="pending", cx=args[1], stream=args[0])
    outs.append(Out("ret", s, ("S", ctx.dst_ty, 1, ())))
    s = st.copy()
    err = io_err(E, s, enum_arg(E, rty, 1))
    E.emit(s, ctx, "io", op="read", result="err", err=err, cx=args[1], stream=args[0])
    outs.append(Out("ret", s, ("S", ctx.dst_ty, 0, (("S", rty, 1, (err,)),))))
    for some in (True, False):
        s = st.copy()
        n = E.sym(s, "nread", "usize")
        if some:
            if not (E.add_con(s, lin.le(("c", 1), n)) and E.add_con(s, lin.le(n, target[4]))): continue
        else:
            n = ("c", 0)
        msg, off = s.marks.get("rmsg", ("c", 0)), ghost(s, "roff")
        if some:
            write_slice(E, s, (target[0], target[1], target[2], target[3], n), ("stream", msg, off), n)
        set_ghost(s, "roff", lin.add(off, n))
        rb2 = E.load(s, *rbp)
        E.store(s, rbp[0], rbp[1], ("S", rb2[1] if rb2[0] == "S" else "ReadBuf", 0, (sl, lin.add(filled, n))))
        E.emit(s, ctx, "io", op="read", result="ok", n=n, buf=target, cx=args[1], stream=args[0])
        outs.append(Out("ret", s, ("S", ctx.dst_ty, 0, (("S", rty, 0, (UNIT,)),))))
    return outs

def _poll_write(E, st, args, ctx):
    outs = []
    rty = enum_arg(E, ctx.dst_ty, 0)
    vectored = "vectored" in ctx.callee["path"]
    bufs = iolist(E, st, args[2]) if vectored else [slice_of(E, st, args[2])]
    total = None
    if bufs is not None:
        total = ("c", 0)
        for b in bufs:
            total = lin.add(total, E.len_of(st, b) if b[0] == "str" else b[4])
    if E.write_hook:
        E.write_hook(E, st, bufs, ctx)
    s = st.copy()
    E.emit(s, ctx, "io", op="write", result="pending", cx=args[1], stream=args[0])
    outs.append(Out("ret", s, ("S", ctx.dst_ty, 1, ())))
    s = st.copy()
    err = io_err(E, s, enum_arg(E, rty, 1))
    E.emit(s, ctx, "io", op="write", result="err", err=err, cx=args[1], stream=args[0])
    outs.append(Out("ret", s, ("S", ctx.dst_ty, 0, (("S", rty, 1, (err,)),))))
    s = st.copy()
    n = E.sym(s, "nwritten", "usize")
    ok = E.add_con(s, lin.le(n, total)) if total is not None else True
    if ok:
        set_ghost(s, "woff", lin.add(ghost(s, "woff"), n))
        E.emit(s, ctx, "io", op="write", result="ok", n=n, bufs=tuple(bufs) if bufs is not None else None, cx=args[1], stream=args[0])
        outs.append(Out("ret", s, ("S", ctx.dst_ty, 0, (("S", rty, 0, (n,)),))))
    return outs
MODELS["tokio::io::async_write::AsyncWrite::poll_write_vectored"] = _poll_write
MODELS["tokio::io::async_write::AsyncWrite::poll_write"] = _poll_write

@model("tokio::io::async_write::AsyncWrite::poll_flush", "tokio::io::async_write::AsyncWrite::poll_shutdown")
def _poll_flush(E, st, args, ctx):
    outs = []
    rty = enum_arg(E, ctx.dst_ty, 0)
    for kind in ("pending", "err", "ok"):
        s = st.copy()
        if kind == "pending": v = ("S", ctx.dst_ty, 1, ())
        elif kind == "err": v = ("S", ctx.dst_ty, 0, (("S", rty, 1, (io_err(E, s, enum_arg(E, rty, 1)),)),))
        else: v = ("S", ctx.dst_ty, 0, (("S", rty, 0, (UNIT,)),))
        E.emit(s, ctx, "io", op="flush", result=kind, cx=args[1], stream=args[0])
        outs.append(Out("ret", s, v))
    return outs

# seqpacket sockets
@model("tokio_seqpacket::socket::UnixSeqpacket::poll_recv_vectored_with_ancillary")
def _seq_recv(E, st, args, ctx):
    """(socket, cx, &mut [IoSliceMut], &mut [u8]) -> Poll<io::Result<(usize, reader)>>; the data of one datagram is
    scattered over the buffers and truncated to their total size"""
    outs = []
    rty = enum_arg(E, ctx.dst_ty, 0)
    bufs = iolist(E, st, args[2])
    if E.read_hook:
        E.read_hook(E, st, bufs, ctx)
    s = st.copy()
    E.emit(s, ctx, "io", op="recv", result="pending", cx=args[1], stream=args[0])
    outs.append(Out("ret", s, ("S", ctx.dst_ty, 1, ())))
    s = st.copy()
    err = io_err(E, s, enum_arg(E, rty, 1))
    E.emit(s, ctx, "io", op="recv", result="err", err=err, cx=args[1], stream=args[0])
    outs.append(Out("ret", s, ("S", ctx.dst_ty, 0, (("S", rty, 1, (err,)),))))
    s = st.copy()
    okt = enum_arg(E, rty, 0)
    n = E.sym(s, "nrecv", "usize")
    msg = s.marks.get("rmsg", ("c", 0))
    dlen = E.typed(("dgramlen", msg), "usize")
    total = ("c", 0)
    for b in bufs or []:
        total = lin.add(total, b[4])
    set_ghost(s, "dgrams", lin.add(ghost(s, "dgrams"), ("c", 1)))
    okk = E.add_con(s, lin.le(n, total)) and E.add_con(s, lin.le(n, dlen))
    off = ("c", 0)
    # scatter: buffer i holds bytes [off_i, ...) of the datagram as far as it is long enough
    for b in bufs or []:
        cur = E.load(s, b[1], b[2])
        E.store(s, b[1], b[2], bytes_write(E, s, cur, b[3], b[4], ("stream", msg, off)))
        off = lin.add(off, b[4])
    s.marks["recv_n"] = n
    s.marks["recv_total"] = total
    reader = E.typed(("s", "ancillary", s.nsym + 1, None), E.field_ty(okt, 0, 1))
    s.nsym += 1
    E.emit(s, ctx, "io", op="recv", result="ok", n=n, bufs=tuple(bufs) if bufs is not None else None, anc=args[3], reader=reader, cx=args[1], stream=args[0])
    if okk:
        for full in (False, True):
            # either the whole datagram fitted, or it was truncated and the buffers are full
            s2 = s.copy()
            if full:
                if not (E.add_con(s2, lin.lt(n, dlen)) and E.add_eq(s2, n, total)): continue
            else:
                if not E.add_eq(s2, n, dlen): continue
            outs.append(Out("ret", s2, ("S", ctx.dst_ty, 0, (("S", rty, 0, (("S", okt, 0, (n, reader)),)),))))
    return outs
@model("tokio_seqpacket::socket::UnixSeqpacket::poll_send_vectored_with_ancillary")
def _seq_send(E, st, args, ctx):
    outs = []
    rty = enum_arg(E, ctx.dst_ty, 0)
    bufs = iolist(E, st, args[2])
    writer = deref(E, st, args[3])
    if E.write_hook:
        E.write_hook(E, st, bufs, ctx, writer)
    for kind in ("pending", "err", "ok"):
        s = st.copy()
        d = {}
        if kind == "pending": v = ("S", ctx.dst_ty, 1, ())
        elif kind == "err":
            d["err"] = io_err(E, s, enum_arg(E, rty, 1))
            v = ("S", ctx.dst_ty, 0, (("S", rty, 1, (d["err"],)),))
        else:
            n = E.sym(s, "nsent", "usize")
            v = ("S", ctx.dst_ty, 0, (("S", rty, 0, (n,)),))
            set_ghost(s, "sent", lin.add(ghost(s, "sent"), ("c", 1)))
        E.emit(s, ctx, "io", op="send", result=kind, bufs=tuple(bufs) if bufs is not None else None, anc=writer, cx=args[1], stream=args[0], **d)
        outs.append(Out("ret", s, v))
    return outs
@model("tokio_seqpacket::ancillary::reader::AncillaryMessageReader::into_messages")
def _into_messages(E, st, args, ctx):
    st = st.copy()
    v = E.typed(("app", "anc_iter", args[0]), ctx.dst_ty)
    E.emit(st, ctx, "anc_owned", reader=args[0], iter=v)
    return ret(st, v)
@model("<tokio_seqpacket::ancillary::reader::IntoAncillaryMessages<'a> as core::iter::traits::iterator::Iterator>::next")
def _anc_next(E, st, args, ctx):
    st = st.copy()
    it = deref(E, st, args[0])
    item = payload(E, st, "ancmsg", enum_arg(E, ctx.dst_ty, 0))
    r = lz(E, st, "ancnext", ctx.dst_ty, (0, ()), (1, (item,)))
    E.emit(st, ctx, "anc_next", iter=it, item=item, ret=r)
    return ret(st, r)
@model("tokio_seqpacket::ancillary::writer::AncillaryMessageWriter::new")
def _anc_new(E, st, args, ctx):
    return ret(st, ("S", ctx.dst_ty, 0, (slice_of(E, st, args[0]), ("S", "anclist", 0, ()))))
@model("tokio_seqpacket::ancillary::writer::AncillaryMessageWriter::add_fds")
def _anc_add(E, st, args, ctx):
    outs = []
    b, p = E.ptr_loc(st, args[0])
    rty = ctx.dst_ty
    s = st.copy()
    e = payload(E, s, "AddControlMessageError", enum_arg(E, rty, 1))
    E.emit(s, ctx, "add_fds", ok=False, fds=args[1])
    outs.append(Out("ret", s, ("S", rty, 1, (e,))))
    s = st.copy()
    w = E.load(s, b, p)
    l = E.field(s, w, 0, 1)
    fds = slice_of(s and E, s, args[1])
    src = E.load(s, fds[1], fds[2])
    E.store(s, b, p, ("S", w[1] if w[0] == "S" else "writer", 0, (E.field(s, w, 0, 0), ("S", "anclist", 0, (l[3] if l[0] == "S" else ()) + (("S", "anc", 0, (src, fds[3], fds[4])),)))))
    E.emit(s, ctx, "add_fds", ok=True, fds=args[1])
    outs.append(Out("ret", s, ("S", rty, 0, (UNIT,))))
    return outs

# ---- errors ------------------------------------------------------------------------------------------------------------
@model("alloc::io::error::new", "std::io::error::Error::new", "core::io::error::Error::new")
def _ioerror_new(E, st, args, ctx):
    return ret(st, E.typed(("app", "ioerror", args[0], args[1]), ctx.dst_ty))
@model("<core::io::error::Error as core::convert::From<core::io::error::ErrorKind>>::from")
def _ioerror_from(E, st, args, ctx):
    return ret(st, E.typed(("app", "ioerror", args[0], ("c", 0)), ctx.dst_ty))
@model("core::io::error::Error::kind")
def _ioerror_kind(E, st, args, ctx):
    e = deref(E, st, args[0])
    if e[0] == "app" and e[1] == "ioerror": return ret(st, e[2])
    return ret(st, E.typed(("app", "iokind", e), ctx.dst_ty))
@model("<core::io::error::ErrorKind as core::cmp::PartialEq>::eq")
def _kind_eq(E, st, args, ctx):
    a, b = deref(E, st, args[0]), deref(E, st, args[1])
    if E.same_value(st, a, b): return ret(st, TRUE)
    va, vb = E.variant(st, a), E.variant(st, b)
    if va is not None and vb is not None: return ret(st, TRUE if va == vb else FALSE)
    outs = []
    for x, y in ((a, b), (b, a)):
        vy = E.variant(st, y)
        if vy is not None and x[0] != "S":
            for eq in (True, False):
                s = st.copy()
                if (E.set_variant(s, x, vy) if eq else E.excl_variant(s, x, [vy])):
                    outs.append(Out("ret", s, TRUE if eq else FALSE))
            return outs
    return ret(st, E.cmp("eq", a, b))

# comparisons of tuples: part by part
def element_eq(E, st, a, b, tid):
    """[(boolean value, state)] or None"""
    if E.intlike(a) and E.intlike(b): return [(E.cmp("eq", a, b), st)]
    return element_op(E, st, a, b, tid, "core::cmp::PartialEq", "eq")
def element_cmp(E, st, a, b, tid, otid):
    if E.intlike(a) and E.intlike(b): return [(E.typed(("app", "Cmp", a, b), otid), st)]
    return element_op(E, st, a, b, tid, "core::cmp::Ord", "cmp")
def element_op(E, st, a, b, tid, trait, op):
    n = E.adt_of(tid)
    if n is None or n not in E.dump.adts or not E.dump.adts[n]["local"]: return None
    fs = [f for f in E.dump.fns if f and f.local and f.kind == "fn" and not f.args and (f.impl_trait or "").split("<")[0] == trait and f.impl_self == tid and f.name.split("::")[-1] == op]
    if not fs: return None
    s = st.copy()
    r = []
    for o in E.call_fn(fs[0], [("ref", E.newbox(s, a), ()), ("ref", E.newbox(s, b), ())], s):
        if o.k != "ret": return None
        r.append((o.v, o.st))
    return r

def _tuple_op(op):
    def run(E, st, args, ctx):
        a, b = deref(E, st, args[0]), deref(E, st, args[1])
        tid = a[1] if a[0] == "S" and isinstance(a[1], int) else E.tyof(a)
        if not isinstance(tid, int) and ctx.arg_tys:
            tid = ctx.arg_tys[0]
            while isinstance(tid, int) and E.ty(tid)["k"] == "ref": tid = E.ty(tid)["t"]
        if not isinstance(tid, int) or E.ty(tid)["k"] != "tuple" or not E.ty(tid)["ts"]: return None
        ts = E.ty(tid)["ts"]
        if op in ("eq", "ne"):
            outs, cur = [], [st]
            for i, t in enumerate(ts):
                nxt = []
                for s in cur:
                    rs = element_eq(E, s, E.field(s, a, 0, i), E.field(s, b, 0, i), t)
                    if rs is None: return None
                    for v, s2 in rs:
                        y, n = E.assume(s2.copy(), v, True), E.assume(s2.copy(), v, False)
                        if y is not None: nxt.append(y)
                        if n is not None: outs.append(Out("ret", n, FALSE if op == "eq" else TRUE))
                cur = nxt
            return outs + [Out("ret", s, TRUE if op == "eq" else FALSE) for s in cur]
        otid = next((i for i, t in enumerate(E.dump.types) if t["k"] == "adt" and t["adt"] == "core::cmp::Ordering"), None)
        if otid is None: return None
        def result(o):
            if op == "cmp": return ("S", otid, o, ())
            if op == "partial_cmp": return ("S", ctx.dst_ty, 1, (("S", otid, o, ()),))
            return TRUE if {"lt": o == 0, "le": o != 2, "gt": o == 2, "ge": o != 0}[op] else FALSE
        outs, cur = [], [st]
        for i, t in enumerate(ts):
            nxt = []
            for s in cur:
                rs = element_cmp(E, s, E.field(s, a, 0, i), E.field(s, b, 0, i), t, otid)
                if rs is None: return None
                for v, s2 in rs:
                    for o in (0, 1, 2):
                        s3 = s2.copy()
                        if not E.set_variant(s3, v, o): continue
                        if o == 1: nxt.append(s3)
                        else: outs.append(Out("ret", s3, result(o)))
            cur = nxt
        return outs + [Out("ret", s, result(1)) for s in cur]
    return run
for _o in ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge"):
    MODELS["core::tuple::" + _o] = _tuple_op(_o)

# text
@model("<T as alloc::string::ToString>::to_string", "alloc::fmt::format")
def _to_string(E, st, args, ctx):
    v = args[0]
    if v[0] in ("ref",): v = deref(E, st, v)
    if strip_generics(ctx.callee["path"]).endswith("to_string") and v[0] in ("str",):
        return ret(st, v)
    return ret(st, E.typed(("app", "text", v), ctx.dst_ty))
@model("<alloc::string::String as core::convert::From<&str>>::from", "alloc::str::to_owned", "alloc::str::to_string")
def _string_from(E, st, args, ctx):
    return ret(st, args[0])

# the file system
@model("std::fs::metadata", "std::fs::symlink_metadata", "std::path::Path::metadata", "std::path::Path::symlink_metadata")
def _metadata(E, st, args, ctx):
    st = st.copy()
    okty, errty = result_parts(E, ctx.dst_ty)
    p = args[0]
    md = E.sym(st, "metadata", okty)
    st.nsym += 1
    r = lz(E, st, "metadata", ctx.dst_ty, (0, (md,)), (1, (io_err(E, st, errty),)))
    E.emit(st, ctx, "fs_stat", path=pathval(E, st, p), md=md, ret=r, follow=strip_generics(ctx.callee["path"]).split("::")[-1] == "metadata")
    return ret(st, r)
def pathval(E, st, p):
    n = 0
    while n < 6:
        n += 1
        if p[0] == "ref":
            q = E.load(st, p[1], p[2])
            if q[0] == "undef": return p
            p = q
            continue
        if p[0] == "app" and p[1] in ("as_ref", "path"):
            p = p[2]; continue
        if p[0] == "deref":
            p = p[1]; continue
        t = E.tyof(p)
        break
    return p
@model("core::convert::AsRef::as_ref", "std::path::Path::new", "std::path::PathBuf::as_path", "<std::path::PathBuf as core::ops::deref::Deref>::deref", "std::path::Path::to_path_buf", "std::path::Path::to_owned",
       "<std::path::PathBuf as core::convert::From<&T>>::from", "std::ffi::os_str::OsStr::to_os_string")
def _as_ref(E, st, args, ctx):
    return ret(st, E.typed(("app", "path", pathval(E, st, args[0])), ctx.dst_ty))
@model("std::fs::Metadata::file_type")
def _file_type(E, st, args, ctx):
    return ret(st, E.typed(("app", "file_type", deref(E, st, args[0])), ctx.dst_ty))
@model("<std::fs::FileType as std::os::unix::fs::FileTypeExt>::is_socket", "std::os::unix::fs::FileTypeExt::is_socket")
def _is_socket(E, st, args, ctx):
    return ret(st, E.typed(("app", "is_socket", deref(E, st, args[0])), ctx.dst_ty))
@model("std::fs::remove_file", "std::fs::remove_dir", "std::fs::remove_dir_all", "std::fs::rename")
def _remove_file(E, st, args, ctx):
    st = st.copy()
    okty, errty = result_parts(E, ctx.dst_ty)
    r = lz(E, st, "remove_file", ctx.dst_ty, (0, (UNIT,)), (1, (io_err(E, st, errty),)))
    E.emit(st, ctx, "fs_remove", path=pathval(E, st, args[0]), op=strip_generics(ctx.callee["path"]).split("::")[-1], ret=r)
    return ret(st, r)

# ---- futures ---------------------------------------------------------------------------------------------------------------
@model("core::future::into_future::IntoFuture::into_future", "<F as core::future::into_future::IntoFuture>::into_future")
def _into_future(E, st, args, ctx):
    return ret(st, args[0])
@model("core::future::get_context")
def _get_context(E, st, args, ctx):
    return ret(st, args[0])

READY = "core::future::ready::Ready"
POLL_FN = "core::future::poll_fn::PollFn"
@model("core::future::poll_fn::poll_fn", "std::future::poll_fn")
def _poll_fn(E, st, args, ctx):
    return ret(st, ("S", ctx.dst_ty, 0, (args[0],)))

def poll_future(E, st, args, ctx):
    """Future::poll on any future. At an await the future runs to completion."""
    ptr = pin_ptr(E, st, args[0])
    loc = E.ptr_loc(st, ptr)
    f = E.load(st, *loc)
    awaited = ctx.ds == "Await"
    # a future behind more pointers (Pin<&mut F>, Pin<Box<F>>)
    n = 0
    while n < 5:
        if f[0] == "ref":
            loc = (f[1], f[2]); f = E.load(st, *loc)
        elif f[0] == "S" and isinstance(f[1], int) and E.adt_of(f[1]) in ("core::pin::Pin", "alloc::boxed::Box") and f[3]:
            x = f[3][0]
            if x[0] == "ref": loc = (x[1], x[2]); f = E.load(st, *loc)
            else: f = x
        else:
            break
        n += 1
    res = strip_generics(ctx.callee.get("res") or "")
    if awaited and E.no_await_inline and E.no_await_inline(E, st, f, ctx):
        return await_event(E, st, f, ctx, args[1] if len(args) > 1 else None)
    if f[0] == "S" and isinstance(f[1], int) and E.ty(f[1])["k"] == "coroutine":
        t = E.ty(f[1])
        if t.get("fn") is not None and awaited:
            st = st.copy()
            cf = E.dump.fns[t["fn"]]
            if loc[0][0] in ("L", "T", "B"):
                E.store(st, loc[0], loc[1], MOVED)
            outs = []
            for o in E.call_fn(cf, [f, args[1] if len(args) > 1 else UNIT], st, ctx.stack):
                if o.k == "ret":
                    outs.append(Out("ret", o.st, ("S", ctx.dst_ty, 0, (o.v,))))
                else:
                    outs.append(o)
            return outs
        # recv futures of tokio
        name = strip_generics(t.get("s", ""))
        if "UnboundedReceiver" in name and "recv" in name:
            return recv_poll(E, st, args, ctx)
        return await_event(E, st, f, ctx, args[1] if len(args) > 1 else None)
    if f[0] == "S" and isinstance(f[1], int):
        t = E.ty(f[1])
        # local or dumped Future implementation
        if E.adt_of(f[1]) == READY:
            x = E.field(st, f, 0, 0)
            if E.variant(st, x) == 1: return ret(st, ("S", ctx.dst_ty, 0, (E.field(st, x, 1, 0),)))
        impl = E.future_impl(f[1])
        poll_fn = E.adt_of(f[1]) == POLL_FN
        if impl is not None or poll_fn:
            st = st.copy()
            outs = []
            if loc[0][0] not in ("L", "T", "B", "P"):
                b = E.newbox(st, f, "T"); loc = (b, ())
            cx = args[1] if len(args) > 1 else UNIT
            if poll_fn:
                polled = E.call_value(E.mkref(st, loc[0], tuple(loc[1]) + ((0, 0),)), [cx], st, ctx)
            else:
                polled = E.call_fn(impl, [("S", impl.locals[1], 0, (E.mkref(st, *loc),)), cx], st, ctx.stack)
            for o in polled:
                if o.k != "ret": outs.append(o); continue
                if awaited and E.variant(o.st, o.v) is None and o.v[0] in ("lz", "s"):
                    s = o.st.copy()
                    if E.set_variant(s, o.v, 0): outs.append(Out("ret", s, o.v))
                    continue
                if awaited and E.variant(o.st, o.v) == 1:
                    continue    # stays pending: polled again later
                outs.append(o)
            return outs
    fid = ctx.callee.get("fn")
    if fid is not None and not awaited:
        return None
    return await_event(E, st, f, ctx, args[1] if len(args) > 1 else None)

def await_event(E, st, f, ctx, cx=None):
    st = st.copy()
    def make(s, tid):
        if E.await_hook:
            v = E.await_hook(E, s, f, tid, ctx)
            if v == "BLOCK": return None
            if v is not None: return v
        return payload(E, s, "awaited", tid)
    t = E.tyof(f) if f[0] != "S" else f[1]
    return poll_result(E, st, ctx, "await", make, future=f, cx=cx, fty=E.ty_name(t) if t is not None else "?")

@model("tokio::task::spawn::spawn", "tokio::spawn", "tokio::task::spawn")
def _spawn(E, st, args, ctx):
    st = st.copy()
    r = E.fresh_ret(st, "join", ctx.dst_ty)
    E.emit(st, ctx, "spawn", future=args[0], ret=r)
    return ret(st, r)
