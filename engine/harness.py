"""Entry points for the rules: run a function with symbolic arguments, drive the futures it returns."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from absint import Engine, State, Out, Ev, UNIT, MOVED, TRUE, FALSE, Unsupported, short, show, subst, Ctx, LoopInfo, Seg
from mir import Dump, strip_generics
import models
import lin

def mkctx(E, fn, ds=None):
    c = Ctx()
    c.E = E; c.fn = fn; c.site = (fn.name if fn else "harness", None); c.dst_ty = None; c.callee = {"path": "harness"}; c.arg_tys = None; c.ds = ds; c.stack = ()
    return c

def sym_arg(E, st, fn, i, name=None):
    tid = fn.locals[i + 1]
    t = E.ty(tid)
    if t["k"] == "tuple" and not t["ts"]:
        return UNIT
    return E.const_sym(name or f"arg{i}", tid)

def drive(E, st, v, ctx):
    """run a future value to completion; outcomes carry its output"""
    if v[0] == "S" and isinstance(v[1], int) and E.adt_of(v[1]) == "core::pin::Pin" and v[3] and v[3][0][0] == "ref":
        v = E.load(st, v[3][0][1], v[3][0][2])
    if v[0] == "S" and isinstance(v[1], int) and E.ty(v[1])["k"] == "coroutine" and E.ty(v[1]).get("fn") is not None:
        cf = E.dump.fns[E.ty(v[1])["fn"]]
        return E.call_fn(cf, [v, ("cx",)], st)
    if v[0] == "S" and isinstance(v[1], int) and E.adt_of(v[1]) == "core::future::ready::Ready":
        x = E.field(st, v, 0, 0)
        if E.variant(st, x) == 1: return [Out("ret", st, E.field(st, x, 1, 0))]
    return None

EFFECTS = ("callvalue", "io", "send", "recv", "await", "spawn", "answer", "map_insert", "map_remove", "atomic_store")
PURE_CALLS = ("clone", "new", "new_display", "default", "deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "from", "into", "fmt", "eq", "ne", "cmp", "get_mut", "get_ref", "len", "is_fatal")
def repeated_effects(li):
    """observable operations on paths that lead back to the head of a loop"""
    res = []
    for g in li.segs:
        if g.k == "back":
            for e in g.ev:
                if e.k in EFFECTS or (e.k == "call" and strip_generics(str(e["path"])).split("::")[-1] not in PURE_CALLS):
                    res.append(str(e["path"]) if e.k == "call" else e.k)
    return sorted(set(res))

def run(E, fn, args=None, st=None, await_it=True, loops=False):
    """interpret a function (and what it returns, if that is a future).
       The paths that are returned do not show the completed laps of a loop. Unless the caller judges those itself (loops=True),
       an operation that can happen any number of times is reported."""
    st = st or State()
    old = len(E.loops)
    try:
        return run_(E, fn, args, st, await_it)
    finally:
        if not loops and E.R is not None:
            for li in E.loops[old:]:
                rep = repeated_effects(li)
                if rep:
                    E.R.fail(f"{fn.path.split('::')[-2] if fn.name == fn.path.split('::')[-1] and '::' in fn.path else ''}::{fn.name.split('::')[-1]}: an operation is repeated", f"{fn.path} can perform this any number of times, in a loop of {li.fn.name}: {', '.join(rep)[:300]}", li.fn)

def run_(E, fn, args, st, await_it):
    if args is None:
        args = [sym_arg(E, st, fn, i) for i in range(fn.argc)]
    res = []
    for o in E.call_fn(fn, args, st):
        if o.k == "ret" and await_it:
            d = drive(E, o.st, o.v, mkctx(E, fn))
            if d is not None:
                res += d
                continue
        res.append(o)
    return res

def load(path):
    return Dump(path)
