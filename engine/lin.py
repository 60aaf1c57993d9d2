"""Linear terms and a small constraint domain (conjunctions of integer linear inequalities).

A term is a hashable tuple. Integer terms are kept in a normal form:
  ("c", n)                         a constant
  ("lin", c, ((atom, k), ...))     c + sum(k * atom), atoms sorted by repr, not a bare atom or constant
  anything else                    an atom
A constraint is (items, c), meaning  c + sum(k * atom) >= 0.
"""
from math import gcd
from time import time

INT_RANGE = {
    "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "u128": (0, 2**128 - 1), "usize": (0, 2**64 - 1),
    "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1),
    "isize": (-2**63, 2**63 - 1), "bool": (0, 1), "char": (0, 0x10ffff),
}
LEN_MAX = 2**63 - 1

_key_cache = {}
def akey(a):
    r = _key_cache.get(a)
    if r is None:
        r = repr(a)
        _key_cache[a] = r
    return r

def parts(t):
    """-> (dict atom->coef, const)"""
    if t[0] == "c":
        return {}, t[1]
    if t[0] == "lin":
        return dict(t[2]), t[1]
    return {t: 1}, 0

def make(d, c):
    items = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: akey(x[0])))
    if not items:
        return ("c", c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return ("lin", c, items)

def add(a, b, k=1):
    d, c = parts(a)
    e, f = parts(b)
    d = dict(d)
    for x, y in e.items():
        d[x] = d.get(x, 0) + k * y
    return make(d, c + k * f)

def sub(a, b):
    return add(a, b, -1)

def scale(a, k):
    d, c = parts(a)
    return make({x: y * k for x, y in d.items()}, c * k)

def norm(d, c):
    """Normalise a constraint; None if trivially true, False if trivially false."""
    items = [(a, k) for a, k in d.items() if k]
    if not items:
        return None if c >= 0 else False
    g = 0
    for _, k in items:
        g = gcd(g, abs(k))
    if g > 1:
        items = [(a, k // g) for a, k in items]
        c = c // g
    items.sort(key=lambda x: akey(x[0]))
    return (tuple(items), c)

def ge0(t):
    d, c = parts(t)
    return norm(d, c)

def le(a, b):
    return ge0(sub(b, a))

def lt(a, b):
    return ge0(add(sub(b, a), ("c", -1)))

LIMIT = 1500

class Timeout(Exception):
    """the time budget of the analysis is used up"""
_deadline = None
def set_deadline(t):
    global _deadline
    _deadline = t
def stop_soon(seconds):
    """where a deadline is set: not later than that many seconds from now"""
    global _deadline
    if _deadline is not None: _deadline = min(_deadline, time() + seconds)
def check_time():
    if _deadline is not None and time() > _deadline:
        raise Timeout()

def infeasible(cons):
    """Fourier-Motzkin elimination with integer tightening. True only if the constraints are contradictory."""
    # one entry per linear form: keep the tightest constant
    table = {}
    for con in cons:
        if con is None:
            continue
        if con is False:
            return True
        items, c = con
        o = table.get(items)
        if o is None or c < o:
            table[items] = c
    check_time()
    while True:
        # direct contradictions: f + c >= 0 and -f + d >= 0 with c + d < 0
        for items, c in table.items():
            neg = tuple((a, -k) for a, k in items)
            d = table.get(neg)
            if d is not None and c + d < 0:
                return True
        if not table:
            return False
        occ = {}
        for items in table:
            for a, k in items:
                p = occ.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        best = min(occ.items(), key=lambda x: (x[1][0] * x[1][1] - x[1][0] - x[1][1], akey(x[0])))[0]
        pos, neg, rest = [], [], {}
        for items, c in table.items():
            k = 0
            for a, kk in items:
                if a == best:
                    k = kk
                    break
            if k > 0:
                pos.append((items, c, k))
            elif k < 0:
                neg.append((items, c, -k))
            else:
                rest[items] = c
        if len(pos) * len(neg) + len(rest) > LIMIT:
            return False
        for pi, pc, pk in pos:
            for ni, nc, nk in neg:
                d = {}
                for a, k in pi:
                    d[a] = k * nk
                for a, k in ni:
                    d[a] = d.get(a, 0) + k * pk
                n = norm(d, pc * nk + nc * pk)
                if n is None:
                    continue
                if n is False:
                    return True
                o = rest.get(n[0])
                if o is None or n[1] < o:
                    rest[n[0]] = n[1]
        table = rest

def project(cons, keep):
    """Eliminate every atom for which keep(atom) is false; returns the remaining constraints (None: contradiction)."""
    table = {}
    for con in cons:
        if con is None:
            continue
        if con is False:
            return None
        o = table.get(con[0])
        if o is None or con[1] < o:
            table[con[0]] = con[1]
    while True:
        occ = {}
        for items in table:
            for a, k in items:
                if not keep(a):
                    p = occ.setdefault(a, [0, 0])
                    p[0 if k > 0 else 1] += 1
        if not occ:
            return list(table.items())
        best = min(occ.items(), key=lambda x: (x[1][0] * x[1][1] - x[1][0] - x[1][1], akey(x[0])))[0]
        pos, neg, rest = [], [], {}
        for items, c in table.items():
            k = dict(items).get(best, 0)
            if k > 0:
                pos.append((items, c, k))
            elif k < 0:
                neg.append((items, c, -k))
            else:
                rest[items] = c
        if len(pos) * len(neg) + len(rest) > LIMIT:
            table = rest
            continue
        for pi, pc, pk in pos:
            for ni, nc, nk in neg:
                d = {a: k * nk for a, k in pi}
                for a, k in ni:
                    d[a] = d.get(a, 0) + k * pk
                n = norm(d, pc * nk + nc * pk)
                if n is None:
                    continue
                if n is False:
                    return None
                o = rest.get(n[0])
                if o is None or n[1] < o:
                    rest[n[0]] = n[1]
        table = rest

# -- affine equalities: a row is {atom: coefficient, None: constant}, meaning that the sum is zero
def _primitive(row):
    g = 0
    for k in row.values(): g = gcd(g, abs(k))
    if g > 1: row = {a: k // g for a, k in row.items()}
    return row

def echelon(rows, order):
    """fraction-free Gauss-Jordan elimination, columns in the given order -> [(pivot, row)]"""
    rows = [_primitive({a: k for a, k in r.items() if k}) for r in rows]
    rows = [r for r in rows if r]
    done = []
    for col in order:
        cand = [r for r in rows if r.get(col)]
        if not cand: continue
        p = min(cand, key=lambda r: (abs(r[col]), len(r)))
        rows = [r for r in rows if r is not p]
        def elim(r):
            k = r.get(col)
            if not k: return r
            g = gcd(abs(k), abs(p[col])); m = p[col] // g; n = k // g
            out = {}
            for a in set(r) | set(p):
                v = r.get(a, 0) * m - p.get(a, 0) * n
                if v: out[a] = v
            return _primitive(out)
        rows = [r for r in (elim(r) for r in rows) if r]
        done = [(q, elim(r)) for q, r in done] + [(col, p)]
    return done, rows

def _cols(rows):
    cs = set()
    for r in rows: cs |= set(r)
    cs.discard(None)
    return sorted(cs, key=akey)

def project_eqs(rows, keep):
    cols = _cols(rows)
    done, rest = echelon(rows, [c for c in cols if not keep(c)])
    return rest

def join_eqs(a, b):
    """rows implied by both systems (intersection of the row spaces)"""
    if not a or not b: return []
    cols = _cols(a + b) + [None]
    rows = []
    for r in a:
        d = {("L", c): k for c, k in r.items()}
        d.update({("R", c): k for c, k in r.items()})
        rows.append(d)
    for r in b:
        rows.append({("L", c): k for c, k in r.items()})
    done, rest = echelon(rows, [("L", c) for c in cols])
    out = [{k[1]: v for k, v in r.items()} for r in rest]
    done, rest = echelon(out, cols)
    return [r for _, r in done]

def project_sys(eqs, cons, keep):
    """project a system of equalities and inequalities onto the kept atoms: the inequalities that remain"""
    cols = _cols(eqs)
    done, rest = echelon(eqs, sorted((c for c in cols if not keep(c)), key=akey) + sorted((c for c in cols if keep(c)), key=akey))
    out = []
    for con in cons:
        if con in (None, False): continue
        row = dict(con[0]); row[None] = con[1]
        for a, r in done:
            k = row.get(a)
            if not k: continue
            g = gcd(abs(k), abs(r[a])); m = abs(r[a]) // g; n = k * (1 if r[a] > 0 else -1) // g
            new = {}
            for x in set(row) | set(r):
                v = row.get(x, 0) * m - r.get(x, 0) * n
                if v: new[x] = v
            row = new
        c = norm({a: k for a, k in row.items() if a is not None}, row.get(None, 0))
        if c is False: return None
        if c is not None: out.append(c)
    return project(out, keep)
