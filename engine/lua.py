"""A parser and an abstract evaluator for the Lua of Wireshark dissectors."""
import re

class LuaError(Exception):
    pass

TOKEN = re.compile(r"""
  (?P<ws>\s+|--\[(?P<lc>=*)\[.*?\](?P=lc)\]|--[^\n]*)
 |(?P<long>\[(?P<ls>=*)\[.*?\](?P=ls)\])
 |(?P<num>0[xX][0-9a-fA-F]+|\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)
 |(?P<name>[A-Za-z_]\w*)
 |(?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')
 |(?P<op>\.\.\.|\.\.|==|~=|<=|>=|<<|>>|//|::|[-+*/%^\#&~|<>=(){}\[\];:,.])
""", re.X | re.S)
KEYWORDS = {"and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in", "local", "nil", "not", "or", "repeat", "return", "then", "true", "until", "while"}

def tokens(text):
    i, out, line = 0, [], 1
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m: raise LuaError(f"line {line}: unexpected character {text[i]!r}")
        k = "ws" if m.group("ws") else "str" if m.group("long") else m.lastgroup if m.lastgroup not in ("lc", "ls") else "ws"
        for g in ("ws", "long", "num", "name", "str", "op"):
            if m.group(g) is not None: k = g; break
        if k != "ws":
            v = m.group(0)
            if k == "long": v = re.sub(r"^\[=*\[\n?|\]=*\]$", "", v); k = "str"
            elif k == "str": v = re.sub(r"\\(.)", lambda x: {"n": "\n", "t": "\t"}.get(x.group(1), x.group(1)), v[1:-1])
            elif k == "num": v = int(v, 16) if v[:2] in ("0x", "0X") else float(v) if re.search(r"[.eE]", v) else int(v)
            elif k == "name" and v in KEYWORDS: k = "kw"
            out.append((k, v, line))
        line += m.group(0).count("\n")
        i = m.end()
    out.append(("eof", None, line))
    return out

BIN = {"or": 1, "and": 2, "<": 3, ">": 3, "<=": 3, ">=": 3, "~=": 3, "==": 3, "|": 4, "~": 5, "&": 6, "<<": 7, ">>": 7, "..": 8, "+": 9, "-": 9, "*": 10, "/": 10, "//": 10, "%": 10, "^": 12}

class Parser:
    def __init__(self, text):
        self.t = tokens(text); self.i = 0
    @property
    def cur(self): return self.t[self.i]
    def at(self, v): return self.cur[1] == v and self.cur[0] in ("op", "kw")
    def eat(self, v):
        if self.at(v): self.i += 1; return True
        return False
    def need(self, v):
        if not self.eat(v): raise LuaError(f"line {self.cur[2]}: expected {v!r}, found {self.cur[1]!r}")
    def name(self):
        if self.cur[0] != "name": raise LuaError(f"line {self.cur[2]}: expected a name, found {self.cur[1]!r}")
        self.i += 1
        return self.t[self.i - 1][1]
    def chunk(self):
        b = self.block()
        if self.cur[0] != "eof": raise LuaError(f"line {self.cur[2]}: unexpected {self.cur[1]!r}")
        return b
    def block(self):
        out = []
        while not (self.cur[0] == "eof" or self.cur[0] == "kw" and self.cur[1] in ("end", "else", "elseif", "until")):
            if self.eat(";"): continue
            if self.at("return"):
                ln = self.cur[2]; self.i += 1
                es = [] if self.cur[0] == "eof" or self.at(";") or self.cur[1] in ("end", "else", "elseif", "until") else self.exprs()
                self.eat(";")
                out.append(("return", ln, es))
                break
            out.append(self.stat())
        return out
    def stat(self):
        ln = self.cur[2]
        if self.eat("do"):
            b = self.block(); self.need("end"); return ("do", ln, b)
        if self.eat("if"):
            arms = []
            c = self.expr(); self.need("then"); arms.append((c, self.block()))
            while self.eat("elseif"):
                c = self.expr(); self.need("then"); arms.append((c, self.block()))
            other = self.block() if self.eat("else") else []
            self.need("end")
            return ("if", ln, arms, other)
        if self.at("while") or self.at("for") or self.at("repeat") or self.at("goto") or self.at("break"):
            raise LuaError(f"line {ln}: {self.cur[1]} is not supported")
        if self.eat("function"):
            target = ("name", ln, self.name())
            method = False
            while self.at(".") or self.at(":"):
                method = self.at(":"); self.i += 1
                target = ("index", ln, target, ("const", ln, self.name()))
                if method: break
            return ("assign", ln, [target], [self.body(ln, method)])
        if self.eat("local"):
            if self.eat("function"):
                n = self.name()
                return ("localfn", ln, n, self.body(ln, False))
            names = [self.name()]
            if self.eat("<"): self.name(); self.need(">")
            while self.eat(","): names.append(self.name())
            return ("local", ln, names, self.exprs() if self.eat("=") else [])
        e = self.suffixed()
        if self.at("=") or self.at(","):
            ts = [e]
            while self.eat(","): ts.append(self.suffixed())
            self.need("=")
            return ("assign", ln, ts, self.exprs())
        if e[0] not in ("call", "method"): raise LuaError(f"line {ln}: a statement must be a call or an assignment")
        return ("expr", ln, e)
    def body(self, ln, method):
        self.need("(")
        ps = ["self"] if method else []
        while not self.eat(")"):
            if self.eat("..."): ps.append("...")
            else: ps.append(self.name())
            self.eat(",")
        b = self.block(); self.need("end")
        return ("function", ln, ps, b)
    def exprs(self):
        out = [self.expr()]
        while self.eat(","): out.append(self.expr())
        return out
    def expr(self, prec=0):
        k, v, ln = self.cur
        if k in ("op", "kw") and v in ("not", "-", "#", "~"):
            self.i += 1
            l = ("unary", ln, v, self.expr(11))
        else:
            l = self.simple()
        while self.cur[0] in ("op", "kw") and self.cur[1] in BIN and BIN[self.cur[1]] > prec:
            op, ln = self.cur[1], self.cur[2]; self.i += 1
            r = self.expr(BIN[op] - (1 if op in ("..", "^") else 0))
            l = ("binary", ln, op, l, r)
        return l
    def simple(self):
        k, v, ln = self.cur
        if k in ("num", "str"): self.i += 1; return ("const", ln, v)
        if k == "kw" and v in ("nil", "true", "false"):
            self.i += 1; return ("const", ln, {"nil": None, "true": True, "false": False}[v])
        if self.eat("function"): return self.body(ln, False)
        if self.at("{"): return self.table()
        if self.at("..."): raise LuaError(f"line {ln}: ... is not supported")
        return self.suffixed()
    def table(self):
        ln = self.cur[2]; self.need("{")
        items = []
        while not self.eat("}"):
            if self.eat("["):
                key = self.expr(); self.need("]"); self.need("="); items.append((key, self.expr()))
            elif self.cur[0] == "name" and self.t[self.i + 1][1] == "=" and self.t[self.i + 1][0] == "op":
                key = ("const", ln, self.name()); self.need("="); items.append((key, self.expr()))
            else:
                items.append((None, self.expr()))
            if not (self.eat(",") or self.eat(";")) and not self.at("}"): raise LuaError(f"line {self.cur[2]}: expected , or }}")
        return ("table", ln, items)
    def suffixed(self):
        k, v, ln = self.cur
        if self.eat("("):
            e = self.expr(); self.need(")")
        elif k == "name":
            self.i += 1; e = ("name", ln, v)
        else:
            raise LuaError(f"line {ln}: unexpected {v!r}")
        while True:
            k, v, ln = self.cur
            if self.eat("."): e = ("index", ln, e, ("const", ln, self.name()))
            elif self.eat("["):
                i = self.expr(); self.need("]"); e = ("index", ln, e, i)
            elif self.eat(":"):
                n = self.name(); e = ("method", ln, e, n, self.args())
            elif self.at("(") or self.at("{") or k == "str":
                e = ("call", ln, e, self.args())
            else: return e
    def args(self):
        if self.cur[0] == "str": self.i += 1; return [("const", self.t[self.i - 1][2], self.t[self.i - 1][1])]
        if self.at("{"): return [self.table()]
        self.need("(")
        if self.eat(")"): return []
        a = self.exprs(); self.need(")")
        return a

class Env:
    def __init__(self, up=None): self.v, self.up = {}, up
    def find(self, n):
        e = self
        while e is not None:
            if n in e.v: return e
            e = e.up
        return None

class Obj:
    """a value of the Wireshark API"""
    def __init__(self, kind, **d): self.kind = kind; self.__dict__.update(d); self.t = {}
    def __repr__(self): return f"<{self.kind} {({k: v for k, v in self.__dict__.items() if k not in ('kind', 't')})}>"

class Fn:
    def __init__(self, params, body, env, line): self.params, self.body, self.env, self.line = params, body, env, line

class Return(Exception):
    def __init__(self, v): self.v = v

# numbers: linear terms  {atom: k} with the constant under ()
def lin(x):
    if isinstance(x, bool) or x is None: return None
    if isinstance(x, int): return {(): x} if x else {}
    if isinstance(x, Obj) and x.kind == "num": return x.lin
    return None
def num(l):
    l = {k: v for k, v in l.items() if v}
    if not l: return 0
    if set(l) == {()}: return l[()]
    return Obj("num", lin=l)
def add(a, b, k=1):
    r = dict(a)
    for x, v in b.items(): r[x] = r.get(x, 0) + k * v
    return num(r)
def same(a, b):
    la, lb = lin(a), lin(b)
    return la is not None and lb is not None and {k: v for k, v in la.items() if v} == {k: v for k, v in lb.items() if v}

class Eval:
    """evaluates a chunk; api(ev, name, ...) gives meaning to what the program does not define"""
    def __init__(self, api):
        self.api = api; self.G = Env(); self.steps = 0; self.undefined = []
    def run(self, tree):
        try: self.block(tree, Env(self.G))
        except Return: pass
    def call(self, f, args, line):
        self.steps += 1
        if self.steps > 20000: raise LuaError("too many steps")
        if isinstance(f, Fn):
            e = Env(f.env)
            for i, p in enumerate(f.params): e.v[p] = args[i] if i < len(args) else None
            try: self.block(f.body, e)
            except Return as r: return r.v
            return None
        return self.api.call(self, f, args, line)
    def block(self, b, env):
        for s in b: self.stat(s, env)
    def stat(self, s, env):
        k, ln = s[0], s[1]
        if k == "do": self.block(s[2], Env(env))
        elif k == "expr": self.expr(s[2], env)
        elif k == "return": raise Return(self.expr(s[2][0], env) if s[2] else None)
        elif k == "localfn":
            env.v[s[2]] = None
            env.v[s[2]] = self.expr(s[3], env)
        elif k == "local":
            vs = [self.expr(e, env) for e in s[3]]
            for i, n in enumerate(s[2]): env.v[n] = vs[i] if i < len(vs) else None
        elif k == "assign":
            vs = [self.expr(e, env) for e in s[3]]
            for i, t in enumerate(s[2]):
                v = vs[i] if i < len(vs) else None
                if t[0] == "name":
                    (env.find(t[2]) or self.G).v[t[2]] = v
                else:
                    o, key = self.expr(t[2], env), self.expr(t[3], env)
                    if not isinstance(o, (Obj, dict)): raise LuaError(f"line {ln}: assignment to a field of {o!r}")
                    (o if isinstance(o, dict) else o.t)[key] = v
        elif k == "if":
            for c, b in s[2]:
                v = self.expr(c, env)
                if isinstance(v, Obj) and v.kind in ("bool?", "opaque"): raise LuaError(f"line {ln}: the condition depends on the traffic")
                if v is not None and v is not False:
                    self.block(b, Env(env)); return
            self.block(s[3], Env(env))
        else: raise LuaError(f"line {ln}: {k}")
    def expr(self, e, env):
        k, ln = e[0], e[1]
        if k == "const": return e[2]
        if k == "function": return Fn(e[2], e[3], env, ln)
        if k == "name":
            s = env.find(e[2])
            if s is not None: return s.v[e[2]]
            v = self.api.get(e[2])
            if v is None: self.undefined.append((e[2], ln))
            return v
        if k == "table":
            t = {}; n = 1
            for key, v in e[2]:
                if key is None: t[n] = self.expr(v, env); n += 1
                else: t[self.expr(key, env)] = self.expr(v, env)
            return t
        if k == "index":
            o, key = self.expr(e[2], env), self.expr(e[3], env)
            if isinstance(o, dict): return o.get(key)
            if isinstance(o, Obj):
                return o.t[key] if key in o.t else self.api.index(self, o, key, ln)
            raise LuaError(f"line {ln}: field {key!r} of {o!r}")
        if k == "call":
            f = self.expr(e[2], env)
            return self.call(f, [self.expr(x, env) for x in e[3]], ln)
        if k == "method":
            o = self.expr(e[2], env)
            args = [self.expr(x, env) for x in e[4]]
            if isinstance(o, (Obj, dict)):
                t = o if isinstance(o, dict) else o.t
                if isinstance(t.get(e[3]), Fn): return self.call(t[e[3]], [o] + args, ln)
            if not isinstance(o, Obj): raise LuaError(f"line {ln}: method {e[3]} of {o!r}")
            return self.api.method(self, o, e[3], args, ln)
        if k == "unary":
            v = self.expr(e[3], env)
            if e[2] == "not": return not (v is not None and v is not False)
            if e[2] == "-" and lin(v) is not None: return add({}, lin(v), -1)
            if e[2] == "#" and isinstance(v, (str, dict)): return len(v)
            return Obj("opaque", what=f"{e[2]} at line {ln}")
        if k == "binary":
            op = e[2]
            l = self.expr(e[3], env)
            if op in ("and", "or"):
                t = l is not None and l is not False
                return self.expr(e[4], env) if t == (op == "and") else l
            r = self.expr(e[4], env)
            a, b = lin(l), lin(r)
            if op in ("+", "-") and a is not None and b is not None: return add(a, b, 1 if op == "+" else -1)
            if op == "*" and a is not None and b is not None:
                if isinstance(l, int): return num({x: v * l for x, v in b.items()})
                if isinstance(r, int): return num({x: v * r for x, v in a.items()})
            if op == ".." and isinstance(l, (str, int)) and isinstance(r, (str, int)): return str(l) + str(r)
            if op in ("==", "~="):
                if a is not None and b is not None and same(l, r): return op == "=="
                if not isinstance(l, Obj) and not isinstance(r, Obj): return (l == r) == (op == "==")
            if op in ("<", "<=", ">", ">=") and isinstance(l, int) and isinstance(r, int):
                return {"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r}[op]
            return Obj("bool?" if op in ("==", "~=", "<", "<=", ">", ">=") else "opaque", what=f"{op} at line {ln}")
        raise LuaError(f"line {ln}: {k}")
