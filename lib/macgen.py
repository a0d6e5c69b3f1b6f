"""Macros, templates and patterns in random shapes, and what they should make of random S-expressions (C12)."""
import readgen as G
from ppgen import core

S = lambda x: ("sym", x)
NIL = ("nil",)


def L(*x):
    return ("list", list(x), None)


class Err(Exception):
    pass


# ---------------------------------------------------------------- pairs
def pairs(t):
    """a core tree -> pairs"""
    if t[0] != "list":
        return t
    r = pairs(t[2]) if t[2] else NIL
    for x in reversed(t[1]):
        r = ("cons", pairs(x), r)
    return r


def unpairs(p):
    if p[0] not in ("cons", "nil"):
        return p
    items = []
    while p[0] == "cons":
        items.append(unpairs(p[1]))
        p = p[2]
    return ("list", items, None if p == NIL else unpairs(p))


def elems(p):
    r = []
    while p[0] == "cons":
        r.append(p[1])
        p = p[2]
    return r if p == NIL else None


def mk(*x, tail=NIL):
    for y in reversed(x):
        tail = ("cons", y, tail)
    return tail


def dump(p):
    return G.dump(unpairs(p)) if p[0] != "use" else "?"


def head2(p, name):
    """(name X) -> X"""
    e = elems(p) if p[0] == "cons" and p[1] == S(name) else None
    return e[1] if e and len(e) == 2 else None


def qq(t, ev):
    x = head2(t, "unquote")
    if x is not None:
        return ev(x)
    if t[0] == "cons":
        x = head2(t[1], "unquote-splicing")
        if x is not None:
            if t[2] == NIL:
                return ev(x)
            a = ev(x)
            rest = qq(t[2], ev)
            e = elems(a)
            if e is None:
                raise Err(",@ expects proper-list")
            return mk(*e, tail=rest)
        return ("cons", qq(t[1], ev), qq(t[2], ev))
    return t


def evsx(x, env):
    """expressions over S-expressions"""
    if x[0] == "sym":
        return env[x[1]]
    h, a = x[1][1], elems(x)[1:]
    if h == "quote":
        return a[0]
    if h == "quasiquote":
        return qq(a[0], lambda y: evsx(y, env))
    if h == "s:list":
        return mk(*[evsx(y, env) for y in a])
    if h == "s:cons":
        return ("cons", evsx(a[0], env), evsx(a[1], env))
    if h == "s:nil":
        return NIL
    if h == "s:symbol":
        return S(a[0][1])
    if h in ("s:string", "s:char", "s:bool"):
        return a[0]
    if h == "s:integer":
        return ("int", a[1][1], a[0][1])
    if h == "capture":
        return ("use", a[0][1])
    raise KeyError(h)


def same(a, b):
    return a[0] == b[0] and dump(a) == dump(b)


def pmatch(p, t, b):
    if p == S("_"):
        return True
    x = head2(p, "unquote")
    if x is None and p[0] == "cons" and p[2] == NIL:
        x = head2(p[1], "unquote-splicing")
    if x is not None:
        if x[0] == "sym":
            b[x[1]] = t
            return True
        return expat(x, t, b)
    if p[0] == "cons":
        return t[0] == "cons" and pmatch(p[1], t[1], b) and pmatch(p[2], t[2], b)
    return t[0] not in ("cons",) and same(p, t)


def expat(x, t, b):
    """explicit patterns: (let v P), (s:symbol _), ..."""
    if x == S("_"):
        return True
    h, a = x[1][1], elems(x)[1:]
    if h == "let":
        if len(a) == 2 and not expat(a[1], t, b):
            return False
        b[a[0][1]] = t
        return True
    kinds = {"s:symbol": "sym", "s:integer": "int", "s:string": "str", "s:char": "chr", "s:bool": "bool", "s:fpnumber": "flt", "s:cons": "cons", "s:nil": "nil"}
    if h == "s:list":
        e = elems(t)
        return e is not None and len(e) == len(a) and all(expat(q, y, b) for q, y in zip(a, e))
    if t[0] != kinds[h]:
        return False
    if h == "s:cons":
        return expat(a[0], t[1], b) and expat(a[1], t[2], b)
    if h == "s:symbol" and a[0][0] == "str":
        return t[1] == a[0][1]
    return True


def normal(p):
    """a pattern -> None (anything), ("cons", a, b), ("nil",), (kind, None or the value)"""
    if p == S("_"):
        return None
    x = head2(p, "unquote")
    if x is None and p[0] == "cons" and p[2] == NIL:
        x = head2(p[1], "unquote-splicing")
    if x is not None:
        return None if x[0] == "sym" else normalx(x)
    if p[0] == "cons":
        return ("cons", normal(p[1]), normal(p[2]))
    return p if p == NIL else (p[0], dump(p))


def normalx(x):
    if x == S("_"):
        return None
    h, a = x[1][1], elems(x)[1:]
    if h == "let":
        return normalx(a[1]) if len(a) == 2 else None
    if h == "s:cons":
        return ("cons", normalx(a[0]), normalx(a[1]))
    if h == "s:nil":
        return NIL
    if h == "s:list":
        r = NIL
        for y in reversed(a):
            r = ("cons", normalx(y), r)
        return r
    k = {"s:symbol": "sym", "s:integer": "int", "s:string": "str", "s:char": "chr", "s:bool": "bool"}[h]
    return (k, dump(S(a[0][1])) if h == "s:symbol" and a[0][0] == "str" else None)


def covers(p, q):
    """every tree that q matches is matched by p"""
    if p is None:
        return True
    if q is None or p[0] != q[0]:
        return False
    if p[0] == "cons":
        return covers(p[1], q[1]) and covers(p[2], q[2])
    return p[0] == "nil" or p[1] is None or p[1] == q[1]


# ---------------------------------------------------------------- generation
class Gen:
    def __init__(self, r):
        self.r = r
        self.g = G.Gen(r)
        self.nv = 0
        self.count = {}

    def tick(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def tree(self, d):
        """any tree, without sugar (core)"""
        return core(self.g.tree(d))

    def literal(self, d):
        """one that no template or pattern takes for a hole"""
        while True:
            t = self.tree(d)
            s = repr(t)
            if "unquote" not in s and "'_'" not in s:
                return t

    def name(self):
        self.nv += 1
        return "v%d" % self.nv

    def template(self, d, vs):
        """-> a core tree"""
        r = self.r
        x = r.random()
        if x < 0.3 and vs:
            self.tick("unquote")
            return L(S("unquote"), self.expr(d - 1, vs))
        if d <= 0 or x < 0.42:
            return self.literal(r.choice([0, 0, 1]))
        items, n = [], r.choice([0, 1, 2, 2, 3, 4, 6])
        for _ in range(n):
            if r.random() < 0.22 and vs:
                self.tick("splice")
                items.append(L(S("unquote-splicing"), self.expr(d - 1, vs)))
            else:
                items.append(self.template(d - 1, vs))
        if items and r.random() < 0.15:
            tail = L(S("unquote"), self.expr(0, vs)) if vs and r.random() < 0.6 else self.literal(0)
            if tail[0] == "list":
                if len(tail[1]) == 2:
                    self.tick("unquoted tail")
                return ("list", items + tail[1], tail[2])
            return ("list", items, tail)
        return ("list", items, None)

    def expr(self, d, vs):
        r = self.r
        if d <= 0 or r.random() < 0.75:
            return S(r.choice(vs))
        k = r.randrange(6)
        self.tick("expression in unquote")
        if k == 0:
            return L(S("s:list"), *[self.expr(d - 1, vs) for _ in range(r.randrange(4))])
        if k == 1:
            return L(S("s:cons"), self.expr(d - 1, vs), self.expr(d - 1, vs))
        if k == 2:
            return L(S("quote"), self.tree(d))
        if k == 3:
            self.tick("template in template")
            return L(S("quasiquote"), self.template(d - 1, vs))
        if k == 4:
            return L(S("s:symbol"), ("str", self.g.symbol()))
        return r.choice([L(S("s:string"), ("str", "".join(self.g.char() for _ in range(3)))), L(S("s:bool"), ("bool", r.random() < 0.5)), L(S("s:nil")),
                         L(S("s:integer"), ("bool", False), ("int", r.getrandbits(r.randrange(1, 64)), False)), L(S("s:char"), ("chr", self.g.char()))])

    def pattern(self, d, vs):
        """appends the variables it binds to vs"""
        r = self.r
        x = r.random()
        if x < 0.32:
            v = self.name()
            vs.append(v)
            if r.random() < 0.3:
                self.tick("typed hole")
                return L(S("unquote"), L(S("let"), S(v), self.typed(d)))
            return L(S("unquote"), S(v))
        if x < 0.4:
            return S("_")
        if x < 0.45:
            return L(S("unquote"), self.typed(d))
        if d <= 0 or x < 0.62:
            while True:
                t = self.literal(0)
                if t[0] not in ("flt", "bool"):
                    return t
        items = [self.pattern(d - 1, vs) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
        if r.random() < 0.35:
            v = self.name()
            vs.append(v)
            self.tick("rest hole")
            if r.random() < 0.6 or not items:
                return ("list", items + [L(S("unquote-splicing"), S(v))], None)
            return ("list", items + [S("unquote"), S(v)], None)
        if items and items[0] == S("unquote"):
            items.insert(0, S("_"))
        return ("list", items, None)

    def typed(self, d):
        r = self.r
        k = r.choice(["s:symbol", "s:symbol", "s:integer", "s:string", "s:char", "s:bool", "s:nil", "s:cons", "s:list", "sym="])
        if k == "sym=":
            return L(S("s:symbol"), ("str", self.g.symbol()))
        if k == "s:integer":
            return L(S(k), S("_"), S("_"))
        if k == "s:nil":
            return L(S(k))
        if k == "s:cons":
            return L(S(k), S("_"), self.typed(d - 1) if d > 0 and r.random() < 0.4 else S("_"))
        if k == "s:list":
            return L(S(k), *[self.typed(0) if r.random() < 0.4 else S("_") for _ in range(r.randrange(4))])
        return L(S(k), S("_"))

    def fit(self, p, d=1):
        """a tree (of pairs) that the pattern (of pairs) matches"""
        if p == S("_"):
            return pairs(self.tree(d))
        x = head2(p, "unquote")
        if x is None and p[0] == "cons" and p[2] == NIL and head2(p[1], "unquote-splicing") is not None:
            if self.r.random() < 0.75:
                return mk(*[pairs(self.tree(d)) for _ in range(self.r.choice([0, 1, 2, 3, 5]))])
            return pairs(self.tree(d))
        if x is not None:
            return self.fitx(x, d) if x[0] != "sym" else (mk(*[pairs(self.tree(d)) for _ in range(self.r.randrange(4))]) if self.r.random() < 0.5 else pairs(self.tree(d)))
        if p[0] == "cons":
            return ("cons", self.fit(p[1], d), self.fit(p[2], d))
        return p

    def fitx(self, x, d):
        r = self.r
        if x == S("_"):
            return pairs(self.tree(d))
        h, a = x[1][1], elems(x)[1:]
        if h == "let":
            return self.fitx(a[1], d)
        if h == "s:nil":
            return NIL
        if h == "s:cons":
            return ("cons", self.fitx(a[0], d), self.fitx(a[1], d))
        if h == "s:list":
            return mk(*[self.fitx(q, d) for q in a])
        if h == "s:symbol" and a[0][0] == "str":
            return S(a[0][1])
        return {"s:symbol": lambda: S(self.g.symbol()), "s:integer": lambda: ("int", r.getrandbits(r.randrange(1, 64)), False), "s:string": lambda: ("str", self.g.char() * r.randrange(3)),
                "s:char": lambda: ("chr", self.g.char()), "s:bool": lambda: ("bool", r.random() < 0.5)}[h]()

    def spoil(self, p):
        """another tree somewhere"""
        r = self.r
        if p[0] not in ("cons", "nil") and r.random() < 0.7:
            n = self.near(p)
            if n:
                self.tick("near miss")
                return n
        if p[0] != "cons" or r.random() < 0.15:
            return pairs(self.tree(r.choice([0, 0, 1])))
        if p[2] == NIL and r.random() < 0.2:
            self.tick("near miss")
            return r.choice([NIL, ("cons", p[1], mk(p[1])), p[1], ("cons", p[1], S("x"))])
        if r.random() < 0.5:
            return ("cons", self.spoil(p[1]), p[2])
        return ("cons", p[1], self.spoil(p[2]))

    def near(self, p):
        """another atom that looks like it"""
        r = self.r
        k, v = p[0], p[1]
        if k == "int":
            n = [("int", v % 2 ** 64, False), ("str", str(v)), ("int", (v + 1) % 2 ** 63, False), ("int", v % 2 ** 32, False), ("int", (v ^ (1 << r.randrange(63))) % 2 ** 63, False), ("int", -(v % 2 ** 63) or -1, True)]
            if 0 < v < 0x110000 and not 0xd800 <= v < 0xe000:
                n.append(("chr", chr(v)))
        elif k == "sym":
            n = [("str", v), ("sym", v + "x"), ("sym", v.upper()), ("chr", v[0])]
        elif k == "str":
            n = [("str", v + "a"), ("str", v[1:]), ("str", v + "\0"), ("str", v[:-1])]
            if v.isalpha() and v.isascii():
                n.append(("sym", v))
        elif k == "chr":
            n = [("str", v), ("chr", chr(ord(v) ^ 1)), ("chr", chr(ord(v) & 0x7f)), ("int", ord(v), False)]
        elif k == "bool":
            n = [("bool", not v), ("sym", "t"), ("int", int(v), False)]
        else:
            return None
        x = r.choice(n)
        if x[0] == "sym" and (G.NUMBERISH.match(x[1]) or not x[1]):
            return None
        if x[0] == "chr" and 0xd800 <= ord(x[1]) < 0xe000:
            return None
        return x if x != p else None

    def clauses(self):
        """-> [(pattern tree of pairs, template tree of pairs)]"""
        r = self.r
        cs, base = [], None
        for i in range(r.choice([1, 1, 2, 3])):
            vs = []
            if base is not None and r.random() < 0.5:
                p = base        # the same shape again with one part changed
                p = self.spoilpat(p, vs)
            else:
                p = pairs(core(self.pattern(r.choice([1, 2, 3]), vs)))
            base = p
            n = normal(p)
            if n is None or any(covers(normal(q), n) for q, _ in cs):
                continue        # the language refuses clauses that can match nothing more
            vs = sorted(set(self.vars(p)))
            t = pairs(core(self.template(r.choice([1, 2, 3, 4]), vs)))
            if t[0] == "cons" and head2(t[1], "unquote-splicing") is not None and t[2] == NIL:
                t = ("cons", S("list"), t)
            cs.append((p, t))
        return cs or self.clauses()

    def vars(self, p):
        x = head2(p, "unquote")
        if x is None and p[0] == "cons" and p[2] == NIL:
            x = head2(p[1], "unquote-splicing")
        if x is not None:
            if x[0] == "sym":
                return [x[1]]
            e = elems(x)
            return [e[1][1]] if e and e[0] == S("let") else []
        if p[0] == "cons":
            return self.vars(p[1]) + self.vars(p[2])
        return []

    def spoilpat(self, p, vs):
        if p[0] != "cons" or head2(p, "unquote") is not None or head2(p[1], "unquote-splicing") is not None or self.r.random() < 0.2:
            n = pairs(core(self.pattern(1, vs)))
            return n
        if self.r.random() < 0.5:
            q = self.spoilpat(p[1], vs)
            return ("cons", q, p[2])
        q = self.spoilpat(p[2], vs)
        return ("cons", p[1], q)


def apply(cs, t):
    """-> (index of the clause, result) or None"""
    for i, (p, tm) in enumerate(cs):
        b = {}
        if pmatch(p, t, b):
            return i, qq(tm, lambda y: evsx(y, b))
    return None


# ---------------------------------------------------------------- macros that make code
OPS = r'''
(export ad sb mx lt tr)
(function (ad a b) {(-> I64 I64 I64)} (+ a b))
(function (sb a b) {(-> I64 I64 I64)} (- a b))
(function (mx a b) {(-> I64 I64 I64)} (- (* a 3) b))
(function (lt a b) {(-> I64 I64 Bool)} (< a b))
(function (tr a) {(-> I64 I64)} (begin (print! (string "<" a ">")) a))
'''


class Code:
    """macros over code: the program is a tree, the model expands it textually and evaluates it"""

    def __init__(self, r):
        self.r = r
        self.fresh = 0
        self.macros = {}        # name -> dict(params, rest, gens, template (pairs), module)
        self.expansions = 0
        self.count = {}

    def tick(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    # -- generating macros
    def macro(self, name, earlier, helpers):
        r = self.r
        params = ["p%d" % i for i in range(r.choice([1, 1, 2, 2, 3]))]
        gens = ["g%d" % i for i in range(r.choice([0, 0, 1, 1, 2]))]
        kind = r.choice(["plain", "plain", "plain", "rest", "recur"])
        self.macros[name] = m = {"params": params, "gens": gens, "kind": kind}
        holes = list(params)

        def e(d, env, gn):
            """code with holes: env = names of locals in the template"""
            x = r.random()
            if x < 0.4 or d <= 0:
                k = r.random()
                if k < 0.65:
                    self.tick("argument used")
                    return L(S("unquote"), S(r.choice(holes)))
                if k < 0.85 and env:
                    return S(r.choice(env))
                if gn and k < 0.95:
                    return L(S("unquote"), S(r.choice(gn)))
                return ("int", r.randrange(10), False)
            if x < 0.6:
                return L(S(r.choice(["ad", "sb", "mx"])), e(d - 1, env, gn), e(d - 1, env, gn))
            if x < 0.72:
                v = r.choice(["x", "y", "t"])       # may capture what the argument means
                self.tick("local of the template")
                return L(S("let"), L(L(S(v), e(d - 1, env, gn))), e(d - 1, env + [v], gn))
            if x < 0.86 and len(gn) < len(gens):
                g = gens[len(gn)]
                self.tick("generated name")
                return L(S("let"), L(L(L(S("unquote"), S(g)), e(d - 1, env, gn))), e(d - 1, env, gn + [g]))
            if x < 0.92:
                h = r.choice(helpers)
                if r.random() < 0.6:
                    self.tick("captured function")
                    return L(L(S("unquote"), L(S("capture"), S(h))), e(d - 1, env, gn))
                return L(S(h), e(d - 1, env, gn))
            if x < 0.97 and earlier:
                o = r.choice(earlier)
                n = len(self.macros[o]["params"]) + (r.randrange(3) if self.macros[o]["kind"] != "plain" else 0)
                hd = S(o)
                if r.random() < 0.6:
                    self.tick("captured macro")
                    hd = L(S("unquote"), L(S("capture"), S(o)))
                return L(hd, *[e(d - 2, env, gn) for _ in range(n)])
            return L(S("if"), L(S("lt"), e(d - 1, env, gn), e(d - 1, env, gn)), e(d - 1, env, gn), e(d - 1, env, gn))
        m["template"] = pairs(e(r.choice([2, 3, 3, 4]), [], []))
        if kind == "rest":
            # what remains is folded with a function
            m["template"] = pairs(L(S("ad"), unpairs(m["template"]), L(L(S("unquote"), L(S("capture"), S(name + "-fold"))), L(S("unquote-splicing"), S("ps")))))
        if kind == "recur":
            hd = S(name) if r.random() < 0.5 else L(S("unquote"), L(S("capture"), S(name)))
            m["step"] = pairs(L(S("mx"), unpairs(m["template"]), L(hd, *([L(S("unquote"), S("p%d" % i)) for i in range(1, len(params))]), L(S("unquote-splicing"), S("ps")))))
        return m

    def source(self, name, text):
        m = self.macros[name]
        ps = " ".join("," + p for p in m["params"])
        lets = "".join("[%s (gensym)] " % g for g in m["gens"])
        q = lambda t: ("(let (%s) (ok `%s))" % (lets, text(unpairs(t)))) if lets else "(ok `%s)" % text(unpairs(t))
        if m["kind"] == "plain":
            return "(macro (%s s) (s/match s [(_ %s) %s] [_ (err \"bad use of %s\")]))" % (name, ps, q(m["template"]), name)
        if m["kind"] == "rest":
            return ("(macro (%s s) (s/match s [(_ %s ,@ps) %s] [_ (err \"bad use of %s\")]))" % (name, ps, q(m["template"]), name) +
                    "\n(macro (%s-fold s) (s/match s [(_) (ok '0)] [(_ ,x ,@xs) (ok `(sb ,x (,\\%s-fold ,@xs)))] [_ (err \"fold\")]))" % (name, name))
        return "(macro (%s s) (s/match s [(_ %s) %s] [(_ %s ,@ps) %s] [_ (err \"bad use of %s\")]))" % (name, ps, q(m["template"]), ps, q(m["step"]), name)

    # -- the model
    def expand(self, name, args):
        """pairs -> pairs"""
        self.expansions += 1
        if self.expansions > 3000:
            raise OverflowError
        if name.endswith("-fold"):
            if not args:
                return ("int", 0, False)
            return pairs(("list", [S("sb"), unpairs_u(args[0]), ("list", [("use", name)] + [unpairs_u(a) for a in args[1:]], None)], None))
        m = self.macros[name]
        n = len(m["params"])
        b = dict(zip(m["params"], args))
        for g in m["gens"]:
            self.fresh += 1
            b[g] = S(" gen%d" % self.fresh)
        b["ps"] = mk(*args[n:])
        t = m["template"]
        if m["kind"] == "recur" and len(args) > n:
            t = m["step"]
        return qq(t, lambda y: evsx(y, b))

    def ev(self, t, env, helpers, trace):
        """env: name -> value; helpers: (name, captured) -> function"""
        k = t[0]
        if k == "int":
            return t[1]
        if k == "sym":
            return env[t[1]]
        h, a = t[1], elems(t)[1:]
        cap = h[0] == "use"
        n = h[1]
        if n in self.macros or n.endswith("-fold"):
            return self.ev(self.expand(n, a), env, helpers, trace)
        if n == "let":
            b, body = elems(a[0]), a[1]
            new = dict(env)
            for d in b:
                q = elems(d)
                new[q[0][1]] = self.ev(q[1], env, helpers, trace)
            return self.ev(body, new, helpers, trace)
        if n == "if":
            return self.ev(a[1] if self.ev(a[0], env, helpers, trace) else a[2], env, helpers, trace)
        v = [self.ev(x, env, helpers, trace) for x in a]
        if n == "ad":
            x = v[0] + v[1]
        elif n == "sb":
            x = v[0] - v[1]
        elif n == "mx":
            x = v[0] * 3 - v[1]
        elif n == "lt":
            return v[0] < v[1]
        elif n == "tr":
            trace.append("<%d>" % v[0])
            return v[0]
        else:
            c = helpers[(n, cap)]
            x = v[0] * c[0] + c[1]
        if abs(x) > 2 ** 60:
            raise OverflowError
        return x

    # -- uses
    def use(self, d, env, helpers):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.25:
            k = r.random()
            if k < 0.4 and env:
                return S(r.choice(env))
            if k < 0.65:
                return L(S("tr"), ("int", r.randrange(10), False))
            return ("int", r.randrange(100), False)
        if x < 0.65:
            o = r.choice(list(self.macros))
            m = self.macros[o]
            n = len(m["params"]) + (r.randrange(4) if m["kind"] != "plain" else 0)
            self.tick("use of " + m["kind"])
            return L(S(o), *[self.use(d - 1, env, helpers) for _ in range(n)])
        if x < 0.8:
            return L(S(r.choice(["ad", "sb", "mx"])), self.use(d - 1, env, helpers), self.use(d - 1, env, helpers))
        if x < 0.93:
            v = r.choice(["x", "y", "t", "z"])
            return L(S("let"), L(L(S(v), self.use(d - 1, env, helpers))), self.use(d - 1, env + [v], helpers))
        return L(S(r.choice(helpers)), self.use(d - 1, env, helpers))


def unpairs_u(p):
    return unpairs(p)
