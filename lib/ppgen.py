"""Texts with preprocessor directives, and a model of what they expand to."""
import readgen as G

DIRECTIVES = ("$symbol", "$let", "$let1", "$for", "$for1", "$when", "$not", "$feature")
S = lambda x: ("sym", x)


def L(*x):
    return ("list", list(x), None)


def guard(items):
    """a list of these: a variable of a directive's name at the head would make it that directive"""
    if items and items[0][0] == "sym" and items[0][1] in DIRECTIVES:
        items = [L(S("$when"), ("bool", True), items[0])] + list(items[1:])
    return list(items)


def Q(*x):
    return ("list", guard(x), None)


class Bad(Exception):
    """what an expansion is refused with"""


def core(t):
    """without sugar, tails that are lists continued"""
    k = t[0]
    if k == "list":
        items = [core(x) for x in t[1]]
        tail = core(t[2]) if t[2] else None
        if tail and tail[0] == "list":
            items, tail = items + tail[1], tail[2]
        if not items and tail:
            return tail
        return ("list", items, tail)
    if k == "sugar":
        return L(S(G.SUGAR[t[1]]), core(t[2]))
    if k == "try":
        return L(S("try" + t[1]), core(t[2]))
    if k == "ann":
        return L(S("annotate"), core(t[1]), *[core(x) for x in t[2]])
    return t


class Model:
    def __init__(self, features):
        self.features = features
        self.steps = {}

    def count(self, k):
        self.steps[k] = self.steps.get(k, 0) + 1

    def seq(self, ts, env):
        r = []
        for t in ts:
            r += self.expand(t, env)
        return r

    def one(self, t, env, place):
        r = self.expand(t, env)
        if len(r) != 1:
            raise Bad("Expansion disallowed at " + place)
        return r[0]

    def expand(self, t, env):
        """env: name -> expanded core tree, never changed in place"""
        if t[0] == "sym" and t[1].startswith("$"):
            if t[1] not in env:
                raise Bad("Undefined meta variable: " + t[1])
            self.count("variable")
            return [env[t[1]]]
        if t[0] != "list":
            return [t]
        items, tail = t[1], t[2]
        if tail is None and items and items[0][0] == "sym" and items[0][1] in DIRECTIVES:
            self.count(items[0][1])
            return getattr(self, "d_" + items[0][1][1:])(items[1:], env)
        r = self.seq(items, env)
        if tail is None:
            return [("list", r, None)]
        tail = self.one(tail, env, "cdr of cons cell")
        return [core(("list", r, tail)) if r else tail]

    def bind(self, env, names, values):
        e = dict(env)
        for n, v in zip(names, values):
            if n != "_":
                e[n] = v
        return e

    @staticmethod
    def var(t):
        return t[0] == "sym" and (t[1].startswith("$") or t[1] == "_")

    def syntax(self, what):
        raise Bad("Directive syntax error: expected " + what)

    def d_symbol(self, a, env):
        name = ""
        for t in self.seq(a, env):
            if t[0] not in ("sym", "str", "chr"):
                self.syntax("($symbol <symbol or string or char>...)")
            name += t[1]
        if not name:
            raise Bad("Empty symbol")
        return [S(name)]

    def d_let(self, a, env):
        if not a or a[0][0] != "list" or a[0][2]:
            self.syntax("($let ")
        names, values = [], []
        for b in a[0][1]:
            if b[0] != "list" or b[2] or len(b[1]) != 2 or not self.var(b[1][0]):
                self.syntax("($let ")
            names.append(b[1][0][1])
            values.append(self.one(b[1][1], env, "$let bind expression"))
        return self.seq(a[1:], self.bind(env, names, values))

    def d_let1(self, a, env):
        if len(a) < 2 or not self.var(a[0]):
            self.syntax("($let1 ")
        return self.seq(a[2:], self.bind(env, [a[0][1]], [self.one(a[1], env, "$let1 expression")]))

    def d_for(self, a, env):
        if len(a) < 2 or a[0][0] != "list" or a[0][2]:
            self.syntax("($for ")
        rows = self.one(a[1], env, "$for elements")
        if rows[0] != "list" or rows[2] or not all(self.var(n) for n in a[0][1]):
            self.syntax("($for ")
        r = []
        for x in rows[1]:
            if x[0] != "list" or x[2] or len(x[1]) != len(a[0][1]):
                self.syntax("($for ")
        for x in rows[1]:
            r += self.seq(a[2:], self.bind(env, [n[1] for n in a[0][1]], x[1]))
        return r

    def d_for1(self, a, env):
        if len(a) < 2 or not self.var(a[0]):
            self.syntax("($for1 ")
        rows = self.one(a[1], env, "$for1 elements")
        if rows[0] != "list" or rows[2]:
            self.syntax("($for1 ")
        r = []
        for x in rows[1]:
            r += self.seq(a[2:], self.bind(env, [a[0][1]], [x]))
        return r

    def d_when(self, a, env):
        if not a:
            self.syntax("($when ")
        v = self.one(a[0], env, "$when condition")
        if v[0] != "bool":
            self.syntax("($when ")
        return self.seq(a[1:], env) if v[1] else []

    def d_not(self, a, env):
        if len(a) != 1:
            self.syntax("($not ")
        v = self.one(a[0], env, "$not condition")
        if v[0] != "bool":
            self.syntax("($not ")
        return [("bool", not v[1])]

    def d_feature(self, a, env):
        if len(a) != 1:
            self.syntax("($feature ")
        v = self.one(a[0], env, "$feature string")
        if v[0] != "str":
            self.syntax("($feature ")
        return [("bool", v[1] in self.features)]


NAMES = ["$a", "$b", "$c", "$x", "$a", "$b", "$", "$$", "$x-1", "$let2", "$when", "$for", "$a.b", "$+", "$0"]


class Gen:
    def __init__(self, r, features, plain=None):
        self.r = r
        self.g = plain or G.Gen(r)
        self.features = features

    # env: name -> kind of its value, one of "any", "bool", "str", "name", "list", ("rows", n)
    def vars(self, env, *kinds):
        return [n for n, k in env.items() if k in kinds]

    def name(self):
        return self.r.choice(NAMES) if self.r.random() < 0.95 else "_"

    def of_kind(self, kind, d, env):
        return {"any": self.one, "bool": self.boolean, "str": self.string, "name": self.namelike, "list": self.lst}[kind](d, env) if isinstance(kind, str) else self.rows(kind[1], d, env)

    def kind(self):
        r = self.r
        return r.choice(["any", "any", "bool", "str", "name", "list", "list", ("rows", r.randrange(0, 4))])

    def wrapped(self, d, env, f):
        """one form, perhaps produced through a directive"""
        r = self.r
        k = r.randrange(5)
        if k == 0:
            return L(S("$when"), self.boolean_is(True), *self.gone(env), f(d - 1, env))
        if k == 1:
            n, kd = self.name(), self.kind()
            return L(S("$let1"), S(n), self.of_kind(kd, d - 1, env), f(d - 1, self.extend(env, n, kd)))
        if k == 2:
            n, kd = self.name(), self.kind()
            return L(S("$for1"), S(n), Q(self.of_kind(kd, d - 1, env)), f(d - 1, self.extend(env, n, kd)))
        if k == 3:
            b, e = self.binds(d - 1, env)
            return L(S("$let"), b, f(d - 1, e), *self.gone(e))
        b, e, row = self.names(d, env)
        return L(S("$for"), b, L(row), *self.gone(e), f(d - 1, e))

    def extend(self, env, n, k):
        if n == "_":
            return env
        e = dict(env)
        e[n] = k
        return e

    def binds(self, d, env):
        e, bs = env, []
        for _ in range(self.r.choice([0, 1, 2, 2, 3])):
            n, k = self.name(), self.kind()
            bs.append(L(S(n), self.of_kind(k, d - 1, env)))
            e = self.extend(e, n, k)
        return L(*bs), e

    def names(self, d, env):
        e, ns, row = env, [], []
        for _ in range(self.r.choice([0, 1, 2, 3])):
            n, k = self.name(), self.kind()
            ns.append(S(n))
            row.append(self.of_kind(k, d - 2, env))
            e = self.extend(e, n, k)
        return L(*ns), e, Q(*row)

    def gone(self, env):
        """something that leaves nothing behind, whatever it contains"""
        r = self.r
        if r.random() < 0.8:
            return []
        junk = r.choice([S("$undefined"), L(S("$let")), L(S("$symbol")), L(S("$not"), L()), ("list", [S("$when")], S("$nope")), L(S("$for1"), S("$x")), L(S("$feature"), S("$nope"))])
        k = r.randrange(4)
        if k == 0:
            return [L(S("$when"), self.boolean_is(False), junk)]
        if k == 1:
            return [L(S("$for1"), S(self.name()), L(), junk)]
        if k == 2:
            return [L(S("$for"), L(*[S(self.name()) for _ in range(r.randrange(3))]), L(), junk)]
        b, e = self.binds(1, env)
        return [L(S("$let"), b)]

    def boolean_is(self, v):
        r = self.r
        k = r.randrange(4)
        if k == 0:
            return L(S("$not"), self.boolean_is(not v))
        if k == 1 and (v and self.features or not v):
            return L(S("$feature"), ("str", r.choice(sorted(self.features)) if v else r.choice(["", "nope", "FA", "f", "fa ", "x-f", "fab"])))
        return ("bool", v)

    def boolean(self, d, env):
        r = self.r
        vs = self.vars(env, "bool")
        if vs and r.random() < 0.4:
            return S(r.choice(vs))
        if d > 0 and r.random() < 0.3:
            return L(S("$not"), self.boolean(d - 1, env))
        if d > 0 and r.random() < 0.3:
            return L(S("$feature"), self.string(d - 1, env))
        if d > 0 and r.random() < 0.2:
            return self.wrapped(d, env, self.boolean)
        return self.boolean_is(r.random() < 0.5)

    def string(self, d, env):
        r = self.r
        vs = self.vars(env, "str")
        if vs and r.random() < 0.4:
            return S(r.choice(vs))
        if d > 0 and r.random() < 0.2:
            return self.wrapped(d, env, self.string)
        return ("str", r.choice(sorted(self.features) + ["fa", "fb", "fc", "", "d e", "$a"]))

    def namelike(self, d, env):
        r = self.r
        vs = self.vars(env, "name", "str")
        if vs and r.random() < 0.5:
            return S(r.choice(vs))
        if d > 0 and r.random() < 0.3:
            parts = [self.namelike(d - 1, env) for _ in range(r.choice([1, 2, 2, 3]))]
            if r.random() < 0.2:
                # the sequence is spliced before the names are joined
                n = self.name()
                parts.append(L(S("$for1"), S(n), L(*[self.namelike(d - 2, env) for _ in range(r.randrange(4))]), S("and"), *([S(n)] if n != "_" else [])))
            return L(S("$symbol"), *([("str", "")] if r.random() < 0.1 else []), S("q"), *parts)
        if d > 0 and r.random() < 0.2:
            return self.wrapped(d, env, self.namelike)
        k = r.randrange(4)
        return S(self.g.symbol()) if k < 2 else ("chr", self.g.char()) if k == 2 else ("str", r.choice(["", "$", "$a", "x y", "\u8a71", "5", "let"]))

    def lst(self, d, env):
        r = self.r
        vs = [n for n, k in env.items() if k == "list" or isinstance(k, tuple)]
        if vs and r.random() < 0.4:
            return S(r.choice(vs))
        if d > 0 and r.random() < 0.25:
            return self.wrapped(d, env, self.lst)
        items = guard(self.some(d - 1, env))
        if vs and r.random() < 0.1 and items:
            return ("list", items, S(r.choice(vs)))
        return L(*items)

    def rows(self, n, d, env):
        r = self.r
        vs = self.vars(env, ("rows", n))
        if vs and r.random() < 0.4:
            return S(r.choice(vs))
        if d > 0 and r.random() < 0.2:
            return self.wrapped(d, env, lambda d, env: self.rows(n, d, env))
        out = []
        for _ in range(r.choice([0, 1, 2, 3])):
            row = [self.one(d - 1, env) for _ in range(n)]
            out.append(Q(*row))
        return L(*out)

    def one(self, d, env):
        r = self.r
        if env and r.random() < 0.35:
            return S(r.choice(list(env)))
        if d <= 0:
            return self.g.tree(0)
        k = r.randrange(12)
        if k < 2:
            return self.wrapped(d, env, self.one)
        if k < 6:
            return self.lst(d, env)
        if k == 6:
            return self.of_kind(self.kind(), d, env)
        if k == 7:
            items = guard(self.some(d - 1, env))
            if not items:
                return self.g.tree(0)
            return ("list", items, self.tail(d - 1, env))
        if k == 8:
            return ("sugar", r.choice(list(G.SUGAR)), self.one(d - 1, env))
        if k == 9:
            return ("try", r.choice("?!"), self.one(d - 1, env))
        if k == 10:
            return ("ann", self.one(d - 1, env), self.some(d - 2, env))
        return self.g.tree(r.randrange(3))

    def tail(self, d, env):
        """what may follow a dot: a directive there is only more of the list"""
        t = self.one(d, env)
        x = core(t)
        if x[0] == "list" and x[1] and x[1][0][0] == "sym" and x[1][0][1] in DIRECTIVES:
            return S(self.r.choice(list(env))) if env else self.g.tree(0)
        return t

    def some(self, d, env):
        """any number of forms"""
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            if d <= 0 or r.random() < 0.5:
                out.append(self.one(d, env))
                continue
            out += self.gone(env)
            k = r.randrange(6)
            if k == 0:
                out.append(L(S("$when"), self.boolean(d - 1, env), *self.some(d - 1, env)))
            elif k == 1:
                n, kd = self.name(), self.kind()
                out.append(L(S("$let1"), S(n), self.of_kind(kd, d - 1, env), *self.some(d - 1, self.extend(env, n, kd))))
            elif k == 2:
                b, e = self.binds(d - 1, env)
                out.append(L(S("$let"), b, *self.some(d - 1, e)))
            elif k == 3:
                n, kd = self.name(), self.kind()
                xs = Q(*[self.of_kind(kd, d - 1, env) for _ in range(r.randrange(4))])
                out.append(L(S("$for1"), S(n), xs, *self.some(d - 1, self.extend(env, n, kd))))
            elif k == 4:
                n = r.randrange(0, 4)
                rows = self.rows(n, d - 1, env)
                names = [self.name() for _ in range(n)]
                e = env
                for x in names:
                    e = self.extend(e, x, "any")
                out.append(L(S("$for"), L(*[S(x) for x in names]), rows, *self.some(d - 1, e)))
            else:
                vs = self.vars(env, "list")
                n = self.name()
                out.append(L(S("$for1"), S(n), S(r.choice(vs)) if vs else Q(self.one(0, env), S("k")), *self.some(d - 1, self.extend(env, n, "any"))))
        return out

    def fault(self, env):
        """a form that is refused wherever it is expanded -> form, the part the error is about (or of which it is a part), exact?"""
        r = self.r
        one = lambda: self.g.tree(0)
        k = r.randrange(4)
        if k == 0:
            bad = S(r.choice(["$undefined", "$aa", "$y", "$let1x", "$A"]))
            return bad, bad, True
        if k == 1:
            many = r.choice([L(S("$for1"), S("$q"), L(one(), one()), S("$q")), L(S("$when"), ("bool", False), one()), L(S("$when"), ("bool", True), one(), one()), L(S("$let"), L()), L(S("$let1"), S("$q"), one()),
                             L(S("$for"), L(S("$q")), L(L(one()), L(one()), L(one())), S("k")), L(S("$for"), L(), L())])
            f = r.randrange(8)
            form = [lambda: L(S("$let"), L(L(S("$v"), many)), S("$v")), lambda: L(S("$let1"), S("$v"), many, S("$v")), lambda: L(S("$for"), L(S("$v")), many, S("$v")), lambda: L(S("$for1"), S("$v"), many, one()),
                    lambda: L(S("$when"), many, one()), lambda: L(S("$not"), many), lambda: L(S("$feature"), many), None][f]
            if form is None:
                # after a dot a list only continues the list: the tail has to be something else; only a quoted one stays one form, so there is none to be had
                form = lambda: L(S("$let1"), S("$v"), many, S("$v"))
            return form(), many, True
        if k == 2:
            bad = r.choice([L(S("$symbol")), L(S("$symbol"), ("str", "")), L(S("$symbol"), L(S("$when"), ("bool", False), S("a"))), L(S("$symbol"), ("str", ""), ("str", ""))])
            return bad, bad, True
        v = S("$v")
        bad = r.choice([
            L(S("$let")), L(S("$let"), S("x"), one()), L(S("$let"), L(S("$v"), ("int", 1, False)), v), L(S("$let"), L(L(S("v"), ("int", 1, False))), one()), L(S("$let"), L(L(v)), one()),
            L(S("$let"), L(L(v, one(), one())), one()), L(S("$let"), L(L(("str", "$v"), one())), one()),
            L(S("$let1")), L(S("$let1"), v), L(S("$let1"), S("v"), one(), one()), L(S("$let1"), L(v), one(), one()), L(S("$let1"), ("int", 3, False), one()),
            L(S("$for")), L(S("$for"), L(v)), L(S("$for"), v, L(), one()), L(S("$for"), L(S("v")), L(), one()), L(S("$for"), L(v), L(L(S("k"), one())), v), L(S("$for"), L(v), L(L()), v), L(S("$for"), L(v), L(S("a")), v),
            L(S("$for"), L(v, S("_")), L(L(S("k"), one()), L(S("k"))), v), L(S("$for"), L(v), S("a"), v), L(S("$for"), L(v, v), ("str", "ab"), v),
            L(S("$for1")), L(S("$for1"), v), L(S("$for1"), S("v"), L(), one()), L(S("$for1"), v, S("a"), v), L(S("$for1"), v, ("list", [S("a")], S("b")), v), L(S("$for1"), L(v), L(), v),
            L(S("$when")), L(S("$when"), S("t")), L(S("$when"), ("int", 1, False), one()), L(S("$when"), L(), one()), L(S("$when"), ("str", "fa"), one()),
            L(S("$not")), L(S("$not"), ("bool", True), ("bool", False)), L(S("$not"), ("int", 0, False)), L(S("$not"), S("f")),
            L(S("$feature")), L(S("$feature"), S("fa")), L(S("$feature"), ("str", "fa"), ("str", "fb")), L(S("$feature"), ("bool", True)), L(S("$feature"), ("chr", "f")),
            L(S("$symbol"), ("int", 1, False)), L(S("$symbol"), S("a"), L()), L(S("$symbol"), ("bool", True), S("a")), L(S("$symbol"), S("a"), ("flt", "1.5")),
        ])
        return bad, bad, False
