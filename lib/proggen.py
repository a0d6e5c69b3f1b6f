"""Random well-typed llrl programs together with a reference interpretation.

Every generated expression is a pair (source text, python function env -> value).  The python side is
the oracle: it is written from the language's documented meaning, not from the compiler.
Evaluations that leave the defined domain (signed overflow, division by zero, out of range float to
integer conversion) raise Undef and the test is thrown away, because the language leaves them open.
"""
import math, struct


class Undef(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Fuel(Exception):
    pass


INTS = ["I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64"]
FLOATS = ["F32", "F64"]
BITS = {t: int(t[1:]) for t in INTS}


def is_int(t): return t in BITS
def signed(t): return t[0] == "I"
def lo(t): return -(1 << (BITS[t] - 1)) if signed(t) else 0
def hi(t): return (1 << (BITS[t] - 1)) - 1 if signed(t) else (1 << BITS[t]) - 1


def wrap(t, v):
    v &= (1 << BITS[t]) - 1
    if signed(t) and v >> (BITS[t] - 1):
        v -= 1 << BITS[t]
    return v


def arith(t, v):
    if signed(t):
        if not lo(t) <= v <= hi(t):
            raise Undef
        return v
    return wrap(t, v)


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def fround(t, x):
    return f32(x) if t == "F32" else x


def fdiv(a, b):
    if b == 0:
        if a != a or a == 0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def frem(a, b):
    if b == 0 or a in (math.inf, -math.inf) or a != a or b != b:
        return math.nan
    return math.fmod(a, b)


def fmul(a, b):
    return a * b


def fbits(t, x):
    if x != x:
        return "nan"
    if t == "F32":
        return str(struct.unpack("I", struct.pack("f", x))[0])
    return str(struct.unpack("Q", struct.pack("d", x))[0])


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def tmod(a, b):
    return a - b * tdiv(a, b)


class Data:
    """A data declaration. cons: list of (name, [field types] or None)."""

    def __init__(self, name, params, repr_, cons):
        self.name, self.params, self.repr, self.cons = name, params, repr_, cons

    def src(self):
        head = "(%s %s)" % (self.name, " ".join(self.params)) if self.params else self.name
        cs = []
        for c, fs in self.cons:
            cs.append(c if fs is None else "(%s%s)" % (c, "".join(" " + tsrc(f) for f in fs)))
        return "(%s %s %s)" % (self.repr, head, " ".join(cs))


OPTION = Data("Option", ["A"], "builtin", [("some", ["A"]), ("none", None)])
RESULT = Data("Result", ["T", "E"], "builtin", [("ok", ["T"]), ("err", ["E"])])


def tsrc(t):
    if isinstance(t, str):
        return t
    k = t[0]
    if k == "tup":
        return "(: %s)" % " ".join(map(tsrc, t[1]))
    if k == "data":
        return t[1] if not t[2] else "(%s %s)" % (t[1], " ".join(map(tsrc, t[2])))
    if k == "fun":
        return "(-> %s)" % " ".join(map(tsrc, list(t[1]) + [t[2]]))
    if k == "ref":
        return "(Ref %s)" % tsrc(t[1])
    if k == "box":
        return "(Box %s)" % tsrc(t[1])
    if k == "arr":
        return "(Array %s)" % tsrc(t[1])
    raise AssertionError(t)


def subst(t, m):
    if isinstance(t, str):
        return m.get(t, t)
    k = t[0]
    if k == "tup":
        return ("tup", tuple(subst(x, m) for x in t[1]))
    if k == "data":
        return ("data", t[1], tuple(subst(x, m) for x in t[2]))
    if k == "fun":
        return ("fun", tuple(subst(x, m) for x in t[1]), subst(t[2], m))
    return (k, subst(t[1], m))


def useful(rows, q, types, cons_of):
    """Is pattern row q useful w.r.t. rows?  (textbook Maranget, independent of the compiler)"""
    if not q:
        return not rows
    h, t = q[0], types[0]
    if h[0] == "con":
        ar = [subst_fields for subst_fields in h[3]]
        r2 = []
        for r in rows:
            if r[0][0] == "con":
                if r[0][1] == h[1]:
                    r2.append(list(r[0][2]) + r[1:])
            else:
                r2.append([("wild",)] * len(h[2]) + r[1:])
        return useful(r2, list(h[2]) + q[1:], list(ar) + types[1:], cons_of)
    if h[0] == "lit":
        r2 = [r[1:] for r in rows if r[0][0] == "wild" or (r[0][0] == "lit" and r[0][1] == h[1])]
        return useful(r2, q[1:], types[1:], cons_of)
    allc = cons_of(t)
    used = {r[0][1] for r in rows if r[0][0] in ("con", "lit")}
    if allc is not None and used >= {c for c, _ in allc}:
        for c, fts in allc:
            if useful(rows, [("con", c, [("wild",)] * len(fts), fts)] + q[1:], types, cons_of):
                return True
        return False
    r2 = [r[1:] for r in rows if r[0][0] == "wild"]
    return useful(r2, q[1:], types[1:], cons_of)


class Gen:
    def __init__(self, rng, profile="mixed"):
        self.rng = rng
        self.p = profile
        self.n = 0
        self.decls = []          # top-level source in order
        self.datas = {"Option": OPTION, "Result": RESULT}
        self.user_datas = []
        self.funcs = []          # (name, [arg types], ret, pyfn)  monomorphic
        self.gfuncs = []         # generic: (name, tparams, [arg], ret, pyfn)
        self.shows = {}
        self.show_decls = []
        self.trace = []
        self.steps = 0
        self.pure = 0
        self.ret_stack = []
        self.features = {}
        self.transparent = set()

    # ---- helpers
    def fresh(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def feat(self, f):
        self.features[f] = self.features.get(f, 0) + 1

    def step(self):
        self.steps += 1
        if self.steps > 60000:
            raise Fuel

    def cons_of(self, t):
        if t == "Bool":
            return [("#t", []), ("#f", [])]
        if t == "unit":
            return [("unit", [])]
        if isinstance(t, tuple):
            if t[0] == "tup":
                return [(":", list(t[1]))]
            if t[0] == "data":
                d = self.datas[t[1]]
                m = dict(zip(d.params, t[2]))
                return [(c, [subst(f, m) for f in (fs or [])]) for c, fs in d.cons]
            if t[0] == "box":
                return [("box", [t[1]])]
        return None

    # ---- types
    def scalar(self):
        r = self.rng.random()
        if r < 0.55:
            return self.rng.choice(INTS)
        if r < 0.68:
            return self.rng.choice(FLOATS)
        if r < 0.85:
            return "Bool"
        if r < 0.95:
            return "String"
        if r < 0.98:
            return "Char"
        return "unit"

    def type(self, d=2, fun=True):
        r = self.rng.random()
        if d <= 0 or r < 0.45:
            return self.scalar()
        if r < 0.60:
            return ("tup", tuple(self.type(d - 1, fun) for _ in range(self.rng.randint(1, 4))))
        if r < 0.85:
            if self.user_datas and self.rng.random() < 0.75:
                dd = self.rng.choice(self.user_datas)
            else:
                dd = self.rng.choice([OPTION, RESULT])
            return ("data", dd.name, tuple(self.type(d - 1, fun) for _ in dd.params))
        if r < 0.90:
            return ("box", self.type(d - 1, fun))
        if fun and r < 0.97:
            return ("fun", tuple(self.type(d - 2, False) for _ in range(self.rng.randint(0, 3))), self.type(d - 1, False))
        return self.scalar()

    def gen_data(self):
        r = self.rng
        name = self.fresh("D")
        value = r.random() < 0.5
        params = r.sample(["A", "B"], r.choice([0, 0, 0, 1, 2]))
        params.sort()
        shape = r.random()
        recursive = False

        def fty(d=1):
            if params and r.random() < 0.5:
                return r.choice(params)
            return self.type(d, True)
        cons = []
        if shape < 0.22:      # pure enum
            n = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33]) if r.random() < 0.9 else r.choice([64, 65, 128, 129, 255, 256, 257, 258, 300, 513])
            cons = [(self.fresh("c"), None) for _ in range(n)]
        elif shape < 0.45:    # struct
            cons = [(self.fresh("c"), [fty() for _ in range(r.randint(0, 5))])]
        else:
            n = r.randint(2, 6) if r.random() < 0.93 else r.choice([7, 8, 9, 10, 12, 17, 20])
            for _ in range(n):
                k = r.random()
                if k < 0.3:
                    cons.append((self.fresh("c"), None))
                else:
                    cons.append((self.fresh("c"), [fty() for _ in range(r.randint(0, 4))]))
            if not value and r.random() < 0.5:
                recursive = True
                i = r.randrange(n)
                self_t = ("data", name, tuple(params))
                fs = list(cons[i][1] or [])
                fs.insert(r.randint(0, len(fs)), self_t)
                if r.random() < 0.3:
                    fs.insert(r.randint(0, len(fs)), self_t)
                cons[i] = (cons[i][0], fs)
                if all(any(f == self_t for f in (c[1] or [])) for c in cons):
                    cons.append((self.fresh("c"), None))
        d = Data(name, params, "value-data" if value else "data", cons)
        d.recursive = recursive
        self.datas[name] = d
        self.user_datas.append(d)
        self.decls.append(d.src())
        self.feat("data:" + d.repr)

    # ---- showing values: emits "text" through print!, python mirror
    def show(self, t):
        if t in self.shows:
            return self.shows[t]
        name = self.fresh("show")
        self.shows[t] = name
        out = lambda *xs: "(out! (string %s))" % " ".join(xs)
        if is_int(t):
            body = out("x", '" "')
        elif t == "F64":
            body = '(if (eq? x x) %s (out! "nan "))' % out("(annotate (reinterpret x) U64)", '" "')
        elif t == "F32":
            body = '(if (eq? x x) %s (out! "nan "))' % out("(annotate (reinterpret x) U32)", '" "')
        elif t == "Bool":
            body = '(if x (out! "#t ") (out! "#f "))'
        elif t in ("String", "Char"):
            body = out('"<"', "x", '"> "')
        elif t == "unit":
            body = '(out! "u ")'
        elif t[0] == "fun":
            body = '(out! "fn ")'
        elif t[0] == "ref":
            body = "(begin (out! \"ref \") (%s ~x))" % self.show(t[1])
        else:
            cl = []
            for c, fts in self.cons_of(t):
                vs = ["p%d" % i for i in range(len(fts))]
                if t[0] == "tup":
                    pat = "(: %s)" % " ".join("(let %s)" % v for v in vs)
                    head = "(: "
                else:
                    isf = t[0] == "box" or dict(self.datas[t[1]].cons)[c] is not None
                    pat = c if not isf else "(%s%s)" % (c, "".join(" (let %s)" % v for v in vs))
                    head = "(%s " % c
                cl.append('[%s (out! "%s") %s (out! ") ")]' % (
                    pat, head, " ".join("(%s %s)" % (self.show(ft), v) for ft, v in zip(fts, vs))))
            body = "(match x %s)" % " ".join(cl)
        self.show_decls.append("(function (%s x) {(-> %s unit)} %s)" % (name, tsrc(t), body))
        return name

    def pyshow(self, t, v):
        if is_int(t):
            return "%d " % v
        if t in FLOATS:
            return fbits(t, v) + " "
        if t == "Bool":
            return "#t " if v else "#f "
        if t in ("String", "Char"):
            return "<%s> " % v
        if t == "unit":
            return "u "
        if t[0] == "fun":
            return "fn "
        if t[0] == "ref":
            return "ref " + self.pyshow(t[1], v[0])
        if t[0] == "tup":
            return "(: " + "".join(self.pyshow(x, y) for x, y in zip(t[1], v)) + ") "
        if t[0] == "box":
            return "(box " + self.pyshow(t[1], v[0]) + ") "
        c, args = v
        fts = dict(self.cons_of(t))[c]
        return "(%s " % c + "".join(self.pyshow(x, y) for x, y in zip(fts, args)) + ") "

    # ---- literals
    def int_lit(self, t):
        r = self.rng
        k = r.random()
        if k < 0.6:
            v = r.randint(max(lo(t), -20), min(hi(t), 20))
        elif k < 0.75:
            v = r.choice([lo(t), hi(t), lo(t) + 1, hi(t) - 1])
        elif k < 0.9:
            v = r.randint(lo(t), hi(t))
        else:
            b = r.randrange(BITS[t])
            v = (1 << b) + r.choice([-1, 0, 1])
            v = min(max(v, lo(t)), hi(t))
        return v

    def float_lit(self, t):
        r = self.rng
        v = r.choice([0.0, 1.0, -1.0, 0.5, 2.0, 1.5, -2.25, 100.0, 0.1, 3.141592653589793, -0.75, 1e10, 1e-5, 65536.5, 123456.789])
        if r.random() < 0.4:
            v = round(r.uniform(-1000, 1000), r.randint(1, 6))
        return v

    def str_lit(self):
        return "".join(self.rng.choice("abcxyzABC019 _-é日") for _ in range(self.rng.choice([0, 1, 2, 3, 5, 9, 20])))

    def lit(self, t, ann=True):
        if is_int(t):
            v = self.int_lit(t)
            return ("(annotate %d %s)" % (v, t)) if ann else str(v), v
        if t in FLOATS:
            x = self.float_lit(t)
            s = repr(x)
            if "e" in s:
                s = "%.10f" % x
                x = float(s)
            return ("(annotate %s %s)" % (s, t)) if ann else s, fround(t, x)
        if t == "Bool":
            b = self.rng.random() < 0.5
            return ("#t" if b else "#f"), b
        if t == "String":
            s = self.str_lit()
            return '"%s"' % s, s
        if t == "Char":
            c = self.rng.choice("abcdxyzABC0189é日")
            return "#\\" + c, c
        if t == "unit":
            return "unit", None
        raise AssertionError(t)

    # ---- expressions.  env: list of (name, type), innermost last
    def vars_of(self, env, t):
        seen = set()
        out = []
        for n, vt in reversed(env):
            if n in seen:
                continue
            seen.add(n)
            if vt == t:
                out.append(n)
        return out

    def visible(self, env):
        seen = {}
        for n, vt in reversed(env):
            seen.setdefault(n, vt)
        return seen

    def expr(self, t, env, d):
        r = self.rng
        cands = self.vars_of(env, t)
        if cands and r.random() < (0.35 if d > 0 else 0.8):
            n = r.choice(cands)
            return n, (lambda e, n=n: e[n])
        if d <= 0:
            return self.leaf(t, env, d)
        k = r.random()
        # generic forms available at every type
        if k < 0.09:
            return self.e_if(t, env, d)
        if k < 0.18:
            return self.e_let(t, env, d)
        if k < 0.22:
            return self.e_begin(t, env, d)
        if k < 0.32:
            return self.e_match(t, env, d)
        if k < 0.37:
            x = self.e_access(t, env, d)
            if x:
                return x
        if k < 0.42:
            x = self.e_callvar(t, env, d)
            if x:
                return x
        if k < 0.50:
            x = self.e_call(t, env, d)
            if x:
                return x
        if k < 0.54:
            return self.e_localfun(t, env, d)
        if k < 0.57:
            return self.e_ref(t, env, d)
        if k < 0.59 and self.ret_stack and self.ret_stack[-1] is not None:
            return self.e_return(t, env, d)
        if k < 0.61:
            return self.e_try(t, env, d)
        if k < 0.63:
            s, f = self.expr(t, env, d - 1)
            return "(annotate %s %s)" % (s, tsrc(t)), f
        if k < 0.65 and self.gfuncs:
            x = self.e_gcall(t, env, d)
            if x:
                return x
        return self.cons(t, env, d)

    def leaf(self, t, env, d):
        if isinstance(t, str):
            s, v = self.lit(t)
            return s, (lambda e, v=v: v)
        return self.cons(t, env, min(d, 0))

    def cons(self, t, env, d):
        r = self.rng
        if is_int(t):
            return self.e_int(t, env, d)
        if t in FLOATS:
            return self.e_float(t, env, d)
        if t == "Bool":
            return self.e_bool(env, d)
        if t == "String":
            return self.e_string(env, d)
        if isinstance(t, str):
            s, v = self.lit(t)
            return s, (lambda e, v=v: v)
        k = t[0]
        if k == "tup":
            xs = [self.expr(x, env, d - 1) for x in t[1]]
            return "(: %s)" % " ".join(s for s, _ in xs), (lambda e: tuple([f(e) for _, f in xs]))
        if k == "box":
            s, f = self.expr(t[1], env, d - 1)
            return "(box %s)" % s, (lambda e: (f(e),))
        if k == "ref":
            s, f = self.expr(t[1], env, d - 1)
            return "(ref %s)" % s, (lambda e: [f(e)])
        if k == "data":
            dd = self.datas[t[1]]
            cs = self.cons_of(t)
            if d <= 0:
                nr = [c for c in cs if not any(self.mentions(ft, t) for ft in c[1])]
                simple = [c for c in nr if len(c[1]) == 0]
                cs = simple if simple and r.random() < 0.7 else (nr or cs)
            c, fts = r.choice(cs)
            xs = [self.expr(x, env, d - 1) for x in fts]
            isf = dict(dd.cons)[c] is not None
            src = "(%s%s)" % (c, "".join(" " + s for s, _ in xs)) if isf else c
            return src, (lambda e, c=c: (c, [f(e) for _, f in xs]))
        if k == "fun":
            return self.e_lambda(t, env, d)
        raise AssertionError(t)

    def mentions(self, t, x):
        if t == x:
            return True
        if isinstance(t, str):
            return False
        if t[0] in ("tup",):
            return any(self.mentions(y, x) for y in t[1])
        if t[0] == "data":
            return t[1] == x[1] or any(self.mentions(y, x) for y in t[2])
        if t[0] == "fun":
            return any(self.mentions(y, x) for y in t[1]) or self.mentions(t[2], x)
        return self.mentions(t[1], x)

    def e_int(self, t, env, d):
        r = self.rng
        if d <= 0:
            s, v = self.lit(t)
            return s, (lambda e, v=v: v)
        k = r.random()
        if k < 0.12:
            s, v = self.lit(t)
            return s, (lambda e, v=v: v)
        if k < 0.45:
            op = r.choice("+-*+-")
            n = r.choice([2, 2, 2, 3])
            xs = [self.expr(t, env, d - 1) for _ in range(n)]
            self.feat("int" + op)

            def f(e):
                vs = [g(e) for _, g in xs]
                a = vs[0]
                for b in vs[1:]:
                    a = arith(t, a + b if op == "+" else a - b if op == "-" else a * b)
                return a
            return "(%s %s)" % (op, " ".join(s for s, _ in xs)), f
        if k < 0.55:
            op = r.choice("/%")
            a = self.expr(t, env, d - 1)
            b = self.expr(t, env, d - 1)
            n = self.fresh("q")
            self.feat("int" + op)

            def f(e):
                y = b[1](e)
                x = a[1](e)
                if y == 0 or y == -1:
                    return x
                return tdiv(x, y) if op == "/" else tmod(x, y)
            bad = "(= %s 0)" % n if not signed(t) else "(or (= %s 0) (= %s -1))" % (n, n)
            if not signed(t):
                def f(e):
                    y = b[1](e)
                    x = a[1](e)
                    if y == 0:
                        return x
                    return tdiv(x, y) if op == "/" else tmod(x, y)
            m = self.fresh("q")
            return "(let ([%s %s] [%s %s]) (if %s %s (%s %s %s)))" % (n, b[0], m, a[0], bad, m, op, m, n), f
        if k < 0.70:
            op = r.choice(["bw&", "bw|", "bw^", "bw!", "bw<<", "bw>>", "popcount"])
            a = self.expr(t, env, d - 1)
            self.feat("bits:" + op)
            if op == "bw!":
                return "(bw! %s)" % a[0], (lambda e: wrap(t, ~a[1](e)))
            if op == "popcount":
                if t == "I8":
                    pass
                return "(popcount %s)" % a[0], (lambda e: wrap(t, bin(a[1](e) & ((1 << BITS[t]) - 1)).count("1")))
            b = self.expr(t, env, d - 1)
            if op in ("bw<<", "bw>>"):
                m = BITS[t] - 1

                def f(e):
                    x = a[1](e)
                    y = b[1](e) & m
                    return wrap(t, x << y) if op == "bw<<" else x >> y
                return "(%s %s (bw& %s %d))" % (op, a[0], b[0], m), f
            import operator
            g = {"bw&": operator.and_, "bw|": operator.or_, "bw^": operator.xor}[op]
            return "(%s %s %s)" % (op, a[0], b[0]), (lambda e: g(a[1](e), b[1](e)))
        if k < 0.80:
            u = r.choice([x for x in INTS if x != t])
            a = self.expr(u, env, d - 1)
            self.feat("conv:%s>%s" % (u, t))
            return "(annotate (conv (annotate %s %s)) %s)" % (a[0], u, t), (lambda e: wrap(t, a[1](e)))
        if k < 0.83:
            u = r.choice(FLOATS)
            a = self.expr(u, env, d - 1)
            self.feat("conv:%s>%s" % (u, t))

            def f(e):
                x = a[1](e)
                if x != x or x in (math.inf, -math.inf):
                    raise Undef
                v = math.trunc(x)
                if not lo(t) <= v <= hi(t):
                    raise Undef
                return v
            return "(annotate (conv (annotate %s %s)) %s)" % (a[0], u, t), f
        if k < 0.88:
            op = r.choice(["min", "max"])
            a = self.expr(t, env, d - 1)
            b = self.expr(t, env, d - 1)
            g = min if op == "min" else max
            return "(%s %s %s)" % (op, a[0], b[0]), (lambda e: g(a[1](e), b[1](e)))
        if k < 0.92 and not self.pure:
            tag = self.rng.randint(0, 999)
            s, f = self.expr(t, env, d - 1)
            self.feat("trace")

            def g(e):
                v = f(e)
                self.trace.append("[%d:%d]" % (tag, v))
                return v
            return "(tr-%s %d %s)" % (t, tag, s), g
        if k < 0.96:
            return self.e_loop(t, env, d)
        return self.e_if(t, env, d)

    def e_float(self, t, env, d):
        r = self.rng
        k = r.random()
        if d <= 0 or k < 0.2:
            s, v = self.lit(t)
            return s, (lambda e, v=v: v)
        if k < 0.75:
            op = r.choice("+-*/%+-*")
            a = self.expr(t, env, d - 1)
            b = self.expr(t, env, d - 1)
            self.feat("float" + op)

            def f(e):
                x = a[1](e)
                y = b[1](e)
                if op == "+":
                    return fround(t, x + y)
                if op == "-":
                    return fround(t, x - y)
                if op == "*":
                    return fround(t, x * y)
                if op == "/":
                    return fround(t, fdiv(x, y))
                return fround(t, frem(x, y))
            return "(%s %s %s)" % (op, a[0], b[0]), f
        if k < 0.85:
            u = r.choice(INTS)
            a = self.expr(u, env, d - 1)
            self.feat("conv:%s>%s" % (u, t))

            def f(e):
                x = a[1](e)
                return float(x) if t == "F64" else i2f32(x)
            return "(annotate (conv (annotate %s %s)) %s)" % (a[0], u, t), f
        if k < 0.93:
            u = "F32" if t == "F64" else "F64"
            a = self.expr(u, env, d - 1)
            self.feat("conv:%s>%s" % (u, t))
            return "(annotate (conv (annotate %s %s)) %s)" % (a[0], u, t), (lambda e: fround(t, a[1](e)))
        a = self.expr(t, env, d - 1)
        return "(let ([(sq y) (* y y)]) (sq (annotate %s %s)))" % (a[0], t), (lambda e: (lambda x: fround(t, x * x))(a[1](e)))

    def e_bool(self, env, d):
        r = self.rng
        k = r.random()
        if d <= 0 or k < 0.12:
            s, v = self.lit("Bool")
            return s, (lambda e, v=v: v)
        if k < 0.6:
            t = r.choice(INTS + FLOATS + ["String", "Char"])
            op = r.choice(["=", "<", ">", "<=", ">=", "ne?"])
            a = self.expr(t, env, d - 1)
            b = self.expr(t, env, d - 1)
            sa = "(annotate %s %s)" % (a[0], tsrc(t))
            self.feat("cmp:%s:%s" % (op, t))

            def f(e):
                x = a[1](e)
                y = b[1](e)
                if t in ("String",):
                    x, y = x.encode(), y.encode()
                return {"=": x == y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "ne?": not (x == y)}[op]
            return "(%s %s %s)" % (op, sa, b[0]), f
        if k < 0.65:
            t = r.choice(INTS)
            self.pure += 1
            xs = [self.expr(t, env, d - 1) for _ in range(3)]
            self.pure -= 1
            op = r.choice(["<", "<=", ">", ">="])
            cmp = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}[op]

            def f(e):
                v = [g(e) for _, g in xs]
                return cmp(v[0], v[1]) and cmp(v[1], v[2])
            return "(%s (annotate %s %s) %s %s)" % (op, xs[0][0], t, xs[1][0], xs[2][0]), f
        if k < 0.85:
            self.pure += 1
            a = self.expr("Bool", env, d - 1)
            b = self.expr("Bool", env, d - 1)
            self.pure -= 1
            op = r.choice(["and", "or"])

            def f(e):
                x = a[1](e)
                y = b[1](e)
                return (x and y) if op == "and" else (x or y)
            return "(%s %s %s)" % (op, a[0], b[0]), f
        a = self.expr("Bool", env, d - 1)
        return "(not %s)" % a[0], (lambda e: not a[1](e))

    def e_string(self, env, d):
        r = self.rng
        if d <= 0 or r.random() < 0.4:
            s, v = self.lit("String")
            return s, (lambda e, v=v: v)
        xs = []
        for _ in range(r.randint(1, 3)):
            t = r.choice(["String", "String", "Char", "Bool"] + INTS)
            xs.append((t, self.expr(t, env, d - 1)))

        def f(e):
            o = ""
            for t, (_, g) in xs:
                v = g(e)
                o += ("#t" if v else "#f") if t == "Bool" else str(v)
            if len(o) > 2000:
                raise Undef
            return o
        return "(string %s)" % " ".join("(annotate %s %s)" % (x[0], t) for t, x in xs), f

    # ---- control
    def e_if(self, t, env, d):
        c = self.expr("Bool", env, d - 1)
        a = self.expr(t, env, d - 1)
        b = self.expr(t, env, d - 1)

        def f(e):
            return a[1](e) if c[1](e) else b[1](e)
        if self.rng.random() < 0.2:
            return "(cond [%s %s] [else %s])" % (c[0], a[0], b[0]), f
        return "(if %s %s %s)" % (c[0], a[0], b[0]), f

    def name(self, env):
        # sometimes shadow
        if env and self.rng.random() < 0.2:
            return self.rng.choice(env)[0]
        return self.fresh()

    def e_let(self, t, env, d):
        n = self.rng.randint(1, 3)
        bs = []
        seen = set()
        for _ in range(n):
            nm = self.name(env)
            if nm in seen:
                continue
            seen.add(nm)
            vt = self.type(1)
            bs.append((nm, vt, self.expr(vt, env, d - 1)))
        env2 = env + [(nm, vt) for nm, vt, _ in bs]
        body = self.expr(t, env2, d - 1)
        form = self.rng.random()
        if form < 0.15:
            # sequential let*
            bs2 = []
            cur = list(env)
            for nm, vt, _ in bs:
                x = self.expr(vt, cur, d - 1)
                bs2.append((nm, vt, x))
                cur = cur + [(nm, vt)]
            body = self.expr(t, cur, d - 1)

            def f(e):
                e = dict(e)
                for nm, vt, (_, g) in bs2:
                    e[nm] = g(e)
                return body[1](e)
            return "(let* (%s) %s)" % (" ".join("[%s %s]" % (nm, "(annotate %s %s)" % (x[0], tsrc(vt))) for nm, vt, x in bs2), body[0]), f

        def f(e):
            vs = [(nm, g(e)) for nm, _, (_, g) in bs]
            e = dict(e)
            e.update(vs)
            return body[1](e)
        src = " ".join("[%s (annotate %s %s)]" % (nm, x[0], tsrc(vt)) for nm, vt, x in bs)
        if form < 0.4:
            return "(begin @let (%s) %s)" % (src, body[0]) if False else "(let (%s) %s)" % (src, body[0]), f
        return "(let (%s) %s)" % (src, body[0]), f

    def e_begin(self, t, env, d):
        ss = [self.stmt(env, d - 1) for _ in range(self.rng.randint(1, 2))]
        b = self.expr(t, env, d - 1)

        def f(e):
            for _, g in ss:
                g(e)
            return b[1](e)
        return "(begin %s %s)" % (" ".join(s for s, _ in ss), b[0]), f

    def stmt(self, env, d):
        refs = [(n, vt) for n, vt in self.visible(env).items() if isinstance(vt, tuple) and vt[0] == "ref"]
        if refs and not self.pure and self.rng.random() < 0.7:
            n, vt = self.rng.choice(refs)
            x = self.expr(vt[1], env, d)
            self.feat("set!")

            def f(e):
                v = x[1](e)
                e[n][0] = v
            return "(set! %s %s)" % (n, x[0]), f
        t = self.rng.choice(INTS)
        x = self.expr(t, env, d)
        if self.rng.random() < 0.3:
            c = self.expr("Bool", env, d - 1)
            return "(when %s %s)" % (c[0], x[0]), (lambda e: x[1](e) if c[1](e) else None)
        return "(ignore (annotate %s %s))" % (x[0], t), x[1]

    def e_ref(self, t, env, d):
        if self.pure:
            return self.leaf(t, env, 0)
        n = self.fresh("r")
        a = self.expr(t, env, d - 1)
        env2 = env + [(n, ("ref", t))]
        ss = [self.stmt(env2, d - 1) for _ in range(self.rng.randint(1, 3))]
        self.feat("ref")
        if self.rng.random() < 0.4:
            b = self.expr(t, env2, d - 1)
        else:
            b = ("~%s" % n, lambda e: e[n][0])

        def f(e):
            v = a[1](e)
            e = dict(e)
            e[n] = [v]
            for _, g in ss:
                g(e)
            return b[1](e)
        return "(let ([%s (ref (annotate %s %s))]) %s %s)" % (n, a[0], tsrc(t), " ".join(s for s, _ in ss), b[0]), f

    def e_loop(self, t, env, d):
        if self.pure:
            return self.leaf(t, env, 0)
        i, acc = self.fresh("i"), self.fresh("acc")
        cnt = self.rng.randint(0, 6)
        a = self.expr(t, env, d - 1)
        env2 = env + [(acc, ("ref", t)), (i + "v", "U8")]
        ss = [self.stmt(env2, d - 2) for _ in range(self.rng.randint(0, 2))]
        upd = self.expr(t, env2, d - 2)
        self.feat("while")

        def f(e):
            v = a[1](e)
            e = dict(e)
            e[acc] = [v]
            k = 0
            while k < cnt:
                self.step()
                e2 = dict(e)
                e2[i + "v"] = k
                for _, g in ss:
                    g(e2)
                e2[acc][0] = upd[1](e2)
                k += 1
            return e[acc][0]
        return ("(let ([%s (ref (annotate 0 U8))] [%s (ref (annotate %s %s))]) (while (< ~%s %d) "
                "(let ([%sv ~%s]) %s (set! %s %s)) (set! %s (+ ~%s 1))) ~%s)") % (
            i, acc, a[0], t, i, cnt, i, i, " ".join(s for s, _ in ss), acc, upd[0], i, i, acc), f

    def e_access(self, t, env, d):
        """Use a variable that contains t: a reference, a box."""
        c = [(n, vt) for n, vt in self.visible(env).items()
             if isinstance(vt, tuple) and vt[0] in ("ref", "box") and vt[1] == t]
        if not c:
            return None
        n, vt = self.rng.choice(c)
        if self.pure and vt[0] == "ref":
            pass
        return "~%s" % n, (lambda e, n=n: e[n][0])

    def e_callvar(self, t, env, d):
        c = [(n, vt) for n, vt in self.visible(env).items()
             if isinstance(vt, tuple) and vt[0] == "fun" and vt[2] == t]
        if not c or self.pure:
            return None
        n, vt = self.rng.choice(c)
        xs = [self.expr(a, env, d - 1) for a in vt[1]]
        self.feat("closure-call")

        def f(e):
            self.step()
            return e[n](*[g(e) for _, g in xs])
        return "(%s%s)" % (n, "".join(" " + s for s, _ in xs)), f

    def e_call(self, t, env, d):
        if self.pure:
            return None
        c = [x for x in self.funcs if x[2] == t]
        if not c:
            return None
        name, ats, _, pf = self.rng.choice(c)
        # a transparent function is expanded in place: its arguments are substituted by name
        tr = name in self.transparent
        self.pure += tr
        xs = [self.expr(a, env, d - 1) for a in ats]
        self.pure -= tr
        self.feat("transparent-call" if tr else "call")

        def f(e):
            self.step()
            return pf(*[g(e) for _, g in xs])
        if not ats:
            return "(%s)" % name, f
        return "(%s %s)" % (name, " ".join(s for s, _ in xs)), f

    def e_gcall(self, t, env, d):
        """Call a generic function whose result can be t."""
        if self.pure:
            return None
        name, params, ats, rt, pf = self.rng.choice(self.gfuncs)
        m = {}
        if isinstance(rt, str) and rt in params:
            m[rt] = t
        elif isinstance(rt, tuple) and rt[0] == "tup" and isinstance(t, tuple) and t[0] == "tup" and len(t[1]) == len(rt[1]):
            for p, x in zip(rt[1], t[1]):
                if m.setdefault(p, x) != x:
                    return None
        else:
            return None
        for p in params:
            m.setdefault(p, self.type(1, False))
        xs = [self.expr(subst(a, m), env, d - 1) for a in ats]
        self.feat("generic-call")

        def f(e):
            self.step()
            return pf(*[g(e) for _, g in xs])
        return "(%s %s)" % (name, " ".join("(annotate %s %s)" % (s, tsrc(subst(a, m))) for (s, _), a in zip(xs, ats))), f

    def mkfun(self, params, body, e0):
        def call(*args):
            self.step()
            e = dict(e0)
            for p, a in zip(params, args):
                e[p] = a
            try:
                return body(e)
            except Ret as r:
                return r.v
        return call

    def e_lambda(self, t, env, d):
        ps = [self.fresh("a") for _ in t[1]]
        if self.rng.random() < 0.15 and t[1] and len(t[1]) <= 6:
            ps = ["%%%d" % (i + 1) for i in range(len(t[1]))]
        cands = [x for x in self.funcs if list(x[1]) == list(t[1]) and x[2] == t[2]]
        if cands and self.rng.random() < 0.3:
            n, _, _, pf = self.rng.choice(cands)
            return n, (lambda e: pf)
        env2 = env + list(zip(ps, t[1]))
        self.ret_stack.append(t[2])
        pure = self.pure
        self.pure = 0
        b = self.expr(t[2], env2, max(0, d - 1))
        self.pure = pure
        self.ret_stack.pop()
        self.feat("lambda")

        def f(e):
            return self.mkfun(ps, b[1], dict(e))
        if ps and ps[0][0] == "%":
            src = "[^%d %s]" % (len(ps), b[0])
        else:
            src = "(lambda (%s) %s)" % (" ".join(ps), b[0])
        return "(annotate %s %s)" % (src, tsrc(t)), f

    def e_localfun(self, t, env, d):
        """let-bound function, possibly recursive on a counter, possibly used at two types."""
        if self.pure:
            return self.leaf(t, env, 0)
        r = self.rng
        fn = self.fresh("lf")
        if r.random() < 0.25:
            # polymorphic identity-like local function used at several types
            u = self.type(1, False)
            x = self.expr(u, env, d - 1)
            y = self.expr(t, env, d - 1)
            self.feat("let-poly")
            which = r.random() < 0.5
            src = "(let ([(%s p q) %s]) " % (fn, "p")
            return src + "(begin (ignore (%s (annotate %s %s) #t)) (%s %s (annotate %s %s))))" % (
                fn, x[0], tsrc(u), fn, y[0], x[0], tsrc(u)), \
                (lambda e: (x[1](e), y[1](e), x[1](e))[1])
        nparams = r.randint(0, 2)
        ats = [self.type(1) for _ in range(nparams)]
        ps = [self.fresh("a") for _ in range(nparams)]
        cn = self.fresh("n")
        base_env = env + [(cn, "U8")] + list(zip(ps, ats))
        self.ret_stack.append(t)
        base = self.expr(t, base_env, d - 2)
        inner_env = base_env + [(fn, None)]
        args2 = [self.expr(a, base_env, d - 3) for a in ats]
        hole = self.fresh("h")
        comb = self.expr(t, base_env + [(hole, t)], d - 2)
        self.ret_stack.pop()
        cnt = r.randint(0, 5)
        xs = [self.expr(a, env, d - 2) for a in ats]
        self.feat("local-rec")

        def f(e):
            def call(n, *args):
                self.step()
                e2 = dict(e)
                e2[cn] = n
                e2.update(zip(ps, args))
                try:
                    if n == 0:
                        return base[1](e2)
                    av = [g(e2) for _, g in args2]
                    h = call(n - 1, *av)
                    e2[hole] = h
                    return comb[1](e2)
                except Ret as x:
                    return x.v
            return call(cnt, *[g(e) for _, g in xs])
        sig = "{(-> U8 %s)}" % " ".join(map(tsrc, ats + [t]))
        src = "(let ([(%s %s %s) %s (if (= %s 0) %s (let ([%s (%s (- %s 1) %s)]) %s))]) (%s %d %s))" % (
            fn, cn, " ".join(ps), sig, cn, base[0], hole, fn, cn, " ".join(s for s, _ in args2), comb[0],
            fn, cnt, " ".join(s for s, _ in xs))
        return src, f

    def e_return(self, t, env, d):
        if self.pure:
            return self.leaf(t, env, 0)
        rt = self.ret_stack[-1]
        c = self.expr("Bool", env, d - 1)
        rv = self.expr(rt, env, d - 2)
        x = self.expr(t, env, d - 1)
        self.feat("return")

        def f(e):
            if c[1](e):
                raise Ret(rv[1](e))
            return x[1](e)
        return "(if %s (return %s) %s)" % (c[0], rv[0], x[0]), f

    def e_try(self, t, env, d):
        """expr? / expr! inside a lambda returning Option/Result."""
        r = self.rng
        if self.pure:
            return self.leaf(t, env, 0)
        alt = self.expr(t, env, d - 1)
        self.ret_stack.append(None)      # no `return` inside: it would leave the local function
        try:
            return self._e_try(t, env, d, alt)
        finally:
            self.ret_stack.pop()

    def _e_try(self, t, env, d, alt):
        r = self.rng
        fn = self.fresh("tf")
        nm = self.fresh()
        if r.random() < 0.5:
            o = self.expr(("data", "Option", (t,)), env, d - 1)
            self.feat("try?")

            def f(e):
                v = o[1](e)
                return v[1][0] if v[0] == "some" else alt[1](e)
            return "(let ([(%s) (some (annotate %s (Option %s))?)]) (match (%s) [(some (let %s)) %s] [none %s]))" % (
                fn, o[0], tsrc(t), fn, nm, nm, alt[0]), f
        u = self.scalar()
        o = self.expr(("data", "Result", (t, u)), env, d - 1)
        self.feat("try!")

        def f(e):
            v = o[1](e)
            return v[1][0] if v[0] == "ok" else alt[1](e)
        return "(let ([(%s) (ok (annotate %s (Result %s %s))!)]) (match (%s) [(ok (let %s)) %s] [(err _) %s]))" % (
            fn, o[0], tsrc(t), tsrc(u), fn, nm, nm, alt[0]), f

    # ---- patterns
    def pattern(self, t, d, binds):
        """-> (src, matcher(v, binds)->bool, shape for usefulness)"""
        r = self.rng
        k = r.random()
        if k < 0.18 or d < 0:
            return "_", (lambda v, b: True), ("wild",)
        if k < 0.45:
            n = self.fresh("m")
            binds.append((n, t))

            def m(v, b):
                b[n] = v
                return True
            return "(let %s)" % n, m, ("wild",)
        if k < 0.5:
            n = self.fresh("m")
            binds.append((n, t))
            s, m0, sh = self.pattern(t, d, binds)

            def m(v, b):
                b[n] = v
                return m0(v, b)
            return "(let %s %s)" % (n, s), m, sh
        if is_int(t) or t in ("String", "Char"):
            s, v0 = self.lit(t, ann=False)
            return s, (lambda v, b: v == v0), ("lit", v0)
        cs = self.cons_of(t)
        if cs is None:
            return "_", (lambda v, b: True), ("wild",)
        c, fts = r.choice(cs)
        subs = [self.pattern(ft, d - 1, binds) for ft in fts]
        sh = ("con", c, [x[2] for x in subs], fts)
        if t == "Bool":
            want = c == "#t"
            return c, (lambda v, b: v == want), sh
        if t == "unit":
            return "unit", (lambda v, b: True), sh
        if t[0] == "tup":
            return "(: %s)" % " ".join(x[0] for x in subs), \
                (lambda v, b: all([x[1](y, b) for x, y in zip(subs, v)])), sh
        if t[0] == "box":
            return "(box %s)" % subs[0][0], (lambda v, b: subs[0][1](v[0], b)), sh
        isf = dict(self.datas[t[1]].cons)[c] is not None
        src = "(%s%s)" % (c, "".join(" " + x[0] for x in subs)) if isf else c

        def m(v, b):
            if v[0] != c:
                return False
            for x, y in zip(subs, v[1]):
                if not x[1](y, b):
                    return False
            return True
        return src, m, sh

    def e_match(self, t, env, d):
        r = self.rng
        deep = self.p == "data"
        tt = self.type(2 if deep else 1)
        if r.random() < 0.3:
            tt = ("tup", tuple(self.type(1) for _ in range(r.randint(2, 3))))
        vis = [vt for vt in self.visible(env).values() if vt is not None and (not isinstance(vt, str) or vt in ("Bool",) or is_int(vt))]
        if vis and r.random() < 0.4:
            tt = r.choice(vis)
        target = self.expr(tt, env, d - 1)
        rows = []
        clauses = []
        nmax = r.randint(1, 7 if deep else 4)
        for i in range(nmax + 6):
            binds = []
            if i >= nmax:
                p = ("_", (lambda v, b: True), ("wild",))
            else:
                p = self.pattern(tt, 3 if deep else 2, binds)
            names = [b[0] for b in binds]
            assert len(set(names)) == len(names)
            if not useful(rows, [p[2]], [tt], self.cons_of):
                if i >= nmax:
                    break
                continue
            rows.append([p[2]])
            body = self.expr(t, env + binds, d - 2)
            clauses.append((p, body))
            if not useful(rows, [("wild",)], [tt], self.cons_of):
                break
        self.feat("match:%d" % len(clauses))

        def f(e):
            v = target[1](e)
            for p, b in clauses:
                bd = {}
                if p[1](v, bd):
                    e2 = dict(e)
                    e2.update(bd)
                    return b[1](e2)
            raise AssertionError("no clause")
        return "(match (annotate %s %s) %s)" % (
            target[0], tsrc(tt), " ".join("[%s %s]" % (p[0], b[0]) for p, b in clauses)), f

    # ---- top level
    def gen_func(self, d=3):
        r = self.rng
        ats = [self.type(2) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 8]))]
        rt = self.type(2)
        name = self.fresh("f")
        ps = [self.fresh("a") for _ in ats]
        self.ret_stack.append(rt)
        b = self.expr(rt, list(zip(ps, ats)), d)
        self.ret_stack.pop()
        kw = "transparent-function" if r.random() < 0.15 and not self.has_return(b[0]) else "function"
        self.decls.append("(%s (%s%s) {(-> %s)} %s)" % (
            kw, name, "".join(" " + p for p in ps), " ".join(map(tsrc, ats + [rt])), b[0]))
        self.funcs.append((name, ats, rt, self.mkfun(ps, b[1], {})))
        if kw[0] == "t":
            self.transparent.add(name)
        self.feat(kw)

    @staticmethod
    def has_return(s):
        return "(return" in s or ")?" in s or ")!" in s

    def gen_gfunc(self):
        r = self.rng
        name = self.fresh("g")
        k = r.random()
        params = ["A", "B"][: r.randint(1, 2)]
        if k < 0.3:
            self.decls.append("(function (%s x c y) {(forall A) (-> A Bool A A)} (if c x y))" % name)
            self.gfuncs.append((name, ["A"], ["A", "Bool", "A"], "A", lambda x, c, y: x if c else y))
        elif k < 0.55:
            self.decls.append("(function (%s p) {(forall A B) (-> (: A B) (: B A))} (match p [(: (let a) (let b)) (: b a)]))" % name)
            self.gfuncs.append((name, ["A", "B"], [("tup", ("A", "B"))], ("tup", ("B", "A")), lambda p: (p[1], p[0])))
        elif k < 0.8:
            self.decls.append("(function (%s f x) {(forall A B) (-> (-> A B) A B)} (f x))" % name)
            self.gfuncs.append((name, ["A", "B"], [("fun", ("A",), "B"), "A"], "B", lambda f, x: f(x)))
        else:
            self.decls.append("(function (%s o x) {(forall A) (-> (Option A) A A)} (let ([(go y) (match y [(some (let z)) z] [none x])]) (go o)))" % name)
            self.gfuncs.append((name, ["A"], [("data", "Option", ("A",)), "A"], "A",
                                lambda o, x: o[1][0] if o[0] == "some" else x))

    PRELUDE = """(import "std/bits" _)
(import "std/memory" reinterpret)
(function (out! s) {(-> String unit)} (ignore (print! s)))
""" + "".join("(function (tr-%s k x) {(-> I32 %s %s)} (out! (string \"[\" k \":\" x \"]\")) x)\n" % (t, t, t) for t in INTS)

    def program(self, ntests, depth=4, ndata=4, nfuncs=6):
        """-> (source, expected stdout lines)"""
        for _ in range(ndata):
            self.gen_data()
        for _ in range(2):
            self.gen_gfunc()
        for _ in range(nfuncs):
            self.gen_func()
        tests = []
        tries = 0
        while len(tests) < ntests and tries < ntests * 25:
            tries += 1
            t = self.type(2)
            nsd = len(self.show_decls)
            shows = dict(self.shows)
            s, f = self.expr(t, [], depth)
            if len(s) > 6000:
                continue
            self.trace = []
            self.steps = 0
            try:
                v = f({})
                text = "".join(self.trace) + "= " + self.pyshow(t, v)
            except (Undef, Fuel, RecursionError):
                self.shows = shows
                del self.show_decls[nsd:]
                continue
            if len(text) > 4000:
                continue
            tests.append((s, t, self.show(t), text))
        lines = []
        src = [self.PRELUDE] + self.decls + self.show_decls
        for i, (s, t, sh, text) in enumerate(tests):
            src.append("(function (test%d) {(-> unit)} (let ([v %s]) (out! \"= \") (%s v) (out! \"\\n\")))" % (i, s if not isinstance(t, str) else "(annotate %s %s)" % (s, t), sh))
            lines.append("T%d " % i + text)
        for i in range(len(tests)):
            src.append("(out! \"T%d \") (test%d)" % (i, i))
        return "\n".join(src) + "\n", lines


def i2f32(x):
    """round-to-nearest-even of an exact integer to binary32"""
    if x == 0:
        return 0.0
    s = -1.0 if x < 0 else 1.0
    m = abs(x)
    n = m.bit_length()
    if n <= 24:
        return s * float(m)
    sh = n - 24
    q, r = m >> sh, m & ((1 << sh) - 1)
    h = 1 << (sh - 1)
    if r > h or (r == h and q & 1):
        q += 1
    return s * math.ldexp(float(q), sh)
