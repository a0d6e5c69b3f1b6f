"""Programs that make, alias, store, capture, return and change references, closures, arrays and boxed values, and an interpretation of them."""
import random

MASK = (1 << 20) - 1

PRELUDE = r'''
(import "std/array" Array array array/_ _.Array)
(import "std/access" _)
(import "std/bits" bw& Bits._)
(import "std/vector" Vector vector/_ _.Vector)
(c-function <log> {(-> I64 unit)} "vf_log")
(c-function <clean> {(-> unit)} "vf_clean")
(c-function <collect> {(-> unit)} "vf_collect")
(function (log! v) {(-> I64 unit)} (<log> v))
(function (clean!) {(-> unit)} (<clean>))
(function (collect!) {(-> unit)} (<collect>))
(function (mx a b) {(-> I64 I64 I64)} (bw& (+ (* a 31) b) 1048575))
(function (below n a) {(-> U64 I64 U64)} (% (conv a) n))
(data Node (node I64 (Ref I64) (Option Node) (-> I64 I64)))
(value-data Pair (pair (Ref I64) I64 (Array I64)))
(value-data Mix (mix U8 (Ref I64) Bool))
(function (small a) {(-> I64 U8)} (conv (bw& a 255)))
(function (large a) {(-> U8 I64)} (conv a))
(data (Cell A) (cell A) (twin A A))
(data Tree tree:leaf (tree:bin Tree (Ref I64) Tree))
(function (noop x) {(-> I64 I64)} x)
(function (mkref x) {(-> I64 (Ref I64))} (ref x))
(function (same a) {(forall A) (-> A A)} a)
(function (deep n f) {(-> I64 (-> I64) I64)}
  (if (<= n 0) (f) (let ([a (ref n)] [b (ref (+ n 1))]) (let ([v (deep (- n 1) f)]) (mx v (+ ~a ~b))))))
(function (vget i v) {(forall A) (-> I64 (Vector A) A)} (get v[(below (vector/length v) i)]))
(function (aget i v) {(forall A) (-> I64 (Array A) A)} (get v[(below (array/length v) i)]))
(function (aref i v) {(forall A) (-> I64 (Array A) (Ref A))} (array/ref (below (array/length v) i) v))
(function (askip i v) {(forall A) (-> I64 (Array A) (Array A))} (array/skip (below (array/length v) i) v))
(function (atake i v) {(forall A) (-> I64 (Array A) (Array A))} (array/take (+ (below (array/length v) i) 1) v))
(function (anew x n) {(forall A) (-> A U64 (Array A))} (array/new x n))
(function (aset! i x v) {(forall A) (-> I64 A (Array A) unit)} (set! v[(below (array/length v) i)] x))
'''

TS = {"I": "I64", "R": "(Ref I64)", "RR": "(Ref (Ref I64))", "F": "(-> I64 I64)", "A": "(Array I64)", "AR": "(Array (Ref I64))", "N": "Node", "O": "(Option (Ref I64))", "T": "(: (Ref I64) I64 (-> I64 I64))",
      "V": "(Vector (Ref I64))", "VF": "(Vector (-> I64 I64))", "P": "Pair", "C": "(Cell (Ref I64))", "CA": "(Cell (Array I64))", "G": "(-> (Ref I64))", "B": "Tree", "CI": "(Cell I64)", "RC": "(Ref (Cell I64))", "S": "U8", "M": "Mix", "RS": "(Ref U8)"}


class Fuel(Exception):
    pass


class Ref:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def mx(a, b):
    return (a * 31 + b) & MASK


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.funcs = []
        self.out = []
        self.steps = 0
        self.features = {}

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def feat(self, k):
        self.features[k] = self.features.get(k, 0) + 1

    def step(self):
        self.steps += 1
        if self.steps > 4000:
            raise Fuel()

    def vars(self, env, t):
        return [n for n, k in env if k == t]

    def type(self):
        return self.r.choice(["I", "R", "R", "R", "RR", "F", "F", "A", "AR", "N", "O", "T", "V", "VF", "P", "C", "CA", "G", "B", "CI", "RC", "S", "S", "M", "RS"])

    # an expression: (text, function of an environment dict)
    def e(self, t, env, d):
        r = self.r
        vs = self.vars(env, t)
        if vs and r.random() < (0.5 if d > 0 else 0.85):
            n = r.choice(vs[-6:])
            self.feat("variable")
            return n, lambda e: e[n]
        if d > 0:
            x = r.random()
            if x < 0.12:
                return self.let(t, env, d)
            if x < 0.20:
                return self.if_(t, env, d)
            if x < 0.27:
                return self.begin(t, env, d)
            if x < 0.37:
                c = self.call(t, env, d)
                if c:
                    return c
            if x < 0.42:
                return self.loop(t, env, d)
            if x < 0.46:
                return self.match(t, env, d)
            if x < 0.50:
                return self.localfun(t, env, d)
            if x < 0.53:
                self.feat("generic call")
                a = self.e(t, env, d - 1)
                return "(same (annotate %s %s))" % (a[0], TS[t]), a[1]
            if x < 0.57:
                # through a reference to it
                a = self.e(t, env, d - 1)
                self.feat("through a reference")
                return "~(ref (annotate %s %s))" % (a[0], TS[t]), a[1]
        return getattr(self, "e_" + t)(env, d)

    def let(self, t, env, d):
        r = self.r
        self.feat("let")
        bs, e2 = [], env
        for _ in range(r.choice([1, 1, 2, 3])):
            k = self.type()
            n = self.fresh(k.lower())
            bs.append((n, k, self.e(k, env, d - 1)))
            e2 = e2 + [(n, k)]
        # used in many ways after it is bound
        ss = [self.stmt(e2, d - 1) for _ in range(r.choice([0, 1, 2, 3]))]
        b = self.e(t, e2, d - 1)

        def f(e):
            self.step()
            vals = [(n, x[1](e)) for n, k, x in bs]
            e = dict(e)
            e.update(vals)
            for s in ss:
                s[1](e)
            return b[1](e)
        return "(let (%s) %s%s)" % (" ".join("[%s (annotate %s %s)]" % (n, x[0], TS[k]) for n, k, x in bs), "".join(s[0] + " " for s in ss), b[0]), f

    def if_(self, t, env, d):
        c = self.e("I", env, d - 1)
        a, b = self.e(t, env, d - 1), self.e(t, env, d - 1)
        self.feat("if")
        return "(if (eq? (bw& %s 1) 0) %s %s)" % (c[0], a[0], b[0]), lambda e: (a if c[1](e) & 1 == 0 else b)[1](e)

    def begin(self, t, env, d):
        ss = [self.stmt(env, d - 1) for _ in range(self.r.choice([1, 2, 3]))]
        b = self.e(t, env, d - 1)
        self.feat("begin")

        def f(e):
            for s in ss:
                s[1](e)
            return b[1](e)
        return "(begin %s %s)" % (" ".join(s[0] for s in ss), b[0]), f

    def call(self, t, env, d):
        c = [f for f in self.funcs if f[2] == t]
        if not c:
            return None
        name, ats, _, pf = self.r.choice(c)
        xs = [self.e(a, env, d - 1) for a in ats]
        self.feat("call")

        def f(e):
            self.step()
            return pf(*[x[1](e) for x in xs])
        return "(%s%s)" % (name, "".join(" " + x[0] for x in xs)), f

    def loop(self, t, env, d):
        """a variable of the type assigned again in every turn, with things made in the turns kept beyond them"""
        r = self.r
        i, acc, iv = self.fresh("i"), self.fresh("acc"), self.fresh("k")
        n = r.randrange(0, 4)
        a = self.e(t, env, d - 1)
        accv = self.fresh(t.lower())
        e2 = env + [(iv, "I"), (accv, t)]
        k = self.type()
        m = self.fresh(k.lower())
        x = self.e(k, e2, d - 2)
        e3 = e2 + [(m, k)]
        ss = [self.stmt(e3, d - 2) for _ in range(r.choice([0, 1, 2]))]
        u = self.e(t, e3, d - 2)
        self.feat("loop")

        def f(e):
            e = dict(e)
            v = a[1](e)
            for j in range(n):
                self.step()
                g = dict(e)
                g[iv] = j
                g[accv] = v
                g[m] = x[1](g)
                for s in ss:
                    s[1](g)
                v = u[1](g)
            return v
        return "(let ([%s (ref (annotate 0 I64))] [%s (ref (annotate %s %s))]) (while (< ~%s %d) (let ([%s ~%s] [%s ~%s]) (let ([%s (annotate %s %s)]) %sset!-it))) ~%s)".replace("set!-it", "(set! %s %s) (set! %s (+ ~%s 1))") % (
            i, acc, a[0], TS[t], i, n, iv, i, accv, acc, m, x[0], TS[k], "".join(s[0] + " " for s in ss), acc, u[0], i, i, acc), f

    def match(self, t, env, d):
        r = self.r
        k = r.choice(["O", "N", "T", "P", "C", "B", "CA"])
        x = self.e(k, env, d - 1)
        self.feat("match")
        if k == "O":
            n = self.fresh("r")
            a, b = self.e(t, env + [(n, "R")], d - 1), self.e(t, env, d - 1)

            def f(e):
                v = x[1](e)
                if v is None:
                    return b[1](e)
                e = dict(e)
                e[n] = v[1]
                return a[1](e)
            return "(match (annotate %s %s) [(some (let %s)) %s] [none %s])" % (x[0], TS[k], n, a[0], b[0]), f
        if k == "N":
            a_, b_, c_ = self.fresh("i"), self.fresh("r"), self.fresh("f")
            a = self.e(t, env + [(a_, "I"), (b_, "R"), (c_, "F")], d - 1)

            def f(e):
                v = x[1](e)
                e = dict(e)
                e[a_], e[b_], e[c_] = v[1], v[2], v[4]
                return a[1](e)
            return "(match %s [(node (let %s) (let %s) _ (let %s)) %s])" % (x[0], a_, b_, c_, a[0]), f
        if k == "T":
            a_, b_, c_ = self.fresh("r"), self.fresh("i"), self.fresh("f")
            a = self.e(t, env + [(a_, "R"), (b_, "I"), (c_, "F")], d - 1)

            def f(e):
                v = x[1](e)
                e = dict(e)
                e[a_], e[b_], e[c_] = v
                return a[1](e)
            return "(match (annotate %s %s) [(: (let %s) (let %s) (let %s)) %s])" % (x[0], TS[k], a_, b_, c_, a[0]), f
        if k == "P":
            a_, b_, c_ = self.fresh("r"), self.fresh("i"), self.fresh("a")
            a = self.e(t, env + [(a_, "R"), (b_, "I"), (c_, "A")], d - 1)

            def f(e):
                v = x[1](e)
                e = dict(e)
                e[a_], e[b_], e[c_] = v
                return a[1](e)
            return "(match %s [(pair (let %s) (let %s) (let %s)) %s])" % (x[0], a_, b_, c_, a[0]), f
        if k in ("C", "CA"):
            el = "R" if k == "C" else "A"
            a_, b_, c_ = self.fresh("x"), self.fresh("x"), self.fresh("x")
            a, b = self.e(t, env + [(a_, el)], d - 1), self.e(t, env + [(b_, el), (c_, el)], d - 1)

            def f(e):
                v = x[1](e)
                e = dict(e)
                if len(v) == 1:
                    e[a_] = v[0]
                    return a[1](e)
                e[b_], e[c_] = v
                return b[1](e)
            return "(match (annotate %s %s) [(cell (let %s)) %s] [(twin (let %s) (let %s)) %s])" % (x[0], TS[k], a_, a[0], b_, c_, b[0]), f
        l_, m_, r_ = self.fresh("b"), self.fresh("r"), self.fresh("b")
        a, b = self.e(t, env, d - 1), self.e(t, env + [(l_, "B"), (m_, "R"), (r_, "B")], d - 1)

        def f(e):
            v = x[1](e)
            if v is None:
                return a[1](e)
            e = dict(e)
            e[l_], e[m_], e[r_] = v
            return b[1](e)
        return "(match %s [tree:leaf %s] [(tree:bin (let %s) (let %s) (let %s)) %s])" % (x[0], a[0], l_, m_, r_, b[0]), f

    def localfun(self, t, env, d):
        """a local function that refers to what is around it, called here and perhaps handed on"""
        n, p = self.fresh("lf"), self.fresh("i")
        b = self.e(t, env + [(p, "I")], d - 1)
        x, y = self.e("I", env, d - 2), self.e("I", env, d - 2)
        twice = self.r.random() < 0.5
        self.feat("local function")

        def f(e):
            def g(v):
                self.step()
                h = dict(e)
                h[p] = v
                return b[1](h)
            if twice:
                g(x[1](e))
            return g(y[1](e))
        return "(let ([(%s %s) {(-> I64 %s)} %s]) %s(%s %s))" % (n, p, TS[t], b[0], "(ignore (%s %s)) " % (n, x[0]) if twice else "", n, y[0]), f

    # by type
    def e_I(self, env, d):
        r = self.r
        if d <= 0:
            v = r.randrange(1000)
            return str(v), lambda e: v
        k = r.randrange(17)
        sub = lambda t: self.e(t, env, d - 1)
        if k == 15:
            a = sub("S")
            return "(large %s)" % a[0], lambda e: a[1](e)
        if k == 16:
            a = sub("M")
            x, y, z = self.fresh("s"), self.fresh("r"), self.fresh("z")
            return "(match %s [(mix (let %s) (let %s) (let %s)) (mx (large %s) (if %s ~%s 5))])" % (a[0], x, y, z, x, z, y), lambda e: (lambda v: mx(v[0], v[1].v if v[2] else 5))(a[1](e))
        if k < 2:
            a, b = sub("I"), sub("I")
            return "(mx %s %s)" % (a[0], b[0]), lambda e: mx(a[1](e), b[1](e))
        if k < 5:
            a = sub("R")
            return "~%s" % a[0], lambda e: a[1](e).v
        if k == 5:
            a = sub("RR")
            return "~~%s" % a[0], lambda e: a[1](e).v.v
        if k < 8:
            a, b = sub("F"), sub("I")
            self.feat("closure call")

            def f(e):
                self.step()
                return a[1](e)(b[1](e))
            if a[0].isalnum() or a[0].startswith("(lambda"):
                return "(%s %s)" % (a[0], b[0]), f
            # whether the function or its argument is evaluated first is not promised
            n = self.fresh("f")
            return "(let ([%s (annotate %s %s)]) (%s %s))" % (n, a[0], TS["F"], n, b[0]), f
        if k == 8:
            i, a = sub("I"), sub("A")

            def f(e):
                j, v = i[1](e), a[1](e)
                return v[j % len(v)].v
            return "(aget %s %s)" % (i[0], a[0]), f
        if k == 9:
            i, a = sub("I"), sub("AR")

            def f(e):
                j, v = i[1](e), a[1](e)
                return v[j % len(v)].v.v
            return "~(aget %s %s)" % (i[0], a[0]), f
        if k == 10:
            i, a = sub("I"), sub("V")

            def f(e):
                j, v = i[1](e), a[1](e)
                return v[j % len(v)].v
            return "~(vget %s %s)" % (i[0], a[0]), f
        if k == 11:
            n = r.randrange(0, 4)
            a = self.e("I", env, d - 1)
            self.feat("deep frames")

            def f(e):
                v = a[1](e)
                for j in range(1, n + 1):
                    v = mx(v, 2 * j + 1)
                return v
            return "(deep %d [^0 %s])" % (n, a[0]), f
        if k == 12:
            a, b = sub("R"), sub("R")
            # whether two are one object: seen by changing one
            s, t = self.fresh("r"), self.fresh("r")
            self.feat("identity")

            def f(e):
                x, y = a[1](e), b[1](e)
                o = x.v
                x.v = mx(y.v, 7)
                same = int(y.v == x.v)
                x.v = o
                return same
            return "(let ([%s %s] [%s %s]) (let ([o ~%s]) (set! %s (mx ~%s 7)) (let ([z (if (eq? ~%s ~%s) 1 0)]) (set! %s o) (annotate z I64))))" % (s, a[0], t, b[0], s, s, t, s, t, s), f
        if k == 13:
            a = sub("CI")
            x_, y_, z_ = self.fresh("i"), self.fresh("i"), self.fresh("i")
            return "(match (annotate %s (Cell I64)) [(cell (let %s)) %s] [(twin (let %s) (let %s)) (mx %s %s)])" % (a[0], x_, x_, y_, z_, y_, z_), lambda e: (lambda v: v[0] if len(v) == 1 else mx(*v))(a[1](e))
        a = sub("RC")
        x_, y_, z_ = self.fresh("i"), self.fresh("i"), self.fresh("i")
        return "(match ~%s [(cell (let %s)) %s] [(twin (let %s) (let %s)) (mx %s %s)])" % (a[0], x_, x_, y_, z_, y_, z_), lambda e: (lambda v: v[0] if len(v) == 1 else mx(*v))(a[1](e).v)

    def e_R(self, env, d):
        r = self.r
        k = r.randrange(15)
        if d <= 0 or k < 5:
            a = self.e("I", env, d - 1)
            self.feat("new reference")
            if r.random() < 0.2:
                return "(mkref %s)" % a[0], lambda e: Ref(a[1](e))
            return "(ref %s)" % a[0], lambda e: Ref(a[1](e))
        sub = lambda t: self.e(t, env, d - 1)
        if k < 7:
            a = sub("RR")
            return "~%s" % a[0], lambda e: a[1](e).v
        if k in (7, 8):
            i, a = sub("I"), sub("AR" if k == 7 else "V")

            def f(e):
                j, v = i[1](e), a[1](e)
                return v[j % len(v)].v if k == 7 else v[j % len(v)]
            return "(%s %s %s)" % ("aget" if k == 7 else "vget", i[0], a[0]), f
        if k == 9:
            a = sub("G")
            self.feat("closure call")

            def f(e):
                self.step()
                return a[1](e)()
            return "(%s)" % a[0], f
        if k == 10:
            a = sub("N")
            x = self.fresh("r")
            return "(match %s [(node _ (let %s) _ _) %s])" % (a[0], x, x), lambda e: a[1](e)[2]
        if k == 14:
            i, a = sub("I"), sub("A")
            self.feat("reference into an array")

            def f(e):
                j, v = i[1](e), a[1](e)
                return v[j % len(v)]
            return "(aref %s %s)" % (i[0], a[0]), f
        if k == 11:
            a = sub("P")
            x = self.fresh("r")
            return "(match %s [(pair (let %s) _ _) %s])" % (a[0], x, x), lambda e: a[1](e)[0]
        if k == 12:
            a = sub("T")
            x = self.fresh("r")
            return "(match (annotate %s %s) [(: (let %s) _ _) %s])" % (a[0], TS["T"], x, x), lambda e: a[1](e)[0]
        a = sub("C")
        x, y = self.fresh("r"), self.fresh("r")
        return "(match (annotate %s %s) [(cell (let %s)) %s] [(twin _ (let %s)) %s])" % (a[0], TS["C"], x, x, y, y), lambda e: a[1](e)[-1]

    def e_S(self, env, d):
        if d <= 0 or self.r.random() < 0.3:
            v = self.r.randrange(256)
            return "(annotate %d U8)" % v, lambda e: v
        if self.r.random() < 0.4:
            a = self.e("RS", env, d - 1)
            return "~%s" % a[0], lambda e: a[1](e).v
        a = self.e("I", env, d - 1)
        return "(small %s)" % a[0], lambda e: a[1](e) & 255

    def e_RS(self, env, d):
        a = self.e("S", env, d - 1)
        return "(ref %s)" % a[0], lambda e: Ref(a[1](e))

    def e_M(self, env, d):
        a, b = self.e("S", env, d - 1), self.e("R", env, d - 1)
        z = self.r.random() < 0.7
        return "(mix %s %s %s)" % (a[0], b[0], "#t" if z else "#f"), lambda e: (a[1](e), b[1](e), z)

    def publish(self, env, d):
        """something made here that only one of its few uses keeps: return -> statement or None"""
        r = self.r
        places = [(n, k) for n, k in env if k in ("RR", "V", "AR", "VF", "RC")]
        if not places:
            return None
        place, k = r.choice(places[-4:])
        self.feat("published")
        n = self.fresh("x")
        if k in ("RR", "V", "AR"):
            made = self.e("I", env, d - 1)
            t, mk, val = "R", "(ref %s)" % made[0], lambda e: Ref(made[1](e))
        elif k == "VF":
            made = self.e("F", env, d - 1)
            t, mk, val = "F", made[0], made[1]
        else:
            made = self.cell("I", env, d - 1)
            t, mk, val = "CI", "(annotate %s (Cell I64))" % made[0], made[1]
        before, after = [], []
        if t == "R":
            for l in (before, after):
                for _ in range(r.choice([0, 0, 1, 2])):
                    if r.random() < 0.5:
                        a = self.e("I", env, d - 1)
                        l.append(("(set! %s %s)" % (n, a[0]), lambda e, a=a: setattr(e[n], "v", a[1](e))))
                    else:
                        l.append(("(log! ~%s)" % n, lambda e: self.log(e[n].v)))
        i = self.e("I", env, 0)
        if k in ("RR", "RC"):
            use = "(set! %s %s)" % (place, n), lambda e: setattr(e[place], "v", e[n])
        elif k == "AR":
            use = "(aset! %s %s %s)" % (i[0], n, place), lambda e: setattr(e[place][i[1](e) % len(e[place])], "v", e[n])
        else:
            def push(e):
                self.step()
                e[place].append(e[n])
            use = "(vector/push! %s %s)" % (n, place), push
        if r.random() < 0.3:
            # another name for it
            m = self.fresh("y")
            use0 = use
            use = "(let ([%s %s]) %s)" % (m, n, use0[0].replace(n, m)), use0[1]

        def f(e):
            e = dict(e)
            e[n] = val(e)
            for s in before:
                s[1](e)
            use[1](e)
            for s in after:
                s[1](e)
        return "(let ([%s %s]) %s)" % (n, mk, " ".join([s[0] for s in before] + [use[0]] + [s[0] for s in after])), f

    def e_RR(self, env, d):
        a = self.e("R", env, d - 1)
        return "(ref %s)" % a[0], lambda e: Ref(a[1](e))

    def e_RC(self, env, d):
        a = self.e("CI", env, d - 1)
        return "(ref (annotate %s (Cell I64)))" % a[0], lambda e: Ref(a[1](e))

    def cell(self, t, env, d):
        a = self.e(t, env, d - 1)
        if self.r.random() < 0.5:
            return "(cell %s)" % a[0], lambda e: (a[1](e),)
        b = self.e(t, env, d - 1)
        return "(twin %s %s)" % (a[0], b[0]), lambda e: (a[1](e), b[1](e))

    def e_C(self, env, d):
        return self.cell("R", env, d)

    def e_CA(self, env, d):
        return self.cell("A", env, d)

    def e_CI(self, env, d):
        return self.cell("I", env, d)

    def e_F(self, env, d):
        r = self.r
        c = [f for f in self.funcs if f[1] == ["I"] and f[2] == "I"]
        if c and r.random() < 0.15:
            name, _, _, pf = r.choice(c)
            return name, lambda e: pf
        if d <= 0 and r.random() < 0.3:
            return "noop", lambda e: (lambda x: x)
        p = self.fresh("i")
        d = max(d, 1)
        ss = [self.stmt(env + [(p, "I")], d - 1) for _ in range(r.choice([0, 0, 1, 2]))]
        b = self.e("I", env + [(p, "I")], d - 1)
        self.feat("closure")

        def f(e):
            e = dict(e)

            def g(x):
                self.step()
                h = dict(e)
                h[p] = x
                for s in ss:
                    s[1](h)
                return b[1](h)
            return g
        return "(lambda (%s) %s%s)" % (p, "".join(s[0] + " " for s in ss), b[0]), f

    def e_G(self, env, d):
        b = self.e("R", env, max(d - 1, 0))
        self.feat("closure")

        def f(e):
            e = dict(e)

            def g():
                self.step()
                return b[1](e)
            return g
        return "(lambda () %s)" % b[0], f

    def arr(self, t, env, d):
        r = self.r
        k = "A" if t == "I" else "AR"
        if d > 0 and r.random() < 0.3:
            # part of another array, the places being the same
            a, i = self.e(k, env, d - 1), self.e("I", env, d - 1)
            self.feat("subarray")
            if r.random() < 0.5:
                return "(askip %s %s)" % (i[0], a[0]), lambda e: (lambda j, v: v[j % len(v):])(i[1](e), a[1](e))
            return "(atake %s %s)" % (i[0], a[0]), lambda e: (lambda j, v: v[:j % len(v) + 1])(i[1](e), a[1](e))
        if r.random() < 0.3:
            n = r.randrange(1, 6)
            a = self.e(t, env, d - 1)
            return "(anew (annotate %s %s) %d)" % (a[0], TS[t], n), lambda e: (lambda x: [Ref(x) for _ in range(n)])(a[1](e))
        xs = [self.e(t, env, d - 1) for _ in range(r.randrange(1, 5))]
        return "(array%s)" % "".join(" " + x[0] for x in xs), lambda e: [Ref(x[1](e)) for x in xs]

    def e_A(self, env, d):
        return self.arr("I", env, d)

    def e_AR(self, env, d):
        return self.arr("R", env, d)

    def vec(self, t, env, d):
        xs = [self.e(t, env, d - 1) for _ in range(self.r.randrange(1, 4))]
        n = self.fresh("vv")
        return "(let ([%s (annotate vector/empty (Vector %s))]) %s %s)" % (n, TS[t], " ".join("(vector/push! %s %s)" % (x[0], n) for x in xs), n), lambda e: [x[1](e) for x in xs]

    def e_V(self, env, d):
        return self.vec("R", env, d)

    def e_VF(self, env, d):
        return self.vec("F", env, d)

    def e_O(self, env, d):
        if self.r.random() < 0.2:
            return "none", lambda e: None
        a = self.e("R", env, d - 1)
        return "(some %s)" % a[0], lambda e: ("some", a[1](e))

    def e_T(self, env, d):
        a, b, c = self.e("R", env, d - 1), self.e("I", env, d - 1), self.e("F", env, d - 1)
        return "(: %s %s %s)" % (a[0], b[0], c[0]), lambda e: (a[1](e), b[1](e), c[1](e))

    def e_P(self, env, d):
        a, b, c = self.e("R", env, d - 1), self.e("I", env, d - 1), self.e("A", env, d - 1)
        return "(pair %s %s %s)" % (a[0], b[0], c[0]), lambda e: (a[1](e), b[1](e), c[1](e))

    def e_B(self, env, d):
        if d <= 0 or self.r.random() < 0.2:
            return "tree:leaf", lambda e: None
        a, b, c = self.e("B", env, d - 1), self.e("R", env, d - 1), self.e("B", env, d - 1)
        return "(tree:bin %s %s %s)" % (a[0], b[0], c[0]), lambda e: (a[1](e), b[1](e), c[1](e))

    def e_N(self, env, d):
        a, b, f = self.e("I", env, d - 1), self.e("R", env, d - 1), self.e("F", env, d - 1)
        if d > 0 and self.r.random() < 0.4:
            n = self.e("N", env, d - 1)
            return "(node %s %s (some %s) %s)" % (a[0], b[0], n[0], f[0]), lambda e: ("n", a[1](e), b[1](e), n[1](e), f[1](e))
        return "(node %s %s none %s)" % (a[0], b[0], f[0]), lambda e: ("n", a[1](e), b[1](e), None, f[1](e))

    def stmt(self, env, d):
        r = self.r
        d = max(d, 0)
        if r.random() < 0.2:
            p = self.publish(env, d)
            if p:
                return p
        k = r.randrange(14)
        sub = lambda t: self.e(t, env, d - 1)
        # what already exists is changed rather than what is made for it
        some = lambda t: self.e(t, env, d - 1 if not self.vars(env, t) or r.random() < 0.2 else -1)
        if k < 3:
            a, b = some("R"), sub("I")
            self.feat("set")
            return self.assign(a, b, "I")
        if k == 3:
            a, b = some("RR"), sub("R")
            self.feat("set")
            return self.assign(a, b, "R")
        if k == 4:
            a, i, b = some("A"), sub("I"), sub("I")
            self.feat("array set")

            def f(e):
                j, x, v = i[1](e), b[1](e), a[1](e)
                v[j % len(v)].v = x
            return "(aset! %s %s %s)" % (i[0], b[0], a[0]), f
        if k == 5:
            a, i, b = some("AR"), sub("I"), sub("R")
            self.feat("array set")

            def f(e):
                j, x, v = i[1](e), b[1](e), a[1](e)
                v[j % len(v)].v = x
            return "(aset! %s %s %s)" % (i[0], b[0], a[0]), f
        if k == 6:
            t = r.choice(["V", "VF"])
            a, b = some(t), sub("R" if t == "V" else "F")
            self.feat("push")

            def f(e):
                x, v = b[1](e), a[1](e)
                self.step()
                v.append(x)
            return "(vector/push! %s %s)" % (b[0], a[0]), f
        if k == 7:
            a, b = some("RC"), sub("CI")
            self.feat("set")
            return self.assign(a, b, "CI")
        if k == 8:
            return "(clean!)", lambda e: None
        if k == 9:
            return "(collect!)", lambda e: None
        if k == 10:
            i, a = sub("I"), some("VF")
            x = sub("I")
            self.feat("stored closure call")

            def f(e):
                p, j, v = x[1](e), i[1](e), a[1](e)
                self.step()
                self.log(v[j % len(v)](p))
            m, n = self.fresh("i"), self.fresh("i")
            return "(let ([%s %s]) (let ([%s %s]) (log! ((vget %s %s) %s))))" % (m, x[0], n, i[0], n, a[0], m), f
        a = sub("I")
        self.feat("log")
        return "(log! %s)" % a[0], lambda e: self.log(a[1](e))

    def assign(self, a, b, t):
        def f(e):
            r = a[1](e)
            v = b[1](e)
            r.v = v
        if a[0].isalnum():
            return "(set! %s (annotate %s %s))" % (a[0], b[0], TS[t]), f
        # the order of the two is not promised
        x, y = self.fresh("p"), self.fresh("q")
        return "(let ([%s %s]) (let ([%s (annotate %s %s)]) (set! %s %s)))" % (x, a[0], y, b[0], TS[t], x, y), f

    def log(self, v):
        self.step()
        self.out.append(v)

    def func(self, d):
        r = self.r
        name = self.fresh("f")
        ats = [self.type() for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8]))]
        if r.random() < 0.2:
            ats = ["I"]
        t = self.type()
        ps = [self.fresh(a.lower()) for a in ats]
        env = list(zip(ps, ats))
        ss = [self.stmt(env, d - 1) for _ in range(r.choice([0, 1, 2]))]
        b = self.e(t, env, d)
        src = "(function (%s%s) {(-> %s)} %s%s)" % (name, "".join(" " + p for p in ps), " ".join(TS[x] for x in ats + [t]), "".join(s[0] + " " for s in ss), b[0])
        if len(src) > 5000:
            return None

        def pf(*args):
            self.step()
            e = dict(zip(ps, args))
            for s in ss:
                s[1](e)
            return b[1](e)
        self.funcs.append((name, ats, t, pf))
        return src

    def program(self, ntests=14, nfuncs=8, d=4):
        decls = []
        while len(decls) < nfuncs:
            s = self.func(self.r.choice([2, 3, 3]))
            if s:
                decls.append(s)
        lines, calls = [], []
        tries = 0
        while len(calls) < ntests and tries < ntests * 20:
            tries += 1
            # a long-lived state, then a history
            env, bs = [], []
            for t in ["R", "V", "VF", "AR", "RR"] + [self.type() for _ in range(3)]:
                n = self.fresh(t.lower())
                bs.append((n, t, self.e(t, env, self.r.choice([1, 2, 3]))))
                env = env + [(n, t)]
            ss = [self.stmt(env, self.r.choice([1, 2, d])) for _ in range(self.r.randrange(3, 9))]
            # everything is looked at in the end
            r0, v0, f0, a0, rr0 = [n for n, _, _ in bs[:5]]
            src = " ".join("(let ([%s (annotate %s %s)])" % (n, x[0], TS[t]) for n, t, x in bs)
            src += " " + " ".join(s[0] for s in ss)
            end = "(log! ~%s) (log! ~~%s) " % (r0, rr0)
            k = self.fresh("k")
            end += "(let ([{0} (ref (annotate 0 I64))]) (while (< (conv ~{0}) (vector/length {1})) (log! ~(vget ~{0} {1})) (set! {0} (+ ~{0} 1))))".format(k, v0)
            end += " (let ([{0} (ref (annotate 0 I64))]) (while (< (conv ~{0}) (array/length {1})) (log! ~(aget ~{0} {1})) (set! {0} (+ ~{0} 1))))".format(k, a0)
            end += " (let ([{0} (ref (annotate 0 I64))]) (while (and (< (conv ~{0}) (vector/length {1})) (< ~{0} 6)) (log! ((vget ~{0} {1}) ~{0})) (set! {0} (+ ~{0} 1))))".format(k, f0)
            text = "(function (test%d) {(-> unit)} %s (collect!) %s%s)" % (len(calls), src, end, ")" * len(bs))
            if len(text) > 12000:
                continue
            self.out = []
            self.steps = 0
            try:
                e = {}
                for n, t, x in bs:
                    e[n] = x[1](e)
                for s in ss:
                    s[1](e)
                self.out.append(e[r0].v)
                self.out.append(e[rr0].v.v)
                i = 0
                while i < len(e[v0]):
                    self.out.append(e[v0][i].v)
                    i += 1
                for x in e[a0]:
                    self.out.append(x.v.v)
                i = 0
                while i < len(e[f0]) and i < 6:
                    self.out.append(e[f0][i](i))
                    i += 1
            except (Fuel, RecursionError):
                continue
            if len(self.out) > 600:
                continue
            decls.append(text)
            lines.append("T%d" % len(calls) + "".join(" %d" % v for v in self.out))
            calls.append("(<test> %d) (test%d)" % (len(calls), len(calls)))
        return PRELUDE + '(c-function <test> {(-> I64 unit)} "vf_test")\n' + "\n".join(decls) + "\n" + "\n".join(calls) + "\n", lines


SHIM = r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
/* the collector, as the programs use it, made as eager as can be: collections at chosen allocations, what was found unreachable is overwritten at once, and so is the stack below the caller;
   a guarded zone behind every object */
extern void *__real_GC_malloc(size_t);
extern void GC_gcollect(void);
extern int GC_invoke_finalizers(void);
extern void GC_register_finalizer_no_order(void *, void (*)(void *, void *), void *, void *, void *);
extern unsigned long GC_get_gc_no(void);
#define ZONE 24
static long every = -1, n_alloc, n_dead, busy, n_over;
static struct { uintptr_t hidden; size_t size; } *all;
static size_t n_all, cap;
static void zone(const unsigned char *p, size_t n) {
  for (size_t i = 0; i < ZONE; i++) if (p[n + i] != 0xcc) { n_over++; return; }
}
static void dead(void *p, void *k) {
  size_t i = (size_t)(uintptr_t)k;
  n_dead++;
  zone(p, all[i].size);
  memset(p, 0xdd, all[i].size);
  all[i].hidden = 0;
}
__attribute__((noinline)) static void scribble(void) {
  volatile unsigned char a[12000];
  for (size_t i = 0; i < sizeof a; i++) a[i] = 0xdd;
}
static void collect(void) { if (busy) return; busy = 1; GC_gcollect(); GC_invoke_finalizers(); busy = 0; }
__attribute__((noinline)) void *__wrap_GC_malloc(size_t n) {
  if (every < 0) { const char *s = getenv("VF_GC_EVERY"); every = s ? atol(s) : 0; }
  n_alloc++;
  if (every && n_alloc % every == 0) collect();
  unsigned char *p = __real_GC_malloc(n + ZONE);
  memset(p + n, 0xcc, ZONE);
  if (n_all == cap) all = realloc(all, (cap = cap ? 2 * cap : 4096) * sizeof *all);
  all[n_all].hidden = ~(uintptr_t)p; all[n_all].size = n;
  GC_register_finalizer_no_order(p, dead, (void *)(uintptr_t)n_all, 0, 0);
  n_all++;
  scribble();
  return p;
}
void vf_clean(void) { scribble(); }
void vf_collect(void) { collect(); scribble(); }
static int first = 1;
static void end(void) {
  busy = 1;
  for (size_t i = 0; i < n_all; i++) if (all[i].hidden) zone((void *)~all[i].hidden, all[i].size);
  printf("\n#%ld %ld %lu %ld\n", n_alloc, n_dead, GC_get_gc_no(), n_over); fflush(stdout);
}
void vf_test(int64_t i) { if (first) atexit(end); printf("%sT%ld", first ? "" : "\n", (long)i); first = 0; scribble(); }
void vf_log(int64_t v) { printf(" %ld", (long)v); scribble(); }
'''
