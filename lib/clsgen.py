"""Programs over type classes (superclasses, instance constraints, defaults, several parameters, type constructors), with a model of
instance resolution (verdict) and of dictionary passing (trace). Types are those of hm.py; data types have one constructor holding all parameters."""
from hm import show

I32 = ("c", "I32")
LETTERS = [chr(i) for i in range(33, 127)]


class NoInst(Exception):
    pass


class Overlap(Exception):
    pass


class Deep(Exception):
    pass


class Missing(Exception):
    pass


class Big(Exception):
    pass


def sub(t, m):
    if t[0] == "c":
        return m.get(t[1], t)
    return ("a", sub(t[1], m), [sub(x, m) for x in t[2]])


def subc(c, m):
    return (c[0], [sub(t, m) for t in c[1]])


def params(t, acc):
    if t[0] == "c":
        if t[1][0] == "'" and t[1] not in acc:
            acc.append(t[1])
    else:
        for x in [t[1]] + t[2]:
            params(x, acc)
    return acc


def match(p, t, m, vs):
    """one-way matching of pattern p (variables vs) to t"""
    if p[0] == "c" and p[1] in vs:
        if p[1] in m:
            return m[p[1]] == t
        m[p[1]] = t
        return True
    if p[0] == "c" or t[0] == "c":
        return p == t
    return len(p[2]) == len(t[2]) and match(p[1], t[1], m, vs) and all(match(a, b, m, vs) for a, b in zip(p[2], t[2]))


def unifiable(a, b, vs, kinds):
    s = {}

    def walk(t):
        while t[0] == "c" and t[1] in s:
            t = s[t[1]]
        return t

    def occurs(v, t):
        t = walk(t)
        return t == ("c", v) if t[0] == "c" else any(occurs(v, x) for x in [t[1]] + t[2])

    def kind(t):
        return kinds.get(t[1], 0) if t[0] == "c" else 0

    def go(a, b):
        a, b = walk(a), walk(b)
        if a == b:
            return True
        if b[0] == "c" and b[1] in vs:
            a, b = b, a
        if a[0] == "c" and a[1] in vs:
            if occurs(a[1], b) or kind(a) != kind(b):
                return False
            s[a[1]] = b
            return True
        if a[0] == "c" or b[0] == "c":
            return False
        return len(a[2]) == len(b[2]) and go(a[1], b[1]) and all(go(x, y) for x, y in zip(a[2], b[2]))
    return all(go(x, y) for x, y in zip(a, b))


class Cls:
    def __init__(self, name, ps, kinds, supers):
        self.name, self.ps, self.kinds, self.supers = name, ps, kinds, supers
        self.methods = {}       # name -> Method


class Method:
    def __init__(self, name, kind, tvs, args, ret, where, rank):
        self.name, self.kind, self.tvs, self.args, self.ret, self.where, self.rank = name, kind, tvs, args, ret, where, rank
        self.default = None     # Body


class Inst:
    def __init__(self, name, tvs, cls, args, where):
        self.name, self.tvs, self.cls, self.args, self.where = name, tvs, cls, args, where
        self.impls = {}         # method -> (annotated?, Body)
        self.super_sats = None


class Body:
    """params: names with types; destructured components; statements"""

    def __init__(self, letter):
        self.letter = letter
        self.pats = []          # (param, pattern text)
        self.stmts = []         # ("call", callee, [arg exprs], [constraints], wrap) ; args: ("v", name) | ("k", type) | ("mk", cls, method, type)
        self.result = None      # for producers: (type, expression)
        self.sats = None


class Fun:
    def __init__(self, name, tvs, args, where, rank, ann):
        self.name, self.tvs, self.args, self.where, self.rank, self.ann = name, tvs, args, where, rank, ann
        self.body = None


class World:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.risk = rng.choice([0, 0, 0.01, 0.05])
        self.types = {}     # name -> number of parameters
        self.kinds = {}
        self.classes = {}
        self.insts = []
        self.funs = []
        self.mains = []     # (module-level) list of Body without parameters
        self.decls = []     # all, in dependency order: ("data", name) ("class", Cls) ("inst", Inst) ("fun", Fun) ("main", Body)
        self.rank = 0
        self.letters = LETTERS[:]
        self.where = {}     # decl index -> module index
        rng.shuffle(self.letters)

    def nm(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def letter(self):
        if not self.letters:
            raise Big()
        return self.letters.pop()

    # ------------------------------------------------ generation
    def data(self):
        n = self.nm("T")
        k = self.r.choice([0, 0, 0, 1, 1, 2])
        self.types[n] = k
        self.kinds[n] = k
        self.decls.append(("data", n))

    def ty(self, d, tvs=()):
        r = self.r
        if tvs and r.random() < 0.5:
            return ("c", r.choice(tvs))
        c = [n for n in self.types if (self.types[n] > 0) == (d > 0 and r.random() < 0.7)]
        if not c:
            c = [n for n in self.types if not self.types[n]]
        n = r.choice(c)
        if not self.types[n]:
            return ("c", n)
        return ("a", ("c", n), [self.ty(d - 1, tvs) for _ in range(self.types[n])])

    def con(self, t):
        """value of a ground type"""
        if t[0] == "c":
            return "k" + t[1]
        return "(k%s %s)" % (t[1][1], " ".join(self.con(x) for x in t[2]))

    def cls(self):
        r = self.r
        n = self.nm("C")
        x = r.random()
        if x < 0.7:
            ps, ks = ["'A" + n], [0]
        elif x < 0.85:
            ps, ks = ["'A" + n, "'B" + n], [0, 0]
        elif x < 0.93 and any(k == 1 for k in self.types.values()):
            ps, ks = ["'F" + n], [1]
        else:
            ps, ks = [], []
        for p, k in zip(ps, ks):
            self.kinds[p] = k
        sup = []
        if r.random() < 0.6:
            for _ in range(r.choice([1, 1, 2])):
                c = self.constraint([p for p, k in zip(ps, ks) if not k], [p for p, k in zip(ps, ks) if k])
                if c and c not in sup:
                    sup.append(c)
        c = Cls(n, ps, ks, sup)
        self.classes[n] = c
        self.decls.append(("class", c))
        for _ in range(r.choice([1, 1, 2, 3])):
            m = self.method(c)
            c.methods[m.name] = m
            if r.random() < 0.4:
                m.default = self.body([(self.nm("p"), t) for t in m.args], [(n, [("c", p) for p in ps])] + m.where, m.rank, m.ret if m.kind == "mk" else None)
                if m.default is None and m.kind != "mk":
                    m.default = Body(self.letter())

    def constraint(self, tvs, htvs=(), deep=0.15):
        r = self.r
        cs = [c for c in self.classes.values()]
        r.shuffle(cs)
        for c in cs:
            if not c.ps and r.random() < 0.5:
                continue
            a = []
            for p, k in zip(c.ps, c.kinds):
                if k:
                    if not htvs:
                        break
                    a.append(("c", r.choice(list(htvs))))
                elif not tvs:
                    break
                else:
                    a.append(("c", r.choice(tvs)) if r.random() > deep else self.ty(1, tvs))
            if len(a) == len(c.ps):
                return (c.name, a)
        return None

    def method(self, c):
        r = self.r
        self.rank += 1
        if c.kinds == [1]:
            v = "'V%d" % self.rank
            w = self.constraint([v], deep=0)
            return Method(self.nm("m"), "use", [v], [("a", ("c", c.ps[0]), [("c", v)])], I32, [w] if w and r.random() < 0.7 else [], self.rank)
        if len(c.ps) == 1 and r.random() < 0.2:
            return Method(self.nm("m"), "mk", [], [], ("c", c.ps[0]), [], self.rank)
        tvs, where = [], []
        args = [("c", p) for p in c.ps]
        if r.random() < 0.25:
            tvs = ["'V%d" % self.rank]
            args = args + [("c", tvs[0])]
            w = self.constraint(tvs + (c.ps if r.random() < 0.4 else []), deep=0)
            if w and r.random() < 0.8:
                where = [w]
        return Method(self.nm("m"), "use", tvs, args, I32, where, self.rank)

    def pattern(self, t, vs, d=2):
        """destructures a value of type t, leaving components in vs"""
        if t[0] == "a" and t[1][1][0] != "'" and d:
            return "(k%s %s)" % (t[1][1], " ".join(self.pattern(x, vs, d - 1) for x in t[2]))
        v = self.nm("x")
        vs.append((v, t))
        return "(let %s)" % v

    def closure(self, prem):
        """premises with superclasses: (class, args, root, path)"""
        out = []

        def add(c, i, path):
            for j, s in enumerate(self.classes[c[0]].supers):
                add(subc(s, dict(zip(self.classes[c[0]].ps, c[1]))), i, path + [j])
            out.append((c[0], c[1], i, path))
        for i, c in enumerate(prem):
            add(c, i, [])
        return out

    def size(self, ts):
        """size of the values of these types, linear in the sizes of the type parameters"""
        out = {"": 0}

        def go(t):
            if t[0] == "a":
                out[""] += 1
                for x in t[2]:
                    go(x)
            else:
                k = t[1] if t[1][0] == "'" else ""
                out[k] = out.get(k, 0) + 1
        for t in ts:
            go(t)
        return out

    def smaller(self, a, b, equal):
        """a < b (or a <= b) whatever the parameters"""
        if b is None:
            return True
        d = {k: b.get(k, 0) - a.get(k, 0) for k in set(a) | set(b)}
        if any(v < 0 for k, v in d.items() if k):
            return False
        return sum(d.values()) >= (0 if equal else 1)

    def body(self, ps, prem, rank, ret=None, ann=True, budget=3):
        """a body with the given parameters under premises; calls have smaller arguments or lower rank"""
        r = self.r
        b = Body(self.letter())
        b.ps = ps
        vs = list(ps)
        total = self.size([t for _, t in ps])
        for n, t in ps:
            if t[0] == "a" and t[1][1][0] != "'":
                comp = []
                b.pats.append((n, self.pattern(t, comp)))
                vs += comp
        clo = self.closure(prem)
        for _ in range(r.randrange(budget + 1)):
            for _ in range(8):
                s = self.call(vs, clo, total, rank, ann)
                if s and (r.random() < self.risk or self.solvable(s, clo if ann else None)):
                    b.stmts.append(s)
                    break
        if ret is not None:
            b.result = (ret, self.produce(ret, clo, rank, 0))
            if b.result[1] is None:
                return None
        return b

    def solvable(self, s, clo):
        try:
            for c in s[3] + [(e[1], [e[3]]) for e in s[2] if e[0] == "mk"]:
                if clo is not None or not any(params(t, []) for t in c[1]):
                    self.solve(c, clo or [], self.insts, set())
            return True
        except (NoInst, Deep, Overlap):
            return False

    def produce(self, t, clo, rank, d):
        """expression of type t (may be a parameter) from producers in the premises and constructors"""
        r = self.r
        if t[0] == "c" and t[1][0] != "'" and (r.random() < 0.6 or d == 0):
            return ("k", t)
        if t[0] == "a":
            xs = [self.produce(x, clo, rank, d + 1) for x in t[2]]
            return None if None in xs else ("con", t[1][1], xs, t)
        for c, a, i, path in clo:
            for m in self.classes[c].methods.values():
                if m.kind == "mk" and len(a) == 1 and a[0] == t and (m.rank < rank or d > 0):
                    return ("mk", c, m, t)
        return ("k", t) if t[0] == "c" and t[1][0] != "'" else None

    def arg(self, t, vs, clo, rank):
        """expression of exactly type t"""
        c = [n for n, x in vs if x == t]
        if c and self.r.random() < 0.85:
            return ("v", self.r.choice(c))
        if not params(t, []):
            return ("k", t)
        return ("v", self.r.choice(c)) if c else None

    def call(self, vs, clo, total, rank, ann):
        """a call to a method or function; prefers ones whose constraints follow from the premises, sometimes not"""
        r = self.r
        cands = []
        for c in self.classes.values():
            for m in c.methods.values():
                if m.kind == "use":
                    cands.append(("m", c, m))
                elif m.kind == "mk" and ann:
                    cands.append(("m", c, m))
        cands += [("f", None, f) for f in self.funs]
        r.shuffle(cands)
        cands.sort(key=lambda x: 0 if x[0] == "m" and any(x[1].name == c for c, a, i, p in clo) and r.random() < 0.6 else 1)
        for k, c, f in cands[:12]:
            m = {}
            tvs = (c.ps if c else []) + f.tvs
            if k == "m" and f.kind == "mk":
                pool = [a[0] for n, a, i, p in clo if n == c.name] + [self.ty(1)]
                t = r.choice(pool)
                if not self.smaller(self.size([t]), total, f.rank < rank):
                    continue
                users = [(cc, u) for cc in self.classes.values() for u in cc.methods.values()
                         if u.kind == "use" and len(u.args) == 1 and u.args[0] == ("c", cc.ps[0] if cc.ps else "") and u.rank < rank]
                if not users:
                    continue
                cc, u = r.choice(users)
                return ("call", ("m", cc, u), [("mk", c.name, f, t)], [(cc.name, [t])], {}, 0)
            args = []
            ok = True
            for t in f.args:
                if t[0] == "a" and t[1][1][0] == "'":      # (F v)
                    pool = [x for n, x in vs if x[0] == "a" and len(x[2]) == 1]
                    if not pool:
                        g = [n for n, q in self.types.items() if q == 1]
                        pool = [("a", ("c", r.choice(g)), [self.ty(0)])]
                    x = r.choice(pool)
                    if m.setdefault(t[1][1], x[1]) != x[1] or m.setdefault(t[2][0][1], x[2][0]) != x[2][0]:
                        ok = False
                elif t[0] == "c" and t[1] in tvs and t[1] not in m:
                    pool = [x for n, x in vs]
                    x = r.choice(pool) if pool and r.random() < 0.8 else self.ty(r.choice([0, 1, 2]))
                    m[t[1]] = x
                x = sub(t, m)
                e = self.arg(x, vs, clo, rank)
                if e is None:
                    ok = False
                    break
                args.append((e, x))
            if not ok:
                continue
            if not self.smaller(self.size([x for e, x in args]), total, f.rank < rank):
                continue
            cons = ([(c.name, [sub(("c", p), m) for p in c.ps])] if c else []) + [subc(w, m) for w in f.where]
            return ("call", (k, c, f), [e for e, x in args], cons, m, r.random() < 0.12)
        return None

    def inst(self, c, ps=None):
        r = self.r
        n = self.nm("N")
        tvs = ["'P" + n, "'Q" + n]
        args = []
        for k in c.kinds:
            if k:
                args.append(("c", r.choice([t for t, q in self.types.items() if q == 1])))
            elif r.random() < 0.1:
                args.append(("c", tvs[len(args) % 2]))
            else:
                t = r.choice(list(self.types))
                q = self.types[t]
                a = []
                for j in range(q):
                    a.append(("c", tvs[(j + len(args)) % 2]) if r.random() < 0.85 else self.ty(1, tvs))
                args.append(("a", ("c", t), a) if q else ("c", t))
        used = []
        for a in args:
            params(a, used)
        i = Inst(n, used, c.name, args, [])
        if self.overlaps(i) and r.random() >= self.risk * 2:
            return None
        # constraints: what the superclasses need, and some more
        m = dict(zip(c.ps, args))
        for v in used:
            if r.random() < 0.8:
                w = (c.name, [("c", v)]) if len(c.ps) == 1 and c.kinds == [0] and r.random() < 0.6 else self.constraint([v], deep=0.1)
                if w and w not in i.where:
                    i.where.append(w)
        for s in c.supers:
            if r.random() >= self.risk:
                self.ensure(subc(s, m), i)
        if any(n == c.name and a == args for n, a, _, _ in self.closure(i.where)):
            return None     # its own dictionary would be among its premises: circular
        if r.random() >= self.risk:
            try:
                for s in c.supers:
                    self.solve(subc(s, m), self.closure(i.where), self.insts + [i], set())
            except (NoInst, Deep):
                return None
        self.insts.append(i)
        for x in c.methods.values():
            if r.random() < (0.5 if x.default else self.risk / 2):
                continue
            mm = dict(m)
            ats = [sub(t, mm) for t in x.args]
            prem = i.where + [subc(w, mm) for w in x.where]
            if x.kind == "use":
                b = self.body([(self.nm("p"), t) for t in ats], prem, x.rank)
            else:
                b = self.body([], prem, x.rank, sub(x.ret, mm), budget=0)
            if b is None:
                if not x.default:
                    self.insts.remove(i)
                    return None
                continue
            i.impls[x.name] = (r.random() < 0.15 or any(e[0] == "mk" and any(v in x.tvs for v in params(e[3], [])) for st in b.stmts for e in st[2]), b)
        self.decls.append(("inst", i))
        return i

    def ensure(self, c, i):
        """make the constraint c solvable under i.where by adding constraints on i's parameters"""
        try:
            self.solve(c, self.closure(i.where), self.insts + [i], set())
        except (NoInst, Overlap, Deep):
            if all(t[0] == "c" and t[1][0] == "'" for t in c[1]) and c[1]:
                if c not in i.where:
                    i.where.append(c)
            elif any(params(t, []) for t in c[1]) and self.r.random() < 0.7:
                i.where.append(c)

    def overlaps(self, i):
        for j in self.insts:
            if j.cls == i.cls:
                vs = set(i.tvs) | set(j.tvs)
                if unifiable(i.args, j.args, vs, self.kinds):
                    return j
        return None

    def fun(self):
        r = self.r
        n = self.nm("g")
        self.rank += 1
        tvs = ["'X" + n, "'Y" + n][:r.choice([1, 1, 2])]
        args = [("c", v) if r.random() < 0.7 else self.ty(1, [v]) for v in tvs]
        tvs = [v for v in tvs if any(v in params(a, []) for a in args)]
        ann = r.random() < 0.65
        where = []
        for v in tvs:
            for _ in range(r.choice([0, 1, 1, 2])):
                w = self.constraint([v] if r.random() < 0.8 else tvs, deep=0.15)
                if w and w not in where:
                    where.append(w)
        ps = [(self.nm("p"), t) for t in args]
        f = Fun(n, tvs, args, where, self.rank, ann)
        f.ps = ps
        f.body = self.body(ps, where, self.rank, ann=ann)
        def consts(t):
            return t[0] == "c" and t[1][0] != "'" or t[0] == "a" and any(consts(x) for x in t[2])
        if not ann:
            # the constraints are inferred from the body
            if any(not self.seen(p, f.body) or consts(p[1]) for p in ps):
                f.ann = True
        if not f.ann:
            f.where = []
            for s in f.body.stmts:
                for w in s[3]:
                    if any(params(t, []) for t in w[1]) and w not in f.where:
                        f.where.append(w)
        self.funs.append(f)
        self.decls.append(("fun", f))

    def seen(self, p, b):
        # every parameter's type must be forced by the body: a pattern, or use where the type is a plain variable
        return any(n == p[0] for n, q in b.pats) or p[1][0] == "c"

    def main(self):
        r = self.r
        b = Body(self.letter())
        self.rank += 1
        vs = []
        for _ in range(r.choice([1, 1, 2])):
            # prefer solvable calls
            for k in range(20):
                ty = self.ty(r.choice([0, 1, 2, 3]))
                s = self.call([("", ty)], [], None, self.rank, True)
                if not s:
                    continue
                if any(e == ("v", "") for e in s[2]):
                    s = s[:2] + ([("k", ty) if e == ("v", "") else e for e in s[2]],) + s[3:]
                if not self.solvable(s, []) and r.random() >= self.risk:
                    continue
                b.stmts.append(s)
                break
        self.mains.append(b)
        self.decls.append(("main", b))

    def generate(self):
        r = self.r
        self.types["T0"] = self.kinds["T0"] = 0
        self.decls.append(("data", "T0"))
        for _ in range(r.randrange(2, 6)):
            self.data()
        nc = r.randrange(1, 6)
        for _ in range(nc):
            self.cls()
        for c in list(self.classes.values()):
            if not c.ps:
                if r.random() < 0.9:
                    self.inst(c)
                continue
            for _ in range(r.randrange(1, 6)):
                self.inst(c)
        for _ in range(r.randrange(0, 5)):
            self.fun()
        for _ in range(r.randrange(1, 6)):
            self.main()
        return self

    # ------------------------------------------------ model: resolution
    def solve(self, c, prem, insts, touched, depth=0):
        if depth > 20:
            raise Deep()
        for n, a, i, path in prem:
            if n == c[0] and a == c[1]:
                return ("p", i, path)
        touched.add(c[0])
        for i in insts:
            if i.cls == c[0]:
                m = {}
                if all(match(p, t, m, i.tvs) for p, t in zip(i.args, c[1])):
                    return ("i", i, [self.solve(subc(w, m), prem, insts, touched, depth + 1) for w in i.where])
        raise NoInst("%s %s" % (c[0], " ".join(map(show, c[1]))))

    def check(self, layout):
        """layout: list of modules, each a list of decls; every module sees all earlier ones. Raises, or fills in the satisfactions."""
        seen = []
        owner = {}
        for k, decls in enumerate(layout):
            own = [d[1] for d in decls if d[0] == "inst"]
            for i in own:
                owner[i.name] = k
            vis = seen + own
            touched = set()
            for i in own:
                c = self.classes[i.cls]
                touched.add(i.cls)
                for m in c.methods.values():
                    if not m.default and m.name not in i.impls:
                        raise Missing()
            self.overlap_in(vis, touched, owner, k)
            try:
                for kind, d in decls:
                    if kind == "class":
                        for m in d.methods.values():
                            if m.default:
                                self.check_body(m.default, [(d.name, [("c", p) for p in d.ps])] + m.where, vis, touched)
                    elif kind == "inst":
                        c = self.classes[d.cls]
                        mp = dict(zip(c.ps, d.args))
                        clo = self.closure(d.where)
                        d.super_sats = [self.solve(subc(s, mp), clo, vis, touched) for s in c.supers]
                        for x, (a, b) in d.impls.items():
                            self.check_body(b, d.where + [subc(w, mp) for w in c.methods[x].where], vis, touched)
                    elif kind == "fun":
                        if d.ann:
                            self.check_body(d.body, d.where, vis, touched)
                        else:
                            self.check_body(d.body, d.where, vis, touched, True)
                    elif kind == "main":
                        self.check_body(d, [], vis, touched)
            finally:
                self.overlap_in(vis, touched, owner, k)
            seen = vis

    def overlap_in(self, vis, touched, owner, k):
        for x, a in enumerate(vis):
            for b in vis[x + 1:]:
                if a.cls == b.cls and a.cls in touched and not (owner[a.name] == owner[b.name] != k):
                    if unifiable(a.args, b.args, set(a.tvs) | set(b.tvs), self.kinds):
                        raise Overlap("%s %s" % (a.name, b.name))

    def check_body(self, b, prem, vis, touched, inferred=False):
        clo = self.closure(prem)
        b.sats = []
        if inferred:
            # exactly the listed constraints are assumed, no superclasses of them
            clo = [(c[0], c[1], i, []) for i, c in enumerate(prem)]
        for s in b.stmts:
            b.sats.append(([self.solve(c, clo, vis, touched) for c in s[3]],
                           [self.expr_sats(e, clo, vis, touched) for e in s[2]]))
        if b.result:
            b.rsats = self.expr_sats(b.result[1], clo, vis, touched)

    def expr_sats(self, e, clo, vis, touched):
        if e[0] == "mk":
            return self.solve((e[1], [e[3]]), clo, vis, touched)
        if e[0] == "con":
            return [self.expr_sats(x, clo, vis, touched) for x in e[2]]
        return None

    # ------------------------------------------------ model: execution
    def ground(self, s, env, deep=0):
        """dictionary = ("d", Inst, [dictionaries])"""
        if deep > 200:
            raise Big()
        if s[0] == "i":
            return ("d", s[1], [self.ground(x, env, deep + 1) for x in s[2]])
        d = env[s[1]]
        self.steps += 0.01
        if self.steps > 3000:
            raise Big()
        for j in s[2]:
            d = self.ground(d[1].super_sats[j], d[2], deep + 1)
        return d

    def expand(self, d, depth=0):
        """superclass dictionaries, all of them, are finite"""
        self.steps += 0.05
        if self.steps > 3000 or depth > 60:
            raise Big()
        for s in d[1].super_sats:
            self.expand(self.ground(s, d[2]), depth + 1)
        for x in d[2]:
            self.expand(x, depth + 1)

    def run_method(self, c, m, d, own, out):
        i = d[1]
        if m.name in i.impls:
            self.run_body(i.impls[m.name][1], d[2] + own, out)
        else:
            self.run_body(m.default, [d] + own, out)

    def run_expr(self, e, s, env, out):
        if e[0] == "mk":
            self.run_method(e[1], e[2], self.ground(s, env), [], out)
        elif e[0] == "con":
            for x, y in zip(e[2], s):
                self.run_expr(x, y, env, out)

    def run_body(self, b, env, out):
        self.steps += 1
        if self.steps > 3000:
            raise Big()
        out.append(b.letter)
        for (_, (k, c, f), args, cons, m, wrap), (ss, es) in zip(b.stmts, b.sats):
            for e, s in zip(args, es):
                self.run_expr(e, s, env, out)
            ds = [self.ground(s, env) for s in ss]
            for x in ds:
                self.expand(x)
            if k == "m":
                self.run_method(c, f, ds[0], ds[1:], out)
            else:
                self.run_body(f.body, ds, out)
        if b.result:
            self.run_expr(b.result[1], b.rsats, env, out)

    def trace(self, layout):
        out = []
        self.steps = 0
        for decls in layout:
            for k, d in decls:
                if k == "main":
                    self.run_body(d, [], out)
        return "".join(out)

    # ------------------------------------------------ text
    def ex(self, e):
        if e[0] == "v":
            return e[1]
        if e[0] == "k":
            return self.con(e[1])
        if e[0] == "mk":
            return "%s {%s}" % (e[2].name, show(e[3]))
        return "(k%s %s)" % (e[1], " ".join(self.ex(x) for x in e[2]))

    def btext(self, b):
        ss = ['(putchar %d {I32})' % ord(b.letter)]
        for _, (k, c, f), args, cons, m, wrap in b.stmts:
            a = [self.ex(e) for e in args]
            if wrap and a and not any(e[0] == "mk" for e in args):
                vs = [self.nm("z") for _ in a]
                h = self.nm("h")
                ss.append("(let ([(%s %s) (%s %s)]) (%s %s))" % (h, " ".join(vs), f.name, " ".join(vs), h, " ".join(a)))
            else:
                ss.append("(%s)" % " ".join([f.name] + a))
        if b.result:
            ss.append(self.ex(b.result[1]))
        t = "(begin %s)" % " ".join(ss)
        for n, p in reversed(b.pats):
            t = "(match %s [%s %s])" % (n, p, t)
        return t

    def ctext(self, c):
        return "(%s %s)" % (c[0], " ".join(map(show, c[1]))) if c[1] else c[0]

    def wtext(self, cs):
        return " (where %s)" % " ".join(map(self.ctext, cs)) if cs else ""

    def sig(self, tvs, args, ret, where, fun=True):
        t = "(-> %s)" % " ".join(map(show, args + [ret])) if fun else show(ret)
        if tvs:
            return "{(forall %s) %s%s}" % (" ".join(v[1:] for v in tvs), t, self.wtext(where))
        return "{%s%s}" % (t, self.wtext(where))

    def text(self, d):
        k, d = d
        r = self.r
        if k == "data":
            q = self.types[d]
            vs = ["A%d" % i for i in range(q)]
            head = r.choice(["data", "value-data"])
            return "(%s (%s %s) (k%s %s))" % (head, d, " ".join(vs), d, " ".join(vs)) if q else "(%s %s k%s)" % (head, d, d)
        if k == "class":
            ms = []
            xs = list(d.methods.values())
            r.shuffle(xs)
            for m in xs:
                ps = self.pnames(m.default, m)
                head = "(%s)" % " ".join([m.name] + ps) if m.kind == "use" else m.name
                ms.append("\n  (function %s %s%s)" % (head, self.sig(m.tvs, m.args, m.ret, m.where, m.kind == "use"),
                                                     " " + self.btext(m.default) if m.default else ""))
            ws = d.supers[:]
            head = "(%s)" % " ".join([d.name] + [("[%s (-> * *)]" % p[1:]) if q and r.random() < 0.5 else p[1:] for p, q in zip(d.ps, d.kinds)]) if d.ps else d.name
            return "(class %s%s%s)" % (head, self.wtext(ws), "".join(ms))
        if k == "inst":
            c = self.classes[d.cls]
            mp = dict(zip(c.ps, d.args))
            ms = []
            xs = list(d.impls.items())
            r.shuffle(xs)
            for x, (a, b) in xs:
                m = c.methods[x]
                ps = self.pnames(b, m)
                head = "(%s)" % " ".join([x] + ps) if m.kind == "use" else x
                sg = " " + self.sig(m.tvs, [sub(t, mp) for t in m.args], sub(m.ret, mp), [subc(w, mp) for w in m.where], m.kind == "use") if a else ""
                ms.append("\n  (function %s%s %s)" % (head, sg, self.btext(b)))
            ws = d.where[:]
            return "(instance %s%s %s%s%s)" % (d.name, " (forall %s)" % " ".join(v[1:] for v in d.tvs) if d.tvs else "", self.ctext((d.cls, d.args)),
                                               self.wtext(ws), "".join(ms))
        if k == "fun":
            sg = " " + self.sig(d.tvs, d.args, I32, d.where) if d.ann else ""
            return "(function (%s)%s %s)" % (" ".join([d.name] + [p for p, _ in d.ps]), sg, self.btext(d.body))
        return self.btext(d)

    def pnames(self, b, m):
        if b is not None and hasattr(b, "ps"):
            return [n for n, _ in b.ps]
        return [self.nm("u") for _ in m.args]

    # ------------------------------------------------ modules
    def layout(self, k):
        """cuts the declarations into k modules (in dependency order), shuffled inside each; the order of instances, constraints and methods varies too"""
        r = self.r
        cuts = sorted(r.randrange(1, len(self.decls)) for _ in range(k - 1)) if len(self.decls) > 1 else []
        mods, last = [], 0
        for c in cuts + [len(self.decls)]:
            ds = self.decls[last:c]
            last = c
            mains = [d for d in ds if d[0] == "main"]
            ds = ds[:]
            r.shuffle(ds)
            it = iter(mains)
            ds = [next(it) if d[0] == "main" else d for d in ds]
            mods.append(ds)
        return mods

    def files(self, layout, head):
        out = {}
        exps = []
        for k, ds in enumerate(layout):
            ex = []
            for kind, d in ds:
                if kind == "data":
                    ex += [d, "k" + d]
                elif kind == "class":
                    ex += [d.name] + list(d.methods)
                elif kind != "main":
                    ex.append(d.name)
            name = "m" if k == len(layout) - 1 else "m%d" % k
            t = head + "".join('(import "~/%s" _)\n' % n for n in exps)
            t += "\n".join(self.text(d) for d in ds) + "\n"
            if k < len(layout) - 1:
                t += "(export %s)\n" % " ".join(ex)
            out[name + ".llrl"] = t
            exps.append(name)
        return out
