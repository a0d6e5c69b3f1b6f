"""Random data declarations and match expressions; verdicts by enumerating every class of values the patterns can distinguish."""
import random

LITS = {
    "I32": ["0", "1", "-1", "7", "2147483647", "-2147483648", "65"],
    "U8": ["0", "1", "255", "128", "7"],
    "I64": ["0", "1", "-1", "9223372036854775807", "-9223372036854775808", "4294967296"],
    "U64": ["0", "1", "18446744073709551615", "9223372036854775808"],
    "Char": ["#\\a", "#\\b", "#\\A", "#\\\\n", "#\\話"],
    "String": ['""', '"a"', '"ab"', '"b"', '"a b"', '"\\n"'],
    "F64": ["0.0", "1.5", "-1.5", "2.0"],
}
FRESH = {"I32": "123456", "U8": "99", "I64": "-987654321", "U64": "55555", "Char": "#\\z", "String": '"fresh"', "F64": "77.25"}
BOOL = [("#f", []), ("#t", [])]


class TooBig(Exception):
    pass


class G:
    def __init__(self, rng):
        self.r = rng
        self.types = {}
        self.decls = []

    # types: ("lit", name) ("bool",) ("unit",) ("tup", ts) ("opt", t) ("res", t, e) ("data", name, args) ("var", p)
    def ctors(self, t):
        """-> [(constructor, [field types])] or None for infinite types"""
        k = t[0]
        if k == "lit":
            return None
        if k == "bool":
            return BOOL
        if k == "unit":
            return [("unit", [])]
        if k == "tup":
            return [(":", t[1])]
        if k == "opt":
            return [("none", []), ("some", [t[1]])]
        if k == "res":
            return [("err", [t[2]]), ("ok", [t[1]])]
        d = self.types[t[1]]
        env = dict(zip(d[0], t[2]))
        return [(c, [self.subst(f, env) for f in fs]) for c, fs in d[1]]

    def subst(self, t, env):
        if t[0] == "var":
            return env[t[1]]
        if t[0] == "tup":
            return ("tup", [self.subst(x, env) for x in t[1]])
        if t[0] == "data":
            return ("data", t[1], [self.subst(x, env) for x in t[2]])
        return (t[0],) + tuple(self.subst(x, env) if isinstance(x, tuple) else x for x in t[1:])

    def show(self, t):
        k = t[0]
        if k in ("lit", "var"):
            return t[1]
        if k == "bool":
            return "Bool"
        if k == "unit":
            return "unit"
        if k == "tup":
            return "(: %s)" % " ".join(map(self.show, t[1]))
        if k == "opt":
            return "(Option %s)" % self.show(t[1])
        if k == "res":
            return "(Result %s %s)" % (self.show(t[1]), self.show(t[2]))
        return "(%s %s)" % (t[1], " ".join(map(self.show, t[2]))) if t[2] else t[1]

    def ty(self, d, params=()):
        r = self.r
        if params and r.random() < 0.4:
            return ("var", r.choice(params))
        k = r.randrange(10)
        if d <= 0 or k < 4:
            k = r.randrange(8)
            if k < 3:
                return ("bool",)
            if k == 3:
                return ("lit", r.choice(list(LITS)))
            if k == 4:
                return ("unit",)
            ns = [n for n, x in self.types.items() if not x[0]]
            return ("data", r.choice(ns), []) if ns else ("bool",)
        if k < 6:
            return ("tup", [self.ty(d - 1, params) for _ in range(r.choice([1, 2, 2, 3, 4]))])
        if k == 6:
            return ("opt", self.ty(d - 1, params))
        if k == 7:
            return ("res", self.ty(d - 1, params), self.ty(d - 1, params))
        if self.types:
            n = r.choice(list(self.types))
            return ("data", n, [self.ty(d - 1, params) for _ in self.types[n][0]])
        return ("bool",)

    def declare(self):
        r = self.r
        n = "T%d" % len(self.types)
        lo = n.lower()
        value = r.random() < 0.4
        params = r.sample(["A", "B"], r.choice([0, 0, 1, 2]))
        me = ("data", n, [("var", p) for p in params])
        cs = []
        if r.random() < 0.06:
            cs = [("%s-%d" % (lo, i), []) for i in range(r.choice([20, 65, 130, 257, 300]))]
            params = []
        else:
            n_c = r.choice([1, 2, 2, 3, 3, 4, 5]) if r.random() < 0.85 else r.choice([6, 7, 8, 9, 10, 12, 16, 17, 18])
            for i in range(n_c):
                fs = [self.ty(1, params) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
                if not value and i and r.random() < 0.3:
                    fs.insert(r.randrange(len(fs) + 1), me)
                cs.append(("%s-%d" % (lo, i), fs))
        order = cs[:]
        r.shuffle(order)
        self.types[n] = (params, order)
        head = "(%s %s)" % (n, " ".join(params)) if params else n
        self.decls.append("(%s %s %s)" % ("value-data" if value else "data", head,
                                          " ".join("(%s %s)" % (c, " ".join(map(self.show, fs))) if fs else c for c, fs in order)))

    # patterns: None (wildcard) | ("c", ctor, [pats]) | ("l", literal)
    def split(self, t, p, d):
        """every way one wildcard of p splits into all alternatives; -> list of patterns or None"""
        if p is None:
            cs = self.ctors(t)
            if cs is None:
                ls = self.r.sample(LITS[t[1]], self.r.randrange(1, 4))
                return [("l", x) for x in ls] + [None]
            if len(cs) > 20 and d > 0:
                return None
            return [("c", c, [None] * len(fs)) for c, fs in cs]
        if p[0] == "l" or not p[2]:
            return None
        i = self.r.randrange(len(p[2]))
        fs = dict(self.ctors(t))[p[1]]
        s = self.split(fs[i], p[2][i], d + 1)
        return s and [("c", p[1], p[2][:i] + [x] + p[2][i + 1:]) for x in s]

    def generalise(self, p):
        """replaces one subpattern by a wildcard"""
        if p is None or p[0] == "l" or not p[2] or self.r.random() < 0.3:
            return None
        i = self.r.randrange(len(p[2]))
        return ("c", p[1], p[2][:i] + [self.generalise(p[2][i])] + p[2][i + 1:])

    def pattern(self, t, d):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            return None
        cs = self.ctors(t)
        if cs is None:
            return ("l", r.choice(LITS[t[1]]))
        c, fs = r.choice(cs)
        return ("c", c, [self.pattern(f, d - 1) for f in fs])

    def clauses(self, t):
        r = self.r
        ps = [None]
        for _ in range(r.randrange(1, 9)):
            i = r.randrange(len(ps)) if r.random() < 0.7 else len(ps) - 1
            s = self.split(t, ps[i], 0)
            if s and len(ps) + len(s) < 340:
                ps[i:i + 1] = s
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4])):
            k = r.randrange(8)
            i = r.randrange(len(ps))
            if k > 5:       # a catch-all for the deepest (or the last) alternatives
                dp = lambda p: 0 if not p or p[0] == "l" or not p[2] else 1 + max(map(dp, p[2]))
                m = max(map(dp, ps))
                j = r.choice([n for n, p in enumerate(ps) if dp(p) == m]) if r.random() < 0.7 else -1
                q = ps[j]
                if len(ps) > 1 and r.random() < 0.8:
                    del ps[j]
                if k == 7:
                    while q and q[0] == "c" and q[2] and r.random() < 0.3:
                        q = self.generalise(q)
                    ps.append(q)
                else:
                    ps.append(None)
            elif k == 0 and len(ps) > 1:
                del ps[i]
            elif k == 1:
                ps.insert(r.randrange(len(ps) + 1), ps[i])
            elif k == 2:
                ps[i] = self.generalise(ps[i])
            elif k == 3:
                ps.insert(r.randrange(len(ps) + 1), self.pattern(t, 3))
            elif k == 4 and len(ps) > 1:
                j = r.randrange(len(ps))
                ps[i], ps[j] = ps[j], ps[i]
            else:
                ps.append(self.generalise(ps[i]))
        if r.random() < 0.2:
            r.shuffle(ps)
        return ps

    def text(self, p, names=None):
        """source of a pattern; wildcards become _ or variables, any pattern can be named"""
        r = self.r
        n = None
        if names is not None and r.random() < 0.2:
            n = "v%d" % len(names)
            names.append(n)
        if p is None:
            return "(let %s)" % n if n else "_"
        if p[0] == "l":
            s = p[1]
        elif not p[2]:
            s = p[1] if p[1] != "unit" else r.choice(["unit", "(:)"])
        else:
            s = "(%s %s)" % (p[1], " ".join(self.text(x, names) for x in p[2]))
        return "(let %s %s)" % (n, s) if n else s

    def enum(self, t, ps, lim):
        """values of t, one per class the patterns ps distinguish (and at least one)"""
        ps = [p for p in ps if p is not None]
        if not ps:
            return [self.some(t)]
        cs = self.ctors(t)
        if cs is None:
            ls = list(dict.fromkeys(p[1] for p in ps))
            return [("l", x) for x in ls] + [("l", FRESH[t[1]])]
        out = []
        for c, fs in cs:
            sub = [p[2] for p in ps if p[1] == c]
            rows = [[]]
            for i, f in enumerate(fs):
                vs = self.enum(f, [s[i] for s in sub], lim)
                rows = [a + [b] for a in rows for b in vs]
                if len(rows) > lim:
                    raise TooBig()
            out += [("c", c, x) for x in rows]
            if len(out) > lim:
                raise TooBig()
        return out

    def some(self, t, d=0):
        cs = self.ctors(t)
        if cs is None:
            return ("l", FRESH[t[1]])
        if d > 2:       # the first constructor declared is not recursive
            base = min(cs, key=lambda c: int(c[0].split("-")[1])) if t[0] == "data" else cs[0]
        else:
            base = self.r.choice(cs)
        return ("c", base[0], [self.some(f, d + 1) for f in base[1]])

    def vtext(self, v):
        return v[1] if v[0] == "l" or not v[2] else "(%s %s)" % (v[1], " ".join(map(self.vtext, v[2])))


def matches(p, v):
    if p is None:
        return True
    if p[0] == "l":
        return v == p
    return p[1] == v[1] and all(matches(a, b) for a, b in zip(p[2], v[2]))


def verdict(ps, vals):
    """-> ("useless", i) | ("missing", [values]) | ("ok", [first clause per value])"""
    first = []
    for v in vals:
        first.append(next((i for i, p in enumerate(ps) if matches(p, v)), None))
    got = set(first)
    for i in range(len(ps)):
        if i not in got:
            return "useless", i
    if None in got:
        return "missing", [v for v, f in zip(vals, first) if f is None]
    return "ok", first


def parse(s):
    """printed patterns -> list of pattern trees"""
    out, st, i = [], [], 0
    cur = out
    while i < len(s):
        ch = s[i]
        if ch == " ":
            i += 1
        elif ch == "(":
            st.append(cur)
            cur = []
            i += 1
        elif ch == ")":
            x = cur
            cur = st.pop()
            cur.append(("c", x[0], [tree(y) for y in x[1:]]) if x else ("c", "unit", []))
            i += 1
        elif ch == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            cur.append(s[i:j + 1])
            i = j + 1
        elif s.startswith("#\\", i):
            j = i + (4 if s[i + 2] == "\\" else 3)
            cur.append(s[i:j])
            i = j
        else:
            j = i
            while j < len(s) and s[j] not in " ()":
                j += 1
            cur.append(s[i:j])
            i = j
    return [tree(x) for x in out]


def tree(x):
    if not isinstance(x, str):
        if x[1] == ":" and not x[2]:
            return ("c", "unit", [])
        return x
    if x == "_":
        return None
    if x == "unit":
        return ("c", "unit", [])
    if x[0] in '"-0123456789' or x.startswith("#\\"):
        return ("l", x)
    return ("c", x, [])


def norm(p):
    """canonical form of a literal pattern for comparison with printed ones"""
    if p is None:
        return None
    if p[0] == "l":
        x = p[1]
        if x[0] not in '"#':
            return ("l", "%.17g" % float(x) if "." in x else str(int(x)))
        return p
    return ("c", p[1], [norm(q) for q in p[2]])
