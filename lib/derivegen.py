"""Generated data declarations with derived instances, all pairs of generated values, against structural laws."""
import random

INTS = {"I8": (-128, 127), "I16": (-32768, 32767), "I32": (-2 ** 31, 2 ** 31 - 1), "I64": (-2 ** 63, 2 ** 63 - 1),
        "U8": (0, 255), "U16": (0, 65535), "U32": (0, 2 ** 32 - 1), "U64": (0, 2 ** 64 - 1)}
F = ["0.0", "-0.0", "1.5", "-2.25", "1000000.0", "0.0009765625"]
CH = "abzAZ09 "
HEAD = r'''
(import "std/derive" derive derive/_)
(import "std/eq" _) (import "std/ord" _) (import "std/hash" _) (import "std/debug" _) (import "std/copy" _) (import "std/default" _)
(import "std/either" Either left right _.Either)
(import "std/box" Box box _.Box)
(import "std/vector" Vector vector vector/_ _.Vector)
(import "std/array" Array array array/_ _.Array)
(import "std/ordering" _)
(import "std/xxhash" XxHasher xx-hasher/_ _.XxHasher)
(function (b x n) {(-> Bool I64 I64)} (if x n 0))
(function (oc o) {(-> Ordering I64)} (match o [ordering:less 128] [ordering:equal 256] [ordering:greater 512]))
(function (law vs) {(forall A) (-> (Vector A) unit) (where (Eq A) (Ord A) (Hash A) (DebugDisplay A) (DeepCopy A))}
  (let1 h (xx-hasher/with-seed 42)
    (begin
      (for (let x) vs
        (begin
          (let1 c (deep-copy x)
            (println! "v " (b (eq? x c) 1) " " (b (eq? (hash h x) (hash h c)) 1) " " (debug x) " | " (debug c)))
          (print! "p")
          (for (let y) vs
            (print! " " (+ (b (eq? x y) 1) (b (ne? x y) 2) (b (lt? x y) 4) (b (le? x y) 8) (b (gt? x y) 16) (b (ge? x y) 32)
              (b (eq? (hash h x) (hash h y)) 64) (oc (compare x y)))))
          (println! ""))))))
'''


class G:
    def __init__(self, rng):
        self.r = rng
        self.types = {}      # name -> dict(params, ctors=[(name, [type])], kind)
        self.out = []
        self.exp = []
        self.nvals = self.npairs = 0

    # a type: ("int", n) ("f64",) ("bool",) ("str",) ("char",) ("unit",) ("ord",) ("opt", t) ("res", t, t) ("eith", t, t)
    #         ("tup", [t]) ("box", t) ("ref", t) ("vec", t) ("arr", t) ("data", name, [t]) ("var", p)
    def ty(self, depth, params=(), names=(), value=False):
        r = self.r
        k = r.random()
        if params and k < 0.35:
            return ("var", r.choice(params))
        if depth <= 0 or k < 0.6:
            k = r.randrange(12)
            if k < 5:
                return ("int", r.choice(list(INTS)))
            return [("f64",), ("bool",), ("str",), ("char",), ("unit",), ("ord",), ("f64",)][k - 5]
        k = r.randrange(13)
        s = lambda: self.ty(depth - 1, params, names)
        if k < 2:
            return ("opt", s())
        if k == 2:
            return ("res", s(), s())
        if k == 3:
            return ("eith", s(), s())
        if k == 4:
            return ("tup", [s() for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 6, 9, 16]))])
        if k == 5:
            return ("box", s())
        if k == 6:
            return ("ref", s())
        if k == 7:
            return ("vec", s())
        if k == 8:
            return ("arr", s())
        if names:
            n = r.choice(names)
            return ("data", n, [self.ty(depth - 1, params, ()) for _ in self.types[n]["params"]])
        return s()

    def show(self, t):
        k = t[0]
        if k == "int":
            return t[1]
        if k in ("f64", "bool", "str", "char", "unit", "ord"):
            return {"f64": "F64", "bool": "Bool", "str": "String", "char": "Char", "unit": "unit", "ord": "Ordering"}[k]
        if k == "opt":
            return "(Option %s)" % self.show(t[1])
        if k == "res":
            return "(Result %s %s)" % (self.show(t[1]), self.show(t[2]))
        if k == "eith":
            return "(Either %s %s)" % (self.show(t[1]), self.show(t[2]))
        if k == "tup":
            return "(: %s)" % " ".join(map(self.show, t[1]))
        if k in ("box", "ref", "vec", "arr"):
            return "(%s %s)" % ({"box": "Box", "ref": "Ref", "vec": "Vector", "arr": "Array"}[k], self.show(t[1]))
        if k == "var":
            return t[1]
        return "(%s %s)" % (t[1], " ".join(map(self.show, t[2]))) if t[2] else t[1]

    def subst(self, t, env):
        if t[0] == "var":
            return env[t[1]]
        if t[0] == "tup":
            return ("tup", [self.subst(x, env) for x in t[1]])
        if t[0] == "data":
            return ("data", t[1], [self.subst(x, env) for x in t[2]])
        return (t[0],) + tuple(self.subst(x, env) if isinstance(x, tuple) else x for x in t[1:])

    def inline(self, t, names):
        """value types cannot contain themselves inline; only earlier types are mentioned, so this holds by construction"""
        return True

    def decl(self, i):
        r = self.r
        name = "T%d" % i
        kind = r.choice(["data", "data", "value-data", "value-data", "c-data"] if r.random() < 0.3 else ["data", "value-data"])
        params = r.sample(["A", "B", "C"], r.randrange(1, 3)) if kind != "c-data" and r.random() < 0.35 else []
        earlier = list(self.types)
        if kind == "c-data":
            ctors = [("c%d-0" % i, [r.choice([("int", r.choice(list(INTS))), ("f64",)]) for _ in range(r.randrange(1, 6))])]
        elif r.random() < 0.08:
            ctors = [("c%d-%d" % (i, j), []) for j in range(r.choice([17, 33, 60]))]
        else:
            ctors = []
            for j in range(r.choice([1, 1, 2, 2, 3, 3, 4, 5, 7])):
                n = r.choice([0, 0, 1, 1, 2, 2, 3, 4, 6])
                fs = [self.ty(r.choice([0, 1, 1, 2]), params, earlier) for _ in range(n)]
                ctors.append(("c%d-%d" % (i, j), fs))
            if kind == "data" and r.random() < 0.4 and any(not c[1] or True for c in ctors):
                # recursion, with a constructor without it in front
                me = ("data", name, [("var", p) for p in params])
                wrap = r.choice([me, me, ("opt", me), ("box", me), ("vec", me), ("tup", [me, ("int", "U8")])])
                fs = [self.ty(0, params, earlier) for _ in range(r.randrange(3))]
                fs.insert(r.randrange(len(fs) + 1), wrap)
                if r.random() < 0.3:
                    fs.append(me)
                ctors.append(("c%d-r" % i, fs))
        self.types[name] = dict(params=params, ctors=ctors, kind=kind)
        d = self.defaultable(("data", name, [("int", "U8") for _ in params]))
        self.types[name]["default"] = d
        classes = ["Eq", "Ord", "Hash", "DebugDisplay", "DeepCopy"] + (["Default"] if d else [])
        r.shuffle(classes)
        self.types[name]["classes"] = classes
        tc = "(%s %s)" % (name, " ".join(params)) if params else name
        body = " ".join("(%s %s)" % (c, " ".join(map(self.show, fs))) if fs else c for c, fs in ctors)
        self.out.append("(derive (%s) %s %s %s)" % (" ".join(classes), kind, tc, body))

    def defaultable(self, t):
        k = t[0]
        if k in ("res", "eith"):
            return False
        if k in ("box", "ref"):
            return self.defaultable(t[1])
        if k == "tup":
            return all(map(self.defaultable, t[1]))
        if k == "ord":
            return True
        if k == "data":
            d = self.types[t[1]]
            if "default" in d:
                return d["default"] and all(map(self.defaultable, t[2]))
            env = dict(zip(d["params"], t[2]))
            return all(self.defaultable(self.subst(f, env)) for f in d["ctors"][0][1])
        return True

    def default(self, t):
        k = t[0]
        if k == "int":
            return 0
        if k == "f64":
            return "0.0"
        if k == "bool":
            return False
        if k == "str":
            return ""
        if k == "opt":
            return None
        if k == "tup":
            return [self.default(x) for x in t[1]]
        if k in ("box", "ref"):
            return [self.default(t[1])]
        if k in ("vec", "arr"):
            return []
        if k == "unit":
            return 0
        if k == "char":
            return "\0"
        if k == "ord":
            return 1
        d = self.types[t[1]]
        env = dict(zip(d["params"], t[2]))
        return (0, [self.default(self.subst(f, env)) for f in d["ctors"][0][1]])

    # ---- values ----
    def val(self, t, depth=4):
        r = self.r
        k = t[0]
        if k == "int":
            lo, hi = INTS[t[1]]
            return r.choice([0, 1, 2, lo, hi, max(lo, -1), r.randrange(lo, hi + 1)])
        if k == "f64":
            return r.choice(F)
        if k == "bool":
            return r.random() < 0.5
        if k == "str":
            return "".join(r.choice(CH) for _ in range(r.choice([0, 1, 1, 2, 3, 12])))
        if k == "char":
            return r.choice(CH)
        if k == "unit":
            return 0
        if k == "ord":
            return r.randrange(3)
        if k == "opt":
            return None if r.random() < 0.3 or depth <= 0 else [self.val(t[1], depth - 1)]
        if k in ("res", "eith"):
            i = r.randrange(2)
            return (i, self.val(t[1 + i], depth - 1))
        if k == "tup":
            return [self.val(x, depth - 1) for x in t[1]]
        if k in ("box", "ref"):
            return [self.val(t[1], depth - 1)]
        if k in ("vec", "arr"):
            return [self.val(t[1], depth - 1) for _ in range(0 if depth <= 0 else r.choice([0, 1, 2, 2, 3]))]
        d = self.types[t[1]]
        env = dict(zip(d["params"], t[2]))
        cs = list(range(len(d["ctors"])))
        if depth <= 0:
            cs = [i for i in cs if not d["ctors"][i][0].endswith("r")] or cs
        i = r.choice(cs)
        return (i, [self.val(self.subst(f, env), depth - 1) for f in d["ctors"][i][1]])

    def tweak(self, t, v):
        """a value differing from v in one place at most"""
        r = self.r
        k = t[0]
        if k in ("tup",) and v:
            i = r.randrange(len(v))
            return v[:i] + [self.tweak(t[1][i], v[i])] + v[i + 1:]
        if k in ("box", "ref"):
            return [self.tweak(t[1], v[0])]
        if k == "opt" and v is not None and r.random() < 0.8:
            return [self.tweak(t[1], v[0])]
        if k in ("res", "eith") and r.random() < 0.8:
            return (v[0], self.tweak(t[1 + v[0]], v[1]))
        if k in ("vec", "arr"):
            if not v or r.random() < 0.3:
                return v + [self.val(t[1], 1)] if r.random() < 0.5 or not v else v[:-1]
            i = r.randrange(len(v))
            return v[:i] + [self.tweak(t[1], v[i])] + v[i + 1:]
        if k == "data":
            fs = self.types[t[1]]["ctors"][v[0]][1]
            if fs and r.random() < 0.9:
                env = dict(zip(self.types[t[1]]["params"], t[2]))
                i = r.randrange(len(fs))
                return (v[0], v[1][:i] + [self.tweak(self.subst(fs[i], env), v[1][i])] + v[1][i + 1:])
        return self.val(t, 2)

    def fields(self, t, v):
        d = self.types[t[1]]
        env = dict(zip(d["params"], t[2]))
        return d["ctors"][v[0]][0], [self.subst(f, env) for f in d["ctors"][v[0]][1]]

    def expr(self, t, v, hook=None):
        k = t[0]
        e = lambda a, b: self.expr(a, b, hook)
        if k == "int":
            return str(v)
        if k == "f64":
            return v
        if k == "bool":
            return "#t" if v else "#f"
        if k == "str":
            return '"%s"' % v
        if k == "char":
            return "#\\" + v
        if k == "unit":
            return "unit"
        if k == "ord":
            return "ordering:" + ("less", "equal", "greater")[v]
        if k == "opt":
            return "none" if v is None else "(some %s)" % e(t[1], v[0])
        if k == "res":
            return "(%s %s)" % (("ok", "err")[v[0]], e(t[1 + v[0]], v[1]))
        if k == "eith":
            return "(%s %s)" % (("left", "right")[v[0]], e(t[1 + v[0]], v[1]))
        if k == "tup":
            return "(: %s)" % " ".join(e(a, b) for a, b in zip(t[1], v))
        if k == "box":
            return "(box %s)" % e(t[1], v[0])
        if k == "ref":
            s = "(ref %s)" % self.expr(t[1], v[0])
            return hook(t, v, s) if hook else s
        if k == "vec":
            s = "(vector %s)" % " ".join(self.expr(t[1], x) for x in v) if v else "vector/empty"
            return hook(t, v, s) if hook else s
        if k == "arr":
            return "(array %s)" % " ".join(e(t[1], x) for x in v) if v else "array/empty"
        c, fs = self.fields(t, v)
        return "(%s %s)" % (c, " ".join(e(a, b) for a, b in zip(fs, v[1]))) if fs else c

    def cmp(self, t, a, b):
        k = t[0]
        c = lambda x, y: (x > y) - (x < y)
        if k == "f64":
            return c(float(a), float(b))
        if k == "str":
            return c(a.encode(), b.encode())
        if k in ("int", "bool", "char", "unit", "ord"):
            return c(a, b)
        if k == "opt":
            if a is None or b is None:
                return c(a is not None, b is not None)
            return self.cmp(t[1], a[0], b[0])
        if k == "res":
            if a[0] != b[0]:
                return 1 if a[0] == 0 else -1       # ok is greater than err
            return self.cmp(t[1 + a[0]], a[1], b[1])
        if k == "eith":
            if a[0] != b[0]:
                return c(a[0], b[0])
            return self.cmp(t[1 + a[0]], a[1], b[1])
        if k == "tup":
            return self.lex(list(zip(t[1], a, b)))
        if k in ("box", "ref"):
            return self.cmp(t[1], a[0], b[0])
        if k in ("vec", "arr"):
            return self.lex([(t[1], x, y) for x, y in zip(a, b)]) or c(len(a), len(b))
        if a[0] != b[0]:
            return c(a[0], b[0])
        return self.lex(list(zip(self.fields(t, a)[1], a[1], b[1])))

    def lex(self, l):
        for t, x, y in l:
            o = self.cmp(t, x, y)
            if o:
                return o
        return 0

    def debug(self, t, v):
        k = t[0]
        if k == "int":
            return str(v)
        if k == "f64":
            return "%.16g" % float(v)
        if k == "bool":
            return "#t" if v else "#f"
        if k == "str":
            return '"%s"' % v
        if k == "char":
            return "#\\" + v
        if k == "unit":
            return "unit"
        if k == "ord":
            return "ordering:" + ("less", "equal", "greater")[v]
        if k == "opt":
            return "none" if v is None else "(some %s)" % self.debug(t[1], v[0])
        if k == "res":
            return "(%s %s)" % (("ok", "err")[v[0]], self.debug(t[1 + v[0]], v[1]))
        if k == "eith":
            return "(%s %s)" % (("left", "right")[v[0]], self.debug(t[1 + v[0]], v[1]))
        if k == "tup":
            return "(:" + "".join(" " + self.debug(a, b) for a, b in zip(t[1], v)) + ")"
        if k in ("box", "ref"):
            return "(%s %s)" % (k, self.debug(t[1], v[0]))
        if k in ("vec", "arr"):
            return "(" + {"vec": "vector", "arr": "array"}[k] + "".join(" " + self.debug(t[1], x) for x in v) + ")"
        c, fs = self.fields(t, v)
        return "(" + c + "".join(" " + self.debug(a, b) for a, b in zip(fs, v[1])) + ")" if fs else c

    # ---- a program ----
    def law(self, t, i):
        r = self.r
        vals = [self.val(t, 3)]
        for _ in range(r.randrange(4, 8)):
            vals.append(self.tweak(t, r.choice(vals)) if r.random() < 0.6 else self.val(t, 3))
        self.out.append("(function (vals%d) {(-> (Vector %s))} (vector %s))" % (i, self.show(t), " ".join(self.expr(t, v) for v in vals)))
        self.main.append("(law (vals%d))" % i)
        self.nvals += len(vals)
        self.npairs += len(vals) ** 2
        for a in vals:
            self.exp.append("v 1 1 %s | %s" % (self.debug(t, a), self.debug(t, a)))
            row = []
            for b in vals:
                o = self.cmp(t, a, b)
                row.append((o == 0) * (1 | 64) + (o != 0) * 2 + (o < 0) * 4 + (o <= 0) * 8 + (o > 0) * 16 + (o >= 0) * 32 + (128, 256, 512)[o + 1])
            self.exp.append(["p"] + row)
        if self.defaultable(t):
            self.out.append("(function def%d {%s} default)" % (i, self.show(t)))
            self.main.append('(println! "d " (debug def%d))' % i)
            self.exp.append("d " + self.debug(t, self.default(t)))
        # independence of deep copies: one shared cell inside a value is changed after the copy
        for v in vals[:4]:
            cells = []

            def count(tt, vv, s):
                cells.append((tt, vv))
                return s
            self.expr(t, v, count)
            if not cells:
                continue
            pick = r.randrange(len(cells))
            ct, cv = cells[pick]
            n = [0]

            def hook(tt, vv, s):
                n[0] += 1
                return "cell" if n[0] - 1 == pick else s
            src = self.expr(t, v, hook)
            if ct[0] == "ref":
                nv = self.val(ct[1], 2)
                mk, mut = "(ref %s)" % self.expr(ct[1], cv[0]), "(set! cell %s)" % self.expr(ct[1], nv)
                new = [nv]
            else:
                nv = self.val(ct[1], 2)
                mk = "(vector %s)" % " ".join(self.expr(ct[1], x) for x in cv) if cv else "vector/empty"
                mut = "(vector/push! %s cell)" % self.expr(ct[1], nv)
                new = cv + [nv]
            n2 = [0]
            changed = self.replace(t, v, pick, new, n2)
            self.main.append('(let* ([cell {%s} %s] [orig {%s} %s] [copy (deep-copy orig)]) (begin %s (println! "c " (debug orig) " | " (debug copy) " " (eq? orig copy))))'
                             % (self.show(ct), mk, self.show(t), src, mut))
            self.exp.append("c %s | %s %s" % (self.debug(t, changed), self.debug(t, v), "#t" if self.cmp(t, changed, v) == 0 else "#f"))

    def replace(self, t, v, pick, new, n):
        k = t[0]
        if k in ("ref", "vec"):
            n[0] += 1
            return new if n[0] - 1 == pick else v
        if k == "opt":
            return v if v is None else [self.replace(t[1], v[0], pick, new, n)]
        if k in ("res", "eith"):
            return (v[0], self.replace(t[1 + v[0]], v[1], pick, new, n))
        if k == "tup":
            return [self.replace(a, b, pick, new, n) for a, b in zip(t[1], v)]
        if k == "box":
            return [self.replace(t[1], v[0], pick, new, n)]
        if k == "arr":
            return [self.replace(t[1], x, pick, new, n) for x in v]
        if k == "data":
            return (v[0], [self.replace(a, b, pick, new, n) for a, b in zip(self.fields(t, v)[1], v[1])])
        return v

    def program(self):
        self.main = []
        r = self.r
        n = r.randrange(3, 6)
        for i in range(n):
            self.decl(i)
        k = 0
        for i in range(n):
            d = self.types["T%d" % i]
            args = [self.ty(1, (), [x for x in self.types if not self.types[x]["params"]]) for _ in d["params"]]
            self.law(("data", "T%d" % i, args), k)
            k += 1
        self.law(self.ty(2, (), list(self.types)), k)
        return HEAD + "\n".join(self.out) + "\n" + "\n".join(self.main) + "\n"


def check_output(exp, text):
    """-> None or a message"""
    lines = text.split("\n")
    for i, e in enumerate(exp):
        got = lines[i] if i < len(lines) else "(nothing)"
        if isinstance(e, list):
            g = got.split(" ")
            ok = len(g) == len(e) and g[0] == "p"
            if ok:
                for x, y in zip(g[1:], e[1:]):
                    x = int(x) if x.isdigit() else -1
                    if not y & 64:
                        x &= ~64         # different values may collide
                    if x != y:
                        ok = False
            if not ok:
                return "line %d: comparisons (1 eq, 2 ne, 4 lt, 8 le, 16 gt, 32 ge, 64 same hash, 128/256/512 compare): expected %s, got %s; value %s" % (
                    i + 1, e[1:], got, exp[i - 1])
        elif got != e:
            return "line %d: expected %s, got %s" % (i + 1, e, got)
    if len(lines) != len(exp) + 1 or lines[-1]:
        return "extra output: " + repr(lines[len(exp):len(exp) + 3])
    return None
