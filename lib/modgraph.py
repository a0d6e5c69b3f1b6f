"""Random module graphs whose modules print when they are initialised and whose macros print when they are executed (C10)."""
import random

CH = [chr(k) for k in range(33, 127) if chr(k) not in "\"'`,;()[]{}\\#$^~|@"]


class Graph:
    def __init__(self, r, kind="ok"):
        self.r, self.kind = r, kind
        n = self.n = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 24, 33, 48])
        shape = r.choice(["random", "random", "sparse", "dense", "chain", "fan", "ladder", "layers"])
        self.shape = shape
        deps = [set() for _ in range(n)]
        for i in range(1, n):
            if shape == "chain":
                deps[i].add(i - 1)
                if r.random() < 0.2:
                    deps[i].add(r.randrange(i))
            elif shape == "fan":
                if i < n - 1:
                    if r.random() < 0.15:
                        deps[i].add(0)
                else:
                    deps[i] |= set(range(n - 1))
            elif shape == "ladder":
                deps[i] |= {x for x in (i - 1, i - 2, i - 3) if x >= 0 and r.random() < 0.75}
            elif shape == "layers":
                w = 5
                lo = (i // w - 1) * w
                if lo >= 0:
                    deps[i] |= {x for x in range(lo, lo + w) if r.random() < 0.5}
            else:
                p = {"random": 0.25, "sparse": 0.08, "dense": 0.6}[shape]
                deps[i] |= {x for x in range(i) if r.random() < p}
        perm = list(range(n))
        r.shuffle(perm)                                   # numbers in names say nothing about the order
        self.deps = [set() for _ in range(n)]
        for i in range(n):
            self.deps[perm[i]] = {perm[x] for x in deps[i]}
        self.name = [("sub/" if r.random() < 0.15 else "") + "m%d" % i for i in range(n)]
        top = perm[n - 1]
        self.entries = [top]
        if r.random() < 0.35:
            self.entries += r.sample(range(n), min(n, r.randint(1, 4)))
            r.shuffle(self.entries)
        else:
            seen = self.closure({top})
            for x in range(n):
                if x not in seen:
                    if r.random() < 0.5:
                        self.deps[top].add(x)             # (x never depends on top: top is last)
        self.extra = {}
        self.selfimport = set()
        self.missing = {}
        self.bad = set()
        if kind == "cycle":
            for _ in range(r.choice([1, 1, 2, 3])):
                a = r.randrange(n)
                reach = sorted(self.closure({a}))
                b = r.choice(reach)
                if a != b:
                    self.deps[b].add(a)
            if n > 1 and r.random() < 0.3:
                x = r.sample(range(n), min(n, r.randint(2, 5)))
                for a, b in zip(x, x[1:] + x[:1]):
                    self.deps[a].add(b)
        if kind == "source":
            for _ in range(r.choice([1, 1, 2, 4])):
                a = r.randrange(n)
                k = r.randrange(3)
                if k == 0:
                    self.selfimport.add(a)
                elif k == 1:
                    self.missing.setdefault(a, "nope%d" % r.randrange(3))
                else:
                    self.extra[a] = r.choice([("(", "never closed|unexpected|end of|EOF|Unexpected"), ("(putchar 1", "."), (")", "."), ("\"abc", "."), ("[1 2)", ".")])
        if kind == "error":
            self.bad = set(r.sample(range(n), min(n, r.choice([1, 1, 2, 3, 6]))))
        self.uses = [r.choice([0, 0, 1, 1, 2, 3]) for _ in range(n)]     # macro uses of its own character
        self.marks = [r.choice([1, 1, 2, 3]) for _ in range(n)]

    def closure(self, xs):
        seen, todo = set(), list(xs)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += self.deps[x]
        return seen

    def reached(self):
        return self.closure(self.entries)

    def sccs(self):
        return [s for s in {frozenset(y for y in self.closure({x}) if x in self.closure({y})) for x in self.reached()} if len(s) > 1]

    def files(self):
        r = random.Random(self.r.getrandbits(32))
        fs = {}
        q = ['(no-implicit-std)', '(import "builtin" _)', '(c-function putchar {(-> I32 I32)} "putchar")', "(function (put c) {(-> I32 I32)} (putchar c))"]
        for i in range(self.n):
            c = CH[i]
            q.append("(function (g%d s) {(-> (Syntax Sexp) (Syntax Sexp))} (begin (putchar %d) '(putchar %d)))" % (i, ord(c), ord(c)))
            q.append("(macro (u%d s) (ok (g%d s)))" % (i, i))
        fs["q.llrl"] = "\n".join(q) + "\n(export _)\n"
        for i in range(self.n):
            L = ['(no-implicit-std)', '(import "builtin" _)', '(import "~/q" _)']
            ds = sorted(self.deps[i])
            r.shuffle(ds)
            ev = ["(u%d)" % i] * self.uses[i]
            ev += ["(putchar %d)" % ord(CH[i])] * self.marks[i]
            r.shuffle(ev)
            body = ['(import "~/%s"%s)' % (self.name[d], r.choice(["", " f%d" % d, " _"])) for d in ds]
            for e in ev:
                body.insert(r.randrange(len(body) + 1) if r.random() < 0.3 else len(body), e)
            if i in self.selfimport:
                body.insert(r.randrange(len(body) + 1), '(import "~/%s" _)' % self.name[i])
            if i in self.missing:
                body.insert(r.randrange(len(body) + 1), '(import "~/%s" _)' % self.missing[i])
            L += body
            L.append("(function (f%d) {(-> I32)} %d)" % (i, i))
            L.append("(export f%d)" % i)
            if i in self.bad:
                L.insert(3, "(zz%d)" % i) if r.random() < 0.5 else L.append("(zz%d)" % i)
            if i in self.extra:
                L.append(self.extra[i][0])
            fs[self.name[i] + ".llrl"] = "\n".join(L) + "\n"
        return fs

    def model(self):
        """what must be reported: ("ok",) | ("cycle", [names]) | ("source", {module: regex}) | ("error", {bad}, {dependents})"""
        reach = self.reached()
        src = {}
        for i in reach:
            if i in self.selfimport or i in self.missing or i in self.extra:
                src[i] = True
        if src:
            # what a module that cannot be parsed imports is not known
            seen, todo = set(), list(self.entries)
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += [] if x in self.extra else self.deps[x]
            return "source", set(src) & seen
        s = self.sccs()
        if s:
            return "cycle", [sorted(self.name[i] for i in x) for x in s]
        bad = self.bad & reach
        if bad:
            failed = {i for i in reach if self.closure({i}) & bad}
            primary = {i for i in failed if not any(d in failed for d in self.deps[i])}
            return "error", primary, failed
        return ("ok",)

    def check_runtime(self, out):
        """the initialisation log: every reached module completely, once, after its imports"""
        reach = self.reached()
        pos = {}
        for k, b in enumerate(out):
            pos.setdefault(chr(b), []).append(k)
        for i in sorted(reach):
            p = pos.pop(CH[i], [])
            want = self.uses[i] + self.marks[i]
            if len(p) != want:
                return "module %s printed %d of its %d initialisation marks" % (self.name[i], len(p), want)
            for d in self.deps[i]:
                q = [k for k, b in enumerate(out) if chr(b) == CH[d]]
                if q and max(q) > p[0]:
                    return "module %s was initialised before its import %s" % (self.name[i], self.name[d])
        if pos:
            return "printed marks of modules that are not imported: %r" % pos
        return None

    def check_compile(self, out, failed=()):
        """the log of macro executions: every use once, after the macros of the modules it imports"""
        reach = self.reached()
        cnt = {}
        for b in out:
            cnt[chr(b)] = cnt.get(chr(b), 0) + 1
        for i in sorted(reach):
            k = cnt.pop(CH[i], 0)
            if i not in failed and k != self.uses[i]:
                return "%d macro executions for the %d uses in module %s" % (k, self.uses[i], self.name[i])
            if i in failed and (k > self.uses[i] or (k and any(d in failed for d in self.deps[i]))):
                return "%d macro executions in module %s, which depends on a failed module" % (k, self.name[i])
            if k:
                p = out.index(CH[i].encode())
                for d in self.deps[i]:
                    if CH[d].encode() in out[p:]:
                        return "a macro in module %s ran before one in its import %s" % (self.name[i], self.name[d])
        if cnt:
            return "macro executions of modules that are not imported: %r" % cnt
        return None
