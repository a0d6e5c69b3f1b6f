"""Module graphs with imports, exports, renames, wildcards, re-exports and shadowing; a model of name resolution says which declaration
each use means (every declaration prints its own letter, types are told apart by type checking) and which graphs are rejected, and why."""
import re

NAMES = ["a", "b", "ab", "ba", "a/b", "a/c", "b/a", "c", "cab", "a.b", "x", "x/a", "x/", "/x", "aa", "a-", "-a", "A", "AB", "A/b", "T", "Ta", "Tb", "a_b", "=a", "a=", "a?", "a!"]
PRE = ["a", "b", "a/", "x/", "T", "A", "-", "a.", "ab", "c", "x"]
Q = '''(no-implicit-std)
(import "builtin" _)
(c-function putchar {(-> I32 I32)} "putchar")
(export putchar I32 ok [zz!_ _])
'''


class Ent:
    def __init__(self, kind, mod, name, **kw):
        self.kind, self.mod, self.name = kind, mod, name
        self.__dict__.update(kw)


class Mod:
    def __init__(self, i):
        self.i = i
        self.path = "m%d" % i
        self.lines = []
        self.ports = []
        self.top = {}
        self.exports = {}
        self.errs = {}          # phase -> [regex]
        self.deps = set()
        self.main = []
        self.trace = ""

    def err(self, phase, rx):
        self.errs.setdefault(phase, []).append(rx)


class World:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.risk = r.choice([0, 0, 0.008, 0.02, 0.04])
        self.mods = []
        self.stat = {"uses": 0, "imported": 0, "shadowed": 0, "renamed": 0, "locals": 0}
        self.q = {n: Ent("q", -1, n) for n in ("putchar", "I32", "ok")}
        for _ in range(r.choice([2, 3, 4, 5, 7])):
            self.module()

    def bad(self):
        return self.r.random() < self.risk

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def letter(self):
        self.n += 1
        return self.r.randrange(33, 127)

    def name(self, free_in=None):
        for _ in range(30):
            n = self.r.choice(NAMES)
            if free_in is None or n not in free_in:
                return n
        return self.fresh("n")

    # -------------------------------------------------- ports
    def pattern(self, n):
        if n == "_":
            return ("all", "")
        if n.startswith("_"):
            return ("ends", n[1:])
        if n.endswith("_"):
            return ("starts", n[:-1])
        return None

    def decon(self, p, n):
        k, x = p
        if k == "all":
            return n
        if len(n) == len(x):
            return None
        if k == "ends":
            return n[:len(n) - len(x)] if n.endswith(x) else None
        return n[len(x):] if n.startswith(x) else None

    def con(self, p, n):
        return n if p[0] == "all" else n + p[1] if p[0] == "ends" else p[1] + n

    def randport(self, avail):
        """-> (source, destination or None) ; avail: names one may name"""
        r = self.r
        pats = ["_"] + [x for p in PRE for x in (p + "_", "_" + p)]
        k = r.random()
        if k < 0.35 or not avail:
            src = r.choice(pats + ["_"] * 12)
            return src, (r.choice(pats) if r.random() < 0.35 else self.name() if self.bad() else None)
        avail = [n for n in avail if n[0] not in "!?." and n[-1] != "."]     # text that reads as one symbol
        if not avail:
            return None
        src = r.choice(sorted(avail)) if not self.bad() else self.name()
        if src in ("putchar", "I32", "ok"):
            return None
        return src, (self.name() if r.random() < 0.35 else None)

    def port(self, m, src, dst, table, put, phase, kind, conflict):
        """effect of one port target on a table; -> errors"""
        p = self.pattern(src)
        out = []
        if p:
            q = p
            if dst is not None:
                q = self.pattern(dst)
                if q is None:
                    return [(phase, "Wildcard port name must be wildcard")], []
            eff = []
            for n in sorted(table):
                k = self.decon(p, n)
                if k is not None:
                    eff.append((self.con(q, k), table[n]))
        else:
            if src not in table:
                return [(phase, "Unresolved %s-target %s " % (kind, re.escape(src)))], []
            eff = [(src if dst is None else dst, table[src])]
        seen = dict(put)
        for n, e in eff:
            if n in seen and seen[n] is not e:
                out.append((phase, conflict))
            seen[n] = e
        return out, eff

    def show(self, src, dst):
        return src if dst is None else "[%s %s]" % (dst, src)

    def imports(self, m):
        r = self.r
        m.top = dict(self.q)
        m.lines.append('(import "~/q" putchar I32 ok [zz!_ zz!_])')
        prev = self.mods
        if not prev:
            return
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            o = r.choice(prev)
            ts = []
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                t = self.randport(set(o.exports))
                if t is None:
                    continue
                self.import_target(m, o, t, ts, self.risk and r.random() < 0.25)
            m.deps.add(o.i)
            m.ports.append('(import "~/%s"%s)' % (o.path, "".join(" " + self.show(*t) for t in ts)))

    def import_target(self, m, o, t, ts, bad):
        es, eff = self.port(m, t[0], t[1], o.exports, m.top, 0, "import", r"Multiple declarations|declared")
        es = [(p, x if "Multiple" not in x else "MULTI") for p, x in es]
        if es and not bad:
            return False
        ts.append(t)
        for p, x in es:
            m.err(p, x)
        if es and es[0][1] != "MULTI":
            return True
        for n, e in eff:
            if n not in m.top:
                m.top[n] = e
        if t[1] is not None:
            self.stat["renamed"] += 1
        self.stat["imported"] += len(eff)
        return True

    def need(self, m, e):
        """a name by which m reaches the uniquely named entity e, importing it when necessary; None when impossible"""
        for n, x in m.top.items():
            if x is e:
                return n
        o = self.mods[e.mod] if e.mod < len(self.mods) else m
        if o is m or e.name in m.top or o.exports.get(e.name) is not e:
            return None
        m.deps.add(o.i)
        m.ports.append('(import "~/%s" %s)' % (o.path, e.name))
        m.top[e.name] = e
        return e.name

    # -------------------------------------------------- declarations
    def declare(self, m, e, unique=False):
        """puts e in the module's scope under its name; -> False when that is a conflict"""
        if e.name in m.top:
            m.err(1, "MULTI")
            return False
        m.top[e.name] = e
        return True

    def module(self):
        r = self.r
        m = Mod(len(self.mods))
        self.imports(m)
        ds = []
        for _ in range(r.choice([1, 2, 3, 4, 6])):
            k = r.choice(["fun", "fun", "fun", "fun1", "poly", "data", "data", "class", "inst", "inst", "macro", "use"])
            nm = lambda: self.name() if self.bad() else self.name(m.top)
            if k in ("fun", "fun1", "poly"):
                e = Ent("fun", m.i, nm(), form=k, trace=None)
                self.declare(m, e)
                ds.append(e)
            elif k == "data":
                t = Ent("type", m.i, nm(), cons=[], acc=None)
                self.declare(m, t)
                for _ in range(r.choice([1, 1, 2, 3])):
                    c = Ent("con", m.i, nm(), type=t, letter=self.letter())
                    self.declare(m, c)
                    t.cons.append(c)
                t.acc = Ent("fun", m.i, self.fresh("acc"), form="acc", trace=None)
                self.declare(m, t.acc)
                ds.append(t)
            elif k == "class":
                c = Ent("class", m.i, nm(), methods=[], insts={})
                self.declare(m, c)
                for _ in range(r.choice([1, 1, 2])):
                    x = Ent("method", m.i, nm(), cls=c)
                    self.declare(m, x)
                    c.methods.append(x)
                ds.append(c)
            elif k == "macro":
                e = Ent("macro", m.i, nm(), letter=self.letter())
                self.declare(m, e)
                ds.append(e)
            elif k == "inst":
                cs = sorted((n for n, x in m.top.items() if x.kind == "class" and n[0] not in "!?." and n[-1] != "."))
                if not cs:
                    continue
                cn = r.choice(cs)
                c = m.top[cn]
                ts = sorted(n for n, x in m.top.items() if x.kind == "type" and x not in c.insts and n[0] not in "!?." and n[-1] != ".")
                tn = r.choice(ts + (["I32"] if "I32" not in c.insts else []) or [None])
                if tn is None or len(set(x.name for x in c.methods)) < len(c.methods):
                    continue
                key = "I32" if tn == "I32" else m.top[tn]
                e = Ent("inst", m.i, nm(), cls=c, target=key, cn=cn, tn=tn, letters=[self.letter() for _ in c.methods])
                if self.declare(m, e) or True:
                    c.insts[key] = e
                ds.append(e)
            else:
                ds.append(Ent("use", m.i, None))
        texts = []
        for e in ds:
            texts.append(self.text(m, e))
        r.shuffle(texts)
        for _ in range(r.choice([0, 1, 2])):
            t, x, tr = self.expr(m, {}, 2)
            texts.insert(r.randrange(len(texts) + 1), (t, tr))
        m.trace = "".join(tr for _, tr in texts)
        self.exportsof(m)
        m.lines += m.ports + [t for t, _ in texts]
        self.mods.append(m)

    def exportsof(self, m):
        r = self.r
        out = []
        uniq = [n for n, e in m.top.items() if e.mod == m.i and (e.kind == "fun" and e.form == "acc")]
        for n in uniq:
            out.append(n)
            m.exports[n] = m.top[n]
        own = [n for n, e in m.top.items() if e.mod == m.i]
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            t = self.randport(set(own) if r.random() < 0.6 else set(m.top))
            if t is None:
                continue
            es, eff = self.port(m, t[0], t[1], m.top, m.exports, 4, "export", "CONFLICT")
            es = [(p, x if "CONFLICT" not in x else "Conflicting exports|conflict") for p, x in es]
            if es and not (self.risk and r.random() < 0.25):
                continue
            for p, x in es:
                m.err(p, x)
            out.append(self.show(*t))
            for n, e in eff:
                if n not in m.exports:
                    m.exports[n] = e
        r.shuffle(out)
        k = r.randrange(len(out) + 1)
        m.ports += ["(export %s)" % " ".join(x) for x in (out[:k], out[k:]) if x]
        r.shuffle(m.ports)

    def text(self, m, e):
        """-> (text of the declaration, what it prints when the module is initialised)"""
        r = self.r
        if e.kind == "type":
            return ("(data %s %s)\n(function (%s zarg) {(-> %s I32)} (match zarg %s))" % (
                e.name, " ".join(c.name for c in e.cons), e.acc.name, e.name,
                " ".join("[%s (putchar %d)]" % (c.name, c.letter) for c in e.cons)), "")
        if e.kind == "class":
            return ("(class (%s P)%s)" % (e.name, "".join(" (function (%s p) {(-> P I32)})" % x.name for x in e.methods)), "")
        if e.kind == "macro":
            return ("(macro (%s s) (ok '(putchar %d)))" % (e.name, e.letter), "")
        if e.kind == "inst":
            ms = list(zip(e.cls.methods, e.letters))
            r.shuffle(ms)
            return ("(instance %s (%s %s)%s)" % (e.name, e.cn, e.tn, "".join(" (function (%s p) (putchar %d))" % (x.name, l) for x, l in ms)), "")
        if e.kind == "fun":
            if e.form == "fun":
                t, x, tr = self.expr(m, {}, 2)
                e.trace = tr
                return ("(function (%s) {(-> I32)} %s)" % (e.name, t), "")
            p = self.local(m)
            l = self.letter()
            if e.form == "fun1":
                if self.bad():
                    m.err(2, "Duplicated identifier|duplicate")
                    return ("(function (%s %s %s) {(-> I32 I32 I32)} (putchar 65))" % (e.name, p, p), "")
                t, x, tr = self.expr(m, {p: ("var", 33)}, 2)
                e.trace = tr
                return ("(function (%s %s) {(-> I32 I32)} %s)" % (e.name, p, t), "")
            tp = self.local(m)
            t, x, tr = self.expr(m, {tp: ("tparam", 0), p: ("pvar", tp)} if p != tp else {tp: ("pvar", tp)}, 2)
            h = self.fresh("h")
            e.trace = tr
            # the annotation inside means the type parameter, unless a variable of that name hides it
            tann = tp if p != tp else None
            inner = "(let ([(%s y) {(-> %s I32)} %s]) (%s %s))" % (h, tann, t, h, p) if tann else t
            return ("(function (%s %s) {(forall %s) (-> %s I32)} %s)" % (e.name, p, tp, tp, inner), "")
        # a generic function over a class in scope
        cs = sorted(n for n, x in m.top.items() if x.kind == "class" and n[0] not in "!?." and n[-1] != ".")
        if cs:
            cn = r.choice(cs)
            ms = [n for n, x in m.top.items() if x.kind == "method" and x.cls is m.top[cn] and n[0] not in "!?." and n[-1] != "."]
            if ms and self.bad():
                cn = self.name()
                if cn in m.top and m.top[cn].kind == "class":
                    cn = "nothing"
                m.err(2, "Unresolved class %s " % re.escape(cn))
            if ms:
                f = self.fresh("g")
                self.stat["uses"] += 1
                return ("(function (%s z) {(forall Q) (-> Q I32) (where (%s Q))} (%s z))" % (f, cn, r.choice(sorted(ms))), "")
        return "", ""

    def local(self, m):
        """a name for a local binding (not one of a macro in scope)"""
        for _ in range(50):
            n = self.r.choice(NAMES)
            if n not in m.top or m.top[n].kind != "macro":
                self.stat["locals"] += 1
                return n
        return self.fresh("l")

    # -------------------------------------------------- expressions of type I32: -> (text, value, what is printed)
    def expr(self, m, sc, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.35:
            return self.use(m, sc)
        if k < 0.5:
            a, b = self.expr(m, sc, d - 1), self.expr(m, sc, d - 1)
            return "(begin %s %s)" % (a[0], b[0]), b[1], a[2] + b[2]
        if k < 0.75:
            return self.let(m, sc, d)
        if k < 0.85:        # a pattern variable
            n, l = self.local(m), self.letter()
            n2 = self.local(m)
            if n2 == n:
                if self.bad():
                    m.err(2, "Duplicated identifier|duplicate")
                else:
                    n2 = self.fresh("l")
            l2 = self.letter()
            in_ = dict(sc)
            in_[n] = ("var", l)
            in_[n2] = ("var", l2)
            b = self.expr(m, in_, d - 1)
            return "(match (: %d %d) [(: (let %s) (let %s)) %s])" % (l, l2, n, n2, b[0]), b[1], b[2]
        if k < 0.93:
            return self.typeuse(m, sc)
        a, b = self.expr(m, sc, d - 1), self.expr(m, sc, d - 1)
        c = r.random() < 0.5
        return "(if %s %s %s)" % ("#t" if c else "#f", a[0], b[0]), (a if c else b)[1], (a if c else b)[2]

    def let(self, m, sc, d):
        r = self.r
        n = r.choice([1, 1, 2, 3])
        names = []
        for _ in range(n):
            x = self.local(m)
            if x in names:
                if self.bad():
                    m.err(2, "Duplicated identifier|duplicate")
                else:
                    x = self.fresh("l")
            names.append(x)
        kinds = [r.choice(["var", "fun", "fun1"]) for _ in names]
        # functions of the same let are visible in every definition, variables only in the body
        fs = dict(sc)
        for x, k in zip(names, kinds):
            if k != "var":
                fs[x] = ("pending", None)
        order = list(range(n))
        r.shuffle(order)
        defs = [None] * n
        body = dict(sc)
        pre = {}
        for i in sorted(order, key=lambda i: kinds[i] == "var"):
            x, k = names[i], kinds[i]
            if k == "var":
                t, v, tr = self.expr(m, fs, d - 1) if r.random() < 0.5 else (str(self.letter()),) * 2 + ("",)
                defs[i] = "[%s %s]" % (x, t)
                pre[i] = tr
                body[x] = ("var", int(v))
            elif k == "fun":
                t, v, tr = self.expr(m, fs, d - 1)
                defs[i] = "[(%s) {(-> I32)} %s]" % (x, t)
                fs[x] = body[x] = ("fun", tr, v)
            else:
                p = self.local(m)
                in_ = dict(fs)
                in_[p] = ("var", 33)
                t, v, tr = self.expr(m, in_, d - 1)
                defs[i] = "[(%s %s) {(-> I32 I32)} %s]" % (x, p, t)
                fs[x] = body[x] = ("fun1", tr, v)
        b = self.expr(m, body, d - 1)
        return "(let (%s) %s)" % (" ".join(defs), b[0]), b[1], "".join(pre.get(i, "") for i in range(n)) + b[2]

    def typeuse(self, m, sc):
        """a type name in scope: accepted only when it means the type its accessor takes"""
        r = self.r
        ts = sorted(n for n, e in m.top.items() if e.kind == "type" and n not in sc and n[0] not in "!?." and n[-1] != ".")
        if self.bad():
            n = self.name()
            if n not in sc and (n not in m.top or m.top[n].kind not in ("type",)):
                m.err(2, "Unresolved type %s " % re.escape(n))
                return "(let ([(z0 z) {(-> %s I32)} 1]) (putchar 65))" % n, 65, "A"
        r.shuffle(ts)
        for n in ts:
            acc = self.need(m, m.top[n].acc)
            if acc and acc not in sc:
                h = self.fresh("h")
                self.stat["uses"] += 1
                u = self.use(m, sc)
                return "(let ([(%s z) {(-> %s I32)} (%s z)]) %s)" % (h, n, acc, u[0]), u[1], u[2]
        return self.use(m, sc)

    def use(self, m, sc):
        r = self.r
        if "putchar" in sc:
            return "65", 65, ""
        if self.bad():
            n = self.name()
            k = sc.get(n) or (n in m.top and (m.top[n].kind,))
            if not k or k[0] in ("type", "class", "inst", "tparam"):
                if k and k[0] == "tparam":
                    return "65", 65, ""
                m.err(2, "Unresolved value %s " % re.escape(n))
                return r.choice(["(%s)", "(putchar %s)", "(begin %s 1)"]) % n, 65, "A"
            if k[0] == "macro" and n not in sc and m.top[n].mod == m.i:
                m.err(1, "Cannot use macro defined in the same module")
                m.err(2, "Unresolved value %s " % re.escape(n))
                return "(%s)" % n, 65, "A"
            if k[0] == "macro" and n not in sc:
                m.err(2, "Unresolved value %s " % re.escape(n))
                return "(putchar %s)" % n, 65, "A"
        cand = [n for n in dict.fromkeys(list(sc) * 2 + list(m.top)) if n[0] not in "!?." and n[-1] != "."]
        r.shuffle(cand)
        for n in cand[:25]:
            u = self.useof(m, sc, n)
            if u and len(u[2]) < 60:
                self.stat["uses"] += 1
                if n in sc and n in m.top:
                    self.stat["shadowed"] += 1
                return u
        l = self.letter()
        return "(putchar %d)" % l, l, chr(l)

    def useof(self, m, sc, n):
        r = self.r
        if n in sc:
            k = sc[n]
            if n in m.top and m.top[n].kind == "macro":
                return None
            if k[0] == "var":
                return "(putchar %s)" % n, k[1], chr(k[1])
            if k[0] == "fun":
                return "(%s)" % n, k[2], k[1]
            if k[0] == "fun1":
                return "(%s 33)" % n, k[2], k[1]
            return None
        e = m.top[n]
        vis = lambda x: x is not None and x not in sc
        if e.kind == "fun" and e.trace is not None:
            a = {"fun": "(%s)", "fun1": "(%s 33)", "poly": "(%s #t)"}[e.form] % n
            v = ord(e.trace[-1]) if e.trace else None
            if v is None:
                return None
            return "(begin %s %d)" % (a, v), v, e.trace
        if e.kind == "con":
            acc = self.need(m, e.type.acc)
            if not vis(acc):
                return None
            return "(%s %s)" % (acc, n), e.letter, chr(e.letter)
        if e.kind == "macro" and e.mod != m.i and "putchar" not in sc:
            return "(%s)" % n, e.letter, chr(e.letter)
        if e.kind == "method":
            i = e.cls.insts.get("I32")
            seen = i is not None and any(x is i for x in m.top.values())
            if i is not None and not seen and self.r.random() < 0.8:
                seen = False
            if seen:
                l = i.letters[e.cls.methods.index(e)]
                return "(%s 1 {I32})" % n, l, chr(l)
            if not seen and self.bad():
                m.err(3, "No matching instances")
                return "(%s 1 {I32})" % n, 65, "A"
        return None

    # -------------------------------------------------- result
    def files(self):
        fs = {"q.llrl": Q}
        for m in self.mods:
            fs[("m" if m is self.mods[-1] else m.path) + ".llrl"] = "(no-implicit-std)\n" + "\n".join(m.lines) + "\n"
        return fs

    def verdict(self):
        """-> ("ok", trace) | ("reject", [(module, [regexes])])"""
        main = self.mods[-1]
        reach, todo = set(), [main.i]
        while todo:
            i = todo.pop()
            if i not in reach:
                reach.add(i)
                todo += self.mods[i].deps
        failing = {}
        for i in sorted(reach):
            m = self.mods[i]
            if m.errs and not any(d in failing or d == "dep" for d in m.deps):
                p = min(m.errs)
                if any("Cannot use macro" in x for x in m.errs[p]):     # seen only when the use is written after the declaration
                    m.errs[p] = sum(m.errs.values(), [])
                failing[i] = ["(Multiple declarations|multiple|declared)" if x == "MULTI" else x for x in m.errs[p]]
            elif m.errs or any(d in failing for d in m.deps):
                failing[i] = []
        if failing:
            return "reject", [("m" if i == main.i else self.mods[i].path, x) for i, x in failing.items() if x]
        return "ok", None

    def order(self):
        """the modules in an order in which they may be initialised, as sets of constraints: import statements in textual order, depth first"""
        out = []
        seen = set()

        def go(m):
            if m.i in seen:
                return
            seen.add(m.i)
            for l in m.lines:
                k = re.match(r'\(import "~/m(\d+)"', l)
                if k:
                    go(self.mods[int(k[1])])
            out.append(m)
        go(self.mods[-1])
        return out
