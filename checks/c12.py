"""C12: macros, templates and patterns in random shapes get random S-expressions and code; what they saw and produced is printed and compared with a model of quotation, matching and expansion."""
import os, random, shutil
import common, readgen as G, macgen as M

S, L = M.S, M.L
DUMP = G.DUMP.replace("(export show disp bad)", "(export show disp bad dump rdump)") + r'''
(function (rdump r) {(-> (Result (Syntax Sexp) String) String)}
  (match r [(ok (let s)) (dump s)] [(err (let m)) (string "E " m)]))
'''
SUGAR = {v: k for k, v in G.SUGAR.items()}


def run(c):
    llrl0 = common.build_llrl0()
    llrl1 = c.llrl1(llrl0)
    comp = [("llrl0", llrl0, "chibi"), ("llrl0", llrl0, "llvm")] + ([("llrl1", llrl1, "chibi")] if llrl1 else [])
    c.rule = ("one evaluation is one quoted tree, one macro use or one call of a function with patterns and templates whose result was printed and compared with the model's, one expression full of macro uses whose value "
              "and order of effects were compared, or one refused use whose message was; distinct by text and compiler")
    obs = {"results": {}, "refusals": {}, "shapes": {}, "configurations": {}}
    os.makedirs(c.tmp, exist_ok=True)

    def add(d, more):
        for k, v in more.items():
            d[k] = d.get(k, 0) + v

    def sug(r, t):
        if t[0] != "list":
            return t
        if t[2] is None and len(t[1]) == 2 and t[1][0][0] == "sym" and t[1][0][1] in SUGAR and r.random() < 0.85:
            return ("sugar", SUGAR[t[1][0][1]], sug(r, t[1][1]))
        return ("list", [sug(r, x) for x in t[1]], sug(r, t[2]) if t[2] else None)

    def text(r, t):
        """core tree -> text; None if it cannot be written"""
        for _ in range(8):
            x = G.text(r, sug(r, t))
            if x is not None:
                return x
        return None

    def build(cc, cfg, d, files, timeout=240):
        os.makedirs(d, exist_ok=True)
        for n, s in files.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(s.encode())
        p = common.sh([cc, "-b", cfg, "-o", "m", "m"], cwd=d, timeout=timeout)
        if p.rc == 0 and os.path.exists(os.path.join(d, "m")):
            return p, common.sh(["./m"], cwd=d, timeout=60)
        return p, None

    def judge(kind, seed, cname, cc, cfg, files, want, texts):
        d = os.path.join(c.tmp, "%s%x%s%s" % (kind, seed, cname, cfg))
        p, q = build(cc, cfg, d, files)
        shutil.rmtree(d, ignore_errors=True)
        tag = "%s -b %s (%s, seed %d)" % (cname, cfg, kind, seed)
        if p.timed_out or (q and q.timed_out):
            c.inconclusive += 1
            return
        if q is None:
            c.violation("%s: refused: %s" % (tag, (p.text + p.etext)[:600]), dict(files, want="\n".join(want)))
            return
        got = q.out.decode("utf-8", "replace").splitlines()
        for i, w in enumerate(want):
            if i >= len(got) or got[i] != w:
                c.violation("%s: %s\n gave %s\n expected %s" % (tag, texts[i][:600], (got[i] if i < len(got) else "nothing (exit %r)" % q.rc)[:600], w[:600]), dict(files, want="\n".join(want)))
                return
        if q.rc != 0:
            c.violation("%s: exit status %r" % (tag, q.rc), dict(files, want="\n".join(want)))
            return
        add(obs["results"], {kind: len(want)})
        add(obs["configurations"], {cname + " " + cfg: len(want)})
        for t in texts:
            c.distinct.add(common.dist_hash(cname + cfg + t))
        c.evaluations += len(want)

    # ------------------------------------------------------------ trees through quotes, templates and patterns
    def data_program(r):
        g = M.Gen(r)
        k, m, want, texts, bad = [], [], [], [], []
        exports = []

        def item(code, w, what):
            m.append("(println! %s)" % code)
            want.append(w)
            texts.append(what)
        n = 0
        while len(want) < 45:
            n += 1
            x = r.random()
            if x < 0.12:
                t = g.tree(r.choice([1, 2, 3, 4]))
                s = text(r, t)
                if s is not None:
                    item("(dump '%s)" % s, M.dump(M.pairs(t)), "'" + s)
                continue
            if x < 0.2:
                t = g.tree(r.choice([1, 2, 3]))
                s = text(r, t)
                if s is not None:
                    item("(dump (mid %s))" % s, M.dump(M.pairs(t)), s)
                continue
            if x < 0.34:
                A = M.pairs(g.tree(r.choice([1, 2])))
                B = M.mk(*[M.pairs(g.tree(1)) for _ in range(r.randrange(5))]) if r.random() < 0.8 else M.pairs(g.tree(1))
                f = r.choice(["reverse", "append", "map", "foldl", "foldr", "length", "zip", "traverse"])
                a, b = text(r, M.unpairs(A)), text(r, M.unpairs(B))
                if a is None or b is None:
                    continue
                e = M.elems(B)
                ea = M.elems(A)
                if f == "zip":
                    src = "(s/zip (lambda (x y) (s:list y x)) '%s '%s)" % (b, a)
                    res = M.mk(*[M.mk(y, x_) for x_, y in zip(e, ea)]) if e is not None and ea is not None and len(e) == len(ea) else None
                    if (e is None or ea is None) and not (e is not None and ea is not None):
                        res = None
                    msg = "s/zip expects proper same-length lists"
                elif f == "reverse":
                    src, res = "(s/reverse '%s)" % b, None if e is None else M.mk(*e[::-1])
                elif f == "append":
                    src, res = "(s/append '%s '%s)" % (b, a), None if e is None else M.mk(*e, tail=A)
                elif f == "map":
                    src, res = "(s/map (lambda (x) `(,x . %s)) '%s)" % ("q", b), None if e is None else M.mk(*[("cons", y, S("q")) for y in e])
                elif f == "traverse":
                    src = "(s/traverse (lambda (x) (s/match x [,(s:symbol _) (err \"symbol\")] [(,y ,@z) (ok `(,@z ,y))] [_ (ok x)])) '%s)" % b
                    res, msg = (None if e is None else []), None
                    for y in e or []:
                        if y[0] == "sym":
                            res, msg = None, "symbol"
                            break
                        if y[0] == "cons":
                            z = M.elems(y[2])
                            if z is None:
                                res, msg = None, ",@ expects proper-list"
                                break
                            y = M.mk(*z, y[1])
                        res.append(y)
                    if res is not None:
                        res = M.mk(*res)
                elif f == "foldl":
                    src = "(s/foldl (lambda (x y) (s:cons x y)) '%s '%s)" % (a, b)
                    res = None
                    if e is not None:
                        res = A
                        for y in e:
                            res = ("cons", res, y)
                elif f == "foldr":
                    src = "(s/foldr (lambda (x y) (s:cons x y)) '%s '%s)" % (a, b)
                    res = None
                    if e is not None:
                        res = (e or [A])[-1]
                        for y in reversed(([A] + e)[:-1]):
                            res = ("cons", y, res)
                else:
                    src, res = "(match (s/length '%s) [(ok (let n)) (ok (s:integer #f n))] [(err (let e)) (err e)])" % b, None if e is None else ("int", len(e), False)
                if f not in ("zip", "traverse") or (f == "traverse" and msg is None):
                    msg = "s/%s expects proper-list" % f
                item("(rdump %s)" % src, ("E " + msg) if res is None else M.dump(res), src)
                g.tick("s/" + f)
                continue
            cs = g.clauses()
            pt = [(text(r, M.unpairs(p)), text(r, M.unpairs(t))) for p, t in cs]
            if any(a is None or b is None for a, b in pt):
                continue
            name = "q%d" % n
            macro = r.random() < 0.55
            uses = []
            for _ in range(r.choice([1, 2, 3])):
                A = g.fit(r.choice(cs)[0])
                if r.random() < 0.45:
                    A = g.spoil(A)
                a = text(r, M.unpairs(A))
                if a is None or len(a) > 20000:
                    continue
                try:
                    z = M.apply(cs, A)
                except M.Err as e:
                    z = str(e)
                if z is not None and not isinstance(z, str) and len(M.dump(z[1])) > 60000:
                    continue
                uses.append((a, z))
            if macro:
                k.append("(macro (%s s) (s/match s %s [_ (ok ''none)]))" % (name, " ".join("[(_ %s) (ok `(quote %s))]" % x for x in pt)))
                exports.append(name)
                for a, z in uses:
                    if isinstance(z, str):
                        bad.append(("(println! (dump (%s %s)))" % (name, a), z))
                    else:
                        item("(dump (%s %s))" % (name, a), M.dump(S("none") if z is None else z[1]), "%s\n on %s" % (k[-1], a))
                        g.tick("no clause" if z is None else "clause %d" % z[0])
            else:
                where = m if r.random() < 0.5 else k
                where.append("(function (%s s) {(-> (Syntax Sexp) (Result (Syntax Sexp) String))} (s/match s %s [_ (err \"none\")]))" % (name, " ".join("[%s (ok `%s)]" % x for x in pt)))
                if where is k:
                    exports.append(name)
                src = where[-1]
                for a, z in uses:
                    item("(rdump (%s '%s))" % (name, a), ("E " + z) if isinstance(z, str) else "E none" if z is None else M.dump(z[1]), "%s\n on %s" % (src, a))
                    g.tick("no clause" if z is None else "error" if isinstance(z, str) else "clause %d" % z[0])
        K = '(import "std/s" _)\n(export mid %s)\n(macro (mid s) (s/match s [(_ ,a) (ok `(quote ,a))] [_ (err "x")]))\n' % " ".join(exports) + "\n".join(k) + "\n"
        H = '(import "std/s" _)\n(import "~/d" _)\n(import "~/k" _)\n'
        return g, {"d.llrl": DUMP, "k.llrl": K, "m.llrl": H + "\n".join(m) + "\n"}, want, texts, [(H + b + "\n", z) for b, z in bad]

    def refused(kind, seed, cname, cc, cfg, files, msg):
        d = os.path.join(c.tmp, "e%x%s%s" % (seed, cname, cfg))
        p, q = build(cc, cfg, d, files)
        shutil.rmtree(d, ignore_errors=True)
        t = p.text + p.etext
        if p.timed_out:
            c.inconclusive += 1
            return
        if p.rc in (0, None) or p.rc < 0 or "Macro expansion failed: " + msg not in t or "~/m:" not in t:
            c.violation("%s -b %s (%s, seed %d): exit %r: %s\n expected: Macro expansion failed: %s" % (cname, cfg, kind, seed, p.rc, t[:500], msg), files)
            return
        add(obs["refusals"], {kind: 1})
        c.evaluations += 1
        c.distinct.add(common.dist_hash(cname + cfg + files["m.llrl"]))

    # ------------------------------------------------------------ code through macros
    def code_program(r):
        cd = M.Code(r)
        helpers = ["h0", "h1", "h2"]
        env = {}
        coef = {}
        for h in helpers:
            for cap in (False, True):
                coef[(h, cap)] = (r.choice([1, 2, 3, -1]), r.randrange(-20, 20))
        # (the macros of the second module build on those of the first; what they capture is the first module's functions, imported under their own names)
        src = {"k": [], "k2": []}
        names = []
        n = r.choice([4, 6, 8])
        for i in range(n):
            mod = "k" if i < n // 2 else "k2"
            nm = "m%d" % i
            cd.macro(nm, list(names), helpers)
            src[mod].append(nm)
            names.append(nm)
        T = lambda t: text(r, t)
        fn = lambda h, co: "(function (%s a) {(-> I64 I64)} (+ (* a %d) %d))" % (h, co[0], co[1])
        files = {"d.llrl": M.OPS}
        ex1 = " ".join(src["k"] + [x + "-fold" for x in src["k"] if cd.macros[x]["kind"] == "rest"])
        ex2 = " ".join(src["k2"] + [x + "-fold" for x in src["k2"] if cd.macros[x]["kind"] == "rest"])
        body = {}
        for q in ("k", "k2"):
            body[q] = "\n".join(cd.source(x, T) for x in src[q])
            if "None" in body[q]:
                return None
        files["k.llrl"] = '(import "std/s" _)\n(export h0 h1 h2 %s)\n' % ex1 + "\n".join(fn(h, coef[(h, True)]) for h in helpers) + "\n" + body["k"] + "\n"
        # the second module passes macros on, sometimes under its own export only
        files["k2.llrl"] = '(import "std/s" _)\n(import "~/k" _)\n(export %s)\n' % ex2 + body["k2"] + "\n"
        files["k3.llrl"] = r'''(import "std/s" _)
(export mkfn mkfns pr opt fun cl defm seqm const)
(macro (mkfn s) (s/match s [(_ ,n ,e) (ok `(function (,n) {(-> I64)} ,e))] [_ (err "mkfn")]))
(macro (mkfns s) (s/match s [(_ ,@ds) (ok `(begin ,@(s/map (lambda (d) (s/match d [(,n ,e) `(,\mkfn ,n ,e)] [_ d])) ds)!))] [_ (err "mkfns")]))
(macro (pr s) (s/match s [(_ ,a) (ok a)] [(_ ,a ,@b) (ok `(: ,a (,\pr ,@b)))] [_ (err "pr")]))
(macro (opt s) (s/match s [(_ ,a) (ok `(Option ,a))] [_ (err "opt")]))
(macro (fun s) (s/match s [(_ ,@a) (ok `(-> ,@a I64))] [_ (err "fun")]))
(macro (cl s) (s/match s [(_ ,p ,@e) (ok `[,p (begin ,@e)])] [_ (err "cl")]))
(macro (const s) (s/match s [(_ ,n ,v) (ok `(macro (,n s) (ok '(quote . (,v . ())))))] [_ (err "const")]))
(macro (defm s) (s/match s [(_ ,n ,@e) (ok (s:list 'macro (s:list n 's) (s:list \ok (s:list 'quote (s:cons 'begin e)))))] [_ (err "defm")]))
(macro (seqm s) (s/match s [(_ ,@e) (ok (s:cons 'begin (s/reverse e)!))] [_ (err "seqm")]))
'''
        m, want, texts, bad = [], [], [], []
        made = []       # macros made by macros, in a module of their own

        def value(t, extra=None):
            cd.expansions = 0
            tr = []
            v = cd.ev(M.pairs(t), dict(extra or {}), coef, tr)
            return "".join(tr) + str(v)

        i = 0
        while len(want) < 40:
            i += 1
            x = r.random()
            try:
                if x < 0.7:
                    t = cd.use(r.choice([2, 3, 4]), [], helpers)
                    w = value(t)
                    s = T(t)
                    if s is None:
                        continue
                    m.append("(function (u%d) {(-> I64)} %s)\n(println! (u%d))" % (i, s, i))
                    want.append(w)
                    texts.append(m[-1] + "\n" + files["k.llrl"])
                    continue
                es = [cd.use(r.choice([0, 1, 2]), [], helpers) for _ in range(r.choice([2, 3]))]
                vs = [value(t) for t in es]
                ss = [T(t) for t in es]
            except OverflowError:
                continue
            if any(s is None for s in ss):
                continue
            num = lambda v: v.split(">")[-1]
            tr = lambda v: v[:len(v) - len(num(v))]
            k = r.choice(["mkfn", "mkfns", "pr", "opt", "fun", "cl", "defm", "seqm"])
            cd.tick("macro in place: " + k)
            if k == "mkfn":
                m.append("(mkfn w%d %s)\n(println! (w%d))" % (i, ss[0], i))
                w = vs[0]
            elif k == "mkfns":
                m.append("(mkfns %s)\n(println! %s)" % (" ".join("(w%d-%d %s)" % (i, j, s) for j, s in enumerate(ss)), "(string " + " \" \" ".join("(w%d-%d)" % (i, j) for j in range(len(ss))) + ")"))
                w = "".join(tr(v) for v in vs) + " ".join(num(v) for v in vs)
            elif k == "pr":
                m.append("(println! (string (let (%s) (match (pr %s) [(pr %s) (string %s)]))))" % (
                    " ".join("[z%d {I64} %s]" % (j, s) for j, s in enumerate(ss)), " ".join("z%d" % j for j in range(len(ss))), " ".join("(let y%d)" % j for j in range(len(ss))),
                    " \" \" ".join("y%d" % j for j in range(len(ss)))))
                w = "".join(tr(v) for v in vs) + " ".join(num(v) for v in vs)
            elif k == "opt":
                m.append("(function (o%d) {(-> (opt (opt I64)))} (some (some %s)))\n(println! (match (o%d) [(some (some (let v))) (string v)] [_ \"no\"]))" % (i, ss[0], i))
                w = vs[0]
            elif k == "fun":
                m.append("(function (f%d a b) {(fun I64 I64)} (sb a b))\n(println! (let* ([a %s] [b %s]) (f%d a b)))" % (i, ss[0], ss[1], i))
                w = tr(vs[0]) + tr(vs[1]) + str(int(num(vs[0])) - int(num(vs[1])))
            elif k == "cl":
                q = num(vs[0])
                if not q.isdigit():
                    continue
                m.append("(println! (match %s (cl %s %s) (cl _ -1)))" % (ss[0], q, ss[1]))
                w = tr(vs[0]) + vs[1]
            elif k == "defm":
                made.append("(defm dm%d %s)" % (i, " ".join("(println! %s)" % s for s in ss)))
                m.append("(dm%d)" % i)
                want += vs[:-1]
                texts += [made[-1]] * (len(vs) - 1)
                w = vs[-1]
            else:
                m.append("(seqm %s)" % " ".join("(println! %s)" % s for s in ss))
                want += vs[::-1][:-1]
                texts += [m[-1]] * (len(vs) - 1)
                w = vs[0]
            want.append(w)
            texts.append(m[-1])
        OPS = "ad sb mx lt tr"
        files["k4.llrl"] = '(import "std/s" _)\n(import "~/k3" _)\n(export %s)\n' % " ".join("dm" + x.split()[1][2:] for x in made) + "\n".join(made) + "\n" if made else "; nothing\n"
        ms = "%s %s" % (ex1, ex2)
        head = '(import "~/d" _)\n(import "~/k" %s)\n(import "~/k2" _)\n(import "~/k3" _)\n' % ex1
        if made:
            head += '(import "~/k4" _)\n'
        head += "\n".join(fn(h, coef[(h, False)]) for h in helpers) + "\n"
        files["m.llrl"] = head + "\n".join(m) + "\n"
        for nm in names:
            z = "(println! (%s))" % nm
            if True:
                bad.append((head + z + "\n", "bad use of " + nm))
        add(obs["shapes"], cd.count)
        return files, want, texts, bad

    def one(job):
        kind, seed, (cname, cc, cfg) = job
        if len(c.violations) >= 5:
            return
        r = random.Random(seed)
        if kind == "data":
            g, files, want, texts, bad = data_program(r)
            add(obs["shapes"], g.count)
        else:
            while True:
                z = code_program(r)
                if z:
                    break
            files, want, texts, bad = z
        c.sample(texts[0] + "\n -> " + want[0])
        judge(kind, seed, cname, cc, cfg, files, want, texts)
        if bad:
            b, msg = r.choice(bad)
            refused(kind, seed, cname, cc, cfg, dict(files, **{"m.llrl": b}), msg)

    n = c.budget(8, 150)
    jobs = []
    for i in range(n):
        for kind in ("data", "code"):
            for k in comp:
                jobs.append((kind, c.rng.getrandbits(40), k))
    common.pmap(one, jobs)
    c.cov["observed"] = obs
    c.assumptions = ["templates have one level of quasi-quotation as the library documents; in patterns, floating point literals are not used",
                     "expansion of macros over code is textual (the language's macros are not hygienic) except for captured names and generated names"]
