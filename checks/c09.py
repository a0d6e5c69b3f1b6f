"""C09: texts full of preprocessor directives; what both compilers expand them to is shown by a macro and compared with a model of the directives."""
import os, random, re, shutil
import common, readgen as G, ppgen as P

S, L = P.S, P.L
POS = re.compile(r"(\d+):(\d+)-(\d+):(\d+): (.*)")


def run(c):
    llrl0 = common.build_llrl0()
    llrl1 = c.llrl1(llrl0)
    comp = [("llrl0", llrl0)] + ([("llrl1", llrl1)] if llrl1 else [])
    c.rule = ("one evaluation is one expanded form of a generated text, shown by a macro and compared with what the model of the directives makes of it, or one text with one faulty directive whose refusal, message and "
              "place were compared with the model's; distinct by text, features and compiler")
    obs = {"forms": {}, "directives_expanded": {}, "refusals": {}, "feature_sets": []}
    os.makedirs(c.tmp, exist_ok=True)
    POOL = ["fa", "fb", "fc", "d e", "chibi-backend", "\u8a71"]

    def write(r, t):
        for _ in range(50):
            w = G.Writer(r)
            w.sugared = False
            where = {}
            orig = w.put

            def put(x):
                p = orig(x)
                where.setdefault(id(x), p)
                return p
            w.put = put
            try:
                w.put(t)
            except G.Again:
                continue
            return w, where
        return None, None

    def build(cc, d, files, features):
        os.makedirs(d, exist_ok=True)
        for n, s in files.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(s.encode())
        a = []
        for x in features:
            a += ["-f", x]
        p = common.sh([cc, "-b", "chibi", "-o", "m"] + a + ["m"], cwd=d, timeout=120)
        if p.rc == 0:
            return p, common.sh(["./m"], cwd=d, timeout=60)
        return p, None

    SHOW = lambda t: L(S("println!"), L(S("show"), t))

    def forms(job):
        seed, cname, cc = job
        if len(c.violations) > 5:
            return
        r = random.Random(seed)
        features = [x for x in POOL if r.random() < 0.4]
        m = P.Model(set(features))
        g = P.Gen(r, set(features))
        d = os.path.join(c.tmp, "f%x%s" % (seed, cname))

        def chunk(size, tops):
            """forms that print when they are expanded, in module position or inside a function -> texts, expected lines"""
            texts, want, marks = [], [], []
            while len(want) < size:
                k = r.randrange(4)
                dd = r.choice([1, 2, 3, 4])
                if k < 2:
                    t = SHOW(g.one(dd, {}))
                else:
                    # directives around the forms themselves
                    n, kd = g.name(), g.kind()
                    env = g.extend({}, n, kd)
                    body = [SHOW(g.one(dd - 1, env)) for _ in range(r.randrange(1, 4))]
                    if k == 2:
                        t = L(S("$let1"), S(n), g.of_kind(kd, dd, {}), *body)
                    else:
                        t = L(S("$for1"), S(n), P.Q(*[g.of_kind(kd, dd - 1, {}) for _ in range(r.randrange(4))]), *body)
                try:
                    e = m.expand(P.core(t), {})
                except P.Bad as x:
                    raise common.Broken("the generator made a text the model refuses: %s: %r" % (x, t))
                if len(repr(e)) > 60000:
                    continue
                w, _ = write(r, t)
                if w is None:
                    continue
                x = "".join(w.out)
                texts.append(x)
                for f in e:
                    a = f[1][1][1]
                    if len(a) != 2:
                        raise common.Broken("a shown form expanded to %d" % (len(a) - 1))
                    want.append(G.dump(a[1]))
                    marks.append(x)
            return texts, want, marks
        t1, w1, m1 = chunk(60, True)
        t2, w2, m2 = chunk(30, False)
        files = {"d.llrl": G.DUMP,
                 "n.llrl": '(import "~/d" show disp)\n(export other)\n(function (other) {(-> unit)}\n  (begin\n%s\n (ignore 0)))\n' % "\n".join(t2),
                 "m.llrl": '(import "~/d" show disp)\n(import "~/n" other)\n%s\n(other)\n' % "\n".join(t1)}
        p, q = build(cc, d, files, features)
        files["features.txt"] = "\n".join(features)
        if p.timed_out or (q and q.timed_out):
            c.inconclusive += len(w1) + len(w2)
            return
        if p.rc != 0 or q.rc != 0:
            c.violation("a text with directives is refused or fails (%s, features %s, seed %d): %s" % (cname, features, seed, (p.text + p.etext)[:800] if p.rc else q.etext[:300]), files)
            return
        got = q.text.split("\n")
        for i, (w, x) in enumerate(zip(w1 + w2, m1 + m2)):
            c.evaluations += 1
            obs["forms"][cname] = obs["forms"].get(cname, 0) + 1
            c.distinct.add(common.dist_hash(cname + repr(features) + x + str(i)))
            if i >= len(got) or got[i] != w:
                c.violation("with the features %s the text\n%s\nexpands to %s, should be %s (%s, seed %d)" % (features, x[:1500], got[i][:800] if i < len(got) else "(nothing)", w[:800], cname, seed), files)
                return
        for k, v in m.steps.items():
            obs["directives_expanded"][k] = obs["directives_expanded"].get(k, 0) + v
        if sorted(features) not in obs["feature_sets"]:
            obs["feature_sets"].append(sorted(features))
        c.sample("%r with %s shows %s (%s)" % (t1[0][:160], features, w1[0][:160] if w1 else "", cname))
        shutil.rmtree(d, ignore_errors=True)

    jobs = []
    for cname, cc in comp:
        jobs += [(c.rng.getrandbits(48), cname, cc) for _ in range(c.budget(64 if cname == "llrl0" else 16, 800 if cname == "llrl0" else 120))]
    c.rng.shuffle(jobs)
    common.pmap(forms, jobs)

    def faults(job):
        seed, cname, cc = job
        if len(c.violations) > 5:
            return
        r = random.Random(seed)
        features = [x for x in POOL if r.random() < 0.4]
        m = P.Model(set(features))
        g = P.Gen(r, set(features))
        unresolved = r.random() < 0.15
        bad, place, exact = g.fault({})
        if unresolved:
            # what is not the preprocessor's business keeps its place in the text wherever it is put
            bad = place = S("qq-nowhere")
            exact = True
        t = bad
        # somewhere inside other forms and directives, once
        for _ in range(r.randrange(0, 5)):
            k = r.randrange(6)
            if unresolved and k in (0, 5):
                t = L(S("begin"), *[("int", r.randrange(9), False) for _ in range(r.randrange(3))], t)
            elif k == 0:
                t = L(S("k"), *[g.g.tree(1) for _ in range(r.randrange(3))], t)
            elif k == 1:
                t = L(S("$when"), g.boolean_is(True), t)
            elif k == 2:
                t = L(S("$let1"), S("$c"), t, S("$c"))
            elif k == 3:
                t = L(S("$let"), L(L(S("$b"), t)), S("$b")) if unresolved else L(S("$let"), L(L(S("$b"), g.g.tree(0))), S("$b"), t)
            elif k == 4:
                t = L(S("$for1"), S("$c"), L(("int", 1, False), ("int", 2, False)), t)
            else:
                t = ("sugar", "'", t)
        parts = [SHOW(g.one(2, {})) for _ in range(r.randrange(0, 3))] + [SHOW(t)]
        if unresolved:
            parts = [L(S("begin"), t)]
        try:
            m.seq([P.core(x) for x in parts[:-1]], {})
        except P.Bad as x:
            raise common.Broken("the generator made a text the model refuses: %s" % x)
        try:
            m.expand(P.core(parts[-1]), {})
            if not unresolved:
                return
            why = "Unresolved value qq-nowhere"
        except P.Bad as x:
            if unresolved:
                return
            why = str(x)
        try:
            m.expand(P.core(bad), {})
        except P.Bad as x:
            if str(x) != why:
                return      # the surroundings are refused for another reason
        w = G.Writer(r)
        w.sugared = False
        where = {}
        orig = w.put

        def put(x):
            p = orig(x)
            where.setdefault(id(x), p)
            return p
        w.put = put
        w.tok("(no-implicit-std)")
        try:
            for x in parts:
                w.put(x)
        except G.Again:
            return
        if id(place) not in where:
            return
        src = "".join(w.out)
        a, e = where[id(place)]
        d = os.path.join(c.tmp, "e%x%s" % (seed, cname))
        p, _ = build(cc, d, {"m.llrl": src}, features)
        shutil.rmtree(d, ignore_errors=True)
        if p.timed_out:
            c.inconclusive += 1
            return
        c.evaluations += 1
        key = "%s %s" % (cname, " ".join(why.split(":")[0].split()[:2]))
        obs["refusals"][key] = obs["refusals"].get(key, 0) + 1
        c.distinct.add(common.dist_hash(cname + repr(features) + src))
        said = p.text + p.etext
        f = [(tuple(map(int, x[:4])), x[4]) for x in POS.findall(said)]
        fine = False
        for (l0, c0, l1, c1), msg in f:
            if exact:
                at = (l0, c0) == a and (l1, c1) == e
            else:
                at = a <= (l0, c0) and (l1, c1) <= e
            # in the forms of its directives one compiler is more specific than the other
            said_so = msg.split(" (while")[0].startswith(why) if "syntax" not in why else msg.startswith("Directive syntax error: expected ")
            fine = fine or (at and said_so)
        if p.rc == 0 or not fine:
            c.violation("a text to be refused with '%s' at %s-%s (%s, features %s, seed %d) is %s" % (why, a, e, cname, features, seed, "accepted" if p.rc == 0 else "answered with %r" % said[:300]),
                        {"m.llrl": src, "said.txt": said, "features.txt": "\n".join(features)})

    jobs = []
    for cname, cc in comp:
        jobs += [(c.rng.getrandbits(48), cname, cc) for _ in range(c.budget(900 if cname == "llrl0" else 300, 10000))]
    common.pmap(faults, jobs)
    c.cov["observed"] = obs
