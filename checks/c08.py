"""C08: trees written in random layouts, what the compilers' readers make of them shown by a macro; printed forms read again; positions of the reported errors."""
import os, random, re, shutil
import common, readgen as G


def expr(r, d, hole):
    """an expression without names but the built-in forms; hole: whether the unresolved name is somewhere in it"""
    I = lambda: ("int", r.randrange(100), False)
    if d <= 0:
        return ("sym", "qq-nowhere") if hole else I()
    k = r.choice(["begin", "begin", "if", "let", "let1"])
    n = r.randrange(1, 4)
    w = r.randrange(n)
    sub = [expr(r, d - 1 - r.randrange(2), hole and i == w) for i in range(n)]
    S = lambda x: ("sym", x)
    L = lambda *x: ("list", list(x), None)
    if k == "begin":
        return L(S("begin"), *sub)
    if k == "if":
        a = sub[0]
        return L(S("if"), ("bool", r.random() < 0.5), a, sub[1]) if n > 1 and not (hole and w > 1) else L(S("begin"), *sub)
    v = "v%d" % r.randrange(1000)
    if k == "let":
        return L(S("let"), L(*[L(S(v + "-%d" % i), x) for i, x in enumerate(sub[:-1])]), sub[-1])
    return L(S("let"), L(L(L(S(v), S("p")), sub[0])), *([I()] if n == 1 else [("list", [S("begin")] + sub[1:], None)]))


def run(c):
    llrl0 = common.build_llrl0()
    llrl1 = c.llrl1(llrl0)
    comp = [("llrl0", llrl0)] + ([("llrl1", llrl1)] if llrl1 else [])
    c.rule = ("one evaluation is one form of a generated text whose structure as the reader built it was shown by a macro and compared with the tree it was written from, one printed form read again, or one "
              "erroneous text whose reported position was compared with the place of the error; distinct by text and compiler")
    obs = {"forms_read": {}, "tokens": {}, "printed_and_read_again": 0, "positions": {}, "bytes_read": 0}
    os.makedirs(c.tmp, exist_ok=True)

    def build(cc, d, src, dump=True):
        os.makedirs(d, exist_ok=True)
        if dump:
            with open(os.path.join(d, "d.llrl"), "w") as f:
                f.write(G.DUMP)
        with open(os.path.join(d, "m.llrl"), "wb") as f:
            f.write(src.encode())
        p = common.sh([cc, "-b", "chibi", "-o", "m", "m"], cwd=d, timeout=120)
        if p.rc == 0 and dump:
            return p, common.sh(["./m"], cwd=d, timeout=60)
        return p, None

    def forms(job):
        seed, cname, cc, rounds = job
        if len(c.violations) > 5:
            return
        r = random.Random(seed)
        d = os.path.join(c.tmp, "f%x%s" % (seed, cname))
        g = G.Gen(r, plain=rounds)
        trees, parts = [], []
        while len(trees) < 120:
            t = g.tree(r.choice([1, 2, 3, 5]))
            x = G.text(r, t)
            if x is None:
                continue
            trees.append(t)
            parts.append(x)
        for k, v in g.count.items():
            obs["tokens"][k] = obs["tokens"].get(k, 0) + v

        def module(texts, what):
            s = '(import "~/d" show disp)\n'
            for x in texts:
                s += "(println! (%s %s\n))\n" % (what, x)
            return s

        def compare(src, want):
            p, q = build(cc, d, src)
            if p.timed_out or (q and q.timed_out):
                c.inconclusive += len(want)
                return None
            files = {"m.llrl": src, "d.llrl": G.DUMP}
            if p.rc != 0:
                c.violation("a well-formed text is refused (%s, seed %d): %s" % (cname, seed, p.text[:600] + p.etext[:300]), files)
                return None
            if q.rc != 0:
                c.violation("a program showing forms ends with %s (%s, seed %d): %s" % (q.rc, cname, seed, q.etext[:300]), files)
                return None
            return q, files
        if not rounds:
            src = module(parts, "show")
            res = compare(src, trees)
            if not res:
                return
            got = res[0].text.split("\n")
            obs["bytes_read"] += len(src)
            for i, t in enumerate(trees):
                c.evaluations += 1
                obs["forms_read"][cname] = obs["forms_read"].get(cname, 0) + 1
                c.distinct.add(common.dist_hash(cname + parts[i]))
                w = G.dump(t)
                if i >= len(got) or got[i] != w:
                    c.violation("the text %r is read as %s, should be %s (%s)" % (parts[i][:600], got[i][:600] if i < len(got) else "(nothing)", w[:600], cname), res[1])
                    return
            c.sample("%r reads as %s (%s)" % (parts[0][:120], got[0][:160], cname))
        else:
            # what is printed may contain anything a string or a character may: ask for its bytes as a form of its own, then read that
            src = '(import "~/d" show disp)\n(import "std/string" _)\n' + "(function (out s) {(-> String unit)} (begin (print! (string/length s)) (print! \":\") (print! s) (ignore (print! \"\\n\"))))\n"
            for x in parts:
                src += "(out (disp %s\n))\n" % x
            res = compare(src, trees)
            if not res:
                return
            b, texts = res[0].out, []
            try:
                for _ in trees:
                    n, b = b.split(b":", 1)
                    n = int(n)
                    texts.append(b[:n].decode())
                    b = b[n + 1:]
            except ValueError:
                c.violation("the printed forms cannot be told apart (%s, seed %d): %r" % (cname, seed, res[0].out[:300]), res[1])
                return
            res = compare(module(texts, "show"), trees)
            if not res:
                return
            got = res[0].text.split("\n")
            for i, t in enumerate(trees):
                c.evaluations += 1
                obs["printed_and_read_again"] += 1
                c.distinct.add(common.dist_hash(cname + "again" + texts[i]))
                w = G.dump(t)
                if i >= len(got) or got[i] != w:
                    c.violation("%r is printed as %r, which reads as %s, not %s (%s)" % (parts[i][:400], texts[i][:400], got[i][:600] if i < len(got) else "(nothing)", w[:600], cname), res[1])
                    return
        shutil.rmtree(d, ignore_errors=True)

    jobs = []
    for cname, cc in comp:
        n = c.budget(60 if cname == "llrl0" else 16, 600 if cname == "llrl0" else 100)
        jobs += [(c.rng.getrandbits(48), cname, cc, i % 4 == 3) for i in range(n)]
    c.rng.shuffle(jobs)
    common.pmap(forms, jobs)

    POS = re.compile(r"(\d+):(\d+)-(\d+):(\d+)")

    def places(job):
        seed, cname, cc = job
        if len(c.violations) > 5:
            return
        r = random.Random(seed)
        g = G.Gen(r)
        kind = r.choice(["name", "name", "name", "unknown", "bracket", "eof", "string", "char", "stray"])
        w = G.Writer(r)
        w.sugared = False
        allowed = None
        header = "(no-implicit-std)"
        w.tok(header)
        if kind == "name":
            w.tok("(function (p x) x)")      # so that texts are not empty of other declarations
            n = r.randrange(1, 6)
            at = r.randrange(n)
            spot = []
            orig = w.put

            def put(t):
                x = orig(t)
                if t == ("sym", "qq-nowhere"):
                    spot.append(x)
                return x
            w.put = put
            for i in range(n):
                if r.random() < 0.4:
                    # earlier text of any kind, none of which matters
                    w.raw(r.choice(["; " + "".join(ch for ch in g.char() * 3 if ch not in "\r\n") + "\n", "\n", "\r\n", "\t", " "]))
                    w.last = ""
                w.put(expr(r, r.randrange(1, 5), i == at))
            if len(spot) != 1:
                return
            allowed = spot
            says = "Unresolved value qq-nowhere"
        else:
            def filler(n):
                for _ in range(n):
                    for _ in range(20):
                        t = g.tree(r.choice([0, 1, 2, 3]))
                        mark = (list(w.out), w.last, w.line, w.col)
                        try:
                            w.put(t)
                            break
                        except G.Again:
                            w.out, w.last, w.line, w.col = mark
            says = "Parse failed"
            filler(r.randrange(0, 5))
            depth = r.randrange(0, 4)
            if kind in ("bracket", "eof"):
                depth += 1
            opened = []
            for _ in range(depth):
                o = r.choice("([")
                w.tok(o)
                opened.append(o)
                filler(r.randrange(0, 4))
            if kind == "unknown":
                a = w.tok(r.choice(["\u20ac", "\x01", "\u8a71", "\U0001f600", "\x7f", "\u00a0"]))
                allowed = [(a, w.end)]
            elif kind == "bracket":
                a = w.tok("]" if opened[-1] == "(" else ")")
                allowed = [(a, w.end)]
            elif kind == "stray":
                for o in reversed(opened):
                    w.tok(")" if o == "(" else "]")
                a = w.tok(r.choice(")]}"))
                allowed = [(a, w.end)]
            elif kind == "eof":
                allowed = [(w.end, w.end)]
                w.raw(r.choice(["", "\n", " ; comment", "\n\n  \t"]))
            elif kind == "string":
                a = w.tok('"')
                body = "".join(ch for ch in (g.char() for _ in range(r.randrange(0, 8))) if ch not in '"\\') + r.choice(["", "\\\"", "\n"])
                w.raw(body + r.choice(["", "\\", "\\q"]))
                allowed = [a]
            elif kind == "char":
                a = w.tok("#\\\\")
                w.raw(r.choice(["q", "\u8a71", ""]))
                allowed = [a]
            if kind in ("unknown", "bracket", "stray"):
                filler(r.randrange(0, 3))
                if kind == "unknown":
                    for o in reversed(opened):
                        w.tok(")" if o == "(" else "]")
        src = "".join(w.out)
        d = os.path.join(c.tmp, "e%x%s" % (seed, cname))
        p, _ = build(cc, d, src, dump=False)
        shutil.rmtree(d, ignore_errors=True)
        if p.timed_out:
            c.inconclusive += 1
            return
        c.evaluations += 1
        key = "%s %s" % (cname, kind)
        obs["positions"][key] = obs["positions"].get(key, 0) + 1
        c.distinct.add(common.dist_hash(cname + src))
        said = p.text + p.etext
        found = [tuple(map(int, m)) for m in POS.findall(said)]
        files = {"m.llrl": src.encode("utf-8", "surrogateescape"), "said.txt": said}
        ok = False
        for f in found:
            s, e = (f[0], f[1]), (f[2], f[3])
            for a in allowed:
                if isinstance(a[0], tuple):
                    ok = ok or (s, e) == a
                else:
                    ok = ok or s == a
        # every position is inside the text
        lines = src.encode().split(b"\n")
        outside = [f for f in found for l, k in ((f[0], f[1]), (f[2], f[3])) if not (1 <= l <= len(lines) and 1 <= k <= len(lines[l - 1]) + 1)]
        if p.rc == 0:
            msg = "is accepted"
        elif says not in said:
            msg = "is reported as %r" % said[:300]
        elif not ok:
            msg = "is reported at %s: %r, not at %s" % (found[:4], said[:300], allowed)
        elif outside:
            msg = "is reported at %s, outside the text: %r" % (outside, said[:300])
        else:
            return
        c.violation("an error of the kind '%s' (%s, seed %d) %s" % (kind, cname, seed, msg), files)

    jobs = []
    for cname, cc in comp:
        jobs += [(c.rng.getrandbits(48), cname, cc) for _ in range(c.budget(900 if cname == "llrl0" else 300, 12000))]
    common.pmap(places, jobs)
    c.cov["observed"] = obs
    c.assumptions.append("floats are written as decimals within the range of F64 and in fewer than 60 characters; printing is std's display of syntax, for floats of up to 15 significant digits")
