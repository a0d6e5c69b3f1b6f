"""C03: verdicts on match expressions against enumeration of every distinguishable value; accepted matches are also executed."""
import os, random, re, shutil
import common, matchgen as M

HEAD = '(no-implicit-std)\n(import "builtin" _)\n(c-function putchar {(-> I32 I32)} "putchar")\n'


def run(c):
    llrl0 = common.build_llrl0()
    llrl1 = c.llrl1(llrl0)
    c.rule = ("one evaluation is one generated match whose verdict (accepted, which clause is useless, which patterns are not covered) was read from the "
              "compiler and compared with the enumeration of all distinguishable values; for accepted ones also one per value on which the selected clause was observed; "
              "distinct by source text and value")
    stat = {"ok": 0, "useless": 0, "missing": 0, "executed_values": 0, "classes_of_values": 0, "clauses": 0, "too_big_skipped": 0}
    per = {}

    def one(job):
        seed, cc, cfg = job
        if len(c.violations) >= 5 or (cc == "llrl1" and not llrl1):
            return
        r = random.Random(seed)
        g = M.G(r)
        while True:
            for _ in range(r.randrange(1, 3)):
                g.declare()
            t = g.ty(r.choice([2, 3]))
            ps = g.clauses(t)
            keep = r.random() < 0.3
            try:
                vals = g.enum(t, ps, 3000)
            except M.TooBig:
                stat["too_big_skipped"] += 1
                continue
            v = M.verdict(ps, vals)
            while v[0] == "useless" and not keep:
                ps = ps[:v[1]] + ps[v[1] + 1:]
                v = M.verdict(ps, vals)
            break
        form = r.choice(["match", "match", "nested", "closure"])
        body = "\n    ".join("[%s %d]" % (g.text(p, []), 33 + i % 197) for i, p in enumerate(ps))
        m = "(match x\n    %s)" % body
        if form == "nested":
            m = "(match #t [#f 1] [#t (if #t %s 2)])" % m
        elif form == "closure":
            m = "(let ([(go x) {(-> %s I32)} %s]) (go x))" % (g.show(t), m)
        src = HEAD + "\n".join(g.decls) + "\n(function (f x) {(-> %s I32)}\n  %s)\n" % (g.show(t), m)
        lines = (HEAD.count("\n") + len(g.decls) + 1, src.count("\n"))
        ex = [i for i in range(len(vals))]
        r.shuffle(ex)
        ex = ex[:40]
        if v[0] == "ok":
            src += "".join("(putchar (f %s))\n" % g.vtext(vals[i]) for i in ex)
        d = os.path.join(c.tmp, "m%x" % seed)
        st, p = common.compile_run({"llrl0": llrl0, "llrl1": llrl1}[cc], src, cfg, d)
        shutil.rmtree(d, ignore_errors=True)
        if p.timed_out:
            c.inconclusive += 1
            return
        out = p.text + p.etext
        msg = None
        if v[0] == "ok":
            if st == "compile":
                msg = "every value reaches a clause and every clause is reachable, but it was rejected: " + out[:500]
            else:
                exp = bytes(33 + v[1][i] % 197 for i in ex)
                if p.out != exp or p.rc:
                    msg = "selected clauses (byte - 33, modulo 197) %r on values %s, expected %r, status %s" % (p.out, [g.vtext(vals[i]) for i in ex][:20], exp, p.rc)
        elif st != "compile":
            msg = "it was accepted although " + ("clause %d (%s) can never be selected" % (v[1], g.text(ps[v[1]])) if v[0] == "useless" else
                                                 "no clause matches " + g.vtext(v[1][0]))
        elif v[0] == "useless":
            k = re.search(r"~/m:(\d+):\d+-\d+:\d+: Useless pattern: (.*) \(while building", out)
            if not k:
                msg = "clause %d (%s) can never be selected; reported instead: %s" % (v[1], g.text(ps[v[1]]), out[:500])
            else:
                q = [M.norm(x) for x in M.parse(k[2])]
                if q != [M.norm(ps[v[1]])]:
                    msg = "the first useless clause is %d (%s); reported %s" % (v[1], g.text(ps[v[1]]), k[2])
        else:
            k = re.search(r"~/m:(\d+):\d+-\d+:\d+: Non-exhaustive pattern: the following patterns are not covered: (.*) \(while building", out)
            if not k:
                msg = "no clause matches %s; reported instead: %s" % (g.vtext(v[1][0]), out[:500])
            else:
                q = [M.norm(x) for x in M.parse(k[2]) if x != ("c", "|", [])]
                vs = [M.norm(x) for x in g.enum(t, ps, 3000)]
                np = [M.norm(x) for x in ps]
                for y in q:
                    if not any(M.matches(y, x) and not any(M.matches(z, x) for z in np) for x in vs):
                        msg = "a pattern reported as not covered has no uncovered value: %s" % k[2]
                        break
                if not q:
                    msg = "no uncovered pattern is named: %s" % k[0]
        if not msg and v[0] != "ok" and k and not (lines[0] <= int(k[1]) <= lines[1]):
            msg = "reported at line %s, the match is on lines %d-%d" % (k[1], *lines)
        c.evaluations += 1
        stat[v[0]] += 1
        stat["clauses"] += len(ps)
        stat["classes_of_values"] += len(vals)
        per[cc + " " + cfg] = per.get(cc + " " + cfg, 0) + 1
        c.distinct.add(common.dist_hash(src))
        if v[0] == "ok":
            c.evaluations += len(ex)
            stat["executed_values"] += len(ex)
            for i in ex:
                c.distinct.add(common.dist_hash("%x %s" % (seed, vals[i])))
        if msg:
            c.violation("%s (seed %d, %s): %s" % (cc, seed, cfg, msg[:3000]), {"m.llrl": src})
        c.sample({"source": src[len(HEAD):][:600], "verdict": v[0], "value_classes": len(vals)}, limit=6)
    n = c.budget(1, 12)
    jobs = [(c.rng.getrandbits(48), cc, cfg) for cc, cfg, k in (("llrl0", "chibi", 1500), ("llrl0", "llvm", 150), ("llrl0", "llvm-O", 150), ("llrl1", "chibi", 700))
            for _ in range(k * n)]
    common.pmap(one, jobs)
    c.cov["observed"] = stat
    c.cov["matches_per_compiler"] = per

