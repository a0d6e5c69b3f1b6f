"""C11: which declaration each name means, observed by what runs, and which module graphs are rejected and why, against a model of the scoping rules."""
import os, random, re, shutil
import common, nsgen as G

STDNAMES = ["not", "string/length", "vector/empty", "array/length", "eq?", "vector/push!", "compare", "hash", "option/map", "it/map"]


def run(c):
    llrl0 = common.build_llrl0()
    llrl1 = c.llrl1(llrl0)
    comp = {"llrl0": llrl0, "llrl1": llrl1}
    c.rule = ("one evaluation is one module graph given to one compiler: the verdict and the reported error were compared with the model of the import, export and scoping rules and, when "
              "accepted, the letters printed (one per declaration reached) with those the model's resolution of every use gives; distinct by source text and compiler")
    stat = {"accepted": 0, "rejected": 0, "modules": 0, "letters_compared": 0, "uses": 0, "imported": 0, "renamed": 0, "shadowed": 0, "locals": 0, "with_the_implicit_std": 0}
    reasons = {}

    def judge(fs, exp, reject, seed, cc, cfg):
        d = os.path.join(c.tmp, "%s%x" % (cc, seed))
        st, p = common.compile_run(comp[cc], fs["m.llrl"], cfg, d, files={k: x for k, x in fs.items() if k != "m.llrl"})
        shutil.rmtree(d, ignore_errors=True)
        if p.timed_out:
            c.inconclusive += 1
            return
        out = p.text + p.etext
        msg = None
        if reject is None:
            stat["accepted"] += 1
            if st == "compile":
                msg = "every name means exactly one declaration, but it was rejected: " + out[:600]
            else:
                stat["letters_compared"] += len(exp)
                if p.out != exp.encode() or p.rc:
                    msg = "reached the declarations %r, expected %r, status %s" % (p.out, exp, p.rc)
        else:
            stat["rejected"] += 1
            if st != "compile":
                msg = "accepted although: " + "; ".join("module %s: %s" % (m, " or ".join(x)) for m, x in reject)
            elif not any(re.search("(%s).*\\(while building ~/%s\\)" % (x, m), out) for m, xs in reject for x in xs):
                msg = "expected %s, reported: %s" % ("; ".join("module %s: %s" % (m, " or ".join(x)) for m, x in reject), out[:600])
            else:
                k = reject[0][1][0].split("|")[0].strip("(")[:22]
                reasons[k] = reasons.get(k, 0) + 1
        c.evaluations += 1
        stat["modules"] += len(fs) - 1
        c.distinct.add(common.dist_hash(cc + "\0".join(a + b for a, b in sorted(fs.items()))))
        if msg:
            c.violation("%s %s (seed %d): %s" % (cc, cfg, seed, msg), fs)
        c.sample({"modules": {k: x[-500:] for k, x in fs.items() if k != "q.llrl"}, "expected": exp if reject is None else reject}, limit=4)

    def one(job):
        seed, cc, cfg = job
        if len(c.violations) >= 5 or not comp[cc]:
            return
        w = G.World(random.Random(seed))
        v = w.verdict()
        for k, n in w.stat.items():
            stat[k] += n
        judge(w.files(), "".join(m.trace for m in w.order()), v[1] if v[0] == "reject" else None, seed, cc, cfg)

    def std(job):
        """a module with the implicit standard library: its imports take precedence, its declarations do not"""
        seed, cc, cfg = job
        if len(c.violations) >= 5 or not comp[cc]:
            return
        r = random.Random(seed)
        n = r.choice(STDNAMES)
        stat["with_the_implicit_std"] += 1
        fs = {"k.llrl": '(no-implicit-std)\n(import "builtin" _)\n(c-function putchar {(-> I32 I32)} "putchar")\n(function (%s) {(-> I32)} (putchar 75))\n(export %s)\n' % (n, n)}
        k = r.randrange(4)
        if k == 0:
            fs["m.llrl"] = '(import "~/k" %s)\n(%s)\n' % (r.choice(["_", n]), n)
            judge(fs, "K", None, seed, cc, cfg)
        elif k == 1:
            fs["m.llrl"] = '(import "~/k")\n(function (%s) {(-> I32)} 1)\n' % n
            judge(fs, "", [("m", ["Multiple declarations|multiple|declared"])], seed, cc, cfg)
        elif k == 2:
            fs["m.llrl"] = '(import "~/k" [kk %s])\n(kk)\n(let ([(%s) (kk)]) (%s))\n' % (n, n, n)
            judge(fs, "KK", None, seed, cc, cfg)
        else:
            fs["m.llrl"] = '(no-implicit-std)\n(import "~/k" [kk %s])\n(%s)\n' % (n, n)
            judge(fs, "", [("m", ["Unresolved value " + re.escape(n)])], seed, cc, cfg)

    n = c.budget(1, 15)
    jobs = [(one, (c.rng.getrandbits(48), cc, cfg)) for cc, cfg, k in (("llrl0", "chibi", 1500), ("llrl0", "llvm", 60), ("llrl1", "chibi", 900)) for _ in range(k * n)]
    jobs += [(std, (c.rng.getrandbits(48), cc, "chibi")) for cc, k in (("llrl0", 25), ("llrl1", 10)) for _ in range(k * n)]
    c.rng.shuffle(jobs)
    common.pmap(lambda j: j[0](j[1]), jobs)
    c.cov["observed"] = stat
    c.cov["reasons_for_rejection"] = reasons
