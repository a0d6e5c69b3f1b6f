"""C04: accept/reject verdicts of the type checker against an independent Hindley-Milner checker."""
import os, random, re, shutil
import common, hm

HEAD = '(no-implicit-std)\n(import "builtin" _)\n'


def run(c):
    llrl0 = common.build_llrl0()
    llrl1 = c.llrl1(llrl0)
    comp = {"llrl0": llrl0, "llrl1": llrl1}
    c.rule = ("one evaluation is one generated program whose verdict (type checks / rejected with a located error) was read from the compiler and compared with the "
              "model type checker; the variants of a program carry signatures: the most general ones the model infers (must be accepted) or a strictly more general one (must be rejected); "
              "distinct by source text")
    stat = {"typable": 0, "rejected": {}, "pattern_errors_after_type_checking": 0, "skipped_open_groups": 0, "skipped_nonterminating_instantiation": 0,
            "variants_principal": 0, "variants_too_general": 0, "inferred_polymorphic_functions": 0}
    per = {}

    def test(p, v, cc, seed, what):
        src = HEAD + p.source()
        if p.main and hm.polyrec(p):
            stat["skipped_nonterminating_instantiation"] += 1
            p.main = []
            v = hm.verdict(p)
            if v is None:
                return
            src = HEAD + p.source()
        d = os.path.join(c.tmp, "t%x%s" % (seed, what[:1]))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "m.llrl"), "w") as f:
            f.write(src)
        q = common.sh([comp[cc], "-b", "chibi", "-o", os.path.join(d, "x"), "m"], cwd=d, timeout=120)
        shutil.rmtree(d, ignore_errors=True)
        if q.timed_out:
            c.inconclusive += 1
            return
        out = q.text + q.etext
        k = re.search(r"~/m:(\d+):(\d+)-(\d+):(\d+): (.*)", out)
        pattern = bool(k and re.match(r"Non-exhaustive pattern|Useless pattern", k[5]))
        msg = None
        if v[0]:
            stat["typable"] += 1
            if q.rc and not pattern:
                msg = "the program is well typed (%s), the compiler says: %s" % (what, out[:600] or "status %s" % q.rc)
            elif pattern:
                stat["pattern_errors_after_type_checking"] += 1
        else:
            stat["rejected"][v[1]] = stat["rejected"].get(v[1], 0) + 1
            if not q.rc:
                msg = "the program is not well typed (%s; %s), the compiler accepts it" % (v[1], what)
            elif pattern:
                msg = "the program is not well typed (%s; %s), the compiler only reports: %s" % (v[1], what, k[0])
            elif not k or "panicked" in out or q.rc < 0:
                msg = "the program is not well typed (%s; %s), the report has no location in it: %s" % (v[1], what, out[:600])
            elif not HEAD.count("\n") < int(k[1]) <= src.count("\n") or not 1 <= int(k[2]) <= len(src.split("\n")[int(k[1]) - 1]):
                msg = "the reported place is not in the program: " + k[0]
        c.evaluations += 1
        per[cc] = per.get(cc, 0) + 1
        c.distinct.add(common.dist_hash(src))
        if msg:
            c.violation("%s (seed %d): %s" % (cc, seed, msg), {"m.llrl": src})
        c.sample({"source": src[len(HEAD):][:600], "verdict": v[0] or v[1]}, limit=6)

    def one(job):
        seed, cc = job
        if len(c.violations) >= 5 or (cc == "llrl1" and not llrl1):
            return
        r = random.Random(seed)
        g = hm.Gen(r, r.choice([0, 0, 1, 2]))
        p = hm.resolve(g.wildprogram() if r.random() < 0.5 else g.program(), g.u)
        v = hm.verdict(p)
        if v is None:
            stat["skipped_open_groups"] += 1
            return
        chk = v[1]
        test(p, v, cc, seed, "as generated")
        if not v[0]:
            return
        sch = {n: hm.scheme_of(chk, n) for n in chk.sc}
        named = [n for n in sch if sch[n] and n != "bottom" and (n not in p.funs or not p.funs[n][1])]
        stat["inferred_polymorphic_functions"] += sum(1 for n in named if sch[n][0])
        if not named:
            return
        chosen = set(n for n in named if r.random() < 0.7)
        p2 = hm.annotate(p, lambda n: sch.get(n) if n in chosen else None)
        v2 = hm.verdict(p2)
        if v2 and v2[0]:
            stat["variants_principal"] += 1
            test(p2, v2, cc, seed, "principal signatures added")
        n1 = r.choice(named)
        og = hm.overgeneral(r, sch[n1])
        if og:
            p3 = hm.annotate(p, lambda n: og if n == n1 else None)
            v3 = hm.verdict(p3)
            if v3:
                stat["variants_too_general"] += 1
                test(p3, v3, cc, seed, "general signature for %s" % n1)
    n = c.budget(1, 15)
    common.pmap(one, [(c.rng.getrandbits(48), cc) for cc, k in (("llrl0", 1600), ("llrl1", 700)) for _ in range(k * n)])
    c.cov["observed"] = stat
    c.cov["programs_per_compiler"] = per
