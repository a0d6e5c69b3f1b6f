"""Differential monitor: generated programs, run for real on each back end, against the reference interpretation."""
import os, random, shutil
import common, proggen


def expected_text(lines):
    return "\n".join(lines) + "\n"


def first_diff(got, exp):
    g, e = got.split("\n"), exp.split("\n")
    for i in range(max(len(g), len(e))):
        a = g[i] if i < len(g) else "<missing>"
        b = e[i] if i < len(e) else "<missing>"
        if a != b:
            return "line %d\n  observed %s\n  expected %s" % (i + 1, a[:600], b[:600])
    return "same"


def observe(compiler, src, cfg, workdir, exp, extra=(), timeout=120):
    """-> (verdict, message): verdict in ok / bad / slow"""
    st, p = common.compile_run(compiler, src, cfg, workdir, timeout=timeout, extra=extra)
    if p.timed_out:
        return "slow", "%s: %s timed out" % (cfg, st)
    if st == "compile":
        return "bad", "%s: a well-typed program was not compiled (rc %s): %s" % (cfg, p.rc, (p.text + p.etext)[:1500])
    if p.rc != 0 or p.text != exp:
        return "bad", "%s: rc %s, %s" % (cfg, p.rc, first_diff(p.text, exp))
    return "ok", ""


def sweep(c, compiler, profile, plan, ntests=12, depth=4, extra=(), compiler_name="llrl0"):
    """plan: list of (number of programs, [configs])."""
    feats = {}
    jobs = []
    for n, cfgs in plan:
        for _ in range(n):
            jobs.append((c.rng.getrandbits(48), cfgs))

    def one(job):
        seed, cfgs = job
        g = proggen.Gen(random.Random(seed), profile)
        src, lines = g.program(ntests, depth)
        exp = expected_text(lines)
        out = []
        d = os.path.join(c.tmp, "p%x" % seed)
        for cfg in cfgs:
            if len(c.violations) >= 5:
                break
            v, msg = observe(compiler, src, cfg, d, exp, extra=extra)
            out.append((cfg, v, msg))
            if v == "bad":
                c.violation("generated program (seed %d, %s, %s) %s" % (seed, profile, compiler_name, msg),
                            {"m.llrl": src, "expected.txt": exp,
                             "how.txt": "%s %s -o m m && ./m | diff - expected.txt\n" % (compiler_name, " ".join(common.CONFIGS[cfg]))})
                break
        shutil.rmtree(d, ignore_errors=True)
        return seed, src, lines, g.features, out

    per = {}
    for seed, src, lines, f, out in common.pmap(one, jobs):
        for cfg, v, _ in out:
            c.evaluations += len(lines)
            per[cfg] = per.get(cfg, 0) + 1
            if v == "slow":
                c.inconclusive += len(lines)
        for l in lines:
            c.distinct.add(common.dist_hash(l.split(" ", 1)[1]))
        for k, n in f.items():
            feats[k] = feats.get(k, 0) + n
        if lines:
            c.sample({"program_seed": seed, "observed_line": lines[0][:300], "source_bytes": len(src)})
    c.cov.setdefault("programs_per_configuration", {}).update(per)
    ft = c.cov.setdefault("constructs_generated", {})
    for k, n in feats.items():
        ft[k] = ft.get(k, 0) + n
