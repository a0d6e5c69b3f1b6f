"""C14: the same programs through llrl0 and llrl1: verdict and observable output must agree."""
import os, random, re, shutil
import common, progfuzz as F, proggen, sx


def run(c):
    llrl0 = common.build_llrl0()
    llrl1 = c.llrl1(llrl0)
    c.rule = ("one evaluation is one program given to both compilers, whose verdicts were compared and, when both accept, whose executables were both run and compared "
              "(bytes printed, exit status); distinct by source text")
    c.assumptions = ["programs whose compilation recurses without end (self-producing macros, cyclic superclasses, polymorphic recursion) are compared only when both compilers answer",
                     "the unsafe built-in operations are not called with arguments outside their domain"]
    stat = {"both_accept": 0, "both_reject": 0, "no_answer": 0, "executables_compared": 0, "both_stack_overflow_at_run": 0, "kinds": {}, "bytes_printed": 0}

    def compare(files, kind, seed, timeout=30, cfg0="chibi", run_out=True, known=None):
        d0, d1 = (os.path.join(c.tmp, "%s%x" % (x, seed)) for x in "ab")
        try:
            F.write(files, d0)
            F.write(files, d1)
            k0, w0, p0, x0 = F.compile_only(llrl0, d0, timeout)
            k1, w1, p1, x1 = F.compile_only(llrl1, d1, timeout)
            stat["kinds"][kind] = stat["kinds"].get(kind, 0) + 1
            msg = None
            if "timeout" in (k0, k1) or "overflow" in (k0, k1):
                stat["no_answer"] += 1
                c.inconclusive += 1
                return
            if k0 != k1:
                msg = "llrl0: %s %s\nllrl1: %s %s" % (k0, w0[:400], k1, w1[:400])
            elif k0 == "crash":
                stat["no_answer"] += 1
                return
            elif k0 == "reject":
                stat["both_reject"] += 1
            else:
                stat["both_accept"] += 1
                if run_out:
                    r0 = common.sh([x0], cwd=d0, timeout=10)
                    r1 = common.sh([x1], cwd=d1, timeout=10)
                    if r0.timed_out or r1.timed_out:
                        c.inconclusive += 1
                    elif r0.rc == r1.rc == -11:
                        stat["both_stack_overflow_at_run"] += 1
                    elif -11 in (r0.rc, r1.rc) and any(F.rss_run([x], d, 30, stack=1 << 30)[1] > 700 << 20 for x, d in ((x0, d0), (x1, d1))):
                        c.inconclusive += 1
                    else:
                        stat["executables_compared"] += 1
                        stat["bytes_printed"] += len(r0.out)
                        if (r0.rc, r0.out, r0.err) != (r1.rc, r1.out, r1.err):
                            msg = "accepted by both, but running\nllrl0: status %s %r\nllrl1: status %s %r" % (r0.rc, (r0.out + r0.err)[-400:], r1.rc, (r1.out + r1.err)[-400:])
            c.evaluations += 1
            c.distinct.add(common.dist_hash("\0".join(k + t for k, t in sorted(files.items())).encode("utf-8", "surrogateescape")))
            if msg:
                c.violation("%s (seed %d): %s" % (kind, seed, msg), {k: t.encode("utf-8", "surrogateescape") for k, t in files.items()}, key=known)
            c.sample({"program": files["m.llrl"][-400:].encode("utf-8", "replace").decode(), "verdict": k0}, limit=6)
        finally:
            shutil.rmtree(d0, ignore_errors=True)
            shutil.rmtree(d1, ignore_errors=True)

    def small(seed):
        if len(c.violations) >= 5:
            return
        r = random.Random(seed)
        files, kind = F.program(r)
        if F.odd_float(files):
            return
        compare(files, kind, seed)

    def fixed(i):
        e = F.corpus()[i]
        files = {n + ".llrl": F.HEAD + v for n, v in e["mods"].items()}
        files["p.llrl"] = F.P
        compare(files, "language test case as it is", i)

    def std(seed):
        if len(c.violations) >= 5:
            return
        r = random.Random(seed)
        prof = r.choice(["mixed", "data"])
        src, lines = proggen.Gen(random.Random(seed), prof).program(8, 4)
        compare({"m.llrl": src}, "generated std program", seed, timeout=100)
        # an edited one: the verdict only (the edit may bring undefined arithmetic)
        m = sx.read(src)
        for _ in range(r.choice([1, 1, 2])):
            sx.Mutator(r, F.pool()).edit(m)
        files = {"m.llrl": sx.show_module(m)}
        if not F.odd_float(files):
            compare(files, "edited std program", seed ^ 1, timeout=100, run_out=False)

    if not llrl1:
        return
    n = c.budget(1, 12)
    common.pmap(fixed, range(len(F.corpus())))
    jobs = [(small, c.rng.getrandbits(47) * 2) for _ in range(4200 * n)] + [(std, c.rng.getrandbits(47) * 2) for _ in range(45 * n)]
    c.rng.shuffle(jobs)
    common.pmap(lambda j: j[0](j[1]), jobs)
    # a literal too large for a float: llrl0 reads infinity, llrl1 a symbol
    compare({"m.llrl": F.HEAD + "1e99999\n", "p.llrl": F.P}, "float literal out of range", 7, known="float-literal-out-of-range")
    c.cov["observed"] = stat
