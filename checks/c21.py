"""C21: arrays, vectors and iterators against exact models."""
import random
import common, drv, seq, itseq


def run_hist(c, jobs, one, label):
    n = 0
    for r in common.pmap(one, jobs):
        if r:
            n += r
    c.cov["operations_" + label] = n
    c.evaluations += n


def run(c):
    llrl0 = common.build_llrl0()
    c.rule = ("one evaluation is one array/vector operation or one step of an iterator chain whose logged result was compared "
              "with the model; distinct by type, operation, operands and result")
    cfgs = ["chibi", "llvm-O"]
    ds, di = common.pmap(lambda f: f(), [
        lambda: drv.Driver(c, llrl0, seq.driver([k.name for k in seq.KINDS]), "seq", cfgs),
        lambda: drv.Driver(c, llrl0, itseq.SRC, "it", cfgs)])
    opc = {}
    panics = [0]

    def one(j):
        which, seed, cfg, n, maxlen = j
        if len(c.violations) >= 5:
            return 0
        s = seq.Session(random.Random(seed), seq.KINDS[which], maxlen).history(n)
        toks = [which + 1] + s.toks + [0]
        p = ds.run(cfg, toks, timeout=60)
        msg, k = s.verify(p.text)
        if p.timed_out:
            msg = "an operation does not finish: %s" % msg
        if msg is None and p.rc != 0:
            msg = "the program ended with status %s" % p.rc
        if msg:
            c.violation("arrays/vectors of %s (seed %d, %s): %s [status %s: %s]" % (seq.KINDS[which].name, seed, cfg, msg, p.rc, p.etext[-200:]),
                        {"d.llrl": ds.src, "shim.c": drv.SHIM, "script.txt": " ".join(map(str, toks)) + "\n", "log.txt": p.out[:1000000]})
        for g, code, r, a in s.ops:
            opc[code] = opc.get(code, 0) + 1
            panics[0] += g != 0
            c.distinct.add(common.dist_hash((which, code, str(a))))
        c.sample({"type": seq.KINDS[which].name, "config": cfg, "operations": len(s.ops), "first": str(s.ops[:6])[:400]})
        return k

    jobs = []
    for i in range(c.budget(600, 6000)):
        jobs.append((i % len(seq.KINDS), c.rng.getrandbits(48), cfgs[(i // len(seq.KINDS)) % 2], c.budget(220, 500), c.rng.choice([6, 6, 20, 200])))
    run_hist(c, jobs, one, "arrays_vectors")
    c.cov["operations_by_code"] = {("array " + seq.AOPS[k][0] if k < 50 else "vector " + seq.VOPS[k][0]): v for k, v in sorted(opc.items())}
    c.cov["refused_operations_observed_to_panic"] = panics[0]
    itseq.check(c, di, cfgs, run_hist)
