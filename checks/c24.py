"""C24: derived instances against structural laws, over generated data declarations and all pairs of generated values."""
import os, random, shutil
import common, derivegen


def run(c):
    llrl0 = common.build_llrl0()
    c.rule = ("one evaluation is one ordered pair of values of a generated type, on which every comparison operator, compare and both hashes were observed, "
              "or one value whose display, copy and independence of the copy were observed; distinct by declaration and values")
    c.assumptions = ["NaN is not generated: floating-point comparison is not an order on it"]
    per = {}
    ty = dict(declarations=0, recursive=0, parametric=0, c_layout=0, by_value=0, constructors=0, pairs=0, values=0, programs=0, independence=0)

    def one(job):
        seed, cfg = job
        if len(c.violations) >= 5:
            return
        g = derivegen.G(random.Random(seed))
        src = g.program()
        d = os.path.join(c.tmp, "d%x" % seed)
        st, p = common.compile_run(llrl0, src, cfg, d)
        shutil.rmtree(d, ignore_errors=True)
        if p.timed_out:
            c.inconclusive += g.npairs
            return
        msg = None
        if st == "compile":
            msg = "declarations with derived instances were not compiled: " + (p.text + p.etext)[:1500]
        else:
            msg = derivegen.check_output(g.exp, p.text)
            if not msg and p.rc:
                msg = "status %s" % p.rc
        c.evaluations += g.npairs + g.nvals
        per[cfg] = per.get(cfg, 0) + 1
        for t in g.types.values():
            ty["declarations"] += 1
            ty["recursive"] += any(n.endswith("r") for n, _ in t["ctors"])
            ty["parametric"] += bool(t["params"])
            ty["c_layout"] += t["kind"] == "c-data"
            ty["by_value"] += t["kind"] == "value-data"
            ty["constructors"] += len(t["ctors"])
        ty["pairs"] += g.npairs
        ty["values"] += g.nvals
        ty["programs"] += 1
        ty["independence"] += sum(1 for e in g.exp if not isinstance(e, list) and e.startswith("c "))
        for i, e in enumerate(g.exp):
            if not isinstance(e, list):
                c.distinct.add(common.dist_hash("%x %s" % (seed, e)))
            else:
                for j in range(len(e) - 1):
                    c.distinct.add(common.dist_hash("%x %d %d" % (seed, i, j)))
        if msg:
            c.violation("generated declarations (seed %d, %s): %s" % (seed, cfg, msg[:3000]),
                        {"m.llrl": src, "expected.txt": "\n".join(e if isinstance(e, str) else " ".join(map(str, e)) for e in g.exp) + "\n",
                         "how.txt": "llrl0 %s -o m m && ./m   (compare with expected.txt; hash bit 64 is only required on equal values)\n" % " ".join(common.CONFIGS[cfg])})
        c.sample({"first_lines": [str(e)[:200] for e in g.exp[:2]], "source_bytes": len(src)}, limit=6)
    n = c.budget(1, 12)
    jobs = [(c.rng.getrandbits(48), k) for k, m in (("chibi", 160), ("llvm", 20), ("llvm-O", 36)) for _ in range(m * n)]
    common.pmap(one, jobs)
    c.cov["programs_per_configuration"] = per
    c.cov["observed"] = ty
