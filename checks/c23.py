"""C23: numbers and xxHash against exact rational arithmetic and the published algorithm."""
import random
import common, drv, numdrv


def run(c):
    llrl0 = common.build_llrl0()
    c.rule = ("one evaluation is one library operation of a compiled program on generated numbers, texts or bytes, its logged result "
              "compared with exact integer/rational arithmetic, the C format %.16g/%.8g, or the published XXH64 algorithm; distinct by operation and operands")
    cfgs = ["chibi", "llvm-O", "llvm"]
    d = drv.Driver(c, llrl0, numdrv.src(), "num", cfgs)
    per = {}

    def one(b):
        seed, cfg = b
        if len(c.violations) >= 5:
            return
        rng = random.Random(seed)
        items = []
        for _ in range(1500):
            t, e = numdrv.gen(rng)
            items.append(([99, len(t)] + t, ["sig6"]) if e is None else (t, e))
        p = d.run(cfg, [t for it, _ in items for t in it] + [0], timeout=120)
        lines = p.text.split("\n")
        for i, (t, e) in enumerate(items):
            got = drv.split(lines[i]) if i < len(lines) - 1 else ["(no answer%s, status %s)" % (", timed out" if p.timed_out else "", p.rc)]
            if got == [""]:
                got = []
            c.evaluations += 1
            tt = t[2:] if t[0] == 99 else t
            k = ("conv %s->%s" % (numdrv.NUMS[tt[1]], numdrv.NUMS[tt[2]]) if tt[0] == 22 else "bits" if tt[0] == 20 else "hash" if tt[0] == 21 else
                 "%s op%d" % (numdrv.NUMS[tt[0] - 1], tt[1]))
            per[k] = per.get(k, 0) + 1
            c.distinct.add(common.dist_hash(str(t)))
            if not numdrv.match(got, e):
                if c.violation("%s (script tokens %s, %s): expected %s, got %s [%s]" % (k, str(t)[:500], cfg, str(e)[:500], " ".join(got)[:500], p.etext[-200:]),
                               {"d.llrl": d.src, "shim.c": drv.SHIM, "script.txt": " ".join(map(str, t + [0])) + "\n", "expected.txt": str(e), "got.txt": " ".join(got)}):
                    return
        if p.rc != 0:
            c.violation("the program ended with status %s (%s)" % (p.rc, cfg))
        c.sample({"operation_tokens": str(items[0][0])[:200], "expected": str(items[0][1])[:200]}, limit=6)
    n = c.budget(120, 1500)
    common.pmap(one, [(c.rng.getrandbits(48), cfgs[i % 3]) for i in range(n)])
    c.cov["operations_by_kind"] = dict(sorted(per.items()))
    c.cov["kinds"] = len(per)
