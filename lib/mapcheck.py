"""Runs map/set sessions against the drivers and reports."""
import random
import common, drv, mapmodel as mm
from mapmodel import *


def words(rng, n, maxlen):
    out = set()
    while len(out) < n:
        out.add("".join(rng.choice("abAB09zZ_") for _ in range(rng.randrange(0, maxlen + 1))))
    return sorted(out)


def run_sessions(c, d, cfgs, specs, ordered):
    """specs: list of (which, name, maker) ; maker(rng) -> Session"""
    jobs = []
    for which, name, maker in specs:
        jobs.append((which, name, maker, c.rng.getrandbits(48), cfgs[len(jobs) % len(cfgs)]))
    ops, per = {}, {}
    worst = [0.0]

    def one(j):
        which, name, maker, seed, cfg = j
        if len(c.violations) >= 5:
            return None
        s = maker(random.Random(seed))
        toks = [which] + s.toks + [0]
        p = d.run(cfg, toks, timeout=60)
        msg, n, w = s.verify(p.text)
        if p.timed_out:   # such a history normally takes a fraction of a second
            msg = "an operation does not finish: %s" % msg
        if msg is None and p.rc != 0:
            msg = "the program ended with status %s after its last operation" % p.rc
        if msg is not None:
            c.violation("%s history (seed %d, %s): %s%s" % (name, seed, cfg, msg, " [status %s: %s]" % (p.rc, p.etext[-300:])),
                        {"d.llrl": d.src, "shim.c": drv.SHIM, "script.txt": " ".join(map(str, toks)) + "\n", "log.txt": p.out[:2000000]})
        return s, n, name, cfg, w

    for r in common.pmap(one, jobs):
        if r is None:
            continue
        s, n, name, cfg, w = r
        c.evaluations += n
        worst[0] = max(worst[0], w)
        for k, x in s.opcount.items():
            ops[str(k)] = ops.get(str(k), 0) + x
        per[name + " on " + cfg] = per.get(name + " on " + cfg, 0) + n
        for code, r, exp, kind, nn in s.exp[:3000]:
            c.distinct.add(common.dist_hash((name, code, str(exp), nn)))
        if s.exp:
            e = s.exp[len(s.exp) // 2]
            c.sample({"history": name, "operation_code": e[0], "entries_before": e[4], "expected_log": str(e[2])[:200]})
    c.cov["operations_by_code"] = ops
    c.cov["operations_by_key_value_types"] = per
    return worst[0]
