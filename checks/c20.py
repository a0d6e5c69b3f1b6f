"""C20: persistent maps: every version keeps the model's contents along branching histories."""
import random
import common, drv, permap
from mapcheck import *
from permap import PSession, branching, linear

OC = [("I32", "I64"), ("CK", "W"), ("String", "U8"), ("I32", "(Ref I64)")]
HC = [("I32", "I64"), ("HK", "W"), ("String", "U8"), ("HK", "(Ref I64)")]


def run(c):
    llrl0 = common.build_llrl0()
    c.rule = ("one evaluation is one operation on one of 16 live versions, its result or the whole contents of a version "
              "compared with the model of that version; distinct by key type, operation, result and size")
    c.assumptions = ["`difference` is taken to be what its documentation by tests says: keys of exactly one operand (plus what the combining function keeps)"]
    builds = common.pmap(lambda a: drv.Driver(c, llrl0, permap.driver(*a), "p" + a[0], ["chibi", "llvm-O"]),
                         [("ord-map", "OrdMap", OC), ("hash-map", "HashMap", HC)])
    do, dh = builds
    N = c.budget(60000, 400000)
    p = dh.run("llvm-O", [99, N])
    hs = [int(x.strip(), 16) for x in p.text.split("\n") if x.strip()]
    if p.rc != 0 or len(hs) != N:
        raise common.Broken("the hash table of the driver could not be read")
    by = {}
    for bits in (5, 10, 15):
        t = by[bits] = {}
        for s, h in enumerate(hs):
            t.setdefault(h & ((1 << bits) - 1), []).append(s)
    groups = {b: [v for v in by[b].values() if len(v) >= 3] for b in by}

    def pool_for(k, rng, n):
        if k == "String":
            return words(rng, n, 4 if n < 300 else 8)
        if k == "HK":
            mode = rng.choice(["spread", "same", "few", "prefix", "prefix", "mixed", "mixed"])
            out = set()
            gs = {b: rng.sample(groups[b], min(3, len(groups[b]))) for b in groups}
            while len(out) < n:
                m = mode if mode != "mixed" else rng.choice(["spread", "few", "prefix", "prefix"])
                s = (rng.randrange(N) if m == "spread" else 7 if m == "same" else rng.choice([1, 2, 3]) if m == "few"
                     else rng.choice(rng.choice(gs[rng.choice([5, 10, 15])])))
                out.add((rng.randrange(4 * n), s))
            return sorted(out)
        return rng.sample(range(-2 * n - 5, 2 * n + 5), n)

    def sess(combo, ordered, rng, pool):
        k, v = combo
        kt = {"I32": INT, "CK": CK if ordered else INT, "String": STR, "HK": HK}[k]
        vt = {"I64": INT, "W": INT, "U8": INT, "(Ref I64)": REF}[v]
        return PSession(rng, kt, vt, ordered, lambda: rng.choice(pool), counting=(k == "CK"), ref=(v == "(Ref I64)"))

    def mk(combo, ordered, kind, n):
        def f(rng):
            if kind == "branch":
                pool = pool_for(combo[0], rng, rng.choice([2, 4, 8, 20, 60]))
                s = sess(combo, ordered, rng, pool)
                branching(s, n, pool)
            else:
                pool = pool_for(combo[0], rng, rng.choice([20, 100, n]))
                s = sess(combo, ordered, rng, pool)
                linear(s, pool, 8)
            return s
        return f

    rounds = c.budget(6, 60)
    for nm, d, combos, ordered in (("persistent OrdMap", do, OC, True), ("persistent HashMap", dh, HC, False)):
        specs = []
        for i, combo in enumerate(combos):
            for _ in range(4 * rounds):
                specs.append((i + 1, "%s %s %s" % ((nm,) + combo), mk(combo, ordered, "branch", 500)))
            for _ in range(2 * rounds):
                specs.append((i + 1, "%s %s %s" % ((nm,) + combo), mk(combo, ordered, "chain", c.budget(500, 2000))))
        cov = dict(c.cov)
        w = run_sessions(c, d, ["chibi", "llvm-O"], specs, ordered)
        for k, v in cov.items():
            if isinstance(v, dict):
                for kk, n in v.items():
                    c.cov[k][kk] = c.cov[k].get(kk, 0) + n
        c.cov["histories_" + nm.split()[1]] = len(specs)
        if ordered:
            c.cov["max_comparisons_per_log2_size"] = round(w, 2)
