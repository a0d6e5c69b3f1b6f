"""C19: hash maps and sets against a finite map, with chosen hash collisions."""
import random
import common, drv, mapdrv
from mapcheck import *

COMBOS = [("I32", "I64"), ("HK", "W"), ("String", "U8"), ("HK", "(Ref I64)"), ("HK", None), ("String", None), ("CK", "I64")]


def run(c):
    llrl0 = common.build_llrl0()
    c.rule = ("one evaluation is one operation of a history executed by a compiled program whose logged result (and, on "
              "dumps, whole contents as a multiset) is compared with a finite map; distinct by key type, operation, result and size")
    c.assumptions = ["iteration while mutating the same map is not exercised", "which of two equal keys a map keeps is unspecified"]
    d = drv.Driver(c, llrl0, mapdrv.map_driver("hash-map", COMBOS, "HashMap"), "hash", ["chibi", "llvm-O"])
    N = c.budget(60000, 400000)
    p = d.run("llvm-O", [99, N])
    hs = [int(x.strip(), 16) for x in p.text.split("\n") if x.strip()]
    if p.rc != 0 or len(hs) != N:
        raise common.Broken("the hash table of the driver could not be read")
    by = {}
    for bits in (5, 6, 8):
        t = by[bits] = {}
        for s, h in enumerate(hs):
            t.setdefault(h & ((1 << bits) - 1), []).append(s)

    def hk_pool(rng, n):
        mode = rng.choice(["spread", "same", "cluster", "wrap", "wrap", "few"])
        out = set()
        while len(out) < n:
            i = len(out)
            if mode == "spread":
                s = rng.randrange(N)
            elif mode == "same":
                s = 7
            elif mode == "few":
                s = rng.choice([1, 2, 3])
            elif mode == "cluster":
                b = rng.choice([5, 6, 8])
                s = rng.choice(by[b][rng.choice([0, 1, 2])])
            else:
                b = rng.choice([5, 6])
                s = rng.choice(by[b][(1 << b) - 1 - rng.choice([0, 0, 1, 2, 3])])
            out.add((rng.randrange(4 * n), s))
        return sorted(out), mode

    def sess(i, rng, keygen):
        k, v = COMBOS[i]
        kt = {"I32": INT, "CK": INT, "String": STR, "HK": HK}[k]
        vt = {"I64": INT, "W": INT, "U8": INT, "(Ref I64)": REF, None: INT}[v]
        return Session(rng, kt, vt, False, v is None, keygen, ref=(v == "(Ref I64)"))

    def pool_for(i, rng, n):
        k = COMBOS[i][0]
        if k == "String":
            return words(rng, n, 4 if n < 300 else 8)
        if k == "HK":
            return hk_pool(rng, n)[0]
        return rng.sample(range(-2 * n - 5, 2 * n + 5), n)

    def small(i, n):
        def mk(rng):
            pool = pool_for(i, rng, rng.choice([2, 5, 14, 26, 40, 90]))
            s = sess(i, rng, lambda: rng.choice(pool))
            small_history(s, n, pool)
            return s
        return mk

    def big(i, n, phases):
        def mk(rng):
            pool = pool_for(i, rng, rng.choice([28, n // 8, n // 3, n] if COMBOS[i][0] != "HK" else [26, 29, 30, 60, 120, 250]))
            s = sess(i, rng, lambda: rng.choice(pool))
            big_history(s, len(pool), pool, phases)
            return s
        return mk

    rounds = c.budget(6, 60)
    specs = []
    for i in range(len(COMBOS)):
        nm = "HashMap %s %s" % COMBOS[i] if COMBOS[i][1] else "HashSet %s" % COMBOS[i][0]
        for _ in range(4 * rounds):
            specs.append((i + 1, nm, small(i, 500)))
        for _ in range((4 if COMBOS[i][0] == "HK" else 2) * rounds):
            specs.append((i + 1, nm, big(i, c.budget(1200, 5000), 12)))
    run_sessions(c, d, ["chibi", "llvm-O"], specs, False)
    c.cov["histories"] = len(specs)
