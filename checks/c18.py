"""C18: ordered maps and sets against a sorted finite map."""
import random
import common, drv, mapdrv
from mapcheck import *

COMBOS = [("I32", "I64"), ("CK", "W"), ("String", "U8"), ("U8", "(Ref I64)"), ("CK", None), ("String", None)]


def run(c):
    llrl0 = common.build_llrl0()
    c.rule = ("one evaluation is one operation of a history executed by a compiled program whose logged result (and, on "
              "dumps, whole contents in order) is compared with a sorted finite map; distinct by key type, operation, "
              "result and size")
    c.assumptions = ["iteration while mutating the same map is not exercised", "which of two equal keys a map keeps is unspecified"]
    d = drv.Driver(c, llrl0, mapdrv.map_driver("ord-map", COMBOS, "OrdMap"), "ord", ["chibi", "llvm-O"])
    specs = []

    def sess(i, rng, keygen):
        k, v = COMBOS[i]
        kt = {"I32": INT, "CK": CK, "String": STR, "U8": INT}[k]
        vt = {"I64": INT, "W": INT, "U8": INT, "(Ref I64)": REF, None: INT}[v]
        return Session(rng, kt, vt, True, v is None, keygen, counting=(k == "CK"), ref=(v == "(Ref I64)"))

    def pool_for(i, rng, n):
        k = COMBOS[i][0]
        if k == "String":
            return words(rng, n, 4 if n < 300 else 8)
        if k == "U8":
            return rng.sample(range(256), min(n, 256))
        return rng.sample(range(-2 * n - 5, 2 * n + 5), n)

    def small(i, n):
        def mk(rng):
            pool = pool_for(i, rng, rng.choice([2, 5, 12, 14, 30, 90]))
            s = sess(i, rng, lambda: rng.choice(pool))
            small_history(s, n, pool)
            return s
        return mk

    def big(i, n, phases):
        def mk(rng):
            pool = pool_for(i, rng, rng.choice([n // 8, n // 3, n]))
            s = sess(i, rng, lambda: rng.choice(pool))
            big_history(s, len(pool), pool, phases)
            return s
        return mk

    rounds = c.budget(6, 60)
    for i in range(len(COMBOS)):
        nm = "OrdMap %s %s" % COMBOS[i] if COMBOS[i][1] else "OrdSet %s" % COMBOS[i][0]
        for _ in range(4 * rounds):
            specs.append((i + 1, nm, small(i, 500)))
        for _ in range(2 * rounds):
            specs.append((i + 1, nm, big(i, c.budget(1500, 6000), 12)))
    w = run_sessions(c, d, ["chibi", "llvm-O"], specs, True)
    c.cov["histories"] = len(specs)
    c.cov["max_comparisons_per_log2_size"] = round(w, 2)
