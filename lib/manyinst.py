"""One class with many instances (8..40): every instance is selected once; overlapping pairs anywhere in the list are rejected."""
import random
from clsgen import unifiable, sub, match, params

BASE = {"I8": "1", "I16": "1", "I32": "1", "I64": "1", "U8": "1", "U16": "1", "U32": "1", "U64": "1", "F32": "1.0", "F64": "1.0", "Bool": "#t", "Char": "#\\a", "String": '"s"'}


def c(n):
    return ("c", n)


def a(n, *ts):
    return ("a", c(n), list(ts))


def show(t):
    if t[0] == "c":
        return t[1].strip("'")
    return "(%s %s)" % (t[1][1], " ".join(map(show, t[2])))


def val(t):
    if t[0] == "c":
        return BASE[t[1]] + " {%s}" % t[1] if t[1] in BASE else "k" + t[1].lower()
    return "(k%s %s)" % (t[1][1].lower(), " ".join(map(val, t[2])))


def gen(r):
    """-> decls, instances [(vars, type)], class name, lines, verdict ('ok', trace) / ('Overlap', text)"""
    decls = []
    cons = {}
    for i in range(r.choice([3, 6, 12])):
        n, k = "T%d" % i, r.choice([0, 0, 1, 2])
        cons[n] = k
        ps = ["A", "B"][:k]
        decls.append("(data %s (k%s %s))" % ("(%s %s)" % (n, " ".join(ps)) if k else n, n.lower(), " ".join(ps)) if k else "(data %s k%s)" % (n, n.lower()))

    def ground(d):
        n = r.choice(list(cons) + ["I8", "I32", "U64", "Bool", "String", "F64"])
        k = cons.get(n, 0)
        if not k or d <= 0:
            return c(n) if not k else c(r.choice(list(BASE)))
        return a(n, *[ground(d - 1) for _ in range(k)])
    n = r.choice([6, 8, 10, 14, 20, 30, 40])
    insts, uses = [], []

    def clash(t):
        vs = {"'A", "'B", "'X", "'Y"}
        for i, u in enumerate(insts):
            if unifiable([t], [sub(u, {"'A": c("'X"), "'B": c("'Y")})], vs, {}):
                return i
        return None
    for _ in range(n * 4):
        if len(insts) >= n:
            break
        t = ground(r.choice([0, 1, 2, 3]))
        g = t
        # generalise: replace some subterms by variables
        def gz(t, top):
            if not top and r.random() < 0.25:
                return c(r.choice(["'A", "'B"]))
            return t if t[0] == "c" else ("a", t[1], [gz(x, False) for x in t[2]])
        h = gz(t, True)
        if r.random() < 0.6 and clash(h) is not None:
            continue
        if clash(h) is not None:
            continue
        insts.append(h)
        uses.append(sub(h, {"'A": c(r.choice(list(BASE))), "'B": c(r.choice(list(BASE)))}))
    if not insts:
        return gen(r)
    over = None
    if r.random() < 0.45:
        # one instance more, overlapping exactly one (or more) of the others
        i = r.randrange(len(insts))
        t = insts[i]
        k = r.randrange(3)
        h = t if k == 0 else sub(t, {"'A": ground(1), "'B": ground(0)}) if k == 1 else ("a", t[1], [x if r.random() < 0.5 else c("'B") for x in t[2]]) if t[0] == "a" else t
        if clash(h) is None:
            return gen(r)
        j = r.choice([0, len(insts), r.randrange(len(insts) + 1)])
        insts.insert(j, h)
        over = "instances %s and %s" % (show(h), show(t))
    cn = "C"
    lines = ["(class (C X) (function (mm x) {(-> X I32)}))"]
    for i, t in enumerate(insts):
        vs = [v.strip("'") for v in params(t, [])]
        lines.append("(instance N%d %s(C %s) (function (mm x) (putchar %d)))" % (i, "(forall %s) " % " ".join(vs) if vs else "", show(t), 48 + i))
    order = uses[:]
    r.shuffle(order)
    if over:
        return decls + lines + ["(mm %s)" % val(u) for u in order[:1]], ("Overlap", over), len(insts)
    trace = ""
    for u in order:
        k = [i for i, t in enumerate(insts) if match(t, u, {}, {"'A", "'B"})]
        assert len(k) == 1, (u, k)
        trace += chr(48 + k[0])
        lines.append("(mm %s)" % val(u))
    return decls + lines, ("ok", trace), len(insts)
