"""C22: strings, texts, characters, readers and writers against Python's str and bytes."""
import random
import common, drv, strdrv

K = "char/from-unicode-scalar answers none for scalars 0x1B334..0x10FFFF"


def run(c):
    llrl0 = common.build_llrl0()
    c.rule = ("one evaluation is one operation of a compiled program on generated strings, bytes or characters, its logged result "
              "compared with Python's; distinct by operation and operands; plus exhaustive scans over all scalars and byte prefixes")
    cfgs = ["chibi", "llvm-O"]
    d = drv.Driver(c, llrl0, strdrv.SRC, "str", cfgs)
    per = {}
    batches = []
    for i in range(c.budget(80, 1000)):
        batches.append(("ops", c.rng.getrandbits(48), cfgs[i % 2]))
    step = 0x4000
    for i, a in enumerate(range(0, 0x110000, step)):
        batches.append(("scan", a, cfgs[i % 2]))
    pre = [b""] + [bytes([a]) for a in range(256)]
    pre += [bytes([a, b]) for a in range(0xe0, 0xf0) for b in range(256)]
    pre += [bytes([a, b, x]) for a in range(0xf0, 0xf8) for b in range(256) for x in (0x7f, 0x80, 0x8f, 0x90, 0xbf, 0xc0, 0)]
    pre += [bytes([a, b, x]) for a in (0xe1, 0xc3, 0xed, 0x41) for b in (0x80, 0xa0, 0x9f) for x in range(256)]
    # the driver looks at one more byte after a prefix; chibi takes a share of them, llvm-O all
    n = 1500
    for k in range(0, len(pre), n):
        batches.append(("pre", pre[k:k + n], "llvm-O"))
    c.rng.shuffle(pre)
    for k in range(0, len(pre) // 3, n):
        batches.append(("pre", pre[k:k + n], "chibi"))

    def build(b):
        kind, x, cfg = b
        items = []
        if kind == "ops":
            rng = random.Random(x)
            for _ in range(500):
                t, e = strdrv.gen(rng)
                if e is None:
                    items.append(([99, len(t)] + t, ["sig6"]))
                else:
                    items.append((t, e))
        elif kind == "scan":
            ch = [i for i in range(x, min(x + step, 0x110000))]
            for lo, hi in ((x, min(x + step, 0xd800)), (max(x, 0xe000), min(x + step, 0x110000))) if x < 0xe000 else ((x, min(x + step, 0x110000)),):
                if lo < hi:
                    s = "".join(map(chr, range(lo, hi))).encode()
                    items.append(([40, lo, hi], [str(len(s)), str(hi), "0", "1", drv.shex(s)]))
        else:
            for p in x:
                bits = "".join("1" if strdrv.valid(p + bytes([i])) else "0" for i in range(256))
                items.append(([41] + drv.enc_str(p), ["%016x" % int(bits[i:i + 64], 2) for i in range(0, 256, 64)]))
        return items

    def one(b):
        kind, x, cfg = b
        if len(c.violations) >= 5:
            return
        items = build(b)
        p = d.run(cfg, [t for it, _ in items for t in it] + [0], timeout=120)
        lines = p.text.split("\n")
        for i, (t, e) in enumerate(items):
            got = drv.split(lines[i]) if i < len(lines) - 1 else ["(no answer%s, status %s)" % (", timed out" if p.timed_out else "", p.rc)]
            if got == [""]:
                got = []
            c.evaluations += 256 if t[0] == 41 else t[2] - t[1] if t[0] == 40 else 1
            op = t[2] if t[0] == 99 else t[0]
            per[op] = per.get(op, 0) + 1
            c.distinct.add(common.dist_hash(str(t)))
            if got != e:
                key = None
                if t[0] == 28 and got == ["N"] and 0x1b334 <= t[1] <= 0x10ffff:
                    key = K
                hexs = lambda l: " ".join(l)[:600]
                if c.violation("operation %s (script tokens, %s): expected %s, got %s [%s]" % (str(t)[:500], cfg, hexs(e), hexs(got), p.etext[-200:]),
                               {"d.llrl": d.src, "shim.c": drv.SHIM, "script.txt": " ".join(map(str, t + [0])) + "\n", "expected.txt": " ".join(e), "got.txt": " ".join(got)}, key=key):
                    return
        if p.rc != 0:
            c.violation("the program ended with status %s (%s, %s)" % (p.rc, kind, cfg))
        c.sample({"operation_tokens": str(items[0][0])[:200], "expected": str(items[0][1])[:200]}, limit=6)
    common.pmap(one, batches)
    c.cov["operations_by_code"] = {str(k): v for k, v in sorted(per.items())}
    c.cov["scalars_encoded_and_decoded"] = 0x110000 - 0x800
    c.cov["byte_sequences_validated"] = len(pre) * 256
