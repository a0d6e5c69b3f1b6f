"""C06: random C signatures and structures; a C peer logs every value and address it receives and returns known ones; the log is compared with the values written."""
import os, random, re, shutil
import common, abigen

LIMIT = {"m.llrl": """(no-implicit-std)
(import "builtin" _)
(c-function putchar {(-> I32 I32)} "putchar")
(value-data S (s: I32 I32))
(c-function f {(-> S unit)} "f")
(f (s: 5 6))
""", "peer.c": """#include <stdio.h>
struct s { int a, b; };
void f(struct s x) { printf("%d %d\\n", x.a, x.b); }
"""}


def run(c):
    llrl0 = common.build_llrl0()
    llrl1 = c.llrl1(llrl0)
    comp = {"llrl0": llrl0, "llrl1": llrl1}
    c.rule = ("one evaluation is one line of the C peer's log (one call with all the scalars it received, one value returned to llrl, one value in memory, one size and alignment) compared with "
              "the model; distinct by signature or structure, values and configuration")
    obs = {"programs": 0, "calls": 0, "scalars_passed": 0, "structures_passed": 0, "stack_passed_arguments": 0, "returned_values": 0, "returned_in_memory": 0, "memory_values": 0, "sizes": 0, "configurations": {}}

    def compile_peer(d, src, opt):
        with open(os.path.join(d, "peer.c"), "w") as f:
            f.write(src)
        cc = "clang" if opt == "-O0c" else "gcc"
        o = opt.replace("c", "")
        for extra, out in ((["-shared", "-fPIC"], "peer.so"), (["-c", "-fPIC"], "peer.o")):
            p = common.sh([cc, o, "-w", *extra, "-o", out, "peer.c", *(["-lm"] if out == "peer.so" else [])], cwd=d)
            if p.rc:
                raise common.Broken("the C peer does not build: " + p.etext[-800:])

    def one(job):
        seed, cc, cfg = job
        if len(c.violations) >= 5 or not comp[cc]:
            return
        r = random.Random(seed)
        g = abigen.Gen(r, cfg.startswith("llvm"))
        src, peer, exp = g.build()
        d = os.path.join(c.tmp, "a%x%s%s" % (seed, cc, cfg))
        os.makedirs(d)
        opt = r.choice(["-O1", "-O2", "-O0", "-O0c"])
        compile_peer(d, peer, opt)
        with open(os.path.join(d, "m.llrl"), "w") as f:
            f.write(src)
        files = {"m.llrl": src, "peer.c": peer, "expected": exp}
        # (the chibi back end resolves every symbol when compiling, so the peer is loaded into the compiler, too)
        p = common.sh([comp[cc], *common.CONFIGS[cfg], "-c", os.path.join(d, "peer.o"), "-o", os.path.join(d, "x"), "m"], cwd=d, timeout=200, extra_env={"LD_PRELOAD": os.path.join(d, "peer.so")})
        if p.timed_out:
            c.inconclusive += 1
            return
        if p.rc or not os.path.exists(os.path.join(d, "x")):
            c.violation("%s %s (seed %d): rejected: %s" % (cc, cfg, seed, (p.text + p.etext)[:600]), files)
            return
        q = common.sh([os.path.join(d, "x")], cwd=d, timeout=60)
        shutil.rmtree(d, ignore_errors=True)
        obs["programs"] += 1
        obs["configurations"][cc + " " + cfg] = obs["configurations"].get(cc + " " + cfg, 0) + 1
        got, want = q.text.splitlines(), exp.splitlines()
        for k, line in enumerate(want):
            c.evaluations += 1
            w = line.split()
            kind = w[0]
            if kind.startswith("f"):
                f = g.funs[int(kind[1:])]
                obs["calls"] += 1
                obs["scalars_passed"] += len(w) - 1
                obs["structures_passed"] += sum(isinstance(t, abigen.Struct) for t in f[1])
                obs["stack_passed_arguments"] += sum(abigen.classes(t) is None for t in f[1]) + max(0, sum(isinstance(t, str) and t not in abigen.FL for t in f[1]) - 6)
                obs["returned_in_memory"] += f[2] is not None and abigen.classes(f[2]) is None
            elif kind == "got":
                obs["returned_values"] += 1
            elif kind == "size":
                obs["sizes"] += 1
            else:
                obs["memory_values"] += 1
            if k >= len(got) or got[k] != line:
                what = ""
                if kind.startswith("f"):
                    what = " (arguments %s)" % " ".join(g.ltype(t) if isinstance(t, str) else "{" + " ".join(x for _, x in t.flat()) + "}" for t in g.funs[int(kind[1:])][1])
                c.violation("%s %s (seed %d): the C side logged %r, the values written are %r%s, status %s" % (cc, cfg, seed, got[k] if k < len(got) else None, line, what, q.rc), files)
                return
        if len(got) != len(want) or q.rc:
            c.violation("%s %s (seed %d): extra log %r, status %s" % (cc, cfg, seed, got[len(want):][:3], q.rc), files)
        for k, args, ret in g.funs:
            c.distinct.add(common.dist_hash("%s%s%d%s" % (cc, cfg, seed, k)))
        c.sample({"signatures": ["(-> %s %s)" % (" ".join(g.ltype(t) if isinstance(t, str) else "{" + " ".join(x for _, x in t.flat()) + "}" for t in a), g.ltype(b) if b is None or isinstance(b, str) else
                                                 "{" + " ".join(x for _, x in b.flat()) + "}") for _, a, b in g.funs[:4]], "log": want[-3:]}, limit=4)

    n = c.budget(1, 20)
    jobs = [(c.rng.getrandbits(48), cc, cfg) for cc, cfg, k in (("llrl0", "chibi", 260), ("llrl0", "chibi-O", 20), ("llrl0", "llvm", 60), ("llrl0", "llvm-O", 40), ("llrl1", "chibi", 100)) for _ in range(k * n)]
    c.rng.shuffle(jobs)
    common.pmap(one, jobs)
    # the recorded limit of the LLVM back end: structures with several fields in one eightbyte
    d = os.path.join(c.tmp, "limit")
    os.makedirs(d)
    compile_peer(d, LIMIT["peer.c"], "-O1")
    with open(os.path.join(d, "m.llrl"), "w") as f:
        f.write(LIMIT["m.llrl"])
    p = common.sh([llrl0, "-b", "llvm", "-c", os.path.join(d, "peer.o"), "-o", os.path.join(d, "x"), "m"], cwd=d, timeout=100)
    q = common.sh([os.path.join(d, "x")], cwd=d) if p.rc == 0 else p
    if q.out != b"5 6\n":
        c.violation("llvm: the structure {I32 I32} (5 6) arrived as %r" % q.text[:100], LIMIT, key="llvm-packed-struct-arguments")
    c.cov["observed"] = obs
