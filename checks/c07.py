"""C07: object graphs made, aliased, stored, captured and changed by generated programs under an eager collector that overwrites what it finds unreachable and the dead part of the stack, against an interpretation of the same histories."""
import os, random, shutil
import common, heapgen

STUB = "void vf_log(long x){} void vf_clean(void){} void vf_collect(void){} void vf_test(long i){}\n"


def run(c):
    llrl0 = common.build_llrl0()
    llrl1 = c.llrl1(llrl0)
    c.rule = ("one evaluation is one history (a test function of a generated program) whose every look at reachable values was compared with the interpretation, under one compiler configuration and one collection "
              "frequency; distinct by history, configuration and frequency")
    obs = {"histories": {}, "allocations": 0, "objects_found_dead_and_overwritten": 0, "collections": 0, "values_looked_at": 0, "flows": {}}
    os.makedirs(c.tmp, exist_ok=True)
    for n, s in (("shim.c", heapgen.SHIM), ("stub.c", STUB)):
        with open(os.path.join(c.tmp, n), "w") as f:
            f.write(s)
    shim, stub = os.path.join(c.tmp, "shim.o"), os.path.join(c.tmp, "stub.so")
    p = common.sh(["sh", "-c", "gcc -O1 -c -o %s shim.c && gcc -shared -fPIC -o %s stub.c" % (shim, stub)], cwd=c.tmp, timeout=60)
    if p.rc != 0:
        raise common.Broken("the collector shim does not compile: %s" % p.etext[:500])

    def one(job):
        seed, cfgs, ntests = job
        if len(c.violations) >= 4:
            return
        g = heapgen.Gen(random.Random(seed))
        src, lines = g.program(ntests)
        want = lines
        d = os.path.join(c.tmp, "p%x" % seed)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "m.llrl"), "w") as f:
            f.write(src)
        for cfg in cfgs:
            cc, args = (llrl1, ["-b", "chibi"]) if cfg == "llrl1" else (llrl0, common.CONFIGS[cfg])
            p = common.sh([cc] + args + ["-c", shim, "-c=-Wl,--wrap=GC_malloc" if cc == llrl0 else "-c-Wl,--wrap=GC_malloc", "-o", "m." + cfg, "m"], cwd=d, timeout=200, extra_env={"LD_PRELOAD": stub})
            if p.timed_out:
                c.inconclusive += 1
                continue
            if p.rc != 0 or not os.path.exists(os.path.join(d, "m." + cfg)):
                c.violation("a well-typed program is not compiled (%s, seed %d, rc %s): %s" % (cfg, seed, p.rc, (p.text + p.etext)[:800]), {"m.llrl": src, "shim.c": heapgen.SHIM})
                break
            for every in (0, 1, random.Random(seed).choice([2, 3, 7, 20])):
                q = common.sh(["./m." + cfg], cwd=d, timeout=100, extra_env={"VF_GC_EVERY": str(every)})
                if q.timed_out:
                    c.inconclusive += len(want)
                    continue
                out = q.text.split("\n")
                got = [x for x in out if x.startswith("T")]
                end = [x for x in out if x.startswith("#")]
                files = {"m.llrl": src, "shim.c": heapgen.SHIM, "stub.c": STUB, "expected.txt": "\n".join(want) + "\n", "observed.txt": q.text,
                         "how.txt": "gcc -O1 -c shim.c; gcc -shared -fPIC -o stub.so stub.c; LD_PRELOAD=./stub.so %s %s -c shim.o -c=-Wl,--wrap=GC_malloc -o m m; VF_GC_EVERY=%d ./m\n" % ("llrl1" if cc == llrl1 else "llrl0", " ".join(args), every)}
                bad = None
                for i, w in enumerate(want):
                    if i >= len(got) or got[i] != w:
                        x, y = (got[i] if i < len(got) else "").split(" "), w.split(" ")
                        k = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
                        bad = "history T%d: value %d seen is %s, should be %s" % (i, k, x[k] if k < len(x) else "(none: the program ended with %s)" % q.rc, y[k] if k < len(y) else "(no more)")
                        break
                    c.evaluations += 1
                    c.distinct.add(common.dist_hash("%s %d %s %d" % (cfg, every, w, seed)))
                    obs["values_looked_at"] += w.count(" ")
                    obs["histories"][cfg] = obs["histories"].get(cfg, 0) + 1
                if not bad and (q.rc != 0 or not end):
                    bad = "the program ended with %s: %s" % (q.rc, q.etext[:200])
                elif not bad and end[0].split()[3] != "0":
                    bad = "%s heap objects were written to behind their end" % end[0].split()[3]
                if bad:
                    c.violation("%s (%s, collection every %d allocations, seed %d)" % (bad, cfg, every, seed), files)
                    return
                a, b, n, _ = end[0][1:].split()
                obs["allocations"] += int(a)
                obs["objects_found_dead_and_overwritten"] += int(b)
                obs["collections"] += int(n)
        for k, v in g.features.items():
            obs["flows"][k] = obs["flows"].get(k, 0) + v
        c.sample("seed %d: %s" % (seed, lines[0][:200]))
        shutil.rmtree(d, ignore_errors=True)

    if common.THOROUGH:
        plan = [(1500, ["chibi"]), (400, ["llvm", "llvm-O"]), (100, ["chibi-O"]), (200, ["llrl1"])]
    else:
        plan = [(90, ["chibi"]), (40, ["llvm", "llvm-O"]), (8, ["chibi-O"]), (10, ["llrl1"])]
    jobs = [(c.rng.getrandbits(48), cfgs, 14) for n, cfgs in plan for _ in range(n) if cfgs != ["llrl1"] or llrl1]
    c.rng.shuffle(jobs)
    common.pmap(one, jobs)
    c.cov["observed"] = obs
    if not c.violations and not obs["objects_found_dead_and_overwritten"]:
        raise common.Broken("nothing was ever collected")
    c.assumptions.append("the collector marks conservatively, so that what it finds unreachable really is; overwriting it at once only hastens what reuse would do later")
