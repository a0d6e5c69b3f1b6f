"""C05: class programs: verdict and executed trace against a model of instance resolution and dictionary passing."""
import os, random, re, shutil
import common, clsgen as G, manyinst

HEAD = '(no-implicit-std)\n(import "builtin" _)\n(c-function putchar {(-> I32 I32)} "putchar")\n'
KIND = {"NoInst": "no matching instance", "Overlap": "overlapping instances", "Deep": "endless instance search", "Missing": "method without a body"}


def run(c):
    llrl0 = common.build_llrl0()
    llrl1 = c.llrl1(llrl0)
    comp = {"llrl0": llrl0, "llrl1": llrl1}
    c.rule = ("one evaluation is one generated module set (classes, instances, generic functions, uses) whose verdict was compared with the model's instance search, "
              "and, when accepted, whose whole trace of executed method bodies was compared with the model's dictionary passing; distinct by source text")
    stat = {"accepted": 0, "method_and_function_bodies_executed": 0, "instances": 0, "classes": 0, "calls": 0, "modules": 0, "rearranged": 0}
    for k in KIND.values():
        stat["rejected, " + k] = 0
    per = {}

    def one(job):
        seed, cc, cfg = job
        if len(c.violations) >= 5 or not comp[cc]:
            return
        r = random.Random(seed)
        if r.random() < 0.15:
            lines, v, k = manyinst.gen(r)
            return judge({"m.llrl": HEAD + "\n".join(lines) + "\n"}, v, seed, cc, cfg, k, 1, 1)
        while True:
            try:
                w = G.World(r).generate()
                for lay in ([w.layout(r.choice([1, 1, 2, 3]))] + ([w.layout(r.choice([1, 2, 4]))] if r.random() < 0.3 else [])):
                    try:
                        w.check(lay)
                        v = ("ok", w.trace(lay))
                    except (G.NoInst, G.Overlap, G.Deep, G.Missing) as e:
                        v = (type(e).__name__, str(e))
                    test(w, lay, v, seed, cc, cfg)
                return
            except G.Big:
                continue

    def test(w, lay, v, seed, cc, cfg):
        judge(w.files(lay, HEAD), v, seed, cc, cfg, len(w.insts), len(w.classes), len(lay))

    def judge(fs, v, seed, cc, cfg, n_insts, n_classes, n_modules):
        d = os.path.join(c.tmp, "k%x" % seed)
        main = fs["m.llrl"]
        st, p = common.compile_run(comp[cc], main, cfg, d, files={k: x for k, x in fs.items() if k != "m.llrl"})
        shutil.rmtree(d, ignore_errors=True)
        if p.timed_out:
            c.inconclusive += 1
            return
        out = p.text + p.etext
        msg = None
        if v[0] == "ok":
            stat["accepted"] += 1
            stat["method_and_function_bodies_executed"] += len(v[1])
            if st == "compile":
                msg = "every constraint is satisfied by exactly one instance, but it was rejected: " + (out[:600] or "status %s" % p.rc)
            elif p.out != v[1].encode() or p.rc:
                msg = "executed bodies %r, expected %r, status %s" % (p.out, v[1], p.rc)
        else:
            stat["rejected, " + KIND[v[0]]] += 1
            if st != "compile":
                msg = "accepted although: %s: %s" % (KIND[v[0]], v[1])
            elif not re.search(r"No matching instances|Overlapping instances|Recursion limit|Unresolved class-method", out):
                msg = "%s (%s), the report says something else: %s" % (KIND[v[0]], v[1], out[:600] or "status %s" % p.rc)
        c.evaluations += 1
        per[cc + " " + cfg] = per.get(cc + " " + cfg, 0) + 1
        stat["instances"] += n_insts
        stat["classes"] += n_classes
        stat["modules"] += n_modules
        c.distinct.add(common.dist_hash("".join(fs.values())))
        if msg:
            c.violation("%s (seed %d, %s): %s" % (cc, seed, cfg, msg), fs)
        c.sample({"modules": {k: x[len(HEAD):][:500] for k, x in fs.items()}, "verdict": v}, limit=4)
    n = c.budget(1, 15)
    common.pmap(one, [(c.rng.getrandbits(48), cc, cfg) for cc, cfg, k in (("llrl0", "chibi", 1300), ("llrl0", "llvm", 150), ("llrl0", "llvm-O", 150), ("llrl1", "chibi", 500))
                      for _ in range(k * n)])
    del stat["calls"], stat["rearranged"]
    c.cov["observed"] = stat
    c.cov["programs_per_compiler"] = per
