"""C16: random object graphs loaded by the real JIT and linked by the system linker; every reference is executed and what it reaches compared with the definition it names."""
import os, random, re, shutil
import common

BATCH = 100


def harness(c):
    return common.build_harness("xten")


def run(c):
    exe = harness(c)
    c.rule = ("one evaluation is one executed reference (through a call, jump, load, lea, address-table entry, 64-bit absolute or 32-bit relative cell) whose observed target is compared with the definition "
              "named, or one reported error; distinct by kind of reference, section and relation, and by graph")
    obs = {"jit_worlds": 0, "jit_references_executed": 0, "elf_worlds": 0, "elf_references_executed": 0, "elf_relocatable_relinked": 0, "kinds_of_reference": {}}
    base = c.rng.randrange(1 << 30)

    def stat(k, v):
        obs["kinds_of_reference"][k] = obs["kinds_of_reference"].get(k, 0) + int(v)

    def jit(b):
        if len(c.violations) > 5:
            return
        s = base + b * BATCH
        p = common.sh([exe, "jit", str(s), str(BATCH)], timeout=120)
        worlds = re.findall(r"^WORLD (\d+)", p.text, re.M)
        obs["jit_worlds"] += len(worlds)
        if p.rc or "\nDONE" not in p.text:
            if p.timed_out:
                c.inconclusive += 1
                return
            c.violation("JIT: the process ends with %s in the graph of seed %s (code is executed that no reference names, or the loader fails)" % (p.rc, worlds[-1:]), {"run.txt": "xten jit %s 1\n%s\n" % ((worlds or [s])[-1], p.etext[-2000:])})
            return
        for m in re.finditer(r"^BAD (.*)", p.text, re.M):
            c.violation("JIT: graph of seed " + m[1], {"run.txt": "xten jit %s 1\n" % m[1].split()[0]})
            if len(c.violations) > 5:
                return
        for m in re.finditer(r"^STAT\t(.*)\t(\d+)$", p.text, re.M):
            stat("jit " + m[1], m[2])
        n = int(re.search(r"^CALLS\t(\d+)", p.text, re.M)[1])
        obs["jit_references_executed"] += n
        c.evaluations += n
        c.distinct.update("jit %s" % w for w in worlds)

    def elf(k):
        if len(c.violations) > 5:
            return
        s = base + k
        d = os.path.join(c.tmp, "e%d" % k)
        os.makedirs(d)
        run1 = {"run.txt": "xten elf %d DIR; gcc -no-pie main.c o*.o\n" % s}
        p = common.sh([exe, "elf", str(s), d], timeout=60)
        if p.rc:
            c.violation("ELF: the objects of graph %d cannot be written: %s" % (s, p.etext[-300:]), run1)
            return
        objs = sorted(f for f in os.listdir(d) if f.endswith(".o"))
        random.Random(s).shuffle(objs)
        # a second reader accepts the file and finds nothing odd in it
        q = common.sh(["readelf", "-W", "-h", "-S", "-s", "-r", *objs], cwd=d, timeout=60)
        if q.rc or q.etext.strip():
            c.violation("ELF: readelf on graph %d: %s" % (s, q.etext[-500:]), run1)
            return
        if s % 3 == 1:
            q = common.sh(["ld", "-r", "-o", "all.ro"] + objs, cwd=d, timeout=60)
            if q.rc or q.etext.strip():
                c.violation("ELF: ld -r of graph %d: %s" % (s, q.etext[-500:]), run1)
                return
            objs = ["all.ro"]
            obs["elf_relocatable_relinked"] += 1
        q = common.sh(["gcc", "-w", "-no-pie", "-z", "noexecstack", "-o", "x", "main.c"] + objs, cwd=d, timeout=120)
        if q.timed_out:
            c.inconclusive += 1
            return
        if q.rc or q.etext.strip():
            c.violation("ELF: linking graph %d: %s" % (s, q.etext[-500:]), run1)
            return
        q = common.sh(["./x"], cwd=d, timeout=20)
        if q.rc:
            c.violation("ELF: the program of graph %d ends with %s: %s" % (s, q.rc, q.text[-500:]), run1)
            return
        n = int(re.search(r"ran (\d+)", q.text)[1])
        obs["elf_worlds"] += 1
        obs["elf_references_executed"] += n
        c.evaluations += n
        c.distinct.add("elf %d" % s)
        for l in open(os.path.join(d, "stats")):
            a, b = l.rstrip("\n").split("\t")
            stat("elf " + a, b)
        shutil.rmtree(d)

    common.pmap(jit, range(c.budget(60, 1500)))
    common.pmap(elf, range(c.budget(500, 12000)))
    c.sample({"kinds": dict(list(obs["kinds_of_reference"].items())[:6])})
    c.cov["observed"] = obs
