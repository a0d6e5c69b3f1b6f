"""C25: the assembler, object writer, ELF writer and JIT written in llrl against those written in Rust: the same instructions with the same operands byte for byte, the same writer
programs object for object, objects loaded by the llrl JIT and written by the llrl ELF writer with every reference executed."""
import os, random, re, shutil
import common

PER = 700
LIB = "xten:" + os.path.join(common.REPO, "xten1")
NJ = 31  # jumps that take labels


def operands(t):
    t = t.replace("||:", "|\0")
    if t.startswith("|:"):
        t = "\0" + t[2:]
    return [x.replace("\0", "|:") for x in t.split("|") if x]


def program(lines):
    """A program that writes each instruction into a vector and prints its bytes."""
    out = ['(import "xten/asm" _)', '(function (show! w) {(-> (Vector U8) unit)}\n  (for (let b) (vector/buffer w) (print! b " "))\n  (println! "")\n  (:))']
    fs = [lines[i:i + 40] for i in range(0, len(lines), 40)]
    for i, f in enumerate(fs):
        body = "\n  ".join("(%s! w %s)! (show! w) (vector/clear! w)" % (n.split()[0].lower(), " ".join(operands(o))) for n, o, _ in f)
        out.append("(function (f%d w) {(-> (Vector U8) (Result unit unit))}\n  %s\n  (ok (:)))\n(f%d vector/empty)" % (i, body, i))
    return "\n".join(out) + "\n"


def writer_program(r):
    """Commands of one program on the object writer."""
    o = ["new"]
    labels = []   # [index, name, section or None]
    free = []
    names = {}

    def label():
        if r.random() < 0.5:
            o.append("issue")
            labels.append([len(labels), None, None])
            free.append(labels[-1])
        else:
            n = "n%d" % r.randrange(12)
            o.append("get " + n)
            if n in names:
                labels.append([len(labels), n, names[n]])
            else:
                names[n] = [None]
                labels.append([len(labels), n, names[n]])
                free.append(labels[-1])
        return labels[-1]

    done = {}

    def key(l):
        return l[1] or l[0]

    for _ in range(2 + r.randrange(5)):
        label()
    for _ in range(5 + r.randrange(50)):
        k = r.randrange(12)
        s = r.choice([0, 1, 2, 4])
        if k == 0:
            label()
        elif k in (1, 2):
            l = r.choice(labels)
            if key(l) in done:
                continue
            sec = r.randrange(5)
            done[key(l)] = sec % 4
            o.append("def %d %d %d" % (sec, l[0], r.randrange(2)))
        elif k == 3:
            o.append("alloc %d %d" % (r.randrange(5), r.choice([0, 1, 3, 8, 40])))
        elif k == 4:
            o.append("align %d %d" % (r.randrange(5), r.choice([1, 2, 4, 8, 16, 3])))
        elif k == 5:
            o.append("bytes %d %s" % (s, ".".join(str(r.randrange(256)) for _ in range(r.randrange(12))) or "-"))
        elif k == 6:
            o.append("loc %d" % r.randrange(5))
        elif k == 7:
            n = r.choice([4, 8])
            o.append("bytes %d %s" % (s, ".".join(str(r.randrange(256)) for _ in range(n))))
            o.append("use %d -%d %d %d %d" % (s, n, r.choice(labels)[0], r.choice([0, -4, -8, 5, 1000, -70000]), r.choice([1, 1, 2, 3]) if n == 4 else 3))
        elif k == 8:
            # a label near enough for a short jump, before or after it
            l = label()
            if key(l) in done:
                continue
            done[key(l)] = 0
            j = "inst %d %d 0" % (NJ + r.randrange(NJ), l[0])
            fill = "alloc 0 %d" % r.choice([0, 1, 60, 127, 126])
            d = "def %d %d %d" % (r.choice([0, 4]), l[0], r.randrange(2))
            o += [j, fill, d] if r.random() < 0.5 else [d, "alloc 0 %d" % r.choice([0, 50, 126, 125]), j]
        else:
            kind = r.randrange(62, 73) if r.random() < 0.6 else r.randrange(NJ)
            o.append("inst %d %d %d" % (kind, r.choice(labels)[0], r.choice([r.randrange(16), r.randrange(1 << 31), -r.randrange(1, 1 << 31)]) if kind == 67 else r.randrange(16)))
    # unnamed labels that are used must be defined (now and then one is not)
    for l in labels:
        if l[1] is None and key(l) not in done and r.random() < 0.97:
            o.append("def %d %d 0" % (r.randrange(4), l[0]))
    o.append("produce")
    return o


def refused_program(r):
    """A program that must be refused: a label defined twice, or one too far for a short jump."""
    o = ["new", "issue", "get a"]
    if r.random() < 0.5:
        k = r.randrange(2)
        o += ["def %d %d 0" % (r.randrange(5), k), "alloc 0 3", "def %d %d 1" % (r.randrange(5), k)]
    else:
        k = r.randrange(2)
        n = r.choice([128, 129, 300])
        j, d = "inst %d %d 0" % (NJ + r.randrange(NJ), k), "def 0 %d 0" % k
        o += [j, "alloc 0 %d" % n, d] if r.random() < 0.5 else [d, "alloc 0 %d" % (n - 1), j]
    return o + ["produce"]


def run(c):
    l0 = common.build_llrl0()
    rs = common.build_harness("xten")
    c.rule = "one evaluation is one instruction encoded by both libraries, one object produced by both writers, or one executed reference of an object loaded or written by the llrl library; distinct by bytes"
    obs = {"instructions_compared": 0, "instruction_forms": set(), "memory_operands": 0, "refused_instructions_left_out": 0, "writer_programs": 0, "writer_relocations": 0, "writer_symbols": 0,
           "refused_by_both": 0, "jit_worlds": 0, "jit_observations": 0, "elf_worlds": 0, "elf_references_executed": 0, "back_ends": {}}
    base = c.rng.randrange(1 << 30)
    # the drivers, and the instruction programs
    drv = open(os.path.join(common.VERIF, "data", "objdrv.llrl")).read()
    jobs = [("drv", "chibi", None), ("drv", "llvm", None)]
    if common.THOROUGH:
        jobs.append(("drv", "llrl1", None))
    lines = []
    rounds = 1 if not common.THOROUGH else 30
    for k in range(rounds):
        for mode, n in (("forms-llrl", 4 if k == 0 and not common.THOROUGH else 6), ("memories-llrl", 0)):
            p = common.sh([rs, mode, str(base + k), str(n)], timeout=300)
            if p.rc:
                raise common.Broken("harness: " + p.etext[-300:])
            ls = [tuple(l.split("\t")) for l in p.text.splitlines()]
            if mode == "memories-llrl" and not common.THOROUGH:
                ls = random.Random(base).sample(ls, 3000)
            lines += ls
    seen = {}
    for l in lines:
        if l[2] == "PANIC":
            obs["refused_instructions_left_out"] += 1
        else:
            seen.setdefault(l[:2], l)
    lines = list(seen.values())
    c.rng.shuffle(lines)
    for i in range(0, len(lines), PER):
        be = "chibi" if not common.THOROUGH or i % (8 * PER) else "llvm-O"
        jobs.append(("insts", be, lines[i:i + PER]))
    exes = {}

    def compile(src, be, d):
        os.makedirs(d)
        with open(os.path.join(d, "m.llrl"), "w") as f:
            f.write(src)
        cc = l0 if be != "llrl1" else c.llrl1(l0)
        args = {"chibi": ["-b", "chibi"], "llvm": ["-b", "llvm"], "llvm-O": ["-b", "llvm", "-O"], "llrl1": ["-b", "chibi"]}[be]
        return common.sh([cc, *args, "-p", LIB, "-o", "m", "m"], cwd=d, timeout=400)

    def build(job):
        kind, be, ls = job
        if len(c.violations) > 5:
            return
        d = os.path.join(c.tmp, "%s-%s-%d" % (kind, be, id(job)))
        src = drv if kind == "drv" else program(ls)
        p = compile(src, be, d)
        if p.timed_out:
            c.inconclusive += 1
            return
        if p.rc:
            c.violation("a program using the llrl library does not compile (%s): %s" % (be, p.etext[-600:]), {"m.llrl": src, "run.txt": "llrl0 -p %s m\n" % LIB})
            return
        if kind == "drv":
            exes[be] = os.path.join(d, "m")
            return
        obs["back_ends"][be] = obs["back_ends"].get(be, 0) + 1
        p = common.sh(["./m"], cwd=d, timeout=120)
        if p.timed_out:
            c.inconclusive += 1
            return
        got = p.text.split("\n")
        for i, (form, ops, hx) in enumerate(ls):
            g = got[i] if i < len(got) - 1 else None
            b = "".join("%02x" % int(x) for x in g.split()) if g is not None else "nothing (the program ends with %s: %s)" % (p.rc, p.etext[-200:])
            obs["instructions_compared"] += 1
            obs["instruction_forms"].add(form)
            obs["memory_operands"] += "(memory" in ops
            c.evaluations += 1
            if b == hx:
                if len(c.distinct) < 400000:
                    c.distinct.add(hx)
                continue
            c.violation("%s %s: the llrl library writes %s, the Rust one %s" % (form, ops, b, hx), {"m.llrl": program([(form, ops, hx)]), "run.txt": "llrl0 -p %s m; Rust: %s\n" % (LIB, hx)})
            if g is None or len(c.violations) > 5:
                break
        shutil.rmtree(d)

    common.pmap(build, jobs, 8)
    if c.violations or not exes:
        obs["instruction_forms"] = len(obs["instruction_forms"])
        c.cov["observed"] = obs
        return
    kinds = sorted(exes)

    def writers(k):
        r = random.Random(base * 7 + k)
        if len(c.violations) > 5:
            return
        be = kinds[k % len(kinds)]
        progs = [writer_program(r) for _ in range(60)]
        inp = "\n".join(l for p in progs for l in p) + "\n"
        a = common.sh([rs, "writer", "1"], input=inp.encode(), timeout=60)
        b = common.sh([exes[be]], input=(inp + "end\n").encode(), timeout=60)
        if a.timed_out or b.timed_out:
            c.inconclusive += 1
            return
        x, y = a.text.split("new\n")[1:], b.text.split("new\n")[1:]
        for i, p in enumerate(progs):
            u = x[i] if i < len(x) else "nothing: " + a.etext[-200:]
            v = y[i] if i < len(y) else "nothing: (ends with %s) %s" % (b.rc, b.etext[-200:])
            obs["writer_programs"] += 1
            obs["writer_relocations"] += u.count("\nreloc ")
            obs["writer_symbols"] += u.count("\nsymbol ")
            c.evaluations += 1
            c.distinct.add(u[:4000])
            if u.rstrip("\n") != v.rstrip("\n"):
                c.violation("object writer (%s): the same commands give different objects: Rust %r, llrl %r" % (be, u[-300:], v[-300:]), {"commands.txt": "\n".join(p) + "\nend\n", "rust.txt": u, "llrl.txt": v})
                return
        # what cannot be encoded
        for _ in range(3):
            p = refused_program(r)
            inp = "\n".join(p) + "\n"
            a = common.sh([rs, "writer", "1"], input=inp.encode(), timeout=60)
            b = common.sh([exes[be]], input=(inp + "end\n").encode(), timeout=60)
            c.evaluations += 1
            ra, rb = "refused" in a.text, "object" not in b.text
            obs["refused_by_both"] += ra and rb
            if ra != rb or not ra:
                c.violation("object writer (%s): %s is %s by the Rust library and %s by the llrl one" % (be, p, *("refused" if z else "accepted" for z in (ra, rb))), {"commands.txt": inp + "end\n"})

    def jit(k):
        if len(c.violations) > 5:
            return
        be = kinds[k % len(kinds)]
        d = os.path.join(c.tmp, "j%d" % k)
        os.makedirs(d)
        n = 25
        p = common.sh([rs, "worlds", str(base + k * n), d, str(n)], timeout=120)
        if p.rc:
            c.violation("worlds of %d cannot be produced by the Rust library: %s" % (base + k * n, p.etext[-300:]))
            return
        script = open(os.path.join(d, "script"), "rb").read()
        q = common.sh([exes[be]], input=script, timeout=100)
        if q.timed_out:
            c.inconclusive += 1
            return
        want = open(os.path.join(d, "expect")).read().splitlines()
        got = q.text.splitlines()
        for i, w in enumerate(want):
            g = got[i] if i < len(got) else "nothing (the process ends with %s: %s)" % (q.rc, q.etext[-200:])
            obs["jit_observations"] += 1
            c.evaluations += 1
            if g == w or w.startswith(g + " ") and not g.startswith("ok") or g.startswith("ok") and w.startswith("ok"):
                continue
            c.violation("llrl JIT (%s), seed %d: observation %d is %r, should be %r" % (be, base + k * n, i, g, w), {"commands.txt": script, "expected.txt": "\n".join(want)})
            return
        obs["jit_worlds"] += n
        c.distinct.update("jit %d" % (base + k * n + i) for i in range(n))
        shutil.rmtree(d)

    def elf(k):
        if len(c.violations) > 5:
            return
        be = kinds[k % len(kinds)]
        s = base + k
        d = os.path.join(c.tmp, "e%d" % k)
        os.makedirs(d + "/l")
        for mode in ("elf", "elf-script"):
            p = common.sh([rs, mode, str(s), d], timeout=60)
            if p.rc:
                c.violation("objects of graph %d cannot be produced by the Rust library: %s" % (s, p.etext[-300:]))
                return
        script = open(d + "/script", "rb").read()
        files = {"commands.txt": script, "main.c": open(d + "/main.c").read()}
        q = common.sh([exes[be]], input=script, timeout=60)
        if q.timed_out:
            c.inconclusive += 1
            return
        if q.rc or q.out:
            c.violation("llrl ELF writer (%s): graph %d: ends with %s: %s %s" % (be, s, q.rc, q.text[-300:], q.etext[-200:]), files)
            return
        objs = sorted("l/" + f for f in os.listdir(d + "/l"))
        q = common.sh(["readelf", "-W", "-h", "-S", "-s", "-r", *objs], cwd=d, timeout=60)
        if q.rc or q.etext.strip():
            c.violation("llrl ELF writer: readelf on graph %d: %s" % (s, q.etext[-500:]), files)
            return
        if s % 3 == 1:
            q = common.sh(["ld", "-r", "-o", "all.ro"] + objs, cwd=d, timeout=60)
            if q.rc or q.etext.strip():
                c.violation("llrl ELF writer: ld -r of graph %d: %s" % (s, q.etext[-500:]), files)
                return
            objs = ["all.ro"]
        q = common.sh(["gcc", "-w", "-no-pie", "-z", "noexecstack", "-o", "x", "main.c"] + objs, cwd=d, timeout=120)
        if q.timed_out:
            c.inconclusive += 1
            return
        if q.rc or q.etext.strip():
            c.violation("llrl ELF writer: linking graph %d: %s" % (s, q.etext[-500:]), files)
            return
        q = common.sh(["./x"], cwd=d, timeout=20)
        if q.rc:
            c.violation("llrl ELF writer: the program of graph %d ends with %s: %s" % (s, q.rc, q.text[-500:]), files)
            return
        n = int(re.search(r"ran (\d+)", q.text)[1])
        obs["elf_worlds"] += 1
        obs["elf_references_executed"] += n
        c.evaluations += n
        c.distinct.add("elf %d" % s)
        shutil.rmtree(d)

    common.pmap(writers, range(c.budget(40, 1500)))
    common.pmap(jit, range(c.budget(32, 800)))
    common.pmap(elf, range(c.budget(100, 3000)))
    obs["instruction_forms"] = len(obs["instruction_forms"])
    c.sample({"instruction": list(lines[0]), "writer_program": writer_program(random.Random(base))[:8]})
    c.cov["observed"] = obs
