"""C15: every instruction form of the assembler with random operands; the bytes are decoded by objdump and compared with what the GNU assembler and objdump make of the instruction asked for."""
import os, re, shutil
import common

SLOT = 16
UNSIGNED8 = re.compile(r"bt|cmp[ps][sd]|extract|insert|in|int|pc|pe|pi|ps|r|sa|sh|dpp|mps|pblend|blend|pshuf|palign|out")
# (the assembler names instructions by the number of operands where two share a mnemonic)
ARITY = {"imull1", "imulq1", "imulw1", "imull2", "imulw2", "imulq2"}
# recorded findings, by the form and the register concerned
KNOWN = {"Pushq i16": "pushq-imm16"}


def text(form, ops, length):
    """The instruction asked for, as AT&T text."""
    f = form.split()
    n = f[0].lower()
    o = [x for x in ops.split("|") if x]
    if n in ARITY:
        n = n[:-1]
    if form == "Retq1 i16":
        return "retq $%d" % (int(o[0][1:]) & 65535)
    if f[1:] in (["i8"], ["i32"]) and (n[0] == "j" or n == "callq"):
        return "%s .%+d" % ("jmp" if n == "jmpq" else n, length + int(o[0][1:]))
    if len(f) == 2 and n in ("callq", "jmpq"):
        return "%s *%s" % (n, o[0])
    t = (n + " " + ", ".join(reversed(o))).strip()
    if (f[-1] == "i8" and UNSIGNED8.match(n)) or form in ("Outb i8 _Al", "Outl i8 _Eax", "Outw i8 _Ax"):
        t = re.sub(r"\$(-\d+)", lambda m: "$%d" % (int(m[1]) & 255), t)  # bit patterns, not numbers
    return t


def normal(x):
    """One spelling for what two encodings of the same instruction are shown as."""
    x = re.sub(r"\s+", " ", re.sub(r"\s+#.*", "", x).strip())
    x = re.sub(r"\b0x0\(%(?!rip)", "(%", x)
    x = re.sub(r"^movabs ", "mov ", x)
    x = re.sub(r"^((?:rc|ro|s[ah])[lr][bwlq]? +)\$1,", r"\1$0x1,", x)
    x = re.sub(r"^data16 (str\b)", r"\1", x)
    if re.match(r"^xchg +%rax,%rax$|^rex.W nop$|^xchg +%ax,%ax$", x):
        return "nop"
    m = re.match(r"^xchg +(%\w+),(%\w+)$", x)
    if m:
        x = "xchg %s,%s" % tuple(sorted(m.groups()))
    return x


def assemble(d, items):
    """items: (address, text) in increasing order -> bytes, set of refused indexes"""
    bad = {}
    for _ in range(8):
        src = []
        for i, (a, t) in enumerate(items):
            src.append(".org %d,0x90" % a)
            src.append("" if i in bad else t)
        src.append(".org %d,0x90" % (items[-1][0] + SLOT))
        with open(os.path.join(d, "a.s"), "w") as f:
            f.write("\n".join(src) + "\n")
        p = common.sh(["as", "-o", "a.o", "a.s"], cwd=d)
        if p.rc == 0:
            break
        new = {(int(m[1]) - 1) // 2: m[2] for m in re.finditer(r"a\.s:(\d+): Error: (.*)", p.etext)}
        if not set(new) - set(bad):
            raise common.Broken("as: " + p.etext[:400])
        bad.update(new)
    else:
        raise common.Broken("as keeps refusing: " + p.etext[:400])
    if common.sh(["objcopy", "-O", "binary", "-j", ".text", "a.o", "a.bin"], cwd=d).rc:
        raise common.Broken("objcopy")
    return open(os.path.join(d, "a.bin"), "rb").read(), bad


def disassemble(d, data):
    with open(os.path.join(d, "d.bin"), "wb") as f:
        f.write(data)
    p = common.sh(["objdump", "-D", "-b", "binary", "-m", "i386:x86-64", "--no-show-raw-insn", "-z", "d.bin"], cwd=d)
    if p.rc:
        raise common.Broken("objdump: " + p.etext[:300])
    r = {}
    for m in re.finditer(r"^\s*([0-9a-f]+):\t(.*)$", p.text, re.M):
        r[int(m[1], 16)] = normal(m[2])
    return r


def compare(c, obs, d, lines, what):
    """lines: (form, operands, hex or PANIC)"""
    os.makedirs(d)
    items, ours = [], b""
    for i, (form, ops, hx) in enumerate(lines):
        b = b"" if hx == "PANIC" else bytes.fromhex(hx)
        items.append((SLOT * i, text(form, ops, len(b))))
        ours += b[:SLOT] + b"\x90" * (SLOT - len(b))
    ref, bad = assemble(d, items)
    want, got = disassemble(d, ref), disassemble(d, ours)
    for i, (form, ops, hx) in enumerate(lines):
        a = SLOT * i
        c.evaluations += 1
        asked = items[i][1]
        key = KNOWN.get(form)
        if re.match(r"Xchgl (_Eax Gpr32|Gpr32 _Eax)$", form) and ops == "%eax|%eax":
            key = "xchgl-eax-eax"
        if hx == "PANIC" and i in bad:
            obs["refused_by_both"] += 1
            continue
        n = len(hx) // 2
        if hx == "PANIC":
            msg = "%s: %s %s is refused, the GNU assembler makes it %s" % (what, form, ops, want.get(a))
        elif i in bad:
            msg = "%s: %s %s is encoded as %s (%s); the GNU assembler refuses %r: %s" % (what, form, ops, hx, got.get(a), asked, bad[i])
        elif got.get(a) != want.get(a):
            msg = "%s: %s %s is encoded as %s, which is %r; asked for: %r" % (what, form, ops, hx, got.get(a), want.get(a))
        elif form != "Lock" and n < SLOT and a + n not in got:
            msg = "%s: %s %s is encoded as %s, which is not exactly one instruction" % (what, form, ops, hx)
        else:
            if len(c.distinct) < 400000:
                c.distinct.add(form + want[a])
            continue
        if c.violation(msg, {"instruction.txt": "%s\t%s\t%s\nasked for: %s\n" % (form, ops, hx, asked)}, key=key):
            if len(c.violations) > 8:
                return
    shutil.rmtree(d, ignore_errors=True)


def harness(c):
    return common.build_harness("xten")


def read_lines(p):
    return [tuple(l.split("\t")) for l in p.text.splitlines()]


def run(c):
    exe = harness(c)
    c.rule = ("one evaluation is one instruction written with particular operands (its bytes decoded and compared with the instruction asked for, length included) or one label reference; "
              "distinct by form and decoded instruction")
    obs = {"forms": 0, "instructions": 0, "refused_by_both": 0, "label_references": 0, "short_jumps": 0, "backward": 0, "generator_output_bytes_equal": 0}
    seeds = [c.rng.getrandbits(40) for _ in range(c.budget(2, 60))]
    n = c.budget(24, 60)
    jobs = [("forms", s, str(n)) for s in seeds] + [("memories", s) for s in seeds[:c.budget(1, 12)]]
    out = {}
    chunks = []
    for j in jobs:
        p = common.sh([exe, j[0], str(j[1]), *j[2:]], timeout=120)
        if p.rc:
            c.violation("the assembler harness ended with %s: %s" % (p.rc, p.etext[-500:]))
            return
        ls = read_lines(p)
        out[j] = p.out
        obs["forms"] = max(obs["forms"], len({l[0] for l in ls}))
        obs["instructions"] += len(ls)
        step = 9000
        for k in range(0, len(ls), step):
            chunks.append((j[0], ls[k:k + step]))
    c.sample({"asked": [" ".join(l[:2]) for l in chunks[0][1][2000:2003]], "bytes": [l[2] for l in chunks[0][1][2000:2003]]})

    def part(k):
        if len(c.violations) < 8:
            compare(c, obs, os.path.join(c.tmp, "k%d" % k), chunks[k][1], "xten0")
    common.pmap(part, range(len(chunks)))

    # labels
    p = common.sh([exe, "labels", str(seeds[0]), str(c.budget(1500, 20000))], timeout=120)
    if p.rc:
        c.violation("the label harness ended with %s: %s" % (p.rc, p.etext[-500:]))
        return
    img, items, lens, bases = b"", [], [], []
    for l in p.text.splitlines():
        f = l.split("\t")
        if f[0] == "B":
            if f[2] == "PANIC":
                c.violation("labels: an object whose jumps are all in reach cannot be produced (seed %d, base %s)" % (seeds[0], f[1]))
                return
            b = int(f[1])
            img += b"\x90" * (b - len(img)) + bytes.fromhex(f[2])
        elif f[0] == "R":
            c.violation("labels: references within one section are left as relocations: %s" % f[2][:400])
            return
        else:
            items.append((int(f[1]), f[3]))
            lens.append(int(f[2]))
    d = os.path.join(c.tmp, "labels")
    os.makedirs(d)
    img += b"\x90" * (items[-1][0] + 16 - len(img))
    ref, bad = assemble(d, items)
    want, got = disassemble(d, ref), disassemble(d, img)
    for i, (a, t) in enumerate(items):
        c.evaluations += 1
        obs["label_references"] += 1
        obs["short_jumps"] += lens[i] == 2
        obs["backward"] += ".-" in t or " -" in t
        if i in bad:
            raise common.Broken("as refuses %r: %s" % (t, bad[i]))
        if got.get(a) != want.get(a) or a + lens[i] not in got:
            c.violation("labels: at %d asked for %r (%r), the bytes %s are %r" % (a, t, want.get(a), img[a:a + lens[i]].hex(), got.get(a)), {"item.txt": "%d %s seed %d\n" % (a, t, seeds[0])})
            if len(c.violations) > 8:
                return
        c.distinct.add("%s %d" % (t, lens[i]))

    # what the code generator generates today encodes the same
    if not c.violations:
        g = os.path.join(c.tmp, "gen")
        for x in ("xten0/src/asm", "xten1/asm", "xtencg"):
            os.makedirs(os.path.join(g, x))
        cg = common.sh(["cargo", "build", "--release", "--offline", "--locked", "-p", "xtencg"], cwd=common.REPO, timeout=600)
        if cg.rc:
            raise common.Broken("xtencg does not build: " + cg.etext[-600:])
        q = common.sh([os.path.join(common.TARGET, "release", "xtencg")], cwd=os.path.join(g, "xtencg"), timeout=60)
        new = os.path.join(g, "xten0/src/asm/inst.rs")
        if q.rc or not os.path.exists(new):
            c.violation("the code generator ends with %s: %s" % (q.rc, q.etext[-600:]))
            return
        b = os.path.join(common.BUILD, "xten-gen")
        shutil.rmtree(b, ignore_errors=True)
        shutil.copytree(os.path.join(common.REPO, "xten0"), os.path.join(b, "xten0"), ignore=shutil.ignore_patterns("target"))
        shutil.copy(new, os.path.join(b, "xten0/src/asm/inst.rs"))
        h = os.path.join(b, "xten")
        shutil.copytree(os.path.join(common.VERIF, "harness/xten"), h, ignore=shutil.ignore_patterns("target"))
        s = open(os.path.join(h, "Cargo.toml")).read().replace("/repo/xten0", "../xten0")
        with open(os.path.join(h, "Cargo.toml"), "w") as f:
            f.write(s)
        p = common.sh(["cargo", "build", "--release", "--offline"], cwd=h, timeout=600, extra_env={"CARGO_TARGET_DIR": os.path.join(common.BUILD, "xten-gen-target")})
        if p.rc:
            c.violation("the generated instruction table does not build: " + p.etext[-1200:])
            return
        e2 = os.path.join(common.BUILD, "xten-gen-target", "release", "xten")
        for j in jobs[:1]:
            p = common.sh([e2, j[0], str(j[1]), *j[2:]], timeout=120)
            if p.out != out[j]:
                x, y = out[j].decode().splitlines(), p.text.splitlines()
                k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), 0)
                c.violation("the code generator's table encodes otherwise: %r, the committed table %r" % (y[k:k + 1], x[k:k + 1]))
            obs["generator_output_bytes_equal"] += len(p.out.splitlines())
    c.cov["observed"] = obs
