"""C17: the runtime library under sanitizers with injected faults, and files, directories, processes and environment against a C program that makes the system's own calls."""
import math, os, random, re, shutil, struct
import common, drv, iodrv

NOBODY = ["prlimit", "--as=4000000000", "--fsize=100000000", "setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", "--no-new-privs"]
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def hx(b):
    return "s" + bytes(b).hex()


def num(v, radix):
    if v == 0:
        return "0"
    s, n = "", abs(v)
    while n:
        s = DIG[n % radix] + s
        n //= radix
    return ("-" if v < 0 else "") + s


def to_int(b, radix, lo, hi):
    try:
        s = b.decode("ascii")
    except UnicodeDecodeError:
        return None
    neg = lo < 0 and len(s) >= 2 and s[0] == "-"
    v = 0
    d = s[1:] if neg else s
    if not d:
        return None
    for ch in d:
        k = DIG.find(ch.lower()) if ch.isalnum() else -1
        if k < 0 or k >= radix:
            return None
        v = v * radix + k
    v = -v if neg else v
    return v if lo <= v <= hi else None


DECIMAL = re.compile(rb"-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d{1,4})?")


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def integers(r):
    x = r.random()
    if x < 0.3:
        return r.randrange(-300, 300)
    if x < 0.5:
        return r.choice([(1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, (1 << 62), 0, -1, 1])
    v = r.getrandbits(r.randrange(1, 64))
    return -v if r.random() < 0.5 else v


def rt_item(r, st):
    """-> line, predicate on the answer (list of tokens) or exact list"""
    k = r.choice(["i64s", "u64s", "f64s", "f32s", "si64", "si64", "su64", "su64", "sf64", "sf64", "sf32", "eq", "cmp", "cat", "gen", "errno"])
    radix = r.choice([2, 3, 8, 10, 10, 16, 16, 36, r.randrange(2, 37)])
    if k == "i64s":
        v = integers(r)
        return "i64s %d %d" % (radix, v), [hx(num(v, radix).encode())]
    if k == "u64s":
        v = r.choice([integers(r) & (2 ** 64 - 1), 2 ** 64 - 1, radix ** r.randrange(1, 12) % 2 ** 64])
        return "u64s %d %d" % (radix, v), [hx(num(v, radix).encode())]
    if k in ("f64s", "f32s"):
        w = 64 if k == "f64s" else 32
        u = r.getrandbits(w) if r.random() < 0.6 else struct.unpack("<Q" if w == 64 else "<I", struct.pack("<d" if w == 64 else "<f", r.choice([0.0, -0.0, 1.5, 0.1, 1e10, -1e22, 3.0, 123456789.0, 1e-5, 65536.25, math.inf, -math.inf])))[0]
        v = struct.unpack("<d" if w == 64 else "<f", u.to_bytes(w // 8, "little"))[0]
        if math.isnan(v):
            return "errno 5", ["5"]
        p = 16 if w == 64 else 8

        def reads_back(t):
            # the shortest or the %g form: whatever is printed denotes the number to the digits the format has
            try:
                x = float(bytes.fromhex(t[0][1:]))
            except ValueError:
                return False
            return x == v or ("%.*g" % (p, x)) == ("%.*g" % (p, v)) and math.copysign(1, x) == math.copysign(1, v)
        return "%s %d" % (k, u), reads_back
    if k in ("si64", "su64"):
        lo, hi = (-(1 << 63), (1 << 63) - 1) if k == "si64" else (0, 2 ** 64 - 1)
        x = r.random()
        if x < 0.5:
            v = r.choice([integers(r), lo, hi, lo - 1, hi + 1, hi + r.randrange(40), lo - r.randrange(40), hi * radix + r.randrange(radix), -(hi // radix), r.getrandbits(70)])
            s = num(v, radix)
            s = s.upper() if r.random() < 0.3 else s
            s = s.encode()
            if r.random() < 0.1:
                s = s.replace(b"-", b"-00") if s[:1] == b"-" else b"000" + s
        elif x < 0.8:
            s = bytes(r.choice(b"0123456789abzAZ-+ /:@[`{g") for _ in range(r.randrange(0, 12)))
        else:
            s = bytes(r.getrandbits(8) for _ in range(r.randrange(0, 6)))
        v = to_int(s, radix, lo, hi)
        return "%s %d %s" % (k, radix, hx(s)), ["N" if v is None else str(v)]
    if k in ("sf64", "sf32"):
        x = r.random()
        if x < 0.7:
            s = (r.choice(["", "-"]) + r.choice(["0", str(r.getrandbits(r.randrange(1, 80)) or 1)]) + r.choice(["", ".%d" % r.getrandbits(30), ".0", ".000%d" % r.getrandbits(8)])
                 + r.choice(["", "", "e%d" % r.randrange(-30, 30), "E+5"])).encode()
        else:
            s = r.choice([b"", b"abc", b"1.5x", b"1..5", b"--1", b"1e", b"e5", b"1.5 ", b".", b"-", b"+-1", b"1,5", bytes(r.getrandbits(8) for _ in range(r.randrange(1, 70))), b"9" * 200])
        if DECIMAL.fullmatch(s) and len(s) < 60:
            v = float(s)
            if k == "sf64":
                u = struct.unpack("<Q", struct.pack("<d", v))[0]
            else:
                # correctly rounded once, from the decimal
                u = struct.unpack("<I", struct.pack("<f", round32(s)))[0]
                v = round32(s)
            tiny = abs(v) < (1e-300 if k == "sf64" else 1e-36) and not re.fullmatch(rb"-?0*(\.0*)?([eE].*)?", s)
            if math.isinf(v) or tiny:
                return "%s %s" % (k, hx(s)), lambda t: True
            return "%s %s" % (k, hx(s)), [str(u)]
        # not a number in any notation: refused; other notations of numbers (hexadecimal, inf, blanks before it) are left to the library
        if re.search(rb"^\s|^[+-]?(nan|inf|0x)|^[+-]?\d*\.?\d*([eE][+-]?\d+)?$", s, re.I) and s not in (b"", b".", b"-", b"--1", b"+-1", b"1e", b"e5", b"1..5"):
            return "%s %s" % (k, hx(s)), lambda t: True
        return "%s %s" % (k, hx(s)), ["N"]
    if k in ("eq", "cmp", "cat"):
        a = bytes(r.choice([0, 0, 65, 128, 255, r.getrandbits(8)]) for _ in range(r.randrange(0, 9)))
        b = a if r.random() < 0.3 else a + bytes([r.getrandbits(8)]) if r.random() < 0.3 else bytes(r.choice([0, 65, 128, 255]) for _ in range(r.randrange(0, 9)))
        if k == "eq":
            return "eq %s %s" % (hx(a), hx(b)), [str(int(a == b))]
        if k == "cmp":
            return "cmp %s %s" % (hx(a), hx(b)), [str((a > b) - (a < b))]
        return "cat %s %s" % (hx(a), hx(b)), [hx(a + b), hx(a), hx(b)]
    if k == "gen":
        n = r.choice([1, 1, 3, 40])

        def fresh(t):
            ok = len(t) == n and len(set(t)) == n and not (set(t) & st) and all(len(x) > 1 for x in t)
            st.update(t)
            return ok
        return "gen %d" % n, fresh
    e = r.choice([0, 2, 13, 110])
    return "errno %d" % e, [str(e)]


def round32(s):
    """the binary32 nearest to a decimal (ties to even)"""
    from fractions import Fraction
    x = Fraction(s.decode())
    if x == 0:
        return -0.0 if s[:1] == b"-" else 0.0
    c = f32(float(s))
    if math.isinf(c):
        return c
    best = None
    u = struct.unpack("<i", struct.pack("<f", abs(c)))[0]
    for k in (u - 1, u, u + 1):
        if 0 <= k < 0x7f800000:
            v = struct.unpack("<f", struct.pack("<i", k))[0]
            d = abs(Fraction(v) - abs(x))
            if best is None or d < best[0] or d == best[0] and k % 2 == 0:
                best = (d, v)
    return math.copysign(best[1], x)


def rt_world(r, d, echo):
    """the calls that touch the system"""
    L = []
    n = r.randrange(0, 6)
    a = [b"prog"] + [bytes(r.randrange(1, 256) for _ in range(r.choice([0, 1, 5, 70]))) for _ in range(n)]
    L.append(("args %d %s" % (len(a), " ".join(map(hx, a))), [str(n)] + [hx(x) for x in a[1:]] + ["1"]))
    L.append(("syms", lambda t: t[0] == "0" and int(t[1]) > 0))
    L.append(("std", ["1"]))
    L.append(("cwd", [hx(os.path.realpath(d).encode())]))
    names = [x.encode() for x in os.listdir(os.path.join(d, "many"))]
    L.append(("dir " + hx(b"many"), lambda t: t[-1] == "0" and sorted(t[:-1]) == sorted(hx(x) for x in names + [b".", b".."])))
    L.append(("seed 5000", ["0"]))
    for _ in range(4):
        m = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 20])))
        L.append(("panic " + hx(m), [hx(m + b"\n") if m else hx(b""), "6"]))
        v = r.choice([0, 1, 2, 77, 255])
        L.append(("exit %d %s" % (v, hx(m)), [hx(m), str(v)]))
        v = r.choice([0, 1, 3, 128, 255])
        L.append(("wait e%d" % v, [str(v), "-1"]))
        L.append(("wait k%d" % r.choice([9, 15, 6, 1]), ["-1", "-1"]))
    for sp in ("run", "spawn"):
        for name, e in ((b"./nothere", 2), (b"nothere", 2), (b"./many", 13), (b"./plain", 13), (b"", 2)):
            L.append(("%s 0 0 0 %s s 1 %s" % (sp, hx(name), hx(b"x")), ["before", "E%d" % e, "fds+0", "closed-standard0", "zombie0"]))
        for what, cnt in ((1, 4 if sp == "spawn" else 1), (2, 1)):
            for at in range(1, cnt + 1):
                for e in (24, 23) if what == 1 else (11, 12):
                    L.append(("%s %d %d %d %s s 0" % (sp, what, at, e, hx(echo.encode())), ["before", "E%d" % e, "fds+0", "closed-standard0", "zombie0"]))
        for _ in range(6):
            argv = [bytes(r.randrange(1, 256) for _ in range(r.choice([0, 1, 9]))) for _ in range(r.randrange(0, 4))]
            end, want = r.choice([(b"exit0", "0"), (b"exit7", "7"), (b"exit255", "255"), (b"kill9", "-1"), (b"kill6", "-1")])
            inp = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 100, 3000])))
            if sp == "run":
                argv = [b"log=log"] + argv
            argv.append(end)
            line = "%s 0 0 0 %s %s %d %s" % (sp, hx(echo.encode()), hx(inp), len(argv), " ".join(map(hx, argv)))
            said = b"%d " % (len(argv) + 1) + b" ".join([b"78"] + [x.hex().encode() for x in argv]) + b"\n"
            L.append((line, ["before"] + ([hx(said + inp), hx(b"err")] if sp == "spawn" else []) + [want, "fds+0", "1"]))
    return L


def run(c):
    llrl0 = common.build_llrl0()
    c.rule = ("one evaluation is one call of the runtime library under the sanitizers, its result compared with an independent computation, or one operation of a compiled program on files, directories, "
              "processes, the environment or paths, its result and the resulting directory tree compared with the system's own calls; distinct by call and arguments, or by script")
    obs = {"runtime_calls": 0, "faults_injected": 0, "io_scripts": 0, "io_operations": {}, "errors_seen": {}, "trees_compared": 0, "path_operations": 0}
    H = os.path.join(common.VERIF, "harness", "rt")
    base = os.path.join(c.tmp, "b")
    os.makedirs(base)
    os.chmod(c.tmp, 0o755)
    echo = os.path.join(base, "echoprog")
    for name, text in (("echo.c", iodrv.ECHO), ("ref.c", drv.SHIM.replace("int64_t vf_guard", "static int64_t vf_guard").replace("#include", "#define _GNU_SOURCE\n#include", 1) + iodrv.SHIM_EXTRA + iodrv.ref())):
        with open(os.path.join(base, name), "w") as f:
            f.write(text)
    for cmd in (["gcc", "-O1", "-w", "-o", echo, "echo.c"], ["gcc", "-O1", "-w", "-DVF_SO", "-o", "ref", "ref.c"]):
        p = common.sh(cmd, cwd=base)
        if p.rc:
            raise common.Broken("%s: %s" % (cmd, p.etext[:800]))
    # --- the runtime library under sanitizers
    p = common.sh(["gcc", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-builtin", "-rdynamic", "-I", H, "-I", os.path.join(common.REPO, "rt"), "-o", os.path.join(base, "h"),
                   os.path.join(H, "h.c"), os.path.join(common.REPO, "rt", "rt.c"), "-Wl,--wrap=pipe2,--wrap=fork,--wrap=close", "-lm", "-ldl"], timeout=120)
    if p.rc:
        raise common.Broken("rt.c does not build with the sanitizers: " + p.etext[-800:])
    h = os.path.join(base, "h")
    ee = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99", "UBSAN_OPTIONS": "print_stacktrace=1", "PATH": base + ":/usr/bin:/bin"}

    def rtbatch(job):
        seed, kind = job
        if len(c.violations) > 5:
            return
        r = random.Random(seed)
        d = os.path.join(c.tmp, "rt%x" % seed)
        os.makedirs(os.path.join(d, "many"))
        if kind == "pure":
            st = set()
            items = [rt_item(r, st) for _ in range(3000)]
        else:
            for i in range(r.choice([0, 3, 700])):
                open(os.path.join(d, "many", r.choice(["f", "é", "x y", "l" * 200]) + str(i)), "w").close()
            for n, m in (("plain", 0o644), ("other", 0o600)):
                with open(os.path.join(d, n), "wb") as f:
                    f.write(b"\x01\x02\x03")
                os.chmod(os.path.join(d, n), m)
            os.chmod(d, 0o777)
            items = rt_world(r, d, echo)
        data = "".join(l + "\n" for l, _ in items).encode()
        p = common.sh(([] if kind == "pure" else NOBODY[3:]) + [h], cwd=d, input=data, timeout=120, extra_env=ee)
        lines = p.text.split("\n")
        for i, (l, e) in enumerate(items):
            c.evaluations += 1
            obs["runtime_calls"] += 1
            f = l.split()
            obs["faults_injected"] += f[0] in ("run", "spawn") and f[1] != "0"
            c.distinct.add(common.dist_hash(l))
            if i >= len(lines) - 1:
                if p.timed_out:
                    c.inconclusive += 1
                    break
                m = re.search(r"(ERROR: AddressSanitizer|runtime error):?[^\n]*", p.etext)
                c.violation("runtime: the call %s ends the process (status %s): %s" % (l[:300], p.rc, m[0] if m else p.etext[-400:]), {"call.txt": l + "\n", "report.txt": p.etext[-6000:]})
                break
            got = lines[i].split()
            if not (e(got) if callable(e) else got == e):
                if c.violation("runtime: %s answers %s, should be %s" % (l[:300], " ".join(got)[:300], "otherwise" if callable(e) else " ".join(e)[:300]), {"call.txt": l + "\n"}):
                    if len(c.violations) > 5:
                        return
        else:
            if p.rc != 0:
                c.violation("runtime: the harness ended with %s: %s" % (p.rc, p.etext[-800:]), {"report.txt": p.etext[-6000:]})
        shutil.rmtree(d, ignore_errors=True)

    common.pmap(rtbatch, [(c.rng.getrandbits(48), k) for k in ["pure"] * c.budget(24, 600) + ["world"] * c.budget(12, 200)])

    # --- files, directories, processes
    d = drv.Driver.__new__(drv.Driver)
    drv_shim = drv.SHIM
    try:
        drv.SHIM = drv_shim + iodrv.SHIM_EXTRA
        d.__init__(c, llrl0, iodrv.source(), "io", ["chibi", "llvm-O"])
    finally:
        drv.SHIM = drv_shim
    for e in d.exe.values():
        os.chmod(e, 0o755)
    os.chmod(d.dir, 0o755)

    def snapshot(root):
        t = {}
        for dp, ds, fs in os.walk(root):
            for x in ds + fs:
                q = os.path.join(dp, x)
                rel = os.path.relpath(q, root)
                if os.path.islink(q):
                    t[rel] = "link " + os.readlink(q)
                elif os.path.isdir(q):
                    t[rel] = "dir %o" % (os.stat(q).st_mode & 0o7777)
                else:
                    t[rel] = (os.stat(q).st_mode & 0o7777, open(q, "rb").read())
        return t

    def script(job):
        seed, cfg = job
        if len(c.violations) > 5:
            return
        r = random.Random(seed)
        t, modes = iodrv.tree(r)
        ops = iodrv.script(r, t)
        top = os.path.join(c.tmp, "s%x" % seed)
        os.makedirs(top)
        args = [iodrv.word(r) for _ in range(r.randrange(0, 4))]
        res = []
        for who in ("llrl", "ref"):
            w = os.path.join(top, who, "w")
            os.makedirs(os.path.join(w, "keep"))
            with open(os.path.join(w, "keep", "f"), "w") as f:
                f.write("kept")
            os.link(echo, os.path.join(w, "echo"))  # a file just written could be busy in a child another thread is starting
            for q, v in t.items():
                q = os.path.join(w, q)
                if v is None:
                    os.makedirs(q, exist_ok=True)
                elif isinstance(v, tuple):
                    os.symlink(v[1], q)
                else:
                    with open(q, "wb") as f:
                        f.write(v)
            for dp, ds, fs in os.walk(os.path.join(top, who)):
                os.lchown(dp, 65534, 65534)
                for x in ds + fs:
                    os.lchown(os.path.join(dp, x), 65534, 65534)
            for q, m in modes.items():
                os.chmod(os.path.join(w, q), m)
            exe = d.exe[cfg] if who == "llrl" else os.path.join(base, "ref")
            data = " ".join(str(x) for o in ops + [[0]] for x in o).encode() + b"\n"
            p = common.sh(NOBODY + [exe] + args, cwd=w, input=data, timeout=60,
                          extra_env={"VF_A": "value", "VF_B": "é ü", "VF_EMPTY": "", "PATH": base + ":/usr/bin:/bin"})
            res.append((p, snapshot(w)))
        (p, a), (q, b) = res
        if q.timed_out or q.rc not in [0] + [o[-1] for o in ops if o[0] == 29]:
            raise common.Broken("the reference ended with %s: %s" % (q.rc, q.etext[-300:]))
        if p.timed_out:
            c.inconclusive += 1
            return
        x = p.out.replace(os.path.join(top, "llrl").encode().hex().encode(), b"@").split(b"\n")
        y = q.out.replace(os.path.join(top, "ref").encode().hex().encode(), b"@").split(b"\n")
        files = {"d.llrl": d.src, "script.txt": " ".join(str(z) for o in ops + [[0]] for z in o) + "\n", "tree.txt": repr((t, modes))}
        bad = None
        done = True
        for i, o in enumerate(ops):
            c.evaluations += 1
            k = str(o[0])
            obs["io_operations"][k] = obs["io_operations"].get(k, 0) + 1
            u, v = (x[i] if i < len(x) else b"(nothing, status %r %r)" % (p.rc, p.err[-200:])), (y[i] if i < len(y) else b"(nothing)")
            for m in re.findall(rb"E\d+", v):
                m = m.decode()
                obs["errors_seen"][m] = obs["errors_seen"].get(m, 0) + 1
            if u != v:
                bad = "operation %d (%s): answers %r, the system's calls %r" % (i, str(o)[:200], u[:300], v[:300])
                break
            if o[0] == 8 and v[:1] == b"E":
                done = False  # where it stopped depends on the order of the entries
                break
        if not bad and done:
            obs["trees_compared"] += 1
            if p.rc != q.rc:
                bad = "it ends with %s, the system's calls with %s; %s" % (p.rc, q.rc, p.etext[-200:])
            elif a != b:
                n = sorted(z for z in set(a) | set(b) if a.get(z) != b.get(z))
                bad = "the directory tree differs in %s: %s and %s" % (n[:3], str(a.get(n[0]))[:200], str(b.get(n[0]))[:200])
        obs["io_scripts"] += 1
        if res:
            c.sample("script of %d operations on a tree of %d entries (%s): %s" % (len(ops), len(t), cfg, y[:12]))
        c.distinct.add(common.dist_hash(files["script.txt"]))
        if bad:
            c.violation("script of seed %d (%s): %s" % (seed, cfg, bad), files)
        shutil.rmtree(top, ignore_errors=True)

    common.pmap(script, [(c.rng.getrandbits(48), ["chibi", "llvm-O"][i % 2]) for i in range(c.budget(500, 8000))])

    # --- paths
    def paths(job):
        seed, cfg = job
        r = random.Random(seed)
        one = lambda: "".join(r.choice(["/", "/", "a", "b.c", ".", "..", "./", "../", ".x", "é", "d.", "foo.bar.baz", "//", "/..", "..."]) for _ in range(r.randrange(0, 7)))
        items = [(one(), one()) if r.random() < 0.4 else (one(), None) for _ in range(400)]
        toks = [x for p, q in items for x in ([30] + iodrv.enc(p) if q is None else [31] + iodrv.enc(p) + iodrv.enc(q))] + [0]
        w = os.path.join(c.tmp, "p%x" % seed)
        os.makedirs(w)
        os.chmod(w, 0o755)
        pr = common.sh(NOBODY + [d.exe[cfg]], cwd=w, input=" ".join(map(str, toks)).encode() + b"\n", timeout=60)
        lines = pr.text.split("\n")
        cwd = os.path.realpath(w)
        for i, (p, q) in enumerate(items):
            c.evaluations += 1
            obs["path_operations"] += 1
            g = drv.split(lines[i]) if i < len(lines) - 1 else ["(nothing, status %s %s)" % (pr.rc, pr.etext[-200:])]
            msg = path_ok(cwd, p, g) if q is None else join_ok(cwd, p, q, g)
            c.distinct.add(common.dist_hash("path %r %r" % (p, q)))
            if msg:
                if c.violation("paths (%s): %r%s: %s" % (cfg, p, "" if q is None else " and %r" % q, msg), {"d.llrl": d.src, "script.txt": "%s\n" % [p, q]}):
                    if len(c.violations) > 5:
                        return

    common.pmap(paths, [(c.rng.getrandbits(48), ["chibi", "llvm-O"][i % 2]) for i in range(c.budget(40, 400))])
    c.cov["observed"] = obs
    c.assumptions.append("the system's calls made from C are the oracle of the I/O library; text forms of floating point numbers other than plain decimals (hexadecimal, inf, nan, leading blanks) and results in the subnormal range are not judged")


def un(t):
    return bytes.fromhex(t[1:]).decode()


def join_ok(cwd, p, q, g):
    if len(g) != 3:
        return "answers %s" % g
    a, b, e = map(un, g)
    want = iodrv.canonical(iodrv.canonical(cwd, p), q)
    if b != want or e != want:
        return "joined: %r, canonicalized: %r and %r, should be %r" % (a, b, e, want)


def path_ok(cwd, p, g):
    try:
        canon, bn, dn = map(un, g[:3])
        g = g[3:]
        ext = None
        if g[0] == "N":
            g = g[1:]
        else:
            ext = un(g[1])
            g = g[2:]
        ab, rel = g[0], g[1]
        wext, woext, dext = map(un, g[2:5])
        comps = g[5:]
    except (IndexError, ValueError) as x:
        return "answers %s" % g
    if canon != iodrv.canonical(cwd, p):
        return "canonicalized: %r, should be %r" % (canon, iodrv.canonical(cwd, p))
    want = (["R"] if p.startswith("/") else []) + [{"": None, ".": "C", "..": "P"}.get(x, drv.shex(x)) for x in p.split("/") if x]
    if comps != want:
        return "components: %s, should be %s" % (comps, want)
    if ab != str(int(p.startswith("/"))) or rel != str(int(not p.startswith("/"))):
        return "absolute: %s, relative: %s" % (ab, rel)
    core = p.rstrip("/")
    tail = p[len(core):]
    last = core.rsplit("/", 1)[-1]
    wb = last if core else ("/" if p else "")
    if bn != wb:
        return "base name %r, should be %r" % (bn, wb)
    dirp = core[:len(core) - len(last)]
    wd = dirp.rstrip("/")
    if not wd:
        wd = "/" if p.startswith("/") else "."
    if (dn.rstrip("/") or ("/" if dn else "")) != wd:
        return "directory name %r, should be %r" % (dn, wd)
    dot = last.rfind(".")
    has = dot > 0
    if ext != (last[dot + 1:] if has else None):
        return "extension %r" % ext
    stem = core[:len(core) - len(last) + dot] if has else core
    if (wext, woext, dext) != (stem + ".e" + tail, stem + tail, p if has else core + ".d" + tail):
        return "with extension e %r, with none %r, by default d %r" % (wext, woext, dext)
