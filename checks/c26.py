"""C26: random command lines, features, packages, arguments, run statuses and faults given to the real compilers; status, output and files left behind checked against a model."""
import os, random, re, shutil, stat as st_, signal
import common

FEATS = ["fa", "fb", "a-b", "x1", "fa-long", "debug"]


def rand_arg(r):
    k = r.randrange(10)
    if k == 0:
        return ""
    if k == 1:
        return r.choice(["-", "--", "-r", "-o", "--help", "-h", "--version", "-O", "--output=x", "-fx", "m", "m.llrl", "=", "*", "$HOME", "`x`", "\\", "'", "\"", " ", "\n", "a b", "%s", "~", "..", "-b", "chibi"])
    alpha = r.choice(["abc", "ab cd\t\n", "äöü€𝄞\U0010ffff", "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~", "\x01\x02\x7f\x1b"])
    return "".join(r.choice(alpha) for _ in range(r.choice([1, 2, 3, 7, 30, 300, 5000])))


def run(c):
    llrl0 = common.build_llrl0()
    llrl1 = c.llrl1(llrl0)
    c.rule = ("one evaluation is one command line given to one compiler: exit status, standard output, the executable and the files left behind were checked against the model; distinct by "
              "compiler and command line")
    obs = {"runs_started": 0, "arguments_compared": 0, "argument_bytes": 0, "statuses_passed_on": 0, "signals": 0, "errors_reported": 0, "features_set": 0, "packages": 0, "faults": {}, "llrl0": 0, "llrl1": 0,
           "temporary_directories_checked": 0, "stdin_bytes_passed": 0}

    def setup(r, d):
        """sources of one invocation: the program, its packages; returns the model's expectations"""
        os.makedirs(d + "/tmp")
        w = {}
        pk = {}
        for k in range(r.choice([0, 0, 1, 1, 2, 3])):
            name = r.choice(["p%d", "pack-%d", "P.%d", "x_%d"]) % k
            base = r.choice(["dep%d", "a.b%d", "lib-%d"]) % k
            dirn = r.choice(["", "deps/", "deps/in ner/"]) + base
            mods = {}
            for m in r.sample(["prelude", "util", "sub/deep", "x.y", "z"], r.randint(1, 4)):
                mods[m] = r.sample([x for x in mods], min(len(mods), r.choice([0, 0, 1])))
            pk[name] = [dirn, mods, base]
        for name, (dirn, mods, base) in pk.items():
            for m, deps in mods.items():
                t = '(no-implicit-std)\n(import "builtin" _)\n(c-function putchar {(-> I32 I32)} "putchar")\n'
                for x in deps:
                    t += '(import "%s" _)\n' % ("~" if x == "prelude" and r.random() < 0.5 else "~/" + x)
                t += "".join("(putchar %d)\n" % ord(ch) for ch in "<%s:%s>" % (dirn.split("/")[-1], m))
                w["%s/%s.llrl" % (dirn, m)] = t
        return w, pk

    def program(r, pk, uses, feats, mode, arg):
        t = '(import "std/system" args exit!)\n(c-function putchar {(-> I32 I32)} "putchar")\n(c-function getchar {(-> I32)} "getchar")\n(c-function raise {(-> I32 I32)} "raise")\n'
        for name, m in uses:
            t += '(import "%s")\n' % (name if m == "prelude" and r.random() < 0.6 else name + "/" + m)
        for f in feats:
            t += '($when ($feature "%s") (println! "F:%s"))\n' % (f, f)
        t += '(for (let a) (args) (println! "A:" (string/length a) ":" a))\n'
        if mode == "exit":
            t += '(exit! %d)\n' % arg
        elif mode == "raise":
            t += '(raise %d)\n' % arg
        elif mode == "cat":
            t += '(let ([c (ref (getchar))]) (while (ne? ~c -1) (putchar ~c) (set! c (getchar))))\n'
        elif mode == "bad":
            t += r.choice(["(undefined-name)\n", "(println! (+ 1 \"a\"))\n", "(let ([x 1]\n", "(import \"~/nothere\")\n", "(match 1 [2 3])\n"])
        return t

    def expected_imports(uses, pk):
        out, seen = [], set()

        def go(n, m):
            if (n, m) in seen:
                return
            seen.add((n, m))
            for x in pk[n][1][m]:
                go(n, x)
            out.append("<%s:%s>" % (pk[n][0].split("/")[-1], m))
        for n, m in uses:
            go(n, m)
        return "".join(out)

    def opt(r, short, long, val, who):
        k = r.randrange(4 if who == "llrl0" else 3)
        return [[short, val], [long, val], [short + val] if val else [short, val], [long + "=" + val]][k]

    def one(job):
        seed, who, fault = job
        if len(c.violations) >= 5 or (who == "llrl1" and not llrl1):
            return
        r = random.Random(seed)
        d = os.path.join(c.tmp, "w%x" % seed)
        shutil.rmtree(d, ignore_errors=True)
        files, pk = setup(r, d)
        allmods = [(n, m) for n, v in pk.items() for m in v[1]]
        uses = r.sample(allmods, min(len(allmods), r.randint(0, 4)))
        used = {n for n, _ in uses}
        progfeats = r.sample(FEATS, r.randint(0, 4))
        mode = r.choice(["exit", "exit", "none", "none", "raise", "cat"])
        if fault in ("badsource",):
            mode = "bad"
        arg = {"exit": r.choice([0, 1, 2, 3, 42, 127, 128, 255]), "raise": r.choice([int(signal.SIGABRT), int(signal.SIGTERM), int(signal.SIGKILL), int(signal.SIGSEGV), int(signal.SIGFPE)])}.get(mode, 0)
        name = r.choice(["m", "prog/main", "a-b", "m.v2", "prelude"])
        files[name + ".llrl"] = program(r, pk, uses, progfeats, mode, arg)
        if "." in name:
            files[name.split(".")[0] + ".llrl"] = '(println! "WRONG MODULE")\n'
        onfeats = r.sample(FEATS + ["unused", "é", "a b"], r.randint(0, 4))
        cmd = []
        cfg = r.choice(["chibi"] * 5 + ["llvm"]) if who == "llrl0" else "chibi"
        parts = [opt(r, "-b", "--backend", cfg, who)]
        for f in onfeats:
            parts.append(opt(r, "-f", "--feature", f, who))
        if r.random() < 0.2:
            parts.append([r.choice(["-O", "--optimize"])])
        bad = None
        for n, (dirn, mods, base) in sorted(pk.items()):
            if n in used or r.random() < 0.3:
                p = dirn if r.random() < 0.6 else os.path.join(d, dirn)
                parts.append(opt(r, "-p", "--package", n + ":" + p, who))
                obs["packages"] += 1
        out = None
        if r.random() < 0.6 or fault in ("stale", "outdir", "outisdir"):
            out = r.choice(["x", "out/x", d + "/abs x", "./y", "x.exe"])
            if out == "out/x":
                os.makedirs(d + "/out")
        runflag = r.random() < 0.5 or fault == "stale"
        extra_env = {"TMPDIR": d + "/tmp"}
        args = [rand_arg(r) for _ in range(r.choice([0, 0, 1, 2, 3, 8, 40]))] if r.random() < 0.7 else []
        ents = [name + (".llrl" if r.random() < 0.3 else "")]
        # ---- faults: what must be reported
        if fault == "missing-entry":
            ents = [r.choice(["nothere", "no/where", "m/", "", "/etc/passwd", "../m", "prog//main", "./m"])]
            bad = "entry"
        elif fault == "two-packages":
            n = r.choice(["q", "std", "builtin"])
            os.makedirs(d + "/qq", exist_ok=True)
            parts += [["-p", n + ":qq"], ["-p", n + ":" + r.choice(["qq", d])]]
            bad = "package"
        elif fault == "unknown-package":
            files[name + ".llrl"] += '(import "%s")\n' % r.choice(["nopack", "nopack/x", "p0x/util", "~/nothere", "std/nothere"])
            bad = "unknown"
        elif fault == "bad-package":
            parts.append(["-p", r.choice(["a:b:c", "..", "a/b:x", ".:x", "/"])])
            bad = "package"
        elif fault == "bad-option":
            parts.append(r.choice([["--nonsense"], ["-z"], ["-b", "nobackend"], ["--backend", ""]]))
            if parts[-1][0] in ("-b", "--backend"):
                parts = parts[1:]
            bad = "option"
        elif fault == "no-entry":
            ents = []
            bad = "entry"
        elif fault == "badsource":
            bad = "source"
        elif fault == "stale":
            files[name + ".llrl"] = program(r, pk, uses, progfeats, "bad", 0)
            bad = "stale"
        elif fault == "outdir":
            out = r.choice(["missing/x", d + "/missing/dir/x", "m.llrl/x"])
            bad = "output"
        elif fault == "outisdir":
            os.makedirs(d + "/isdir/sub", exist_ok=True)
            out = "isdir"
            bad = "output"
        elif fault in ("clang-fails", "clang-killed", "clang-partial"):
            os.makedirs(d + "/bin")
            body = {"clang-fails": "echo some linker error >&2; exit %d" % r.choice([1, 2, 255]), "clang-killed": "kill -%d $$; sleep 5" % r.choice([9, 11, 15]),
                    "clang-partial": 'printf "#!/bin/sh\\necho PARTIAL\\n" > "$2"; chmod +x "$2"; exit 1'}[fault]
            with open(d + "/bin/clang", "w") as f:
                f.write("#!/bin/sh\n" + body + "\n")
            os.chmod(d + "/bin/clang", 0o755)
            extra_env["PATH"] = d + "/bin:" + common.env()["PATH"]
            bad = "link"
        elif fault == "no-clang":
            os.makedirs(d + "/bin")
            extra_env["PATH"] = d + "/bin"
            bad = "link"
        elif fault == "no-tmp":
            extra_env["TMPDIR"] = d + "/notmp"
            bad = "tmp"
        elif fault == "unresolved-symbol":
            files[name + ".llrl"] += '(c-function nosuch {(-> I32 I32)} "no_such_function_anywhere")\n(function (never) {(-> I32)} (nosuch 1))\n(when (eq? (getchar) 999) (ignore (never)))\n'
            bad = "link"
        elif fault == "tmp-full":
            bad = "tmpfull"
        if out is not None:
            parts.append(opt(r, "-o", "--output", out, who))
        if runflag:
            parts.append([r.choice(["-r", "--run"])])
        parts += [[e] for e in ents]
        r.shuffle(parts)
        cmd = [x for p in parts for x in p]
        if args:
            cmd += ["--"] + args
        for k, x in files.items():
            p = os.path.join(d, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(x)
        exe = os.path.join(d, out) if out is not None else None
        stale = False
        if exe and (fault == "stale" or (bad and fault not in ("outdir", "outisdir") and r.random() < 0.5)):
            with open(exe, "w") as f:
                f.write("#!/bin/sh\necho STALE\n")
            os.chmod(exe, 0o755)
            stale = True
        before = {os.path.join(a, x) for a, _, fs in os.walk(d) for x in fs}
        stdin = bytes(r.choice(b"abc\n\x00\xff") for _ in range(r.choice([0, 1, 100, 5000]))) if mode == "cat" else b""
        full = [llrl0 if who == "llrl0" else llrl1] + cmd
        if fault == "tmp-full":
            full = ["sh", "-c", "ulimit -f %d; exec \"$@\"" % r.choice([0, 1, 8]), "sh"] + full
        p = common.sh(full, cwd=d, timeout=150, extra_env=extra_env, input=stdin)
        obs[who] += 1
        c.evaluations += 1
        c.distinct.add(common.dist_hash(who + repr(cmd) + fault))
        if p.timed_out:
            c.inconclusive += 1
            shutil.rmtree(d, ignore_errors=True)
            return
        msg = None
        runs = out is None or runflag or bool(args)
        want = expected_imports(uses, pk) + "".join("F:%s\n" % f for f in progfeats if f in onfeats)
        want = want.encode() + "".join("A:%d:%s\n" % (len(a.encode()), a) for a in args).encode()
        after = {os.path.join(a, x) for a, _, fs in os.walk(d) for x in fs}
        new = sorted(os.path.relpath(x, d) for x in after - before)
        left = sorted(os.listdir(d + "/tmp"))
        if bad:
            obs["faults"][fault] = obs["faults"].get(fault, 0) + 1
            if p.rc == 0:
                msg = "the request fails (%s), but the exit status is 0" % fault
            elif b"STALE" in p.out or b"PARTIAL" in p.out or (want and want in p.out and not want.isspace()):
                msg = "the request fails (%s), but a program was run: %r" % (fault, p.out[:200])
            elif not p.err and bad not in ("tmpfull",) and not p.out:
                msg = "the request fails (%s) without any message" % fault
            else:
                obs["errors_reported"] += 1
        else:
            if not runs:
                if p.rc:
                    msg = "a correct program was not compiled: status %s, %s" % (p.rc, (p.text + p.etext)[:600])
                elif p.out:
                    msg = "running was not requested, but something was printed: %r" % p.out[:300]
                elif not (exe and os.path.exists(exe) and os.access(exe, os.X_OK)):
                    msg = "the requested executable was not written"
                else:
                    p = common.sh([exe], cwd=d, input=stdin)
            if not msg:
                obs["runs_started"] += 1
                got = p.out
                if mode == "raise":
                    obs["signals"] += 1
                    ok = (p.rc == -arg) if not runs else p.rc != 0
                    if not ok:
                        msg = "the program was ended by signal %d, but the exit status is %s" % (arg, p.rc)
                    elif not want.startswith(got):
                        msg = "printed %r, expected a prefix of %r" % (got[:300], want[:300])
                else:
                    if mode == "cat":
                        want += stdin
                        obs["stdin_bytes_passed"] += len(stdin)
                    obs["statuses_passed_on"] += 1
                    if got != want:
                        msg = "printed %r, expected %r (status %s, %s)" % (got[:300], want[:300], p.rc, p.etext[:400])
                    elif p.rc != arg:
                        msg = "the program ended with status %d, the compiler with %s: %s" % (arg, p.rc, p.etext[:300])
                    obs["arguments_compared"] += len(args)
                    obs["argument_bytes"] += sum(len(a.encode()) for a in args)
                    obs["features_set"] += len(onfeats)
            if not msg and exe and runs and not os.path.exists(exe):
                msg = "the requested executable was not written"
            expect_new = [os.path.relpath(exe, d)] if exe else []
            if not msg and [x for x in new if x not in expect_new]:
                msg = "left files behind: %s" % new
        if not msg and left and not fault.startswith(("tmp-full", "clang-killed", "no-clang")):
            msg = "left temporary files behind: %s" % left
        obs["temporary_directories_checked"] += 1
        if msg:
            c.violation("%s %s (seed %d, %s): %s" % (who, " ".join(repr(x) if re.search(r"[^\w./:-]", x) else x for x in [a if len(a) < 60 else a[:40] + "..." for a in cmd])[:700], seed, fault or "no fault", msg), files)
        c.sample({"command": cmd[:14], "expected": (bad or want.decode("utf-8", "replace"))[:300], "status": p.rc}, limit=5)
        shutil.rmtree(d, ignore_errors=True)

    n = c.budget(1, 15)
    faults = ["missing-entry", "two-packages", "unknown-package", "bad-package", "bad-option", "no-entry", "badsource", "stale", "outdir", "outisdir", "clang-fails", "clang-killed", "clang-partial",
              "no-clang", "no-tmp", "unresolved-symbol", "tmp-full"]
    jobs = [(c.rng.getrandbits(48), w, "") for w, k in (("llrl0", 170), ("llrl1", 60)) for _ in range(k * n)]
    jobs += [(c.rng.getrandbits(48), w, f) for f in faults for w, k in (("llrl0", 5), ("llrl1", 2)) for _ in range(k * n) if (w, f) != ("llrl1", "no-tmp")]
    c.rng.shuffle(jobs)
    common.pmap(one, jobs, 8)
    c.cov["observed"] = obs
