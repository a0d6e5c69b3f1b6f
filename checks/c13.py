"""C13: whatever the sources, each compiler ends with a program or with a diagnostic and a failing status."""
import os, random, re, shutil
import common, abuse, progfuzz as F, proggen, sx

HANG = 90
ELF = b"\x7fELF"


def texts(r):
    """file contents that are not programs"""
    k = r.randrange(9)
    if k == 0:
        return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 30, 400])))
    if k == 1:
        return "".join(r.choice("()[]{}'`,@~#\\\";|: \n\tab1-.") for _ in range(r.choice([1, 3, 10, 60, 300]))).encode()
    if k == 2:
        return r.choice([b"", b"\n", b" ", b"; comment", b"\xef\xbb\xbf", b"\x00", b"#!", b"\"", b"\"\\", b"#\\", b"(", b")", b"'", b",@", b"\"\\x", b"\"\\u{110000}\"", b"#\\ud800", b"-", b"+", b".", b"1.", b".5",
                         b"1e", b"1e+", b"--1", b"0x10", b"1/2", b"{}", b"{I32}", b"()", b"(())", b"(: )", b"~", b"~x", b"'", b"''a", b"`,@a", b"[)", b"(]", b"\\", b"\\ ", b"a\\ b", b"|", b"#t#f", b"#|", b"\r\n", b"\xff", b"\xe8\xa9"])
    if k == 3:      # nesting
        n = r.choice([10, 50, 100, 200])
        o, e = r.choice([("(", ")"), ("[", "]"), ("'", ""), ("(begin ", ")"), ("(if #t 1 ", ")"), ("(let ([x 1]) ", ")"), ("{", "}"), ("`", ""), (",", ""), ("(f ", ")"), ("(match 1 [1 ", "])")])
        return (o * n + "1" + (e * n if r.random() < 0.8 else "")).encode()
    if k == 4:      # a long flat form
        n = r.choice([17, 100, 1000])
        return ("(" + r.choice(["f", "begin", ":", "import", "data T", "match 1", "let"]) + r.choice([" 1", " x", " ()", " [x 1]", " \"s\""]) * n + ")").encode()
    if k == 5:      # names
        n = r.choice(["a" * r.choice([300, 5000]), "話", "a/b", "a.b", "..", "~/m", "\\\"", "%s", "\u00e9", "x\u0301", "\u202e"])
        return ("(function (%s x) {(-> I32 I32)} x)\n(%s 1)\n" % (n, n)).encode()
    if k == 6:
        return ("\"%s\"" % r.choice(["\\n" * 1000, "\\", "\\q", "\\x41", "\\u{41}", "\n", "\x01", "é" * 500])).encode()
    if k == 7:
        return ("%s\n" % r.choice(["9" * 40, "-" + "9" * 25, "1." + "0" * 400, "1e308", "1e309", "1e-400", "0." + "0" * 400 + "1", "1_000", "+1", "0b1", "18446744073709551615", "18446744073709551616", "-9223372036854775809"])).encode()
    e = r.choice(F.corpus())
    return sx.garble(r, e["mods"]["m"])


def graph(r):
    """-> (files, name of the program): module graphs that are wrong in some way, or unusual and right"""
    h = F.HEAD
    k = r.randrange(16)
    m = {"p.llrl": F.P}
    if k == 0:
        m["m.llrl"] = h + '(import "~/nowhere" _)\n'
    elif k == 1:
        m["m.llrl"] = h + '(import "~/m" _)\n'
    elif k == 2:
        n = r.choice([2, 3, 6])
        for i in range(n):
            m["k%d.llrl" % i] = h + '(import "~/k%d" _)\n(function (f%d) {(-> I32)} %d)\n(export f%d)\n' % ((i + 1) % n, i, i, i)
        m["m.llrl"] = h + '(import "~/k0" _)\n'
    elif k == 3:
        m["m.llrl"] = h + '(import "%s" _)\n' % r.choice(["", "/", "~", "~/", "..", "~/..", "~/../m", "nopackage/x", "std", "std/", "std/nothing", "std/../std", "/etc/passwd", "~//p", "~/p/", "~/p.llrl", "\\n", "~/话", "a b", "~/ p", "." * 3000])
    elif k == 4:
        m["q.llrl"] = texts(r).decode("utf-8", "surrogateescape")
        m["m.llrl"] = h + '(import "~/q" _)\n(putchar 65)\n'
    elif k == 5:
        m["q/r.llrl"] = h + "(function (f) {(-> I32)} 65)\n(export f)\n"
        m["m.llrl"] = h + '(import "~/q%s" _)\n(putchar 65)\n' % r.choice(["", "/", "/r", "/r/", "/s"])
    elif k == 6:        # a chain
        n = r.choice([5, 30, 100])
        for i in range(n):
            m["k%d.llrl" % i] = h + ('(import "~/k%d" _)\n' % (i + 1) if i + 1 < n else "") + "(function (f%d) {(-> I32)} %s)\n(export _ f%d)\n" % (i, "(f%d)" % (i + 1) if i + 1 < n else "66", i)
        m["m.llrl"] = h + '(import "~/k0" _)\n(putchar (f0))\n'
    elif k == 7:        # the same name twice
        for n in "ab":
            m[n + ".llrl"] = h + "(function (f) {(-> I32)} 65)\n(data T t)\n(export f T t)\n"
        m["m.llrl"] = h + '(import "~/a" %s)\n(import "~/b" %s)\n(putchar (f))\n' % (r.choice(["_", "f"]), r.choice(["_", "f", "T"]))
    elif k == 8:
        m["a.llrl"] = h + "(function (f) {(-> I32)} 65)\n(export %s)\n" % r.choice(["f", "g", "_", "f f", "()", "f g", "1", "(f g)", "\"f\""])
        m["m.llrl"] = h + '(import "~/a" %s)\n(putchar (f))\n' % r.choice(["_", "f", "g", "f f", "()", "(f g)", "", "f g", "1", "\"f\""])
    elif k == 9:
        m["m.llrl"] = h + r.choice(["(import)", "(import 1)", "(import x _)", '(import "~/p")', '(import "~/p" _ _)', "(export)", "(export _)", "(export nothing)", "(no-implicit-std)", "(no-implicit-std 1)", "(export _ _)", "(export m)"]) + "\n"
    elif k == 10:
        m = {"p.llrl": F.P, r.choice(["other.llrl", "m", "m.LLRL", "M.llrl", "m.llrl.llrl"]): h}
    elif k == 11:
        m["m.llrl/x.llrl"] = h
    elif k == 12:
        m["m.llrl"] = texts(r).decode("utf-8", "surrogateescape")
    elif k == 13:       # diamonds
        n = r.choice([4, 12])
        for i in range(n):
            m["a%d.llrl" % i] = h + ('(import "~/a%d" _)\n(import "~/b%d" _)\n' % (i + 1, i + 1) if i + 1 < n else "") + "(data A%d a%d)\n(export _ A%d a%d)\n" % (i, i, i, i)
            m["b%d.llrl" % i] = h + ('(import "~/a%d" _)\n(import "~/b%d" _)\n' % (i + 1, i + 1) if i + 1 < n else "") + "(data B%d b%d)\n(export _ B%d b%d)\n" % (i, i, i, i)
        m["m.llrl"] = h + '(import "~/a0" _)\n(import "~/b0" _)\na%d\n(putchar 65)\n' % (n - 1)
    elif k == 14:
        m["m.llrl"] = h + "(putchar 65)\n" * r.choice([1, 500])
        m["q.llrl"] = texts(r).decode("utf-8", "surrogateescape")      # not part of the program
    else:
        m["q.llrl"] = h + "(macro (mm s) (ok s))\n(export mm)\n"
        m["m.llrl"] = h + '(import "~/q" %s)\n(mm 1)\n' % r.choice(["_", "mm", "nothing"])
    return m, r.choice(["m"] * 12 + ["nothing", "", "m.llrl", "~/m", ".", "..", "p", "x/y"])


def run(c):
    llrl0 = common.build_llrl0()
    llrl1 = c.llrl1(llrl0)
    comp = [("llrl0", llrl0)] + ([("llrl1", llrl1)] if llrl1 else [])
    c.rule = ("one evaluation is one set of source files given to one compiler, whose exit status, signal, diagnostic, time and output file were observed; "
              "distinct by source text and compiler")
    c.assumptions = ["macros of the program itself that produce themselves without end are outside the domain, as are unsafe built-in operations used at a wrong type",
                     "no answer within %d s (the slowest ordinary program takes 3 s) and no runaway recursion detected counts as a hang only when it happens again alone" % HANG]
    stat = {"accepted": 0, "rejected": 0, "known_endless_recursion": 0, "executables_started": 0, "kinds": {}}
    reports = {}

    def judge(files, name, kind, seed):
        for cn, cc in comp:
            d = os.path.join(c.tmp, "%s%x" % (cn, seed))
            F.write(files, d)
            try:
                k, w, p, x = F.compile_only(cc, d, HANG, name)
                if k == "timeout":
                    k, w, p, x = F.compile_only(cc, d, 3 * HANG, name)
                msg = key = None
                if k == "overflow":
                    if "(macro" in "".join(files.values()):
                        c.inconclusive += 1
                        continue
                    key = endless(files, d, cc, name)
                    stat["known_endless_recursion"] += key is not None
                    msg = "the compiler overflows its stack"
                elif k == "timeout":
                    msg = "no answer within %d s" % (3 * HANG)
                elif k == "crash":
                    msg = "neither a program nor a diagnostic: " + w
                    if re.match(r"(panic at llrl0/src/ast/builtin.rs|status -6): Unsupported (fun arity|tuple size): \d+", w):
                        key = "more-than-16-parameters"
                elif k == "ok":
                    stat["accepted"] += 1
                    b = open(x, "rb").read(4)
                    if b != ELF or not os.access(x, os.X_OK):
                        msg = "success was reported but the output is not an executable: %r" % b
                    else:
                        q = common.sh([x], cwd=d, timeout=5)
                        stat["executables_started"] += 1
                        if q.rc in (126, 127):
                            msg = "the executable does not start: %s" % (q.text + q.etext)[:300]
                else:
                    stat["rejected"] += 1
                    if os.path.exists(x):
                        msg = "a diagnostic was given and yet an executable was left: " + w[:300]
                    m = re.sub(r"[~\w/]*:\d+:\d+-\d+:\d+: ", "", w).split(":")[0].split("\n")[0][:24]
                    reports[m] = reports.get(m, 0) + 1
                c.evaluations += 1
                stat["kinds"][kind] = stat["kinds"].get(kind, 0) + 1
                fs = {n: t.encode("utf-8", "surrogateescape") for n, t in files.items()}
                c.distinct.add(common.dist_hash(cn.encode() + b"\0".join(n.encode() + t for n, t in sorted(fs.items())) + name.encode()))
                if msg:
                    c.violation("%s, %s (seed %d, program '%s'): %s" % (cn, kind, seed, name, msg), fs, key=key)
                c.sample({"kind": kind, "program": fs.get("m.llrl", b"")[-300:].decode("utf-8", "replace"), "outcome": k, "diagnostic": w[:200]}, limit=8)
            finally:
                shutil.rmtree(d, ignore_errors=True)

    def endless(files, d, cc, name):
        """which listed finding, if any, a stack overflow is"""
        # polymorphic recursion: monomorphisation from the entry point does not end; with nothing to run the same declarations compile
        quiet = {}
        for n, t in files.items():
            try:
                m = sx.read(t)
            except Exception:
                return None
            quiet[n] = sx.show_module(sx.L(f for f in m if isinstance(f, sx.L) and f and isinstance(f[0], str) and
                                           f[0] in ("no-implicit-std", "import", "export", "function", "transparent-function", "data", "value-data", "class", "instance", "builtin-op", "c-function", "builtin-type")))
        shutil.rmtree(d, ignore_errors=True)
        F.write(quiet, d)
        k, w, p, x = F.compile_only(cc, d, HANG, name)
        return "polymorphic-recursion" if k == "ok" else None

    def edited(seed):
        r = random.Random(seed)
        judge(F.program(r, edits=r.choice([1, 2, 4, 6, 10]))[0], "m", "edited program", seed)

    def text(seed):
        r = random.Random(seed)
        judge({"m.llrl": (F.HEAD if r.random() < 0.5 else "(no-implicit-std)\n" if r.random() < 0.6 else "") + texts(r).decode("utf-8", "surrogateescape"), "p.llrl": F.P}, "m", "arbitrary text", seed)

    def modules(seed):
        fs, name = graph(random.Random(seed))
        judge(fs, name, "module graph", seed)

    def macros(seed):
        judge({"m.llrl": abuse.module(random.Random(seed))}, "m", "macro and special form uses", seed)

    def std(seed):
        r = random.Random(seed)
        m = sx.read(proggen.Gen(r, r.choice(["mixed", "data"])).program(3, 4)[0])
        for _ in range(r.choice([1, 2, 4])):
            sx.Mutator(r, F.pool()).edit(m)
        judge({"m.llrl": sx.show_module(m)}, "m", "edited program using the standard library", seed)

    def guarded(j):
        if len(c.violations) < 5:
            j[0](j[1])
    # listed findings, probed on every run
    for i, (k, src) in enumerate((("more-than-16-parameters", "(: %s)\n" % " ".join("1" * 17)),
                                  ("polymorphic-recursion", "(data (B A) (b A))\n(function (f x n) {(forall A) (-> A I32 I32)} (if (= n 0) 65 (f (b x) n)))\n(f 1 3)\n"))):
        judge({"m.llrl": F.HEAD + src, "p.llrl": F.P}, "m", "probe of a listed finding", i)
    n = c.budget(1, 12)
    jobs = [(f, c.rng.getrandbits(47)) for f, k in ((edited, 900), (text, 450), (modules, 500), (macros, 60), (std, 30)) for _ in range(k * n)]
    c.rng.shuffle(jobs)
    common.pmap(guarded, jobs)
    c.cov["observed"] = stat
    c.cov["diagnostics"] = dict(sorted(reports.items(), key=lambda x: -x[1])[:40])
