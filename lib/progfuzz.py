"""Program sources for the compiler-level monitors: a corpus of small modules, generated programs, and random edits of both."""
import json, os, random, re, resource, shutil, subprocess, tempfile
import common, sx, clsgen, hm, matchgen

P = '''(no-implicit-std)
(import "builtin" _)
(builtin-op not {(-> Bool Bool)} "not")
(builtin-op and {(-> Bool Bool Bool)} "and")
(builtin-op or {(-> Bool Bool Bool)} "or")
(builtin-op = {(-> I32 I32 Bool)} "integer.eq")
(builtin-op + {(-> I32 I32 I32)} "signed.add")
(builtin-op * {(-> I32 I32 I32)} "signed.mul")
(c-function putchar {(-> I32 I32)} "putchar")
(function (tf b) {(-> Bool unit)} (begin (putchar (if b 84 70)) unit))
(export _ tf putchar not and or = + *)
'''
HEAD = '(no-implicit-std)\n(import "~/p" _)\n'

_corpus = None


def corpus():
    """Modules of the language test cases (snapshot), without those that declare built-in types by hand."""
    global _corpus
    if _corpus is None:
        with open(os.path.join(common.VERIF, "corpus", "testcases.json")) as f:
            cs = json.load(f)
        _corpus = [e for e in cs if "m" in e["mods"] and "builtin-" not in str(e["mods"])]
    return _corpus


_pool = None


def pool():
    global _pool
    if _pool is None:
        _pool = [sx.read(v) for e in corpus() for v in e["mods"].values()]
    return _pool


def generated(r):
    """One program of the other generators, as modules."""
    k = r.randrange(3)
    if k == 0:
        while True:
            try:
                w = clsgen.World(r).generate()
                return {n[:-5]: t for n, t in w.files(w.layout(r.choice([1, 1, 2])), "").items()}
            except clsgen.Big:
                continue
    if k == 1:
        g = hm.Gen(r, r.choice([0, 0, 1, 2]))
        p = hm.resolve(g.wildprogram() if r.random() < 0.3 else g.program(), g.u)
        if p.main and hm.polyrec(p):
            p.main = []
        return {"m": p.source()}
    g = matchgen.G(r)
    for _ in range(r.randrange(1, 4)):
        g.declare()
    t = g.ty(r.choice([2, 3]))
    ps = g.clauses(t)
    m = "(match x\n    %s)" % "\n    ".join("[%s %d]" % (g.text(p, []), 33 + i) for i, p in enumerate(ps))
    src = "\n".join(g.decls) + "\n(function (f x) {(-> %s I32)}\n  %s)\n" % (g.show(t), m)
    try:
        vals = g.enum(t, ps, 200)
        src += "".join("(putchar (f %s))\n" % g.vtext(v) for v in r.sample(vals, min(8, len(vals))))
    except matchgen.TooBig:
        pass
    return {"m": src}


def program(r, edits=None):
    """-> (files, kind): an edited program; every module starts with HEAD."""
    k = r.random()
    if k < 0.6:
        mods = {n: sx.read(v) for n, v in r.choice(corpus())["mods"].items()}
        if r.random() < 0.3:
            o = r.choice(corpus())
            if set(o["mods"]) == {"m"}:
                mods["m"] = sx.L(list(sx.read(o["mods"]["m"])) + list(mods["m"]))
        kind = "corpus"
    else:
        mods = {n: sx.read(v) for n, v in generated(r).items()}
        kind = "generated"
    M = sx.Mutator(r, pool())
    n = r.choice([0, 1, 1, 1, 1, 2, 2, 3, 4]) if edits is None else edits
    for _ in range(n):
        M.edit(mods[r.choice(sorted(mods))])
    files = {n + ".llrl": HEAD + sx.show_module(v) for n, v in mods.items()}
    if edits is None and r.random() < 0.08:
        n = r.choice(sorted(files))
        files[n] = HEAD + sx.garble(r, files[n][len(HEAD):]).decode("utf-8", "surrogateescape")
        kind += ", garbled text"
    files["p.llrl"] = P
    return files, kind


def write(files, d):
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(t)


FLOATLIT = re.compile(r"(?<![^\s()\[\]{}'`,])[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?(?=[\s()\[\]{}'\";]|$)")


def odd_float(files):
    """Does the text contain a float literal outside the range both readers take (see known findings)?"""
    for t in files.values():
        for m in FLOATLIT.finditer(t):
            x = m.group()
            if re.fullmatch(r"[+-]?\d+", x):
                if len(x) > 18:
                    return True
                continue
            try:
                v = abs(float(x))
            except ValueError:
                return True
            if len(x) > 40 or v > 1e308 or (v < 1e-300 and re.search(r"[1-9]", x.lower().split("e")[0])):
                return True
    return False


def superclass_cycle(files):
    """Do the class declarations reach themselves through their superclasses? (compilers overflow their stack: known finding)"""
    edges = {}
    for n, t in files.items():
        if n == "p.llrl":
            continue
        for f in sx.read(t):
            if not (isinstance(f, sx.L) and len(f) > 1 and f[0] == "class"):
                continue
            h = f[1][0] if isinstance(f[1], sx.L) and f[1] else f[1]
            if not isinstance(h, str):
                continue
            for x in f[2:]:
                if isinstance(x, sx.L) and x and x[0] == "where":
                    for y in x[1:]:
                        k = y[0] if isinstance(y, sx.L) and y else y
                        if isinstance(k, str):
                            edges.setdefault(h, set()).add(k)
    seen = {}

    def dfs(x):
        seen[x] = 1
        for y in edges.get(x, ()):
            if seen.get(y) == 1 or (y not in seen and dfs(y)):
                return True
        seen[x] = 2
        return False
    return any(x not in seen and dfs(x) for x in list(edges))


def rss_run(cmd, cwd, timeout, stack=None):
    """Like common.sh, also returning the peak resident size in bytes."""
    pre = ["prlimit", "--stack=%d" % stack] if stack else []
    with tempfile.TemporaryFile() as o, tempfile.TemporaryFile() as e:
        p = subprocess.Popen(pre + cmd, cwd=cwd, env=common.env(), stdin=subprocess.DEVNULL, stdout=o, stderr=e, start_new_session=True)
        import threading
        t = threading.Timer(timeout, lambda: os.killpg(p.pid, 9))
        t.start()
        _, st, ru = os.wait4(p.pid, 0)
        t.cancel()
        p.returncode = os.waitstatus_to_exitcode(st)
        return p.returncode, ru.ru_maxrss * 1024


def outcome(compiler, d, exe, p):
    """Classify one compiler run: ok / reject / timeout / overflow / crash."""
    text = p.text + p.etext
    if p.timed_out:
        return "timeout", ""
    if p.rc == 0:
        return ("ok", "") if os.path.exists(exe) else ("crash", "exit status 0 but no executable")
    if "has overflowed its stack" in text:
        return "overflow", ""
    if p.rc == 1 and text.strip() and "panicked at" not in text:
        return "reject", text
    m = re.search(r"panicked at (\S+?):\d+:\d+:\s*\n?(.*)", text)
    if m:
        return "crash", "panic at %s: %s" % (m[1], m[2][:160])
    if p.rc == -11:
        return "signal", "signal 11"
    return "crash", ("status %s: " % p.rc) + text.strip()[:200]


def compile_only(compiler, d, timeout=30, name="m", extra=()):
    exe = os.path.join(d, "x.exe")
    cmd = [compiler, "-b", "chibi", *extra, "-o", exe, name]
    p = common.sh(cmd, cwd=d, timeout=timeout)
    k, why = outcome(compiler, d, exe, p)
    if k == "signal":
        # a runaway recursion eats any stack it is given; another fault does not
        rc, rss = rss_run(cmd, d, 60, stack=1 << 30)
        k, why = ("overflow", "") if rss > 700 << 20 else ("crash", "signal 11")
    return k, why, p, exe
