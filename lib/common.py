"""Shared machinery of the checks: building /repo, running programs, verdicts, evidence.

Three-valued outcome: a check ends with exit 0 (held), exit 1 + VIOLATION line (an oracle saw a
violation), or exit 2 (the check itself could not decide: build broke, time out, nothing observed).
"""
import json, os, sys, threading, traceback, time, subprocess, random, shutil, signal, tempfile, fcntl, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = 8


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/usr/lib/llvm-14/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for d in os.environ.get("PATH", "").split(":"):
        if d and d not in e["PATH"].split(":"):
            e["PATH"] += ":" + d
    e["LLVM_SYS_110_PREFIX"] = "/usr/lib/llvm-14"
    e["LLVM_SYS_110_FFI_WORKAROUND"] = "YES"
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "1"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = TARGET
    e["RUST_BACKTRACE"] = "0"
    e["LC_ALL"] = "C"
    for k in ("MAKEFLAGS", "RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    return e


class Broken(Exception):
    """The check cannot decide (not a verdict on the property)."""


def sh(cmd, cwd=None, timeout=600, extra_env=None, input=None):
    e = env()
    if extra_env:
        e.update(extra_env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(input, timeout=timeout)
        return Proc(p.returncode, out, err, False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return Proc(None, out, err, True)


class Proc:
    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out

    @property
    def text(self):
        return self.out.decode("utf-8", "replace")

    @property
    def etext(self):
        return self.err.decode("utf-8", "replace")


def _lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_rt():
    """rt/libllrt.a from the current tree (a git-ignored product; rt/build.rs ignores a failing make)."""
    p = sh(["make", "-B", "-C", REPO + "/rt"], timeout=120)
    if p.rc != 0:
        raise Broken("rt does not build: " + p.etext[-800:])
    # rt/build.rs declares no inputs for cargo when the archive changes: make cargo look again
    src = REPO + "/rt/libllrt.a"
    h = hashlib.sha256(b"".join(open(os.path.join(REPO, "rt", f), "rb").read()
                                for f in ("rt.c", "rt.h", "Makefile", "build.rs", "llrt.rs"))).hexdigest()
    stamp = os.path.join(BUILD, "rt.stamp")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        sh(["cargo", "clean", "--offline", "-p", "llrt", "--release"], cwd=REPO, timeout=120)
        sh(["cargo", "clean", "--offline", "-p", "llrt"], cwd=REPO, timeout=120)
        with open(stamp, "w") as f:
            f.write(h)
    return src


def build_llrl0():
    """llrl0 (release) from /repo's current working tree, into /verif/build/target."""
    with _lock():
        build_rt()
        p = sh(["cargo", "build", "--release", "-p", "llrl0", "--offline", "--locked"], cwd=REPO, timeout=800)
        if p.rc != 0:
            raise Broken("llrl0 does not build: " + p.etext[-1500:])
        return os.path.join(TARGET, "release", "llrl0")


def build_harness(name, extra=(), timeout=800, extra_env=None, toolchain=None):
    """A Rust harness crate under /verif/harness/<name> (path-depends on /repo's crates)."""
    with _lock():
        build_rt()
        d = os.path.join(VERIF, "harness", name)
        lock = os.path.join(d, "Cargo.lock")
        cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + ["build", "--release", "--offline", *extra]
        ee = {"CARGO_TARGET_DIR": os.path.join(BUILD, name + "-target"), **(extra_env or {})}
        if toolchain:
            ee["RUSTUP_TOOLCHAIN"] = toolchain
        p = sh(cmd, cwd=d, timeout=timeout, extra_env=ee)
        if p.rc != 0:
            raise Broken("harness %s does not build: %s" % (name, p.etext[-3000:]))
        return os.path.join(ee["CARGO_TARGET_DIR"], "release", name)


def build_llrl1(llrl0):
    """llrl1 compiled by llrl0's chibi backend (no LLVM backend in it); cached by content of inputs."""
    with _lock():
        h = hashlib.sha256()
        h.update(open(llrl0, "rb").read())
        for root in ("llrl1", "xten1"):
            for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith(".llrl"):
                        h.update(f.encode())
                        h.update(open(os.path.join(d, f), "rb").read())
        key = h.hexdigest()
        exe = os.path.join(BUILD, "llrl1c")
        stamp = exe + ".stamp"
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
            p = sh([llrl0, "-b", "chibi", "-o", exe, "-fchibi-backend", "-pxten:../xten1", "-O", "main"],
                   cwd=REPO + "/llrl1", timeout=600)
            if p.rc != 0 or not os.path.exists(exe):
                raise Broken("llrl1 does not build: " + p.etext[-1500:])
            with open(stamp, "w") as f:
                f.write(key)
        return exe


class Check:
    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.rng = random.Random(SEED * 1000003 + int(hashlib.sha256(pid.encode()).hexdigest()[:8], 16))
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.cov = {}
        self.rule = ""
        self.assumptions = []
        self.inconclusive = 0
        self.broken = None
        self._vlock = threading.Lock()
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.replay_dir = os.path.join(VERIF, "replay", pid)
        self.known = load_known(pid)

    def elapsed(self):
        return time.time() - self.t0

    def budget(self, quick, thorough):
        return thorough if THOROUGH else quick

    def llrl1(self, llrl0):
        """llrl1, or None when the llrl0 under test cannot build it (then only what llrl0 shows counts, and no clean verdict is given)"""
        try:
            return build_llrl1(llrl0)
        except Broken as e:
            self.broken = str(e)
            return None

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, msg, files=None, key=None):
        """An oracle saw a violation. `key` identifies the failing input for known findings."""
        if key is not None and key in self.known:
            self.known_hit[key] = self.known[key]
            return False
        with self._vlock:
            n = len(self.violations)
            self.violations.append((msg, os.path.join(self.replay_dir, "v%d" % min(n, 9))))
        if n < 10:
            d = os.path.join(self.replay_dir, "v%d" % n)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "README.txt"), "w") as f:
                f.write("property %s seed %d tier %s\n%s\n" % (self.pid, SEED, TIER, msg))
            for name, data in (files or {}).items():
                p = os.path.join(d, name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(data if isinstance(data, bytes) else str(data).encode())
        return True

    def finish(self):
        wall = time.time() - self.t0
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
               "rule": self.rule, "samples": self.samples or ["(none)"]}
        cov.update(self.cov)
        cov["inconclusive"] = self.inconclusive
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        shutil.rmtree(self.tmp, ignore_errors=True)
        for k, what in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        if self.violations:
            for msg, path in self.violations[:5]:
                sys.stdout.write("  " + msg.replace("\n", "\n  ")[:3000] + "\n")
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0][1]))
            sys.stdout.flush()
            sys.exit(1)
        print("%s: held; %d evaluations, %d distinct, %d inconclusive, %.1fs %s" % (
            self.pid, self.evaluations, len(self.distinct), self.inconclusive, wall,
            json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, float, str))})))
        if self.broken:
            print("%s: cannot decide: %s" % (self.pid, self.broken))
            sys.exit(2)
        if self.evaluations == 0 or not self.distinct:
            print("%s: nothing was observed, no verdict" % self.pid)
            sys.exit(2)
        if self.inconclusive > max(5, self.evaluations // 4):
            print("%s: too many cases without an answer, no verdict" % self.pid)
            sys.exit(2)
        sys.exit(0)


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)).get("findings", []):
            if k["property"] == pid:
                out[k["key"]] = k["what"]
    return out


def main_guard(pid, fn):
    c = Check(pid)
    try:
        fn(c)
        c.finish()
    except Broken as e:
        if c.violations:
            c.finish()
        print("%s: cannot decide: %s" % (pid, e))
        shutil.rmtree(c.tmp, ignore_errors=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        if c.violations:
            c.finish()
        print("%s: cannot decide: the check itself failed" % pid)
        shutil.rmtree(c.tmp, ignore_errors=True)
        sys.exit(2)


def pmap(fn, items, jobs=JOBS):
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


def dist_hash(x):
    return hashlib.sha1(x if isinstance(x, bytes) else str(x).encode()).hexdigest()[:16]


CONFIGS = {
    "chibi": ["-b", "chibi"],
    "llvm": ["-b", "llvm"],
    "llvm-O": ["-b", "llvm", "-O"],
    "chibi-O": ["-b", "chibi", "-O"],
}


def compile_run(compiler, src, cfg, workdir, name="m", timeout=120, run_timeout=60, args=(), files=None, extra=()):
    """Compile one program in its own directory and run the executable directly.

    Returns (stage, Proc): stage 'compile' if compiling failed, 'run' otherwise.
    (llrl0 itself is not used to run the program: it reports exit 0 for a signalled child.)
    """
    os.makedirs(workdir, exist_ok=True)
    with open(os.path.join(workdir, name + ".llrl"), "w") as f:
        f.write(src)
    for n, data in (files or {}).items():
        p = os.path.join(workdir, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(data)
    exe = os.path.join(workdir, name + "." + cfg)
    p = sh([compiler, *CONFIGS[cfg], *extra, "-o", exe, name], cwd=workdir, timeout=timeout)
    if p.timed_out or p.rc != 0 or not os.path.exists(exe):
        return "compile", p
    r = sh([exe, *args], cwd=workdir, timeout=run_timeout)
    try:
        os.unlink(exe)
    except OSError:
        pass
    return "run", r
