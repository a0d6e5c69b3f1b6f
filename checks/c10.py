"""C10: what modules print when they are initialised (and their macros when they are executed), under perturbed build schedules, checked against the module graph."""
import os, random, re, shutil
import common, modgraph


def run(c):
    llrl0 = common.build_llrl0()
    llrl1 = c.llrl1(llrl0)
    c.rule = ("one evaluation is one build (and run) of one module graph under one schedule: the initialisation log, the log of macro executions, or the diagnostics were checked against the "
              "graph, and compared between schedules; distinct by source text, entry points and schedule")
    so = os.path.join(c.tmp, "sched.so")
    p = common.sh(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(common.VERIF, "shim", "sched.c"), "-ldl", "-lpthread"])
    if p.rc:
        raise common.Broken("the scheduling shim does not build: " + p.etext[-500:])
    stat = {"modules": 0, "imports": 0, "initialisation_marks": 0, "macro_executions": 0, "cycles_reported": 0, "source_errors_reported": 0, "module_errors_reported": 0, "llrl1_builds": 0,
            "preemptions_injected": 0, "futex_delays_injected": 0, "thread_starts_delayed": 0, "file_opens_delayed": 0, "threads": {}}
    macro_orders = {}
    orders = set()

    def diag(text):
        """diagnostics as a multiset of lines"""
        return sorted(x for x in text.splitlines() if x.strip())

    def build(g, fs, d, cfg, threads, shim, cpus, who):
        exe = os.path.join(d, "x")
        if os.path.exists(exe):
            os.unlink(exe)
        ee = {"RAYON_NUM_THREADS": str(threads)}
        log = os.path.join(d, "log")
        if shim:
            ee.update(LD_PRELOAD=so, SCHED_SEED=str(shim), SCHED_PERIOD_US=str(g.r.choice([60, 200, 600])), SCHED_SLEEP_US=str(g.r.choice([200, 1000, 3000])), SCHED_LOG=log)
        ents = [g.name[i] for i in g.entries]
        cmd = [who, *common.CONFIGS[cfg], "-o", exe, *ents]
        if cpus and shim:
            ee["SCHED_CPU"] = cpus
        elif cpus:
            cmd = ["taskset", "-c", cpus] + cmd
        p = common.sh(cmd, cwd=d, timeout=120, extra_env=ee)
        if shim and os.path.exists(log):
            v = open(log).read().split()
            for k, x in zip(("preemptions_injected", "futex_delays_injected", "thread_starts_delayed", "file_opens_delayed"), v):
                stat[k] += int(x)
            os.unlink(log)
        stat["threads"][threads] = stat["threads"].get(threads, 0) + 1
        return p, exe

    def one(job):
        seed, kind, cfg, nsched = job
        if len(c.violations) >= 5:
            return
        r = random.Random(seed)
        g = modgraph.Graph(r, kind)
        fs = g.files()
        m = g.model()
        d = os.path.join(c.tmp, "g%x" % seed)
        for k, x in fs.items():
            os.makedirs(os.path.dirname(os.path.join(d, k)), exist_ok=True)
            with open(os.path.join(d, k), "w") as f:
                f.write(x)
        reach = g.reached()
        stat["modules"] += len(reach)
        stat["imports"] += sum(len(g.deps[i]) for i in reach)
        seen = None
        scheds = [(8, 0, None, llrl0)]
        for _ in range(nsched):
            scheds.append((r.choice([1, 2, 3, 4, 8, 16]), r.getrandbits(30) if r.random() < 0.8 else 0, r.choice([None, None, "%d" % r.randrange(os.cpu_count() or 1)]), llrl0))
        if llrl1 and cfg == "chibi" and r.random() < 0.5:
            scheds.append((1, 0, None, llrl1))
            stat["llrl1_builds"] += 1
        for threads, shim, cpus, who in scheds:
            p, exe = build(g, fs, d, cfg, threads, shim, cpus, who)
            how = "%s, %d threads, schedule %s%s, %s" % ("llrl0" if who == llrl0 else "llrl1", threads, shim, " on one processor" if cpus else "", cfg)
            msg = None
            if p.timed_out:
                p, exe = build(g, fs, d, cfg, threads, shim, cpus, who)
                if p.timed_out:
                    msg = "the build of %d modules does not end" % len(reach)
            if msg:
                pass
            elif p.rc is not None and (p.rc < 0 or p.rc > 100) or b"panicked" in p.err:
                msg = "the build crashed: %s %s" % (p.rc, p.etext[:600])
            elif m[0] == "ok":
                if p.rc or not os.path.exists(exe):
                    msg = "the modules are correct, but the build failed: " + (p.text + p.etext)[:600]
                else:
                    msg = g.check_compile(p.out)
                    q = common.sh([exe], cwd=d, timeout=60)
                    if q.timed_out:
                        c.inconclusive += 1
                        continue
                    if not msg:
                        msg = ("the executable ended with %s" % q.rc) if q.rc else g.check_runtime(q.out)
                    if not msg and who == llrl0:
                        if seen is not None and seen != q.out:
                            msg = "the program prints %r, and when built in another schedule %r" % (q.out, seen)
                        seen = q.out
                    stat["initialisation_marks"] += len(q.out)
                    stat["macro_executions"] += len(p.out)
                    macro_orders.setdefault(seed, set()).add(p.out)
                    orders.add(common.dist_hash(p.out + b"|" + q.out))
            else:
                text = p.etext
                if p.rc == 0 or os.path.exists(exe):
                    msg = "the modules have errors (%s), but an executable was made" % m[0]
                elif m[0] == "cycle":
                    got = sorted(re.findall(r"^- ~/(\S+)$", text, re.M))
                    stat["cycles_reported"] += 1
                    if "Circular" not in text or got not in m[1]:
                        msg = "expected one of the import cycles %s, reported: %s" % (m[1], text[:600])
                elif m[0] == "source":
                    stat["source_errors_reported"] += len(m[1])
                    for i in sorted(m[1]):
                        want = "~/" + g.name[i]
                        if i in g.missing and not (i in g.selfimport or i in g.extra):
                            want = "~/" + g.missing[i]
                        if not re.search(r"(^|\s)%s:" % re.escape(want), text):
                            msg = "the error concerning %s is not reported: %s" % (want, text[:600])
                else:
                    got = set(re.findall(r"Unresolved value zz(\d+)", text))
                    want = {str(i) for i in m[1]}
                    stat["module_errors_reported"] += len(want)
                    if who == llrl0:
                        if got != want:
                            msg = "modules %s have errors and none of their imports has, reported: %s" % (sorted(want), text[:900])
                        else:
                            blamed = set(re.findall(r"\(while building ~/(\S+)\)", text))
                            x = {g.name[i] for i in m[2]}
                            if blamed != x:
                                msg = "modules %s cannot be built, reported for %s" % (sorted(x), sorted(blamed))
                    elif not got <= want or not got:
                        msg = "modules %s have errors and none of their imports has, llrl1 reported: %s" % (sorted(want), text[:900])
                    if not msg:
                        msg = g.check_compile(p.out, m[2]) if who == llrl0 else None
                if not msg and who == llrl0 and m[0] != "cycle":
                    dg = diag(text)
                    if seen is not None and seen != dg:
                        msg = "the diagnostics differ between schedules: %s and %s" % (dg, seen)
                    seen = dg
            c.evaluations += 1
            c.distinct.add(common.dist_hash("%s|%s|%s" % (seed, kind, how)))
            if msg:
                c.violation("graph %d (%s, %d modules, %s; entry points %s) with %s: %s" % (seed, g.shape, len(reach), kind, [g.name[i] for i in g.entries], how, msg), fs)
                break
        c.sample({"modules": len(reach), "shape": g.shape, "expected": str(m)[:200], "last_output": str(seen)[:200]}, limit=5)
        shutil.rmtree(d, ignore_errors=True)

    n = c.budget(2, 40)
    jobs = [(c.rng.getrandbits(48), k, cfg, s) for k, cfg, cnt, s in (("ok", "chibi", 110, 3), ("ok", "llvm", 10, 2), ("cycle", "chibi", 50, 2), ("source", "chibi", 40, 2), ("error", "chibi", 60, 3))
            for _ in range(cnt * n)]
    c.rng.shuffle(jobs)
    common.pmap(one, jobs, 16)
    stat["distinct_logs"] = len(orders)
    multi = {k: v for k, v in macro_orders.items()}
    stat["graphs_whose_modules_were_built_in_several_observed_orders"] = sum(len(v) > 1 for v in multi.values())
    stat["build_orders_observed"] = sum(len(v) for v in multi.values())
    c.cov["observed"] = stat
    c.assumptions.append("schedules are sampled (thread counts, processor pinning, random preemption of every thread, delayed futex calls, thread starts and file opens), not enumerated")
