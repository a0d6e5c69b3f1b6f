"""Reference model and workload generator for mapdrv drivers."""
import bisect, math
import drv


class KT:
    """A key or value type: how to send it, how it is logged, its order and its debug text."""
    def __init__(self, enc, log, order, debug):
        self.enc, self.log, self.order, self.debug = enc, log, order, debug


INT = KT(lambda a: [a], lambda a: [str(a)], lambda a: a, lambda a: str(a))
CK = KT(lambda a: [a], lambda a: [str(a)], lambda a: -a, lambda a: str(a))
STR = KT(lambda a: drv.enc_str(a), lambda a: [drv.shex(a)], lambda a: a.encode(), lambda a: '"%s"' % a)
HK = KT(lambda a: [a[0], a[1]], lambda a: [str(a[0]), str(a[1])], lambda a: a, lambda a: "%d/%d" % a)
REF = KT(lambda a: [a], lambda a: [str(a)], lambda a: a, lambda a: "(ref %d)" % a)


class Sorted:
    """finite map with sorted iteration; cells are one-element lists"""
    def __init__(self, kt):
        self.kt, self.d, self.ks = kt, {}, []

    def set(self, k, v):
        o = self.kt.order(k)
        old = self.d.get(k)
        if old is None:
            bisect.insort(self.ks, (o, k))
        self.d[k] = [v]
        return None if old is None else old[0]

    def rem(self, k):
        old = self.d.pop(k, None)
        if old is None:
            return None
        i = bisect.bisect_left(self.ks, (self.kt.order(k),))
        assert self.ks[i][1] == k
        del self.ks[i]
        return old[0]

    def keys(self):
        return [k for _, k in self.ks]

    def copy(self, deep):
        n = Sorted(self.kt)
        n.ks = list(self.ks)
        n.d = {k: list(c) for k, c in self.d.items()} if deep else dict(self.d)
        return n


class Session:
    """Builds a script and what must be logged for it."""
    def __init__(self, rng, kt, vt, ordered, is_set, keygen, counting=False, ref=False):
        self.rng, self.kt, self.vt, self.ordered, self.is_set = rng, kt, vt, ordered, is_set
        self.keygen, self.counting, self.ref = keygen, counting, ref
        self.regs = [Sorted(kt) for _ in range(4)]
        self.toks, self.exp = [], []
        self.opcount = {}

    def val(self):
        return 0 if self.is_set else self.rng.choice([self.rng.randrange(0, 256), self.rng.randrange(0, 4)])

    def kv(self, k, c):
        return self.kt.log(k) + ([] if self.is_set else self.vt.log(c[0]))

    def emit(self, code, r, args, exp, kind="exact", n=None):
        self.toks += [code, r] + args
        self.exp.append((code, r, exp, kind, n))
        self.opcount[code] = self.opcount.get(code, 0) + 1

    def opt(self, x):
        return ["N"] if x is None else ["S"] + x

    def do(self, code, r, key=None):
        m = self.regs[r]
        k = key
        n = len(m.d)
        name = "ord-" if self.ordered else "hash-"
        if code in (1, 22):
            v = self.val()
            old = m.set(k, v)
            if self.is_set:
                self.emit(1, r, self.kt.enc(k), ["1" if old is None else "0"], n=n)
            else:
                self.emit(code, r, self.kt.enc(k) + self.vt.enc(v), self.opt(None if old is None else self.vt.log(old)), n=n)
        elif code == 2:
            old = m.rem(k)
            if self.is_set:
                self.emit(2, r, self.kt.enc(k), ["0" if old is None else "1"], n=n)
            else:
                self.emit(2, r, self.kt.enc(k), self.opt(None if old is None else self.vt.log(old)), n=n)
        elif code == 3:
            c = m.d.get(k)
            self.emit(3, r, self.kt.enc(k), self.opt(None if c is None else self.vt.log(c[0])), n=n)
        elif code == 4:
            self.emit(4, r, self.kt.enc(k), ["1" if k in m.d else "0"], n=n)
        elif code == 5:
            self.emit(5, r, [], [str(n), "1" if n == 0 else "0"])
        elif code in (7, 8, 9, 10):
            if n == 0:
                e = None
            else:
                kk = m.ks[0 if code in (7, 9) else -1][1]
                e = self.kv(kk, m.d[kk])
                if code in (9, 10):
                    m.rem(kk)
            self.emit(code, r, [], self.opt(e), n=n)
        elif code == 11:
            m.d.clear()
            m.ks.clear()
            self.emit(11, r, [], [])
        elif code in (12, 13, 14):
            ks = m.keys()
            items = [self.kv(k, m.d[k]) if code == 12 else self.kt.log(k) if code == 13 else self.vt.log(m.d[k][0]) for k in ks]
            self.emit(code, r, [], items, "list" if self.ordered else "bag")
        elif code in (15, 16):
            s = self.rng.randrange(4)
            self.regs[s] = m.copy(code == 16)
            self.emit(code, r, [s], [])
        elif code == 23:
            s = self.rng.randrange(4)
            self.regs[s] = m
            self.emit(code, r, [s], [])
        elif code == 24:
            s = self.rng.randrange(4)
            self.regs[s] = Sorted(self.kt)
            self.emit(code, r, [s], [])
        elif code == 27:
            s = self.rng.randrange(4)
            self.regs[s] = Sorted(self.kt)
            self.emit(code, r, [s, self.rng.choice([0, 1, 2, 3, 4, 5, 8, 16, 33, 64, 100, 1000])], [])
        elif code == 28:
            self.emit(code, r, [self.rng.choice([0, 1, 2, 31, 32, 33, 64, 200, 500])], [])
        elif code in (17, 18, 19):
            s = self.rng.randrange(4)
            o = self.regs[s]
            a = [(x[0], self.vt.order(m.d[x[1]][0])) for x in m.ks]
            b = [(x[0], self.vt.order(o.d[x[1]][0])) for x in o.ks]
            if code == 17:
                self.emit(17, r, [s], ["1" if a == b else "0"])
            elif code == 18:
                self.emit(18, r, [s], [str((a > b) - (a < b))])
            else:
                self.emit(19, r, [s], ["1"] if a == b else ["?"], "exact" if a == b else "any")
        elif code == 20:
            nm = name + ("set" if self.is_set else "map")
            items = [self.kt.debug(k) if self.is_set else "(: %s %s)" % (self.kt.debug(k), self.vt.debug(m.d[k][0])) for k in m.keys()]
            self.emit(20, r, [], [nm] + items, "debug" if self.ordered else "debugbag")
        elif code == 21:
            s = self.rng.randrange(4)
            cnt = self.rng.choice([0, 1, 2, 5, 20, 40])
            nm = Sorted(self.kt)
            args = [s, cnt]
            for _ in range(cnt):
                kk, v = self.keygen(), self.val()
                nm.set(kk, v)
                args += self.kt.enc(kk) + ([] if self.is_set else self.vt.enc(v))
            self.regs[s] = nm
            self.emit(21, r, args, [])
        elif code == 25:
            cnt = self.rng.choice([1, 2, 7, 30])
            if not self.ordered:
                return
            e = []
            for i in range(cnt):
                if i < len(m.ks):
                    kk = m.ks[i][1]
                    e += ["S"] + self.kv(kk, m.d[kk]) + ["S"] + self.kt.log(kk)
                else:
                    e += ["N", "N"]
            self.emit(25, r, [cnt], e)
        elif code == 26:
            if not self.ref:
                return
            x = self.rng.randrange(1000, 2000)
            if k in m.d:
                m.d[k][0] = x
                self.emit(26, r, self.kt.enc(k) + [x], [])
            else:
                self.emit(26, r, self.kt.enc(k) + [x], ["N"])

    def observe_all(self, r):
        for code in ((13, 5) if self.is_set else (12, 5)):
            self.do(code, r)

    def verify(self, text):
        """-> (None or message, number of log lines checked)"""
        lines = text.split("\n")
        maxcmp = 0
        for i, (code, r, exp, kind, n) in enumerate(self.exp):
            got = lines[i] if i < len(lines) else "<log ends>"
            toks = drv.split(got)
            if "#" in toks:
                j = toks.index("#")
                cnt = int(toks[j + 1]) if j + 1 < len(toks) else 0
                toks = toks[:j]
            else:
                return "operation %d (code %d, register %d): the program stopped: %r" % (i, code, r, got[:200]), i, maxcmp
            ok = True
            if kind == "exact":
                ok = toks == exp
            elif kind in ("list", "bag"):
                items, cur = [], []
                for t in toks:
                    if t == ";":
                        items.append(cur)
                        cur = []
                    else:
                        cur.append(t)
                ok = not cur and (items == exp if kind == "list" else sorted(items) == sorted(exp))
            elif kind in ("debug", "debugbag"):
                try:
                    s = bytes.fromhex(toks[0][1:]).decode()
                except Exception:
                    s = ""
                want = "(" + " ".join(exp) + ")"
                if kind == "debug":
                    ok = s == want
                else:
                    ok = len(s) == len(want) and s.startswith("(" + exp[0]) and all(e in s for e in exp[1:])
            if not ok:
                return "operation %d (code %d, register %d, %s entries): logged %s, the model says %s" % (
                    i, code, r, n, " ".join(toks)[:300], str(exp)[:300]), i, maxcmp
            if self.counting and n is not None:
                maxcmp = max(maxcmp, cnt / (math.log2(n + 2) + 1))
                if cnt > 40 + 12 * math.log2(n + 2):
                    return "operation %d (code %d): %d key comparisons with %d entries is not logarithmic" % (i, code, cnt, n), i, maxcmp
        if len([l for l in lines if l.strip()]) != len(self.exp):
            return "log has %d lines, %d operations were sent" % (len([l for l in lines if l.strip()]), len(self.exp)), len(self.exp), maxcmp
        return None, len(self.exp), maxcmp


def small_history(s, n, pool):
    """random walk over all operations on few keys with frequent full dumps"""
    rng = s.rng
    base = [1, 1, 1, 2, 2, 4, 5, 12 if not s.is_set else 13, 13, 17, 20, 15, 16, 21, 23, 24, 11]
    if not s.is_set:
        base += [3, 3, 14, 22, 25]
    if s.ordered:
        base += [7, 8, 9, 10, 18, 19]
    elif not s.is_set:
        base += [27, 28]
    if s.ref:
        base += [26, 26, 26]
    for _ in range(n):
        code = rng.choice(base)
        if code in (11, 24, 21, 23, 27) and rng.random() < 0.7:
            code = 1
        s.do(code, rng.randrange(4), rng.choice(pool))
        if rng.random() < 0.1:
            s.observe_all(rng.randrange(4))


def big_history(s, n, keys, phases):
    """long single-map history: grow, shrink, churn, drain in chosen key orders"""
    rng = s.rng
    look = 3 if not s.is_set else 4
    for ph in range(phases):
        order = rng.choice(["asc", "desc", "rand", "rand", "inout"])
        ks = list(keys)
        ks.sort(key=s.kt.order)
        if order == "desc":
            ks.reverse()
        elif order == "rand":
            rng.shuffle(ks)
        elif order == "inout":
            ks = [k for p in zip(ks, reversed(ks)) for k in p]
        kind = rng.choice(["grow", "grow", "shrink", "churn", "drain", "alternate"])
        cnt = rng.randrange(1, n + 1)
        if ph == 0:
            kind, cnt = "grow", n
        for i, k in enumerate(ks[:cnt]):
            if kind == "grow":
                s.do(1, 0, k)
            elif kind == "shrink":
                s.do(2, 0, k)
            elif kind == "churn":
                s.do(rng.choice([1, 2]), 0, rng.choice(ks))
            elif kind == "alternate":
                s.do(2 if i % 2 else 1, 0, k)
            elif kind == "drain":
                if s.ordered:
                    s.do(rng.choice([9, 10]) if ph % 2 else (9 if order == "asc" else 10), 0)
                else:
                    s.do(2, 0, k)
            if rng.random() < 0.2:
                s.do(look, 0, rng.choice(ks))
            if rng.random() < 0.01:
                s.observe_all(0)
        # contiguous runs removed and put back, from arbitrary places, in both directions
        asc = sorted(keys, key=s.kt.order)
        for _ in range(rng.choice([0, 4, 12])):
            a = rng.randrange(len(asc))
            run = asc[a:a + rng.choice([3, 8, 20, 60])]
            if rng.random() < 0.4:
                run.reverse()
            for k in run:
                s.do(2, 0, k)
            if rng.random() < 0.5:
                for k in (run if rng.random() < 0.5 else run[::2]):
                    s.do(1, 0, k)
        s.observe_all(0)
        if rng.random() < 0.5:
            s.do(15 if rng.random() < 0.5 else 16, 0)
            s.observe_all(1)
    for r in range(4):
        s.observe_all(r)
