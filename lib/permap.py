"""Driver, model and workload for the persistent maps: many live versions, all re-read."""
import random, math
import drv, common
from mapdrv import KINDS
from mapmodel import *

SLOTS = 16


def driver(M, T, combos):
    ordered = M == "ord-map"
    where = "(where (Tok K) (Tok V) (Mut V) (DeepCopy K) (DeepCopy V) (DebugDisplay K) (DebugDisplay V) (Eq V) (Eq K) (Hash V) (Hash K)%s)" % (
        " (Ord K) (Ord V)" if ordered else "")
    src = '(import "std/persistent/%s" _)\n(import "std/xxhash" XxHasher xx-hasher/_ _.XxHasher)\n' % M + KINDS
    src += "(function (comb code k a b) {(forall K V) (-> I64 K V V V)} (if (eq? code 0) a b))\n"
    src += "(function (op m regs code) {(forall K V) (-> (%s K V) (Array (%s K V)) I64 unit) %s}\n  (cond\n" % (T, T, where)
    P = "(set! regs[s] %s)"
    ops = [
        (1, "(let* ([s (next-u)] [k (rd)] [v (rd)]) " + P % "(@M/insert k v m)" + ")"),
        (22, "(let* ([s (next-u)] [k (rd)] [v (rd)]) " + P % "(@M/insert-elem (: k v) m)" + ")"),
        (2, "(let* ([s (next-u)] [k (rd)]) " + P % "(@M/remove k m)" + ")"),
        (3, "(wr (@M/get? (rd) m))"), (4, "(out-bool (@M/has? (rd) m))"),
        (5, "(begin %s(out-bool (@M/empty? m)))" % ("" if ordered else "(out-u (@M/length m)) ")),
        (12, "(wr-pairs (@M/elems m))"), (13, "(wr-list (@M/keys m))"), (14, "(wr-list (@M/values m))"),
        (15, "(set! regs[(next-u)] (shallow-copy m))"), (16, "(set! regs[(next-u)] (deep-copy m))"),
        (17, "(out-bool (eq? m (get regs[(next-u)])))"), (20, "(out-s (string (debug m)))"),
        (21, "(let* ([s (next-u)] [n (next-u)] [v {(Vector (: K V))} vector/empty] [i (ref 0 {U64})]) (while (< ~i n) (let* ([a (rd)] [b (rd)]) (vector/push! (: a b) v)) (set! i (+ ~i 1))) (set! regs[s] (@M/collect v)))"),
        (24, "(set! regs[(next-u)] default)"),
        (26, "(let* ([k (rd)] [x (next)]) (match (@M/get? k m) [none (out-tag 78)] [(some (let v)) (mut! x v)]))"),
        (25, "(let* ([n (next-u)] [i (ref 0 {U64})] [it (@M/elems m)]) (while (< ~i n) (ignore (iterator/next! it)) (set! i (+ ~i 1))) (wr-pairs it))"),
    ]
    if ordered:
        ops += [
            (7, "(wr-opt2 (@M/get-min? m))"), (8, "(wr-opt2 (@M/get-max? m))"),
            (9, "(let* ([s (next-u)]) " + P % "(@M/remove-min m)" + ")"), (10, "(let* ([s (next-u)]) " + P % "(@M/remove-max m)" + ")"),
            (18, "(out-ord (compare m (get regs[(next-u)])))"),
            (19, "(out-bool (let* ([o (get regs[(next-u)])] [h (xx-hasher/new)]) (eq? (hash h m) (hash h o))))"),
            (30, "(let* ([s (next-u)] [o (get regs[(next-u)])]) " + P % "(@M/union m o)" + ")"),
            (31, "(let* ([s (next-u)] [o (get regs[(next-u)])] [f (next)]) " + P % "(@M/union* [^3 (comb f %1 %2 %3)] m o)".replace("%1", "%%1").replace("%2", "%%2").replace("%3", "%%3") .replace("%%", "%") + ")"),
            (32, "(let* ([s (next-u)] [o (get regs[(next-u)])]) " + P % "(@M/intersection m o)" + ")"),
            (33, "(let* ([s (next-u)] [o (get regs[(next-u)])] [f (next)]) (set! regs[s] (@M/intersection* [^3 (comb f %1 %2 %3)] m o)))"),
            (34, "(let* ([s (next-u)] [o (get regs[(next-u)])]) " + P % "(@M/difference m o)" + ")"),
            (35, "(let* ([s (next-u)] [o (get regs[(next-u)])] [f (next)]) (set! regs[s] (@M/difference* [^3 (if (eq? %2 %3) (some (comb f %1 %2 %3)) none)] m o)))"),
        ]
    for code, body in ops:
        src += "    [(eq? code %d) %s]\n" % (code, body.replace("@M", M))
    src += '    [else (out-tag 33)]))\n'
    src += "(function (drive regs) {(forall K V) (-> (Array (%s K V)) unit) %s}\n" % (T, where)
    src += """  (let1 go (ref #t)
    (while ~go
      (let1 code (next)
        (if (eq? code 0) (set! go #f)
          (let* ([r (next-u)] [m (get regs[r])])
            (ignore (ticks!))
            (op m regs code) (out-tag 35) (out-u (ticks!)) (out-nl)))))))
"""
    if not ordered:
        src += "(function (hashes n) {(-> U64 unit)} (let* ([i (ref 0 {U64})] [h (xx-hasher/new)]) (while (< ~i n) (out-h (hash h (hk: 0 (conv ~i)))) (out-nl) (set! i (+ ~i 1)))))\n"
    src += "(function (main which) {(-> I64 unit)} (cond\n"
    for i, (k, v) in enumerate(combos):
        src += "  [(eq? which %d) (let1 regs {(Array (%s %s %s))} (array/new* [^0 %s/empty] %d) (drive regs))]\n" % (i + 1, T, k, v, M, SLOTS)
    if not ordered:
        src += "  [(eq? which 99) (hashes (next-u))]\n"
    src += "  [else (out-tag 33)]))\n(main (next))\n"
    return src


class PSession(Session):
    def __init__(self, rng, kt, vt, ordered, keygen, counting=False, ref=False):
        Session.__init__(self, rng, kt, vt, ordered, False, keygen, counting, ref)
        self.regs = [{} for _ in range(SLOTS)]     # never mutated in place: key -> cell (cells shared between versions)

    def keys(self, m):
        return sorted(m, key=self.kt.order)

    def do(self, code, r, key=None, s=None):
        rng = self.rng
        m, k = self.regs[r], key
        n = len(m)
        if s is None:
            s = rng.randrange(SLOTS)
        if code in (1, 22):
            v = self.val()
            nm = dict(m)
            nm[k] = [v]
            self.emit(code, r, [s] + self.kt.enc(k) + self.vt.enc(v), [], n=n)
            self.regs[s] = nm
        elif code == 2:
            nm = dict(m)
            nm.pop(k, None)
            self.emit(2, r, [s] + self.kt.enc(k), [], n=n)
            self.regs[s] = nm
        elif code in (9, 10):
            nm = dict(m)
            if nm:
                ks = self.keys(m)
                nm.pop(ks[0 if code == 9 else -1])
            self.emit(code, r, [s], [], n=n)
            self.regs[s] = nm
        elif code == 3:
            c = m.get(k)
            self.emit(3, r, self.kt.enc(k), self.opt(None if c is None else self.vt.log(c[0])), n=n)
        elif code == 4:
            self.emit(4, r, self.kt.enc(k), ["1" if k in m else "0"], n=n)
        elif code == 5:
            self.emit(5, r, [], ([] if self.ordered else [str(n)]) + ["1" if n == 0 else "0"])
        elif code in (7, 8):
            e = None
            if n:
                kk = self.keys(m)[0 if code == 7 else -1]
                e = self.kv(kk, m[kk])
            self.emit(code, r, [], self.opt(e), n=n)
        elif code in (12, 13, 14, 25):
            ks = self.keys(m)
            args = []
            if code == 25:
                if not self.ordered:
                    return
                args = [rng.choice([0, 1, 3, 10])]
                ks = ks[args[0]:]
            items = [self.kt.log(k) if code == 13 else self.vt.log(m[k][0]) if code == 14 else self.kv(k, m[k]) for k in ks]
            self.emit(code, r, args, items, "list" if self.ordered else "bag")
        elif code == 15:
            self.regs[s] = m
            self.emit(15, r, [s], [])
        elif code == 16:
            self.regs[s] = {k: list(c) for k, c in m.items()}
            self.emit(16, r, [s], [])
        elif code == 24:
            self.regs[s] = {}
            self.emit(24, r, [s], [])
        elif code in (17, 18, 19):
            o = self.regs[s]
            a = [(self.kt.order(x), self.vt.order(m[x][0])) for x in self.keys(m)]
            b = [(self.kt.order(x), self.vt.order(o[x][0])) for x in self.keys(o)]
            if code == 17:
                self.emit(17, r, [s], ["1" if a == b else "0"])
            elif code == 18:
                self.emit(18, r, [s], [str((a > b) - (a < b))])
            else:
                self.emit(19, r, [s], ["1"] if a == b else ["?"], "exact" if a == b else "any")
        elif code == 20:
            nm = ("ord-" if self.ordered else "hash-") + "map"
            items = ["(: %s %s)" % (self.kt.debug(k), self.vt.debug(m[k][0])) for k in self.keys(m)]
            self.emit(20, r, [], [nm] + items, "debug" if self.ordered else "debugbag")
        elif code == 21:
            cnt = rng.choice([0, 1, 2, 5, 20, 40])
            nm, args = {}, [s, cnt]
            for _ in range(cnt):
                kk, v = self.keygen(), self.val()
                nm[kk] = [v]
                args += self.kt.enc(kk) + self.vt.enc(v)
            self.regs[s] = nm
            self.emit(21, r, args, [])
        elif code == 26:
            if not self.ref:
                return
            x = rng.randrange(1000, 2000)
            if k in m:
                m[k][0] = x
                self.emit(26, r, self.kt.enc(k) + [x], [])
            else:
                self.emit(26, r, self.kt.enc(k) + [x], ["N"])
        elif 30 <= code <= 35:
            oi, f = rng.randrange(SLOTS), rng.randrange(2)
            o = self.regs[oi]
            if code in (30, 32, 34):
                f = 0
            nm = {}
            if code in (30, 31):
                nm = dict(m)
                for kk, c in o.items():
                    nm[kk] = (m[kk] if f == 0 else c) if kk in m else c
            elif code in (32, 33):
                nm = {kk: (m[kk] if f == 0 else o[kk]) for kk in m if kk in o}
            else:   # keys of exactly one side, plus what f keeps of the common ones
                nm = dict(m)
                for kk, c in o.items():
                    if kk not in m:
                        nm[kk] = c
                    elif code == 35 and m[kk][0] == c[0]:
                        nm[kk] = m[kk] if f == 0 else c
                    else:
                        nm.pop(kk)
            self.emit(code, r, [s, oi] + ([f] if code in (31, 33, 35) else []), [])
            self.regs[s] = nm


def branching(s, n, pool, dump=0.12):
    rng = s.rng
    base = [1] * 8 + [2] * 6 + [22, 3, 3, 4, 5, 12, 13, 14, 17, 20, 15, 16, 21]
    if s.ordered:
        base += [7, 8, 9, 10, 18, 19, 25] + [30, 31, 32, 33, 34, 35]
    if s.ref:
        base += [26, 26]
    for _ in range(n):
        code = rng.choice(base)
        if code in (32, 21) and rng.random() < 0.6:
            code = 1
        r = rng.randrange(SLOTS)
        s.do(code, r, rng.choice(pool))
        if rng.random() < dump:
            s.do(12, rng.randrange(SLOTS))
    for r in range(SLOTS):
        s.do(12, r)
        s.do(5, r)


def linear(s, pool, phases):
    """long chains (each step from the newest version) with snapshots kept aside and re-read"""
    rng = s.rng
    cur = 0
    for ph in range(phases):
        ks = sorted(pool, key=s.kt.order)
        o = rng.choice(["asc", "desc", "rand", "rand"])
        if o == "desc":
            ks.reverse()
        elif o == "rand":
            rng.shuffle(ks)
        kind = "grow" if ph == 0 else rng.choice(["grow", "shrink", "churn", "drain"])
        for k in ks[:rng.randrange(1, len(ks) + 1) if ph else None]:
            nxt = cur if rng.random() < 0.9 else rng.randrange(SLOTS)
            if kind == "grow":
                s.do(1, cur, k, nxt)
            elif kind == "shrink":
                s.do(2, cur, k, nxt)
            elif kind == "churn":
                s.do(rng.choice([1, 2]), cur, rng.choice(ks), nxt)
            elif s.ordered:
                s.do(rng.choice([9, 10]), cur, None, nxt)
            else:
                s.do(2, cur, k, nxt)
            cur = nxt
            if rng.random() < 0.15:
                s.do(3, cur, rng.choice(ks))
            if rng.random() < 0.01:
                s.do(12, rng.randrange(SLOTS))
        s.do(12, cur)
    for r in range(SLOTS):
        s.do(12, r)
