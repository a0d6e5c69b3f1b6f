"""Iterator sources, adaptors and consumers: the interpreting driver logs every element pulled from every source and every
call of every function argument, so both the results and the (lazy, in-order) consumption are compared with the model."""
import random
import common, drv

SRC = r'''
(import "std/vector" Vector vector vector/_ _.Vector)
(import "std/array" Array array array/_ _.Array)
(import "std/iterator" _)
(import "std/it" _)
(import "std/bits" _)
(function (src tag it) {(-> I64 (Iterator I64) (Iterator I64))}
  (iterator/new (lambda ()
    (match (iterator/next! it)
      [none none]
      [(some (let x)) (begin (out-tag 60) (out-i tag) (out-i x) (some x))]))))
(function (call f x) {(-> I64 I64 I64)} (begin (out-tag 40) (out-i f) (out-i x) (+ (bw& (* x 3) 1023) f)))
(function (pred p x) {(-> I64 I64 Bool)} (begin (out-tag 63) (out-i p) (out-i x) (< (bw& x 7) p)))
(function (optf p x) {(-> I64 I64 (Option I64))} (begin (out-tag 79) (out-i p) (out-i x) (if (< (bw& x 7) p) (some (+ x 1)) none)))
(function (resf p x) {(-> I64 I64 (Result I64 I64))} (begin (out-tag 82) (out-i p) (out-i x) (if (< (bw& x 7) p) (ok (+ x 1)) (err x))))
(function (inner k x) {(-> I64 I64 (Iterator I64))}
  (begin (out-tag 70) (out-i k) (out-i x)
    (src (+ 100 k) (iterator/range x (+ x (bw& x 3)) 1))))
(function (vals) {(-> (Vector I64))}
  (let* ([n (next-u)] [v {(Vector I64)} vector/empty] [i (ref 0 {U64})])
    (while (< ~i n) (vector/push! (next) v) (set! i (+ ~i 1))) v))
;; what an adaptor does after it has answered none is not specified: never ask again
(function (fuse it) {(-> (Iterator I64) (Iterator I64))}
  (let1 done (ref #f)
    (iterator/new (lambda ()
      (if ~done none
        (match (iterator/next! it) [none (begin (set! done #t) none)] [(some (let x)) (some x)]))))))
(function (build) {(-> (Iterator I64))} (fuse (build-raw)))
(function (build-raw) {(-> (Iterator I64))}
  (let1 code (next)
    (cond
      [(eq? code 1) (let1 t (next) (src t iterator/empty))]
      [(eq? code 2) (let* ([t (next)] [x (next)]) (src t (iterator/only x)))]
      [(eq? code 3) (let* ([t (next)] [n (next-u)] [x (next)]) (src t (iterator/repeat n x)))]
      [(eq? code 4) (let* ([t (next)] [s (next)] [e (next)] [st (next)]) (src t (iterator/range s e st)))]
      [(eq? code 5) (let* ([t (next)] [s (next)] [lim (next)]) (src t (iterator/unfold [^1 (if (< %1 lim) (some (: (* %1 5) (+ %1 1))) none)] s)))]
      [(eq? code 6) (let1 t (next) (src t (iterate (vector/buffer (vals)))))]
      [(eq? code 7) (let1 t (next) (src t (rev-iterate (vals))))]
      [(eq? code 8) (let* ([t (next)] [n (next-u)] [x (next)]) (it/take n (src t (iterator/forever x))))]
      [(eq? code 9) (let* ([t (next)] [b (next)] [x (next)] [o {(Option I64)} (if (eq? b 1) (some x) none)]) (src t (iterate o)))]
      [(eq? code 10) (let1 t (next) (src t (rev-iterate (vector/buffer (vals)))))]
      [(eq? code 11) (let1 t (next) (src t (iterate (vals))))]
      [(eq? code 12) (let* ([t (next)] [s (next)] [n (next-u)]) (it/take n (it/map [^1 (+ %1 0)] (src t (iterator/unfold [^1 (some (: %1 (+ %1 1)))] s)))))]
      [(eq? code 13) (let* ([t (next)] [s {I32} (rd)] [e {I32} (rd)] [st {I32} (rd)]) (src t (it/map [^1 (conv %1)] (iterator/range s e st))))]
      [(eq? code 14) (let* ([t (next)] [s (next-u)] [e (next-u)] [st (next-u)]) (src t (it/map [^1 (conv %1)] (iterator/range s e st))))]
      [(eq? code 20) (let* ([a (build)] [b (build)]) (it/chain a b))]
      [(eq? code 21) (let* ([a (build)] [b (build)]) (it/map [^1 (match %1 [(: (let x) (let y)) (+ (* x 31) y)])] (it/zip a b)))]
      [(eq? code 22) (let* ([f (next)] [a (build)] [b (build)]) (it/zip* [^2 (begin (out-tag 90) (out-i %1) (out-i %2) (+ (* %1 f) %2))] a b))]
      [(eq? code 23) (let* ([a (build)] [b (build)])
         (it/map [^1 (match %1 [(zip-either:left (let x)) (+ x 1)] [(zip-either:right (let y)) (+ y 2)] [(zip-either:both (let x) (let y)) (+ (* x 31) y)])] (it/zip-either a b)))]
      [(eq? code 24) (let* ([f (next)] [a (build)]) (it/map [^1 (call f %1)] a))]
      [(eq? code 25) (let* ([p (next)] [a (build)]) (it/filter [^1 (pred p %1)] a))]
      [(eq? code 26) (let* ([p (next)] [a (build)]) (it/filter-map [^1 (optf p %1)] a))]
      [(eq? code 27) (let1 a (build) (it/map [^1 (match %1 [(: (let i) (let y)) (+ (* (conv i) 100) y)])] (it/with-index a)))]
      [(eq? code 28) (let* ([n (next-u)] [a (build)]) (it/take n a))]
      [(eq? code 29) (let* ([n (next-u)] [a (build)]) (it/skip n a))]
      [(eq? code 30) (let* ([p (next)] [a (build)]) (it/take-while [^1 (pred p %1)] a))]
      [(eq? code 31) (let* ([p (next)] [a (build)]) (it/skip-while [^1 (pred p %1)] a))]
      [(eq? code 32) (let* ([k (next)] [a (build)]) (it/flat-map [^1 (inner k %1)] a))]
      [(eq? code 33) (let* ([a (build)] [b (build)] [c (build)]) (it/concat a b c))]
      [(eq? code 34) (let1 a (build) (it/concat a))]
      [(eq? code 35) (let1 a (build) (collect a))]
      [(eq? code 36) (let* ([k (next)] [a (build)]) (it/flat-map [^1 (optf k %1)] a))]
      [else (begin (out-tag 33) iterator/empty)])))
(function (wo o) {(-> (Option I64) unit)} (wr o))
(function (consume it code) {(-> (Iterator I64) I64 unit)}
  (cond
    [(eq? code 1) (out-u (it/count it))]
    [(eq? code 2) (wo (it/first? it))]
    [(eq? code 3) (wo (it/at (next-u) it))]
    [(eq? code 4) (out-i (it/fold [^2 (bw& (+ (* %1 7) %2) 65535)] 1 it))]
    [(eq? code 5) (let1 p (next) (out-bool (it/all? [^1 (pred p %1)] it)))]
    [(eq? code 6) (let1 p (next) (out-bool (it/any? [^1 (pred p %1)] it)))]
    [(eq? code 7) (let1 p (next) (wo (it/find? [^1 (pred p %1)] it)))]
    [(eq? code 8) (let1 p (next) (wo (it/find-map? [^1 (optf p %1)] it)))]
    [(eq? code 9) (let1 p (next) (wr (it/find-index? [^1 (pred p %1)] it)))]
    [(eq? code 10) (out-i (it/sum it))]
    [(eq? code 11) (out-i (it/product (it/map [^1 (+ 1 (bw& %1 1))] it)))]
    [(eq? code 12) (let1 p (next) (match (it/traverse-option [^1 (optf p %1)] it) [none (out-tag 78)] [(some (let v)) (begin (out-tag 83) (for (let x) v (out-i x)))]))]
    [(eq? code 13) (let1 p (next) (match (it/traverse-result [^1 (resf p %1)] it) [(err (let e)) (begin (out-tag 69) (out-i e))] [(ok (let v)) (begin (out-tag 83) (for (let x) v (out-i x)))]))]
    [(eq? code 14) (let1 a {(Array I64)} (collect it) (begin (out-u (array/length a)) (for (let x) a (out-i x))))]
    [(eq? code 15) (let1 a {(Vector I64)} (collect it) (begin (out-u (vector/length a)) (for (let x) a (out-i x))))]
    [(eq? code 16) (let1 n (ref (next-u)) (for (let x) it (begin (out-tag 46) (out-i x) (set! n (- ~n 1)) (when (eq? ~n 0) (return unit)))))]
    [(eq? code 17) (let1 n (ref (next-u)) (while (< 0 ~n) (begin (set! n (- ~n 1)) (wo (iterator/next! it)))))]
    [else (out-tag 33)]))
(function (main) {(-> unit)}
  (let1 go (ref #t)
    (while ~go
      (if (eq? (next) 0) (set! go #f)
        (let* ([it (build)] [n (ref (next-u))])
          (out-tag 66)
          (while (< 0 ~n) (begin (set! n (- ~n 1)) (consume it (next)) (out-tag 124)))
          (out-nl))))))
(main)
'''


class Gen:
    def __init__(self, rng):
        self.rng, self.toks, self.ev, self.tag = rng, [], [], 0

    # ---- model ----
    def source(self, tag, it):
        for x in it:
            self.ev += ["<", str(tag), str(x)]
            yield x

    def call(self, f, x):
        self.ev += ["(", str(f), str(x)]
        return ((x * 3) & 1023) + f

    def pred(self, p, x):
        self.ev += ["?", str(p), str(x)]
        return (x & 7) < p

    def optf(self, p, x):
        self.ev += ["O", str(p), str(x)]
        return (x + 1,) if (x & 7) < p else ()

    def inner(self, k, x):
        self.ev += ["F", str(k), str(x)]
        return self.source(100 + k, range(x, x + (x & 3)))

    # ---- generator: appends tokens, returns the model's iterator ----
    def build(self, depth):
        r = self.rng
        T = self.toks
        if depth == 0 or r.random() < 0.12:
            code = r.choice([1, 2, 3, 4, 4, 5, 6, 6, 7, 8, 9, 10, 11, 12, 13, 14])
            self.tag += 1
            tag = self.tag
            T += [code, tag]
            if code == 1:
                it = []
            elif code == 2:
                x = r.randrange(-50, 50)
                T += [x]
                it = [x]
            elif code == 3:
                n, x = r.choice([0, 1, 2, 5]), r.randrange(-50, 50)
                T += [n, x]
                it = [x] * n
            elif code in (4, 13):
                st = r.choice([1, 1, 2, 3, 7, -1, -1, -2, -5])
                s = r.randrange(-20, 20)
                e = s + r.choice([0, 1, -1, 2, r.randrange(-20, 20), st * r.randrange(0, 6), st * 4 + 1, st * 4 - 1])
                T += [s, e, st]
                it = range(s, e, st)
            elif code == 14:
                st = r.choice([1, 1, 2, 3, 7])
                s = r.randrange(0, 20)
                e = max(0, s + r.choice([0, 1, -1, 2, r.randrange(-20, 20), st * r.randrange(0, 6), st * 4 + 1]))
                T += [s, e, st]
                it = range(s, e, st)
            elif code == 5:
                s, lim = r.randrange(-5, 10), r.randrange(-5, 14)
                T += [s, lim]
                it = [x * 5 for x in range(s, lim)]
            elif code in (6, 7, 10, 11):
                l = [r.randrange(-50, 100) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 15]))]
                T += [len(l)] + l
                it = l if code in (6, 11) else l[::-1]
            elif code == 8:
                n, x = r.choice([0, 1, 2, 5]), r.randrange(-50, 50)
                T += [n, x]
                return self.take(n, self.source(tag, iter(lambda: x, None)))
            elif code == 9:
                b, x = r.randrange(2), r.randrange(-50, 50)
                T += [b, x]
                it = [x] if b else []
            elif code == 12:
                s, n = r.randrange(-5, 10), r.randrange(0, 8)
                T += [s, n]
                return self.take(n, self.source(tag, range(s, s + 1000)))
            return self.source(tag, it)
        code = r.choice([20, 20, 21, 22, 23, 24, 25, 25, 26, 27, 28, 28, 29, 29, 30, 31, 31, 32, 32, 33, 34, 35, 36])
        T += [code]
        B = lambda: self.build(depth - 1)
        if code == 20:
            a, b = B(), B()
            return self.chain([a, b])
        if code == 33:
            return self.chain([B(), B(), B()])
        if code == 34:
            return B()
        if code == 35:
            return B()
        if code == 21:
            a, b = B(), B()
            return self.zip(a, b, lambda x, y: x * 31 + y)
        if code == 22:
            f = r.randrange(1, 9)
            T += [f]
            a, b = B(), B()

            def g(x, y):
                self.ev += ["Z", str(x), str(y)]
                return x * f + y
            return self.zip(a, b, g)
        if code == 23:
            a, b = B(), B()

            def ze():
                while True:
                    x, y = next(a, None), next(b, None)
                    if x is None and y is None:
                        return
                    yield x + 1 if y is None else y + 2 if x is None else x * 31 + y
            return ze()
        if code == 27:
            return (i * 100 + x for i, x in enumerate(B()))
        if code in (28, 29):
            n = r.choice([0, 1, 2, 3, 5, 9, 2**63])
            T += [n]
            a = B()
            if code == 28:
                return self.take(n, a)

            def skip():
                for _ in range(n):
                    if next(a, None) is None:
                        return
                yield from a
            return skip()
        p = r.randrange(0, 9)
        T += [p]
        a = B()
        if code == 24:
            return (self.call(p, x) for x in a)
        if code == 25:
            return (x for x in a if self.pred(p, x))
        if code in (26, 36):
            return (y for x in a for y in self.optf(p, x))
        if code == 30:
            def tw():
                for x in a:
                    if not self.pred(p, x):
                        return
                    yield x
            return tw()
        if code == 31:
            def sw():
                for x in a:
                    if not self.pred(p, x):
                        yield x
                        break
                yield from a
            return sw()
        if code == 32:
            return (y for x in a for y in self.inner(p, x))
        raise KeyError(code)

    def take(self, n, a):
        while n > 0:
            x = next(a, None)
            if x is None:
                return
            n -= 1
            yield x

    def chain(self, its):
        for i in its:
            yield from i

    def zip(self, a, b, f):
        while True:
            x = next(a, None)
            if x is None:
                return
            y = next(b, None)
            if y is None:
                return
            yield f(x, y)

    # ---- consumers: return False when the iterator has been seen exhausted ----
    def consume(self, it):
        r, T, ev = self.rng, self.toks, self.ev
        code = r.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 17])
        T += [code]
        S = object()
        more = True
        if code == 1:
            ev += [str(len(list(it)))]
            more = False
        elif code in (2, 3):
            n = 0
            if code == 3:
                n = r.choice([0, 1, 2, 3, 6])
                T += [n]
            for i, x in enumerate(it):
                if i == n:
                    ev += ["S", str(x)]
                    break
            else:
                ev += ["N"]
                more = False
        elif code == 4:
            a = 1
            for x in it:
                a = (a * 7 + x) & 65535
            ev += [str(a)]
            more = False
        elif code in (5, 6):
            p = r.randrange(0, 9)
            T += [p]
            for x in it:
                if self.pred(p, x) == (code == 6):
                    ev += [str(int(code == 6))]
                    break
            else:
                ev += [str(int(code == 5))]
                more = False
        elif code in (7, 8, 9):
            p = r.randrange(0, 5)
            T += [p]
            for i, x in enumerate(it):
                if code == 8:
                    y = self.optf(p, x)
                    if y:
                        ev += ["S", str(y[0])]
                        break
                elif self.pred(p, x):
                    ev += ["S", str(x if code == 7 else i)]
                    break
            else:
                ev += ["N"]
                more = False
        elif code == 10:
            ev += [str(sum(it))]
            more = False
        elif code == 11:
            n, k = 1, 0
            for x in it:
                n *= 1 + (x & 1)
                k += 1
            ev += [str(n)]
            if n >= 2**62:
                raise OverflowError
            more = False
        elif code in (12, 13):
            p = r.choice([8, 8, 7, 5])
            T += [p]
            l = []
            for x in it:
                ev += ["O" if code == 12 else "R", str(p), str(x)]
                if (x & 7) < p:
                    l.append(str(x + 1))
                else:
                    ev += ["N"] if code == 12 else ["E", str(x)]
                    break
            else:
                ev += ["S"] + l
                more = False
        elif code in (14, 15):
            l = list(it)
            ev += [str(len(l))] + [str(x) for x in l]
            more = False
        elif code == 16:
            n = r.choice([1, 1, 2, 3])
            T += [n]
            for x in it:
                ev += [".", str(x)]
                n -= 1
                if n == 0:
                    break
            else:
                more = False
        elif code == 17:
            n = r.choice([1, 2, 3, 5])
            T += [n]
            for i in range(n):
                x = next(it, None)
                if x is None:
                    # what an exhausted chain of exhausted sources yields next is not compared
                    T[-1] = i + 1
                    ev += ["N"]
                    more = False
                    break
                ev += ["S", str(x)]
        ev += ["|"]
        return more

    def item(self):
        """one iterator and its consumers -> expected tokens of its line"""
        T = self.toks
        T += [1]
        self.ev = []
        self.tag = 0
        it = self.build(self.rng.choice([1, 2, 2, 3, 3, 4]))
        it = iter(it)
        ev = self.ev = ["B"] + self.ev
        at = len(T)
        T += [0]
        n = 0
        while True:
            n += 1
            if not self.consume(it) or n == 4:
                break
        T[at] = n
        return self.ev


def check(c, d, cfgs, run_hist):
    jobs = [(c.rng.getrandbits(48), cfgs[i % 2]) for i in range(c.budget(160, 1600))]
    codes = {}

    def one(j):
        seed, cfg = j
        if len(c.violations) >= 5:
            return 0
        toks, exp, reps = [], [], []
        rng = random.Random(seed)
        while len(exp) < 250:
            g = Gen(rng)
            try:
                e = g.item()
            except OverflowError:
                continue
            if len(e) > 6000 or any(abs(int(x)) > 2**50 for x in e if x.lstrip("-").isdigit()):
                continue
            toks += g.toks
            exp.append(e)
            reps.append(g.toks)
        p = d.run(cfg, toks + [0], timeout=60)
        lines = p.text.split("\n")
        n = 0
        for i, e in enumerate(exp):
            got = drv.split(lines[i]) if i < len(lines) - 1 else ["(no answer, status %s)" % p.rc]
            if got != e:
                k = next((k for k, (x, y) in enumerate(zip(e, got)) if x != y), min(len(e), len(got)))
                c.violation("iterator chain %s (script tokens, seed %d, %s): event %d: expected ...%s, got ...%s" % (
                    reps[i], seed, cfg, k, " ".join(e[max(0, k - 6):k + 8]), " ".join(got[max(0, k - 6):k + 8])),
                    {"d.llrl": d.src, "shim.c": drv.SHIM, "script.txt": " ".join(map(str, reps[i] + [0])) + "\n",
                     "expected.txt": " ".join(e) + "\n", "got.txt": " ".join(got) + "\n"})
                return n
            n += len(e) // 2
            c.distinct.add(common.dist_hash(str(reps[i])))
        if p.rc != 0:
            c.violation("iterator chains (seed %d, %s): the program ended with status %s" % (seed, cfg, p.rc),
                        {"d.llrl": d.src, "script.txt": " ".join(map(str, toks + [0]))})
        c.sample({"iterator_script": reps[3], "expected_events": " ".join(exp[3])[:300]}, limit=6)
        return n
    run_hist(c, jobs, one, "iterator_events")
    c.cov["iterator_chains"] = 250 * len(jobs)
