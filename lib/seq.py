"""Arrays and vectors: an interpreting driver and an exact model of the memory they denote."""
import drv

NA = NV = 6
TYPES = r'''
(value-data P (p: U8 I64 U16))
(instance Tok.P (Tok P) (function (rd) (let1 a (next) (p: (conv a) (+ a 1) (conv (+ a 2))))) (function (wr a) (match a [(p: (let x) (let y) (let z)) (begin (out-i y) (when (or (ne? x (conv (- y 1))) (ne? z (conv (+ y 1)))) (out-tag 88)))])))
(instance Eq.P (Eq P) (function (eq? a b) (with ([(p: _ (let x) _) a] [(p: _ (let y) _) b]) (eq? x y))))
(instance Ord.P (Ord P) (function (compare a b) (with ([(p: _ (let x) _) a] [(p: _ (let y) _) b]) (compare x y))))
(instance DeepCopy.P (DeepCopy P) (function (deep-copy a) a))
(instance DebugDisplay.P (DebugDisplay P) (function (debug-display! w a) (match a [(p: _ (let y) _) (debug-display! w y)])))
(instance Tok.Ref (Tok (Ref I64)) (function (rd) (ref (next))) (function (wr a) (out-i ~a)))
(class (Mut A) (function (mut! v a) {(-> I64 A unit)}))
(instance Mut.Ref (Mut (Ref I64)) (function (mut! v a) (set! a v)))
(instance Mut.I64 (Mut I64) (function (mut! v a) unit))
(instance Mut.U8 (Mut U8) (function (mut! v a) unit))
(instance Mut.U16 (Mut U16) (function (mut! v a) unit))
(instance Mut.P (Mut P) (function (mut! v a) unit))
(instance Mut.String (Mut String) (function (mut! v a) unit))
'''


def driver(types):
    where = "(where (Tok A) (Mut A) (Eq A) (Ord A) (DeepCopy A) (DebugDisplay A))"
    s = '(import "std/vector" Vector vector vector/_ _.Vector)\n(import "std/array" Array array array/_ _.Array)\n' + TYPES
    s += "(function (wra a) {(forall A) (-> (Array A) unit) (where (Tok A))} (let1 i (ref 0 {U64}) (begin (out-u (array/length a)) (while (< ~i (array/length a)) (wr (get a[~i])) (set! i (+ ~i 1))))))\n"
    s += "(function (wri it) {(forall A) (-> (Iterator A) unit) (where (Tok A))} (for (let x) it (wr x)))\n"
    s += "(function (vst v) {(forall A) (-> (Vector A) unit)} (begin (out-tag 64) (out-u (vector/length v)) (out-u (vector/capacity v))))\n"
    s += "(function (cmp a b) {(forall A) (-> A A unit) (where (Ord A) (Eq A))} (begin (out-ord (compare a b)) (out-bool (lt? a b)) (out-bool (le? a b)) (out-bool (gt? a b)) (out-bool (ge? a b)) (out-bool (eq? a b)) (out-bool (ne? a b))))\n"
    V = "(function (vop ar vr code) {(forall A) (-> (Array (Array A)) (Array (Vector A)) I64 unit) %s} (let1 v (get vr[(next-u)]) (begin (cond\n" % where
    for code, b in VOPS.items():
        V += "  [(eq? code %d) %s]\n" % (code, b[1])
    V += "  [else (out-tag 33)]) (vst v))))\n"
    A = "(function (aop ar vr code) {(forall A) (-> (Array (Array A)) (Array (Vector A)) I64 unit) %s} (let1 a (get ar[(next-u)]) (cond\n" % where
    for code, b in AOPS.items():
        A += "  [(eq? code %d) %s]\n" % (code, b[1])
    A += "  [else (out-tag 33)])))\n"
    s += A + V
    s += """(function (drive ar vr) {(forall A) (-> (Array (Array A)) (Array (Vector A)) unit) %s}
  (let1 go (ref #t)
    (while ~go
      (let1 code (next)
        (cond
          [(eq? code 0) (set! go #f)]
          [(eq? code 99) (when (eq? (guard (next)) 1) (begin (let1 c (next) (if (< c 50) (aop ar vr c) (vop ar vr c))) (guard-end!)))]
          [(< code 50) (aop ar vr code)]
          [else (vop ar vr code)])
        (out-nl)))))
""" % where
    s += "(function (start) {(forall A) (-> (Array A) (Vector A) unit) %s} unit)\n" % where if False else ""
    s += "(function (main which) {(-> I64 unit)} (cond\n"
    for i, t in enumerate(types):
        s += "  [(eq? which %d) (let* ([ar {(Array (Array %s))} (array/new array/empty %d)] [vr {(Array (Vector %s))} (array/new* [^0 vector/empty] %d)]) (drive ar vr))]\n" % (i + 1, t, NA, t, NV)
    s += "  [else (out-tag 33)]))\n(main (next))\n"
    return s


# code -> (name, llrl body); a is array register operand, results stored into registers read from the script
AOPS = {
    1: ("new*", "(let* ([d (next-u)] [n (next-u)]) (set! ar[d] (array/new* [^0 (rd)] n)))"),
    2: ("new", "(let* ([d (next-u)] [n (next-u)] [x (rd)]) (set! ar[d] (array/new x n)))"),
    3: ("get", "(wr (let1 i (next-u) (get a[i])))"),
    4: ("get?", "(wr (let1 i (next-u) (get? a[i])))"),
    5: ("set!", "(let* ([i (next-u)] [x (rd)]) (set! a[i] x))"),
    6: ("ref", "(wr ~(array/ref (next-u) a))"),
    7: ("ref-set", "(let* ([i (next-u)] [x (rd)]) (set! (array/ref i a) x))"),
    8: ("subarray", "(let* ([d (next-u)] [s (next-u)] [e (next-u)]) (set! ar[d] (array/subarray s e a)))"),
    9: ("take", "(let* ([d (next-u)] [n (next-u)]) (set! ar[d] (array/take n a)))"),
    10: ("skip", "(let* ([d (next-u)] [n (next-u)]) (set! ar[d] (array/skip n a)))"),
    11: ("split-at", "(let* ([d (next-u)] [e (next-u)] [n (next-u)]) (match (array/split-at n a) [(: (let x) (let y)) (begin (set! ar[d] x) (set! ar[e] y))]))"),
    12: ("split-at?", "(let* ([d (next-u)] [e (next-u)] [n (next-u)]) (match (array/split-at? n a) [(some (: (let x) (let y))) (begin (out-tag 83) (set! ar[d] x) (set! ar[e] y))] [none (out-tag 78)]))"),
    13: ("split-first?", "(let1 d (next-u) (match (array/split-first? a) [(some (: (let x) (let y))) (begin (wr x) (set! ar[d] y))] [none (out-tag 78)]))"),
    14: ("split-last?", "(let1 d (next-u) (match (array/split-last? a) [(some (: (let x) (let y))) (begin (wr x) (set! ar[d] y))] [none (out-tag 78)]))"),
    15: ("split-first", "(let1 d (next-u) (match (array/split-first a) [(: (let x) (let y)) (begin (wr x) (set! ar[d] y))]))"),
    16: ("split-last", "(let1 d (next-u) (match (array/split-last a) [(: (let x) (let y)) (begin (wr x) (set! ar[d] y))]))"),
    17: ("insert", "(let* ([d (next-u)] [i (next-u)] [x (rd)]) (set! ar[d] (array/insert i x a)))"),
    18: ("push", "(let* ([d (next-u)] [x (rd)]) (set! ar[d] (array/push x a)))"),
    19: ("unshift", "(let* ([d (next-u)] [x (rd)]) (set! ar[d] (array/unshift x a)))"),
    20: ("update", "(let* ([d (next-u)] [i (next-u)] [x (rd)]) (set! ar[d] (array/update i x a)))"),
    21: ("remove", "(let* ([d (next-u)] [i (next-u)]) (set! ar[d] (array/remove i a)))"),
    22: ("concat", "(let* ([d (next-u)] [e (next-u)] [c (array/concat a (get ar[e]))]) (set! ar[d] (if (or (array/empty? a) (array/empty? (get ar[e]))) (shallow-copy c) c)))"),
    23: ("fill!", "(array/fill! (rd) a)"),
    24: ("fill!*", "(array/fill!* [^0 (rd)] a)"),
    25: ("copy!", "(array/copy! a (get ar[(next-u)]))"),
    26: ("swap!", "(let* ([i (next-u)] [j (next-u)]) (array/swap! i j a))"),
    27: ("reverse!", "(array/reverse! a)"),
    28: ("length", "(begin (out-u (array/length a)) (out-bool (array/empty? a)))"),
    29: ("shallow-copy", "(set! ar[(next-u)] (shallow-copy a))"),
    30: ("deep-copy", "(set! ar[(next-u)] (deep-copy a))"),
    31: ("compare", "(cmp a (get ar[(next-u)]))"),
    32: ("debug", "(out-s (string (debug a)))"),
    33: ("iterate", "(wri (iterate a))"),
    34: ("rev-iterate", "(wri (rev-iterate a))"),
    35: ("collect", "(set! ar[(next-u)] (collect a))"),
    36: ("dump", "(wra a)"),
    37: ("mutate", "(let* ([i (next-u)] [x (next)]) (mut! x (get a[i])))"),
    38: ("literal", "(let* ([d (next-u)] [x (rd)] [y (rd)] [z (rd)]) (set! ar[d] (array x y z)))"),
    39: ("for-while", "(let1 n (ref (next-u)) (for (let x) a (begin (when (eq? ~n 0) (return unit)) (set! n (- ~n 1)) (wr x))))"),
}
VOPS = {
    51: ("new", "(let* ([d (next-u)] [n (next-u)] [x (rd)]) (set! vr[d] (vector/new x n)))"),
    52: ("new*", "(let* ([d (next-u)] [n (next-u)]) (set! vr[d] (vector/new* [^0 (rd)] n)))"),
    53: ("with-capacity", "(let* ([d (next-u)] [n (next-u)]) (set! vr[d] (vector/with-capacity n)))"),
    54: ("from-array", "(let* ([d (next-u)] [s (next-u)]) (set! vr[d] (vector/from-array (get ar[s]))))"),
    55: ("push!", "(vector/push! (rd) v)"),
    56: ("pop!", "(wr (vector/pop! v))"),
    57: ("insert!", "(let* ([i (next-u)] [x (rd)]) (vector/insert! i x v))"),
    58: ("swap-remove!", "(wr (vector/swap-remove! (next-u) v))"),
    59: ("remove!", "(wr (vector/remove! (next-u) v))"),
    60: ("truncate!", "(vector/truncate! (next-u) v)"),
    61: ("clear!", "(vector/clear! v)"),
    62: ("append!", "(vector/append! (get ar[(next-u)]) v)"),
    63: ("swap!", "(let* ([i (next-u)] [j (next-u)]) (vector/swap! i j v))"),
    64: ("reverse!", "(vector/reverse! v)"),
    65: ("fill!", "(vector/fill! (rd) v)"),
    66: ("fill!*", "(vector/fill!* [^0 (rd)] v)"),
    67: ("buffer", "(set! ar[(next-u)] (vector/buffer v))"),
    68: ("consume!", "(let* ([d (next-u)] [n (next-u)]) (set! ar[d] (vector/consume! n v)))"),
    69: ("consume-all!", "(set! ar[(next-u)] (vector/consume-all! v))"),
    70: ("move!", "(set! vr[(next-u)] (vector/move! v))"),
    71: ("reserve-capacity!", "(let* ([n (next-u)] [e (next)]) (vector/reserve-capacity! n (eq? e 1) v))"),
    72: ("reserve-free!", "(let* ([n (next-u)] [e (next)]) (vector/reserve-free! n (eq? e 1) v))"),
    73: ("get", "(wr (let1 i (next-u) (get v[i])))"),
    74: ("get?", "(wr (let1 i (next-u) (get? v[i])))"),
    75: ("set!", "(let* ([i (next-u)] [x (rd)]) (set! v[i] x))"),
    76: ("ref", "(wr ~(vector/ref (next-u) v))"),
    77: ("ref-set", "(let* ([i (next-u)] [x (rd)]) (set! (vector/ref i v) x))"),
    78: ("state", "(begin (out-u (vector/length v)) (out-bool (vector/empty? v)) (out-bool (eq? (vector/free v) (- (vector/capacity v) (vector/length v)))))"),
    79: ("shallow-copy", "(set! vr[(next-u)] (shallow-copy v))"),
    80: ("deep-copy", "(set! vr[(next-u)] (deep-copy v))"),
    81: ("compare", "(cmp v (get vr[(next-u)]))"),
    82: ("debug", "(out-s (string (debug v)))"),
    83: ("iterate", "(wri (iterate v))"),
    84: ("rev-iterate", "(wri (rev-iterate v))"),
    85: ("collect", "(let1 d (next-u) (begin (set! vr[d] (collect v)) (vst (get vr[d]))))"),
    86: ("alias", "(set! vr[(next-u)] v)"),
    87: ("mutate", "(let* ([i (next-u)] [x (next)]) (mut! x (get v[i])))"),
    88: ("literal", "(let* ([d (next-u)] [x (rd)] [y (rd)] [z (rd)]) (set! vr[d] (vector x y z)))"),
    89: ("dump", "(wra (vector/buffer v))"),
    90: ("vector-of-array", "(let* ([d (next-u)] [s (next-u)]) (begin (set! vr[d] (collect (get ar[s]))) (vst (get vr[d]))))"),
    91: ("array-of-vector", "(let1 d (next-u) (set! ar[d] (collect v)))"),
}
CODE = {("a", n): c for c, (n, _) in AOPS.items()}
CODE.update({("v", n): c for c, (n, _) in VOPS.items()})


class Panic(Exception):
    pass


class Illegal(Exception):
    """the operation is outside the defined behaviour (overlapping copy)"""


class Arr:
    __slots__ = ("b", "o", "n")

    def __init__(self, b, o, n):
        self.b, self.o, self.n = b, o, n

    def vals(self):
        return self.b[self.o:self.o + self.n]

    def at(self, i):
        if not 0 <= i < self.n:
            raise Panic()
        return self.b[self.o + i]

    def put(self, i, x):
        if not 0 <= i < self.n:
            raise Panic()
        self.b[self.o + i] = x


def overlap(p, m, q, n):
    return p.b is q.b and p.o < q.o + n and q.o < p.o + m


class Vec:
    __slots__ = ("b", "o", "n", "cap")

    def __init__(self, a, n=None):
        self.b, self.o, self.n, self.cap = a.b, a.o, a.n if n is None else n, a.n

    def buf(self):
        return Arr(self.b, self.o, self.n)


class State:
    def __init__(self, kind, caphook=None):
        self.kind = kind       # KT: enc, log, order, debug; is_ref
        self.a = [Arr([], 0, 0) for _ in range(NA)]
        self.v = [Vec(Arr([], 0, 0)) for _ in range(NV)]
        self.caphook = caphook or (lambda need, cap, exact: need if exact else max(need, 2 * max(2, cap)))

    def val(self, x):
        return [x] if self.kind.is_ref else x

    def raw(self, x):
        return x[0] if self.kind.is_ref else x

    def log(self, x):
        return self.kind.log(self.raw(x))

    def opt(self, x):
        return ["N"] if x is None else ["S"] + self.log(x[0])

    def cmp(self, x, y):
        kx = [self.kind.order(self.raw(e)) for e in x]
        ky = [self.kind.order(self.raw(e)) for e in y]
        o = (kx > ky) - (kx < ky)
        return [str(o)] + [str(int(b)) for b in (o < 0, o <= 0, o > 0, o >= 0, o == 0, o != 0)]

    def deep(self, vals):
        return [list(x) for x in vals] if self.kind.is_ref else list(vals)

    def dbg(self, name, vals):
        return drv.shex("(" + name + "".join(" " + self.kind.debug(self.raw(x)) for x in vals) + ")")

    def reserve(self, v, need, exact):
        if v.cap < need:
            cap = self.caphook(need, v.cap, exact)
            if cap < need or (exact and cap != need):
                raise AssertionError("capacity %d after a request for %d%s" % (cap, need, " exactly" if exact else ""))
            v.b = v.b[v.o:v.o + v.n] + [None] * (cap - v.n)
            v.o, v.cap = 0, cap

    def new(self, vals):
        vals = list(vals)
        return Arr(vals, 0, len(vals))

    def run(self, code, r, args):
        """-> expected tokens; raises Panic when the operation must be refused"""
        if code < 50:
            return self.arun(AOPS[code][0], r, args)
        v = self.v[r]
        out = self.vrun(VOPS[code][0], v, args)
        return out + ["@", str(v.n), str(v.cap)]

    def arun(self, op, r, g):
        a = self.a[r]
        S = self.a
        if op == "new*" or op == "literal":
            S[g[0]] = self.new(map(self.val, g[1]))
        elif op == "new":
            x = self.val(g[2])
            S[g[0]] = self.new([x] * g[1])
        elif op in ("get", "ref"):
            return self.log(a.at(g[0]))
        elif op == "get?":
            return self.opt([a.at(g[0])] if g[0] < a.n else None)
        elif op in ("set!", "ref-set"):
            a.put(g[0], self.val(g[1]))
        elif op == "subarray":
            if not g[1] <= g[2] <= a.n:
                raise Panic()
            S[g[0]] = Arr(a.b, a.o + g[1], g[2] - g[1])
        elif op == "take":
            S[g[0]] = Arr(a.b, a.o, min(a.n, g[1]))
        elif op == "skip":
            k = min(a.n, g[1])
            S[g[0]] = Arr(a.b, a.o + k, a.n - k)
        elif op in ("split-at", "split-at?"):
            if g[2] > a.n:
                if op == "split-at":
                    raise Panic()
                return ["N"]
            x, y = Arr(a.b, a.o, g[2]), Arr(a.b, a.o + g[2], a.n - g[2])
            S[g[0]] = x
            S[g[1]] = y
            return ["S"] if op == "split-at?" else []
        elif op.startswith("split-"):
            if a.n == 0:
                if not op.endswith("?"):
                    raise Panic()
                return ["N"]
            if "first" in op:
                x, y = a.at(0), Arr(a.b, a.o + 1, a.n - 1)
            else:
                x, y = a.at(a.n - 1), Arr(a.b, a.o, a.n - 1)
            S[g[0]] = y
            return self.log(x)
        elif op == "insert":
            if g[1] > a.n:
                raise Panic()
            l = a.vals()
            S[g[0]] = self.new(l[:g[1]] + [self.val(g[2])] + l[g[1]:])
        elif op == "push":
            S[g[0]] = self.new(a.vals() + [self.val(g[1])])
        elif op == "unshift":
            S[g[0]] = self.new([self.val(g[1])] + a.vals())
        elif op == "update":
            l = a.vals()
            if g[1] >= a.n:
                raise Panic()
            l[g[1]] = self.val(g[2])
            S[g[0]] = self.new(l)
        elif op == "remove":
            l = a.vals()
            if g[1] >= a.n:
                raise Panic()
            del l[g[1]]
            S[g[0]] = self.new(l)
        elif op == "concat":
            S[g[0]] = self.new(a.vals() + S[g[1]].vals())
        elif op == "fill!":
            x = self.val(g[0])
            for i in range(a.n):
                a.put(i, x)
        elif op == "fill!*":
            for i in range(a.n):
                a.put(i, self.val(g[0][i]))
        elif op == "copy!":
            d = S[g[0]]
            if a.n > d.n:
                raise Panic()
            if overlap(a, a.n, d, a.n):
                raise Illegal()
            for i, x in enumerate(a.vals()):
                d.put(i, x)
        elif op == "swap!":
            x, y = a.at(g[0]), a.at(g[1])
            a.put(g[0], y)
            a.put(g[1], x)
        elif op == "reverse!":
            for i, x in enumerate(reversed(a.vals())):
                a.put(i, x)
        elif op == "length":
            return [str(a.n), str(int(a.n == 0))]
        elif op in ("shallow-copy", "collect"):
            S[g[0]] = self.new(a.vals())
        elif op == "deep-copy":
            S[g[0]] = self.new(self.deep(a.vals()))
        elif op == "compare":
            return self.cmp(a.vals(), S[g[0]].vals())
        elif op == "debug":
            return [self.dbg("array", a.vals())]
        elif op == "iterate":
            return [t for x in a.vals() for t in self.log(x)]
        elif op == "rev-iterate":
            return [t for x in reversed(a.vals()) for t in self.log(x)]
        elif op == "dump":
            return [str(a.n)] + [t for x in a.vals() for t in self.log(x)]
        elif op == "for-while":
            return [t for x in a.vals()[:g[0]] for t in self.log(x)]
        elif op == "mutate":
            x = a.at(g[0])
            if self.kind.is_ref:
                x[0] = g[1]
        else:
            raise KeyError(op)
        return []

    def vrun(self, op, v, g):
        S, V = self.a, self.v
        if op == "new":
            V[g[0]] = Vec(self.new([self.val(g[2])] * g[1]))
        elif op in ("new*", "literal"):
            V[g[0]] = Vec(self.new(map(self.val, g[1])))
        elif op == "with-capacity":
            V[g[0]] = Vec(self.new([None] * g[1]), 0)
        elif op == "from-array":
            V[g[0]] = Vec(S[g[1]])
        elif op == "push!":
            self.reserve(v, v.n + 1, False)
            v.b[v.o + v.n] = self.val(g[0])
            v.n += 1
        elif op == "pop!":
            if v.n == 0:
                return ["N"]
            v.n -= 1
            return self.opt([v.b[v.o + v.n]])
        elif op == "insert!":
            if g[0] > v.n:
                raise Panic()
            self.reserve(v, v.n + 1, False)
            for i in range(v.n, g[0], -1):
                v.b[v.o + i] = v.b[v.o + i - 1]
            v.b[v.o + g[0]] = self.val(g[1])
            v.n += 1
        elif op == "swap-remove!":
            x = v.buf().at(g[0])
            v.b[v.o + g[0]] = v.b[v.o + v.n - 1]
            v.n -= 1
            return self.log(x)
        elif op == "remove!":
            x = v.buf().at(g[0])
            for i in range(g[0], v.n - 1):
                v.b[v.o + i] = v.b[v.o + i + 1]
            v.n -= 1
            return self.log(x)
        elif op == "truncate!":
            v.n = min(v.n, g[0])
        elif op == "clear!":
            v.n = 0
        elif op == "append!":
            a = S[g[0]]
            if v.cap >= v.n + a.n and overlap(a, a.n, Arr(v.b, v.o + v.n, a.n), a.n):
                raise Illegal()
            l = a.vals()
            self.reserve(v, v.n + a.n, False)
            v.b[v.o + v.n:v.o + v.n + a.n] = l
            v.n += a.n
        elif op == "swap!":
            b = v.buf()
            x, y = b.at(g[0]), b.at(g[1])
            b.put(g[0], y)
            b.put(g[1], x)
        elif op == "reverse!":
            v.b[v.o:v.o + v.n] = v.b[v.o:v.o + v.n][::-1]
        elif op == "fill!":
            x = self.val(g[0])
            for i in range(v.n):
                v.b[v.o + i] = x
        elif op == "fill!*":
            for i in range(v.n):
                v.b[v.o + i] = self.val(g[0][i])
        elif op == "buffer":
            S[g[0]] = v.buf()
        elif op == "consume!":
            if g[1] > v.n:
                raise Panic()
            S[g[0]] = Arr(v.b, v.o, g[1])
            v.o, v.n, v.cap = v.o + g[1], v.n - g[1], v.cap - g[1]
        elif op == "consume-all!":
            S[g[0]] = v.buf()
            v.o, v.cap, v.n = v.o + v.n, v.cap - v.n, 0
        elif op == "move!":
            w = Vec(v.buf())
            w.cap = v.cap
            v.b, v.o, v.n, v.cap = [], 0, 0, 0
            V[g[0]] = w
        elif op == "reserve-capacity!":
            self.reserve(v, g[0], g[1] == 1)
        elif op == "reserve-free!":
            self.reserve(v, v.n + g[0], g[1] == 1)
        elif op in ("get", "ref"):
            return self.log(v.buf().at(g[0]))
        elif op == "get?":
            return self.opt([v.buf().at(g[0])] if g[0] < v.n else None)
        elif op in ("set!", "ref-set"):
            v.buf().put(g[0], self.val(g[1]))
        elif op == "state":
            return [str(v.n), str(int(v.n == 0)), "1"]
        elif op == "shallow-copy":
            V[g[0]] = Vec(self.new(v.buf().vals()))
        elif op == "deep-copy":
            V[g[0]] = Vec(self.new(self.deep(v.buf().vals())))
        elif op in ("collect", "vector-of-array"):
            l = (S[g[1]] if op == "vector-of-array" else v.buf()).vals()
            cap = self.caphook(len(l), 0, "collect")
            if cap < len(l):
                raise AssertionError("capacity %d for %d collected elements" % (cap, len(l)))
            w = Vec(self.new(l + [None] * (cap - len(l))), len(l))
            V[g[0]] = w
            return ["@", str(w.n), str(w.cap)]
        elif op == "array-of-vector":
            S[g[0]] = self.new(v.buf().vals())
        elif op == "compare":
            return self.cmp(v.buf().vals(), V[g[0]].buf().vals())
        elif op == "debug":
            return [self.dbg("vector", v.buf().vals())]
        elif op == "iterate":
            return [t for x in v.buf().vals() for t in self.log(x)]
        elif op == "rev-iterate":
            return [t for x in reversed(v.buf().vals()) for t in self.log(x)]
        elif op == "dump":
            return [str(v.n)] + [t for x in v.buf().vals() for t in self.log(x)]
        elif op == "alias":
            V[g[0]] = v
        elif op == "mutate":
            x = v.buf().at(g[0])
            if self.kind.is_ref:
                x[0] = g[1]
        else:
            raise KeyError(op)
        return []

class Kind:
    def __init__(self, name, enc, log, order, debug, gen, is_ref=False):
        self.name, self.enc, self.log, self.order, self.debug, self.gen, self.is_ref = name, enc, log, order, debug, gen, is_ref


def small(lo, hi):
    def g(rng):
        return rng.choice([lo, hi, 0, 1, 2, 3, rng.randrange(lo, hi + 1), rng.randrange(0, 10)])
    return g


def gstr(rng):
    return "".join(rng.choice("abAB09zZ_") for _ in range(rng.choice([0, 1, 1, 2, 3, 20])))


KINDS = [
    Kind("U8", lambda a: [a], lambda a: [str(a)], lambda a: a, str, small(0, 255)),
    Kind("I64", lambda a: [a], lambda a: [str(a)], lambda a: a, str, small(-2**63, 2**63 - 1)),
    Kind("P", lambda a: [a], lambda a: [str(a + 1)], lambda a: a, lambda a: str(a + 1), small(0, 250)),
    Kind("String", drv.enc_str, lambda a: [drv.shex(a)], lambda a: a.encode(), lambda a: '"%s"' % a, gstr),
    Kind("(Ref I64)", lambda a: [a], lambda a: [str(a)], lambda a: a, lambda a: "(ref %d)" % a, small(-2**63, 2**63 - 1), True),
    Kind("U16", lambda a: [a], lambda a: [str(a)], lambda a: a, str, small(0, 65535)),
]


GUARDED = {"get", "ref", "set!", "ref-set", "subarray", "split-at", "split-first", "split-last", "insert", "update", "remove", "copy!", "swap!",
           "insert!", "swap-remove!", "remove!", "consume!"}
AW = {"new*": 5, "new": 2, "subarray": 4, "set!": 4, "insert": 3, "remove": 3, "copy!": 3, "concat": 3, "swap!": 2, "compare": 4, "dump": 6}
VW = {"push!": 10, "pop!": 4, "insert!": 7, "remove!": 5, "swap-remove!": 3, "append!": 5, "consume!": 4, "from-array": 4, "buffer": 4, "dump": 6,
      "compare": 3, "new*": 4, "consume-all!": 1, "clear!": 1, "truncate!": 2, "fill!": 1, "fill!*": 1}


class Session:
    def __init__(self, rng, kind, maxlen):
        self.rng, self.kind, self.maxlen = rng, kind, maxlen
        self.st = State(kind)
        self.ops, self.toks = [], []
        self.pick = [(("a", n), AW.get(n, 1)) for _, (n, _) in AOPS.items()] + [(("v", n), VW.get(n, 1)) for _, (n, _) in VOPS.items()]

    def length(self):
        r = self.rng
        return r.choice([0, 0, 1, 1, 2, 3, 4, 5, r.randrange(0, 12), r.randrange(0, self.maxlen + 1)])

    def index(self, n, oob):
        r = self.rng
        if oob and r.random() < 0.12:
            return r.choice([n, n, n + 1, n + 2, 2 * n, 2**63 - 1, 2**63, 2**64 - 1, n + r.randrange(1, 100)])
        return r.choice([0, max(0, n - 1), n // 2, r.randrange(0, n + 1), r.randrange(0, max(n, 1))])

    def gen(self, w, name, r):
        rng, st, K = self.rng, self.st, self.kind
        x = st.a[r] if w == "a" else st.v[r]
        n = x.n
        I = lambda: self.index(n, True)
        V = lambda: K.gen(rng)
        D = lambda: rng.randrange(NA)
        e = K.enc
        if name in ("new*",):
            l = [V() for _ in range(self.length())]
            d = D()
            return (d, l), [d, len(l)] + [t for y in l for t in e(y)]
        if name == "literal":
            l = [V() for _ in range(3)]
            d = D()
            return (d, l), [d] + [t for y in l for t in e(y)]
        if name == "new":
            a = (D(), self.length(), V())
            return a, [a[0], a[1]] + e(a[2])
        if name == "fill!*":
            l = [V() for _ in range(n)]
            return (l,), [t for y in l for t in e(y)]
        if name in ("fill!", "push!"):
            y = V()
            return (y,), e(y)
        if name in ("set!", "ref-set", "insert!"):
            a = (I(), V())
            return a, [a[0]] + e(a[1])
        if name in ("insert", "update"):
            a = (D(), I(), V())
            return a, [a[0], a[1]] + e(a[2])
        if name in ("push", "unshift"):
            a = (D(), V())
            return a, [a[0]] + e(a[1])
        if name == "mutate":
            a = (rng.randrange(n) if n else 0, rng.randrange(-100, 100))
            return a, list(a)
        if name == "subarray":
            i, j = I(), I()
            if i > j and rng.random() < 0.8:
                i, j = j, i
            a = (D(), i, j)
        elif name in ("get", "ref", "get?", "swap-remove!", "remove!", "truncate!", "for-while"):
            a = (I(),)
        elif name in ("take", "skip", "remove", "consume!"):
            a = (D(), I())
        elif name in ("split-at", "split-at?"):
            d = D()
            a = (d, (d + 1) % NA, I())
        elif name == "swap!":
            a = (I(), I())
        elif name in ("length", "debug", "iterate", "rev-iterate", "dump", "reverse!", "pop!", "clear!", "state"):
            a = ()
        elif name == "with-capacity":
            a = (D(), self.length())
        elif name in ("reserve-capacity!", "reserve-free!"):
            a = (rng.choice([0, n, n + 1, rng.randrange(0, 2 * n + 8)]), rng.randrange(2))
        elif name in ("from-array", "concat", "vector-of-array"):
            a = (D(), D())
        else:
            a = (D(),)
        return a, list(a)

    def step(self, w=None, name=None, r=None):
        rng = self.rng
        if w is None:
            w, name = rng.choices([p for p, _ in self.pick], [q for _, q in self.pick])[0]
        r = rng.randrange(NA) if r is None else r
        code = CODE[(w, name)]
        x = self.st.a[r] if w == "a" else self.st.v[r]
        if name == "mutate" and x.n == 0:
            return
        if x.n > 4 * self.maxlen + 50 and name in ("push!", "insert!", "append!", "concat", "push", "insert", "unshift"):
            return
        a, toks = self.gen(w, name, r)
        try:
            self.st.run(code, r, a)
        except Illegal:
            return
        except Panic:
            self.ops.append((99, code, r, a))
            self.toks += [99, len(toks) + 2, code, r] + toks
            return
        self.ops.append((0, code, r, a))
        self.toks += [code, r] + toks

    def history(self, n):
        for _ in range(n):
            self.step()
            if self.rng.random() < 0.15:
                self.step(self.rng.choice("av"), "dump")
        for r in range(NA):
            self.step("a", "dump", r)
            self.step("v", "dump", r)
        return self

    def verify(self, text):
        """replay the model along the log -> (message or None, operations checked)"""
        lines = text.split("\n")
        cur = []

        def hook(need, cap, mode):
            if mode == "collect":
                i = cur.index("@")
                return int(cur[i + 2])
            return int(cur[-1])
        st = State(self.kind, hook)
        for i, (g, code, r, a) in enumerate(self.ops):
            name = (AOPS if code < 50 else VOPS)[code][0]
            what = "%s %s on register %d, operands %s" % ("array" if code < 50 else "vector", name, r, str(a)[:200])
            if i >= len(lines) - 1:
                return "no answer to operation %d (%s)" % (i, what), i
            cur[:] = drv.split(lines[i]) if lines[i] else []
            try:
                exp = st.run(code, r, a) if not g else ["sig6"]
            except AssertionError as e:
                return "operation %d (%s): %s" % (i, what, e), i
            except (ValueError, IndexError):
                return "operation %d (%s) logged %s" % (i, what, " ".join(cur)[:300]), i
            if exp != cur:
                return "operation %d (%s): expected %s, got %s" % (
                    i, what, "a panic" if g else " ".join(exp)[:400], " ".join(cur)[:400]), i
        return None, len(self.ops)
