"""Numbers: parsing, printing, conversions, bit operations, arithmetic, real and mathematical functions, xxHash."""
import math, struct
from fractions import Fraction
import drv

INTS = [("I8", 8, 1), ("I16", 16, 1), ("I32", 32, 1), ("I64", 64, 1), ("U8", 8, 0), ("U16", 16, 0), ("U32", 32, 0), ("U64", 64, 0)]
FLTS = [("F32", 32), ("F64", 64)]
NUMS = [t[0] for t in INTS] + ["F32", "F64"]
BITSW = [[1, 1], [3, 5, 7], [8, 8, 16, 32], [1, 62], [4, 12, 20, 28], [63], [31, 33]]

SRC = r'''
(import "std/integer" integer/_ Integer._ Signed._ Unsigned._)
(import "std/float" float/_ Float._)
(import "std/bits" _)
(import "std/conv" _)
(import "std/arithmetic" _)
(import "std/real" _)
(import "std/math" _)
(import "std/xxhash" XxHasher xx-hasher/_ _.XxHasher)
(import "std/hash" _)
(import "std/array" Array array array/_ _.Array)
(import "std/vector" Vector vector vector/_ _.Vector)
(function (cmp a b) {(forall A) (-> A A unit) (where (Ord A) (Eq A))}
  (begin (out-bool (lt? a b)) (out-bool (le? a b)) (out-bool (gt? a b)) (out-bool (ge? a b)) (out-bool (eq? a b)) (out-bool (ne? a b))))
(function (chain a b c d) {(forall A) (-> A A A A unit) (where (Ord A) (Eq A))}
  (begin (out-bool (< a b c d)) (out-bool (<= a b c d)) (out-bool (> a b c d)) (out-bool (>= a b c d)) (out-bool (= a b c d))
    (out-bool (< a b c)) (out-bool (<= a b)) (out-bool (> a b)) (out-bool (>= a)) (out-bool (<))))
(function (arith code) {(forall A) (-> I64 A) (where (Tok A) (Zero A) (One A) (Add A) (Sub A) (Mul A) (Div A) (Ord A) (Rem A))}
  (cond
    [(eq? code 1) (let* ([a (rd)] [b (rd)]) (+ a b))]
    [(eq? code 2) (let* ([a (rd)] [b (rd)]) (- a b))]
    [(eq? code 3) (let* ([a (rd)] [b (rd)]) (* a b))]
    [(eq? code 4) (let* ([a (rd)] [b (rd)]) (/ a b))]
    [(eq? code 5) (let* ([a (rd)] [b (rd)]) (% a b))]
    [(eq? code 6) (let* ([a (rd)] [b (rd)] [c (rd)] [d (rd)]) (- a b c d))]
    [(eq? code 7) (let* ([a (rd)] [b (rd)] [c (rd)]) (/ a b c))]
    [(eq? code 8) (let* ([a (rd)] [b (rd)] [c (rd)]) (% a b c))]
    [(eq? code 9) (let* ([a (rd)] [b (rd)] [c (rd)] [d (rd)]) (+ a b c d))]
    [(eq? code 10) (let* ([a (rd)] [b (rd)] [c (rd)]) (* a b c))]
    [(eq? code 11) (negate (rd))]
    [(eq? code 12) (- (rd))]
    [(eq? code 13) (abs (rd))]
    [(eq? code 14) (succ (rd))]
    [(eq? code 15) (pred (rd))]
    [(eq? code 16) (recip (rd))]
    [(eq? code 17) (/ (rd))]
    [(eq? code 18) (let* ([a (rd)] [b (rd)] [c (rd)]) (min a b c))]
    [(eq? code 19) (let* ([a (rd)] [b (rd)] [c (rd)]) (max a b c))]
    [(eq? code 20) (+)]
    [(eq? code 21) (*)]
    [else (let* ([a (rd)] [b (rd)]) (min a b))]))
(function (wr2 a) {(forall A) (-> A unit) (where (Tok A))} (wr a))
($for1 $ty (I8 I16 I32 I64 U8 U16 U32 U64)
  (function ($symbol int/ $ty) {(-> I64 unit)}
    (lambda (code)
      (cond
        [(eq? code 30) (let* ([a {$ty} (rd)] [b (rd)]) (cmp a b))]
        [(eq? code 31) (let* ([a {$ty} (rd)] [b (rd)] [c (rd)] [d (rd)]) (chain a b c d))]
        [(eq? code 40) (let* ([a {$ty} (rd)] [b (rd)]) (wr (bw<< a b)))]
        [(eq? code 41) (let* ([a {$ty} (rd)] [b (rd)]) (wr (bw>> a b)))]
        [(eq? code 42) (let* ([a {$ty} (rd)] [b (rd)]) (wr (bw& a b)))]
        [(eq? code 43) (let* ([a {$ty} (rd)] [b (rd)]) (wr (bw| a b)))]
        [(eq? code 44) (let* ([a {$ty} (rd)] [b (rd)]) (wr (bw^ a b)))]
        [(eq? code 45) (wr (bw! (rd) {$ty}))]
        [(eq? code 46) (wr (popcount (rd) {$ty}))]
        [(eq? code 50) (let* ([r (rd)] [a {$ty} (rd)]) (out-s (integer/to-string r a)))]
        [(eq? code 51) (let* ([r (rd)] [s (next-string)]) (wr (integer/from-string? r s) {(Option $ty)}))]
        [(eq? code 52) (let1 a {$ty} (rd) (out-s (string a)))]
        [(eq? code 53) (let1 a {$ty} (rd) (out-s (string (debug a))))]
        [(eq? code 54) (begin (wr integer/min {$ty}) (wr integer/max {$ty}) (wr default {$ty}))]
        [else (wr (arith code) {$ty})]))))
($for1 $ty (F32 F64)
  (function ($symbol flt/ $ty) {(-> I64 unit)}
    (lambda (code)
      (cond
        [(eq? code 30) (let* ([a {$ty} (rd)] [b (rd)]) (cmp a b))]
        [(eq? code 31) (let* ([a {$ty} (rd)] [b (rd)] [c (rd)] [d (rd)]) (chain a b c d))]
        [(eq? code 50) (let1 a {$ty} (rd) (out-s (float/to-string a)))]
        [(eq? code 51) (wr (float/from-string? (next-string)) {(Option $ty)})]
        [(eq? code 52) (let1 a {$ty} (rd) (out-s (string a)))]
        [(eq? code 53) (let1 a {$ty} (rd) (out-s (string (debug a))))]
        [(eq? code 60) (wr (ceil (rd) {$ty}))]
        [(eq? code 61) (wr (floor (rd) {$ty}))]
        [(eq? code 62) (wr (trunc (rd) {$ty}))]
        [(eq? code 63) (wr (round (rd) {$ty}))]
        [(eq? code 64) (wr (sqrt (rd) {$ty}))]
        [(eq? code 65) (wr (sin (rd) {$ty}))]
        [(eq? code 66) (wr (cos (rd) {$ty}))]
        [(eq? code 67) (let* ([a {$ty} (rd)] [b (rd)]) (wr (pow a b)))]
        [(eq? code 68) (wr (exp (rd) {$ty}))]
        [(eq? code 69) (wr (log (rd) {$ty}))]
        [(eq? code 70) (wr pi {$ty})]
        [(eq? code 71) (let* ([a {$ty} (rd)] [b (rd)] [e (rd)]) (begin (out-bool (approx-eq? a b e)) (out-bool (approx-eq? a b))))]
        [else (wr (arith code) {$ty})]))))
($for1 $ty (I8 I16 I32 I64 U8 U16 U32 U64 F32 F64)
  (function ($symbol to/ $ty) {(forall A) (-> A unit) (where (Conv A $ty))}
    (lambda (a) (wr (conv a) {$ty}))))
@CONVS@
(function (bits-op k) {(-> I64 unit)}
  (cond
@BITS@
    [else unit]))
(function (hash-session) {(-> unit)}
  (let* ([seed (next-u)] [h (ref (xx-hasher/with-seed seed))] [go (ref #t)])
    (while ~go
      (let1 code (next)
        (cond
          [(eq? code 0) (set! go #f)]
          [(eq? code 1) (hasher/write! (next-bytes) ~h)]
          [(eq? code 2) (out-h (hasher/finish ~h))]
          [(eq? code 3) (hasher/reset! ~h)]
          [(eq? code 4) (out-h (hash ~h (next-bytes)))]
          [(eq? code 5) (let* ([h2 (deep-copy ~h)]) (begin (hasher/write! (next-bytes) h2) (out-h (hasher/finish h2))))]
          [(eq? code 6) (let* ([b (next-bytes)] [n (next-u)]) (hasher/write! (array/skip n b) ~h))]
          [else (out-tag 33)])))))
(let1 go (ref #t)
  (while ~go
    (let* ([t (next)])
      (if (eq? t 0) (set! go #f)
        (begin
          (when (eq? t 99) (if (eq? (guard (next)) 1) (begin (dispatch (next)) (guard-end!)) unit))
          (when (ne? t 99) (dispatch t))
          (out-nl))))))
(function (dispatch t) {(-> I64 unit)}
  (cond
@DISP@
    [(eq? t 20) (bits-op (next))]
    [(eq? t 21) (hash-session)]
    [else (let* ([f (next)] [to (next)]) (conv-op f to))]))
'''


def src():
    convs = []
    disp = []
    for i, t in enumerate(NUMS):
        rows = "\n".join("    [(eq? to %d) (to/%s (rd) {%s})]" % (j, u, t) for j, u in enumerate(NUMS))
        convs.append("(function (conv/%s to) {(-> I64 unit)}\n  (cond\n%s\n    [else unit]))" % (t, rows))
        disp.append("    [(eq? t %d) ((%s/%s) (next))]" % (i + 1, "int" if i < 8 else "flt", t))
    convs.append("(function (conv-op f to) {(-> I64 I64 unit)}\n  (cond\n%s\n    [else unit]))" %
                 "\n".join("    [(eq? f %d) (conv/%s to)]" % (i, t) for i, t in enumerate(NUMS)))
    b = []
    for k, ws in enumerate(BITSW):
        names = "".join("[v%d {U64} (rd)] " % i for i in range(len(ws)))
        b.append("    [(eq? k %d) (let* (%s) (out-u (bits %s)))]" % (k, names, " ".join("[v%d %d]" % (i, w) for i, w in enumerate(ws))))
    s = SRC.replace("@CONVS@", "\n".join(convs)).replace("@DISP@", "\n".join(disp)).replace("@BITS@", "\n".join(b))
    # nullary constant functions returning lambdas are simplest as plain functions
    import re
    s = re.sub(r"\(function \(\$symbol (\w+)/ \$ty\) (\{.*?\})\n    \(lambda \((\w+)\)", r"(function (($symbol \1/ $ty) \3) \2\n    (begin", s)
    s = re.sub(r"\(\((int|flt)/(\w+)\) \(next\)\)", r"(\1/\2 (next))", s)
    return s


# ---- float helpers ----

def f64bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def bitsf64(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def bitsf32(b):
    return struct.unpack("<f", struct.pack("<I", b))[0]


def rnd(fr, w):
    """nearest value of the format (ties to even) of an exact rational; overflow gives inf"""
    if fr == 0:
        return 0.0
    p, emin, emax = (24, -126, 127) if w == 32 else (53, -1022, 1023)
    s = -1 if fr < 0 else 1
    a = abs(fr)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    e = max(e, emin)
    q = a / Fraction(2) ** (e - p + 1)
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    if n >= 2 ** p and e == emax:
        return s * math.inf
    v = Fraction(n) * Fraction(2) ** (e - p + 1)
    if v >= Fraction(2) ** (emax + 1):
        return s * math.inf
    return s * (v.numerator / v.denominator)


def fbits(x, w):
    if w == 64:
        return f64bits(x)
    try:
        return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError:
        return 0x7f800000 | (0x80000000 if x < 0 else 0)


def out_f(x, w):
    if x != x:
        return "nan%d" % w
    return "%016x" % fbits(x, w)


def is_nan_tok(t, w):
    try:
        b = int(t, 16)
    except ValueError:
        return False
    return (bitsf64(b) if w == 64 else bitsf32(b & 0xffffffff)) != (bitsf64(b) if w == 64 else bitsf32(b & 0xffffffff))


def fop(op, a, b, w):
    """IEEE operation in the format, for finite or infinite operands"""
    if a != a or b != b:
        return math.nan
    inf = math.isinf(a) or math.isinf(b)
    if op == "+" or op == "-":
        if op == "-":
            b = -b
        if inf or (a == 0 and b == 0):
            return a + b
        if a == -b:
            return 0.0
        return rnd(Fraction(a) + Fraction(b), w)
    if op == "*":
        if inf or a == 0 or b == 0:
            return a * b
        r = rnd(Fraction(a) * Fraction(b), w)
        return math.copysign(r, math.copysign(1, a) * math.copysign(1, b))
    if op == "/":
        sg = math.copysign(1, a) * math.copysign(1, b)
        if math.isinf(a):
            return math.nan if math.isinf(b) else sg * math.inf
        if math.isinf(b):
            return sg * 0.0
        if b == 0:
            return math.nan if a == 0 else sg * math.inf
        if a == 0:
            return sg * 0.0
        return math.copysign(rnd(Fraction(a) / Fraction(b), w), sg)
    if op == "%":
        if math.isinf(a) or b == 0:
            return math.nan
        if math.isinf(b) or a == 0:
            return a
        return math.fmod(a, b)


def gen_f(rng, w):
    k = rng.randrange(12)
    if w == 64:
        if k == 0:
            return bitsf64(rng.getrandbits(64))
        if k == 1:
            return rng.choice([0.0, -0.0, math.inf, -math.inf, math.nan, 1.0, -1.0, 0.5, -0.5, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308])
    else:
        if k == 0:
            return bitsf32(rng.getrandbits(32))
        if k == 1:
            return rng.choice([0.0, -0.0, math.inf, -math.inf, math.nan, 1.0, -1.0, 0.5, -0.5, bitsf32(1), bitsf32(0x7f7fffff), bitsf32(0x00800000)])
    if k <= 3:
        x = float(rng.randrange(-20, 20)) / rng.choice([1, 2, 4, 8])
    elif k <= 5:
        x = rng.uniform(-1000, 1000)
    elif k == 6:
        x = rng.randrange(-2 ** 64, 2 ** 64) / 2.0 ** rng.randrange(0, 70)
    elif k == 7:
        x = float(2 ** rng.randrange(0, 66) + rng.choice([-1, 0, 1])) * rng.choice([1, -1])
    elif k == 8:
        x = rng.randrange(-10 ** 6, 10 ** 6) / 100
    elif k == 9:
        x = (rng.randrange(-50, 50) + 0.5)
    else:
        x = math.ldexp(rng.uniform(-1, 1), rng.randrange(-100, 100))
    return rnd(Fraction(x), w) if x == x and not math.isinf(x) else x


def ftok(x, w):
    return fbits(x, w)


def rng_of(bits, signed):
    return (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)


def gen_i(rng, bits, signed):
    lo, hi = rng_of(bits, signed)
    k = rng.randrange(7)
    if k == 0:
        v = rng.choice([lo, lo + 1, hi, hi - 1, 0, 1, -1, 2])
    elif k == 1:
        v = rng.randrange(-12, 13)
    elif k == 2:
        v = rng.choice([1, -1]) * (1 << rng.randrange(bits)) + rng.choice([-1, 0, 1])
    elif k == 3:
        v = rng.randrange(0, 1 << rng.randrange(1, bits))
    else:
        v = rng.randrange(lo, hi + 1)
    return v if lo <= v <= hi else rng.randrange(lo, hi + 1)


DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def to_radix(v, r):
    if v == 0:
        return "0"
    s, a = "", abs(v)
    while a:
        s = DIG[a % r] + s
        a //= r
    return ("-" if v < 0 else "") + s


def from_radix(s, r, lo, hi, signed):
    b = s
    neg = False
    if signed and b.startswith(b"-"):
        neg, b = True, b[1:]
    if not b:
        return None
    v = 0
    for ch in b:
        d = DIG.find(chr(ch).lower()) if ch < 128 and chr(ch) in "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ" else -1
        if d < 0 or d >= r:
            return None
        v = v * r + d
    v = -v if neg else v
    return v if lo <= v <= hi else None


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def itok(v, signed, bits):
    return v


def gen_int(rng):
    ti = rng.randrange(8)
    name, bits, sg = INTS[ti]
    lo, hi = rng_of(bits, sg)
    m = 1 << bits
    T = ti + 1
    fmt = lambda v: str(v)
    g = lambda: gen_i(rng, bits, sg)
    fit = lambda v: v if not sg else (v if lo <= v <= hi else None)
    wrap = lambda v: v % m if not sg else v
    for _ in range(200):
        code = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 30, 31, 40, 41, 42, 43, 44, 45, 46, 50, 50, 50, 50, 51, 51, 51, 51, 51, 51, 52, 53, 54])
        if code in (20, 21):
            return [T, code], [str(code - 20)]
        if code == 54:
            return [T, code], [str(lo), str(hi), "0"]
        if code in (11, 12, 13, 14, 15, 16, 17, 45, 46, 52, 53):
            a = g()
            if code in (11, 12):
                v = wrap(-a)
            elif code == 13:
                v = abs(a)
            elif code == 14:
                v = wrap(a + 1)
            elif code == 15:
                v = wrap(a - 1)
            elif code in (16, 17):
                if a == 0:
                    continue
                v = tdiv(1, a)
            elif code == 45:
                v = ~a if sg else ~a % m
            elif code == 46:
                v = bin(a % m).count("1")
            else:
                return [T, code, a], [drv.shex(str(a))]
            if not lo <= v <= hi:
                continue
            return [T, code, a], [fmt(v)]
        if code in (40, 41):
            a, b = g(), rng.randrange(bits)
            if code == 40:
                v = (a << b) % m
                if sg and v > hi:
                    v -= m
            else:
                v = a >> b
            return [T, code, a, b], [fmt(v)]
        if code in (42, 43, 44):
            a, b = g(), g()
            v = a & b if code == 42 else a | b if code == 43 else a ^ b
            return [T, code, a, b], [fmt(v)]
        if code == 30:
            a = g()
            b = rng.choice([g(), a])
            return [T, code, a, b], [str(int(x)) for x in (a < b, a <= b, a > b, a >= b, a == b, a != b)]
        if code == 31:
            l = sorted(g() for _ in range(4))
            if rng.random() < 0.3:
                l[1] = l[2]
            if rng.random() < 0.15:
                l = [l[0]] * 4
            if rng.random() < 0.5:
                l.reverse()
            if rng.random() < 0.3:
                rng.shuffle(l)
            return [T, code] + l, chain(l)
        if code == 50:
            r, a = rng.choice([2, 3, 8, 10, 16, 36, rng.randrange(2, 37), 0, 1, 37, 255][:11 if rng.random() < 0.2 else 7]), g()
            if not 2 <= r <= 36:
                return [T, code, r, a], None
            return [T, code, r, a], [drv.shex(to_radix(a, r))]
        if code == 51:
            r = rng.choice([2, 8, 10, 16, 36, rng.randrange(2, 37)])
            k = rng.randrange(8)
            if k <= 2:
                s = to_radix(g(), r).encode()
            elif k == 3:
                s = to_radix(rng.choice([lo, hi]) + rng.randrange(-40, 41), r).encode()
            elif k == 4:
                s = to_radix(gen_i(rng, rng.choice([16, 32, 64]), rng.randrange(2)) * rng.choice([1, 1, 10, 1 << 32]), r).encode()
            elif k == 5:
                s = bytes(rng.choice(b"0123456789abzAZ-+ _.x\x80\xff\0") for _ in range(rng.randrange(5)))
            elif k == 6:
                s = rng.choice([b"", b"-", b"-0", b"--1", b"+1", b"0" * rng.randrange(1, 80) + b"1", b" 1", b"1 ", b"1\0", b"-" + b"0" * 30 + b"1"])
            else:
                s = bytearray(to_radix(g(), r).encode())
                i = rng.randrange(len(s))
                s[i] = rng.choice(b"0123456789azAZ-/:@[`{g")
                s = bytes(s)
            if rng.random() < 0.3:
                s = s.upper()
            v = from_radix(s, r, lo, hi, sg)
            return [T, code, r] + drv.enc_str(s), ["N"] if v is None else ["S", fmt(v)]
        # arithmetic
        n = {1: 2, 2: 2, 3: 2, 4: 2, 5: 2, 6: 4, 7: 3, 8: 3, 9: 4, 10: 3, 18: 3, 19: 3, 22: 2}[code]
        xs = [g() for _ in range(n)]
        if sg and code in (1, 2, 3, 6, 9, 10) and rng.random() < 0.8:
            xs = [gen_i(rng, max(2, bits // (1 if code in (1, 2) else 2 if code in (3, 6, 9) else 3)), 1) for _ in range(n)]
        if code == 18:
            v = min(xs)
        elif code == 19:
            v = max(xs)
        elif code == 22:
            v = min(xs)
        else:
            v = xs[0]
            for x in xs[1:]:
                if code in (1, 9):
                    v = wrap(v + x)
                elif code in (2, 6):
                    v = wrap(v - x)
                elif code in (3, 10):
                    v = wrap(v * x)
                else:
                    if x == 0:
                        v = None
                        break
                    q = tdiv(v, x)
                    if not lo <= q <= hi:
                        v = None
                        break
                    v = q if code in (4, 7) else v - x * q
                if not lo <= v <= hi:
                    v = None
                    break
        if v is None:
            continue
        return [T, code] + xs, [fmt(v)]
    return [T, 54], [str(lo), str(hi), "0"]


def chain(l):
    def ch(xs, f):
        return all(f(x, y) for x, y in zip(xs, xs[1:]))
    import operator as o
    return [str(int(x)) for x in (ch(l, o.lt), ch(l, o.le), ch(l, o.gt), ch(l, o.ge), ch(l, o.eq), ch(l[:3], o.lt), l[0] <= l[1], l[0] > l[1], True, True)]


def near(x, w):
    return ("~", x, w)


def fmt_g(x, w):
    if x != x:
        return None
    s = "%.*g" % (16 if w == 64 else 8, x)
    return s


def gen_flt(rng):
    ti = rng.randrange(2)
    w = 32 if ti == 0 else 64
    T = 9 + ti
    g = lambda: gen_f(rng, w)
    while True:
        code = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 30, 31, 50, 50, 50, 51, 51, 51, 51, 52, 53, 60, 60, 61, 61, 62, 62, 63, 63, 64, 64, 65, 66, 67, 68, 69, 70, 71])
        if code in (20, 21):
            return [T, code], [out_f(float(code - 20), w)]
        if code == 70:
            return [T, code], [out_f(rnd(Fraction("3.14159265358979323846"), w), w)]
        if code in (11, 12, 13, 14, 15, 16, 17) or 60 <= code <= 66 or code in (68, 69):
            a = g()
            t = [T, code, ftok(a, w)]
            fin = a == a and not math.isinf(a)
            if code in (11, 12):
                v = fop("-", 0.0, a, w)
            elif code == 13:
                if a != a:
                    v = a
                else:
                    v = a if a >= 0 else fop("-", 0.0, a, w)
            elif code == 14:
                v = fop("+", a, 1.0, w)
            elif code == 15:
                v = fop("-", a, 1.0, w)
            elif code in (16, 17):
                v = fop("/", 1.0, a, w)
            elif code == 60:
                v = math.copysign(float(math.ceil(a)), a) if fin else a
            elif code == 61:
                v = math.copysign(float(math.floor(a)), a) if fin else a
            elif code == 62:
                v = math.copysign(float(math.trunc(a)), a) if fin else a
            elif code == 63:
                v = math.copysign(float(math.floor(abs(Fraction(a)) + Fraction(1, 2))), a) if fin else a
            elif code == 64:
                if a != a or a < 0:
                    v = math.nan
                elif math.isinf(a) or a == 0:
                    v = a
                else:
                    v = sqrt_exact(a, w)
            else:
                try:
                    v = {65: math.sin, 66: math.cos, 68: math.exp, 69: math.log}[code](a)
                except ValueError:
                    v = math.nan if a != 0 or code != 69 else -math.inf
                except OverflowError:
                    v = math.inf
                return t, [near(v, w)]
            return t, [out_f(v, w)]
        if code == 67:
            a, b = g(), g()
            if rng.random() < 0.5:
                b = rng.choice([0.0, 1.0, 2.0, 3.0, -1.0, 0.5])
            try:
                v = math.pow(a, b)
            except ValueError:
                if a == 0:
                    continue
                v = math.nan
            except OverflowError:
                continue
            return [T, code, ftok(a, w), ftok(b, w)], [near(v, w)]
        if code == 30:
            a = g()
            b = rng.choice([g(), a, -a])
            if b != b and rng.random() < 0.5:
                continue
            return [T, code, ftok(a, w), ftok(b, w)], [str(int(x)) for x in (a < b, a <= b, a > b, a >= b, a == b, not a == b)]
        if code == 31:
            l = [g() for _ in range(4)]
            if all(x == x for x in l) and rng.random() < 0.7:
                l.sort(reverse=rng.random() < 0.5)
                if rng.random() < 0.4:
                    l[1] = l[2]
            return [T, code] + [ftok(x, w) for x in l], chain(l)
        if code == 71:
            a, b, e = g(), g(), abs(g())
            if rng.random() < 0.5:
                b = rnd(Fraction(a) + Fraction(rng.choice([1e-9, 1e-11, 0.25, -1e-11, 1e-3])), w) if a == a and not math.isinf(a) else b
            d = fop("-", a, b, w)
            d = d if d != d or d >= 0 else -d
            if e != e:
                continue
            return [T, code, ftok(a, w), ftok(b, w), ftok(e, w)], [str(int(d < e)), str(int(d < rnd(Fraction("1e-10"), w)))]
        if code in (50, 52, 53):
            a = g()
            s = fmt_g(a, w)
            if s is None:
                continue
            return [T, code, ftok(a, w)], [drv.shex(s)]
        if code == 51:
            k = rng.randrange(6)
            if k == 0:
                s = repr(g())
            elif k == 1:
                s = fmt_g(g(), w) or "1.5"
            elif k == 2:
                s = "%d.%0*d" % (rng.randrange(-1000, 1000), rng.randrange(1, 30), rng.getrandbits(60))
                if rng.random() < 0.5:
                    s += "%s%s%d" % (rng.choice("eE"), rng.choice(["", "+", "-"]), rng.randrange(0, 45 if w == 32 else 320))
            elif k == 3:
                # halfway cases
                x = abs(g())
                if x != x or math.isinf(x) or x == 0 or not 1e-5 < x < 1e8:
                    continue
                up = bitsf64(f64bits(x) + 1) if w == 64 else bitsf32(fbits(x, 32) + 1)
                h = (Fraction(x) + Fraction(up)) / 2 + rng.choice([0, 0, Fraction(1, 10 ** 50), -Fraction(1, 10 ** 50)])
                n = h.numerator * 10 ** 52 // h.denominator
                s = str(n // 10 ** 52) + "." + "%052d" % (n % 10 ** 52)
                s = s[:63]
            elif k == 4:
                s = str(rng.randrange(-10 ** 20, 10 ** 20))
            else:
                s = "".join(rng.choice("0123456789.e-q,;/") for _ in range(rng.randrange(6)))
            v = parse_f(s, w)
            if v == "skip":
                continue
            return [T, code] + drv.enc_str(s), ["N"] if v is None else ["S", out_f(v, w)]
        n = {1: 2, 2: 2, 3: 2, 4: 2, 5: 2, 6: 4, 7: 3, 8: 3, 9: 4, 10: 3, 18: 3, 19: 3}[code]
        xs = [g() for _ in range(n)]
        if code in (18, 19):
            if any(x != x for x in xs) or sum(x == 0 for x in xs) > 1:
                continue
            v = min(xs) if code == 18 else max(xs)
        else:
            op = {1: "+", 9: "+", 2: "-", 6: "-", 3: "*", 10: "*", 4: "/", 7: "/", 5: "%", 8: "%"}[code]
            v = xs[0]
            for x in xs[1:]:
                v = fop(op, v, x, w)
        return [T, code] + [ftok(x, w) for x in xs], [out_f(v, w)]


def sqrt_exact(a, w):
    fr = Fraction(a)
    # scale to an integer square root with plenty of bits
    k = 800
    n = fr * 4 ** k
    while n.denominator != 1:
        k += 300
        n = fr * 4 ** k
    r = math.isqrt(n.numerator)
    exact = r * r == n.numerator
    f = Fraction(r * 2 + (0 if exact else 1), 2 * 2 ** k)
    return rnd(f, w)


import re
NUMRE = re.compile(r"^-?(\d+)(\.\d+)?([eE][+-]?\d+)?$")


def parse_f(s, w):
    """value, None for refused, 'skip' where C's strtod and the documented syntax could differ"""
    if len(s) >= 64:
        return "skip"
    m = NUMRE.match(s)
    if not m:
        if re.search(r"^[\s+]|^-?\.|\.($|[eE])|^-?(0[xX]|inf|nan)", s, re.I):
            return "skip"
        return None
    if w == 64 and len(m.group(1)) > 1 and m.group(1)[0] == "0":
        return "skip"
    v = rnd(Fraction(s), w)
    tiny = 2.0 ** (-126 if w == 32 else -1022)
    if math.isinf(v):
        return None
    if Fraction(s) != 0 and abs(v) <= tiny:
        return "skip"      # the runtime reports underflow as absent
    if v == 0 and s.startswith("-"):
        return -0.0
    return v


def gen_conv(rng):
    while True:
        f, t = rng.randrange(10), rng.randrange(10)
        if f < 8:
            _, bits, sg = INTS[f]
            a = gen_i(rng, bits, sg)
            tok = a
            if f == 7 or not sg:
                pass
            if t < 8:
                _, b2, s2 = INTS[t]
                v = a % (1 << b2)
                if s2 and v >= 1 << b2 - 1:
                    v -= 1 << b2
                e = str(v)
            else:
                w = 32 if t == 8 else 64
                e = out_f(rnd(Fraction(a), w), w)
        else:
            w1 = 32 if f == 8 else 64
            x = gen_f(rng, w1)
            tok = ftok(x, w1)
            if t < 8:
                lo, hi = rng_of(*INTS[t][1:])
                if x != x or math.isinf(x):
                    continue
                if not lo - 1 < x < hi + 1:
                    # bring it into range
                    x = rnd(Fraction(gen_i(rng, *INTS[t][1:])) + Fraction(rng.randrange(-9, 10), 10), w1)
                    tok = ftok(x, w1)
                if not lo <= math.trunc(x) <= hi:
                    continue
                e = str(math.trunc(x))
            else:
                w2 = 32 if t == 8 else 64
                if f == t:
                    e = out_f(x, w1)
                else:
                    e = out_f(x if x != x or math.isinf(x) or x == 0 else math.copysign(rnd(Fraction(x), w2), x), w2)
        return [22, f, t, tok], [e]


def gen_bits(rng):
    k = rng.randrange(len(BITSW))
    vs = [gen_i(rng, 64, 0) for _ in BITSW[k]]
    r = 0
    for v, wd in zip(vs, BITSW[k]):
        r = (r << wd) | (v & ((1 << wd) - 1))
    return [20, k] + vs, [str(r % (1 << 64))]


P1, P2, P3, P4, P5 = 11400714785074694791, 14029467366897019727, 1609587929392839161, 9650029242287828579, 2870177450012600261
M = (1 << 64) - 1


def rotl(x, r):
    return ((x << r) | (x >> (64 - r))) & M


def xround(acc, inp):
    return rotl((acc + inp * P2) & M, 31) * P1 & M


def xxh64(data, seed=0):
    """the published XXH64 algorithm"""
    n, i = len(data), 0
    if n >= 32:
        v = [(seed + P1 + P2) & M, (seed + P2) & M, seed, (seed - P1) & M]
        while i + 32 <= n:
            for k in range(4):
                v[k] = xround(v[k], int.from_bytes(data[i + 8 * k:i + 8 * k + 8], "little"))
            i += 32
        h = (rotl(v[0], 1) + rotl(v[1], 7) + rotl(v[2], 12) + rotl(v[3], 18)) & M
        for k in range(4):
            h = ((h ^ xround(0, v[k])) * P1 + P4) & M
    else:
        h = (seed + P5) & M
    h = (h + n) & M
    while i + 8 <= n:
        h = (rotl(h ^ xround(0, int.from_bytes(data[i:i + 8], "little")), 27) * P1 + P4) & M
        i += 8
    if i + 4 <= n:
        h = (rotl(h ^ (int.from_bytes(data[i:i + 4], "little") * P1 & M), 23) * P2 + P3) & M
        i += 4
    while i < n:
        h = rotl(h ^ (data[i] * P5 & M), 11) * P1 & M
        i += 1
    h = (h ^ h >> 33) * P2 & M
    h = (h ^ h >> 29) * P3 & M
    return h ^ h >> 32


assert xxh64(b"") == 0xEF46DB3751D8E999 and xxh64(b"Nobody inspects the spammish repetition") == 0xFBCEA83C8A378BF1


def gen_hash(rng):
    seed = gen_i(rng, 64, 0)
    t, e, buf = [21, seed], [], b""

    def rb():
        n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 12, 31, 32, 33, 63, 64, 65, rng.randrange(200), rng.randrange(40)])
        return rng.randbytes(n) if rng.random() < 0.7 else bytes([rng.choice([0, 255, 128])] * n)
    for _ in range(rng.randrange(1, 10)):
        k = rng.choice([1, 1, 1, 1, 2, 2, 3, 4, 5, 6])
        t.append(k)
        if k == 1:
            b = rb()
            buf += b
            t += drv.enc_str(b)
        elif k == 2:
            e.append("%016x" % xxh64(buf, seed))
        elif k == 3:
            buf = b""
        elif k == 4:
            b = rb()
            t += drv.enc_str(b)
            e.append("%016x" % xxh64(b, seed))
            buf = b
        elif k == 5:
            b = rb()
            t += drv.enc_str(b)
            t_ = buf + b
            e.append("%016x" % xxh64(t_, seed))
        else:
            b = rb()
            n = rng.randrange(len(b) + 1)
            t += drv.enc_str(b) + [n]
            buf += b[n:]
    t += [2, 0]
    e.append("%016x" % xxh64(buf, seed))
    return t, e


def gen(rng):
    k = rng.randrange(20)
    if k < 8:
        return gen_int(rng)
    if k < 14:
        return gen_flt(rng)
    if k < 17:
        return gen_conv(rng)
    if k < 18:
        return gen_bits(rng)
    return gen_hash(rng)


def match(got, exp):
    if len(got) != len(exp):
        return False
    for g, e in zip(got, exp):
        if isinstance(e, tuple):
            _, v, w = e
            try:
                b = int(g, 16)
            except ValueError:
                return False
            x = bitsf64(b) if w == 64 else bitsf32(b & 0xffffffff)
            if v != v:
                if x == x:
                    return False
                continue
            if w == 32 and not math.isinf(v):
                v = rnd(Fraction(v), 32) if v != 0 else v
            if math.isinf(v):
                big = 3.4e38 if w == 32 else 1.79e308
                if not (x == v or (math.copysign(1, v) == math.copysign(1, x) and abs(x) > big)):
                    return False
                continue
            if x != x or math.isinf(x):
                return False
            if abs(x - v) > abs(v) * (1e-6 if w == 32 else 1e-14) + (1e-44 if w == 32 else 1e-322):
                return False
        elif e == "nan32" or e == "nan64":
            if not is_nan_tok(g, int(e[3:])):
                return False
        elif g != e:
            return False
    return True
