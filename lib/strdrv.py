"""Strings, texts, characters, readers and writers: driver and model (Python's str/bytes)."""
import random
import drv

SRC = r'''
(import "std/string" _)
(import "std/text" _)
(import "std/char" _)
(import "std/rw" _)
(import "std/string-reader" _)
(import "std/string-writer" _)
(import "std/array" Array array array/_ _.Array)
(import "std/vector" Vector vector vector/_ _.Vector)
(import "std/it" it/_)
(value-data E e:inv e:eof)
(instance InvalidData.E (InvalidData E) (function invalid-data e:inv))
(instance UnexpectedEof.E (UnexpectedEof E) (function unexpected-eof e:eof))
(instance DebugDisplay.E (DebugDisplay E) (function (debug-display! w a) (match a [e:inv (display! w "inv")] [e:eof (display! w "eof")])))
; a reader that hands out at most n bytes at a time, and fails with e:inv after `limit` calls
(value-data Slow (slow: (Vector U8) U64 (Ref U64)))
(instance Read.Slow (Read Slow E)
  (function (read-into-buf! bytes r)
    (with1 (slow: (let v) (let n) (let left)) r
      (if (eq? ~left 0) (err e:inv)
        (begin
          (set! left (- ~left 1))
          (read-into-buf! (array/take n bytes) v))))))
(function (chr n) {(-> I64 Char)} (char/unsafe-from-unicode-scalar (conv n)))
(function (next-chars) {(-> (Vector Char))}
  (let* ([n (next-u)] [v {(Vector Char)} vector/empty] [i (ref 0 {U64})])
    (while (< ~i n) (vector/push! (chr (next)) v) (set! i (+ ~i 1))) v))
(function (next-strings) {(-> (Vector String))}
  (let* ([n (next-u)] [v {(Vector String)} vector/empty] [i (ref 0 {U64})])
    (while (< ~i n) (vector/push! (next-string) v) (set! i (+ ~i 1))) v))
(function (out-c c) {(-> Char unit)} (out-u (conv (char/unicode-scalar c))))
(function (out-so o) {(-> (Option String) unit)} (match o [none (out-tag 78)] [(some (let s)) (begin (out-tag 83) (out-s s))]))
(function (cmp a b) {(forall A) (-> A A unit) (where (Ord A) (Eq A))} (begin (out-ord (compare a b)) (out-bool (lt? a b)) (out-bool (le? a b)) (out-bool (gt? a b)) (out-bool (ge? a b)) (out-bool (eq? a b)) (out-bool (ne? a b))))
(function (out-res r) {(-> (Result String E) unit)} (match r [(ok (let s)) (begin (out-tag 79) (out-s s))] [(err e:inv) (out-tag 73)] [(err e:eof) (out-tag 69)]))
(function (slow) {(-> Slow)} (let* ([b (next-bytes)] [n (next-u)] [l (next-u)]) (slow: (vector/from-array b) n (ref l))))
(function (rdall r) {(forall E) (-> (Vector U8) (Result unit E)) (where (UnexpectedEof E))}
  (ok unit))
(function (num w code) {(-> (Vector U8) I64 (Result unit E))}
  (cond
    [(eq? code 1) (write-u8! (conv (next)) w)] [(eq? code 2) (write-u16! (conv (next)) w)]
    [(eq? code 3) (write-u32! (conv (next)) w)] [(eq? code 4) (write-u64! (next-u) w)]
    [(eq? code 5) (write-i8! (conv (next)) w)] [(eq? code 6) (write-i16! (conv (next)) w)]
    [(eq? code 7) (write-i32! (conv (next)) w)] [(eq? code 8) (write-i64! (next) w)]
    [else (write-bytes! (next-bytes) w)]))
(function (numr r code) {(-> (Vector U8) I64 (Result unit E))}
  (begin (cond
    [(eq? code 1) (out-i (conv (read-u8! r)!))] [(eq? code 2) (out-i (conv (read-u16! r)!))]
    [(eq? code 3) (out-i (conv (read-u32! r)!))] [(eq? code 4) (out-u (read-u64! r)!)]
    [(eq? code 5) (out-i (conv (read-i8! r)!))] [(eq? code 6) (out-i (conv (read-i16! r)!))]
    [(eq? code 7) (out-i (conv (read-i32! r)!))] [(eq? code 8) (out-i (read-i64! r)!)]
    [else (let1 b {(Array U8)} (array/new 0 (next-u)) (begin (read-bytes! b r)! (out-b b)))]) (ok unit)))
(function (text-session t) {(-> Text unit)}
  (let* ([t (ref t)] [go (ref #t)])
    (while ~go (let1 code (next)
      (begin (cond
        [(eq? code 0) (set! go #f)]
        [(eq? code 1) (text/push! (next-string) ~t)]
        [(eq? code 2) (text/put! (chr (next)) ~t)]
        [(eq? code 3) (out-s (text/consume! (next-u) ~t))]
        [(eq? code 4) (out-s (text/consume-all! ~t))]
        [(eq? code 5) (let1 m (text/move! ~t) (begin (out-u (text/length ~t)) (set! t m)))]
        [(eq? code 6) (out-s (text/copy-to-string ~t))]
        [(eq? code 7) (let1 c (shallow-copy ~t) (begin (text/push! "!" c) (out-s (text/copy-to-string c)) (cmp ~t c)))]
        [(eq? code 8) (out-s (string (debug ~t)))]
        [(eq? code 9) (out-s (string ~t ~t))]
        [(eq? code 10) (begin (out-u (text/length ~t)) (out-bool (text/empty? ~t)))]
        [(eq? code 11) (for (let b) (text/bytes ~t) (out-u (conv b)))]
        [(eq? code 12) (ignore (display-all! ~t (next-string) (next) (chr (next))))]
        [(eq? code 13) (set! t (text (next-string) (next-string)))]
        [(eq? code 14) (when (eq? (guard 1) 1) (begin (out-s (text/consume! (next-u) ~t)) (guard-end!)))]
        [else (out-tag 33)])
        (out-tag 59) (out-s (text/copy-to-string ~t)))))))
(function (op code) {(-> I64 unit)}
  (cond
    [(eq? code 1) (out-so (string/from-bytes? (next-bytes)))]
    [(eq? code 2) (out-s (string/from-bytes (next-bytes)))]
    [(eq? code 3) (out-bool (string/valid-sequence? (next-bytes)))]
    [(eq? code 4) (match (text/from-bytes? (next-bytes)) [none (out-tag 78)] [(some (let t)) (begin (out-tag 83) (out-s (text/copy-to-string t)))])]
    [(eq? code 5) (out-s (text/copy-to-string (text/from-bytes (next-bytes))))]
    [(eq? code 6) (let1 s (next-string) (begin (out-u (string/length s)) (out-bool (string/empty? s)) (for (let b) (string/bytes s) (out-u (conv b)))))]
    [(eq? code 7) (let* ([a (next-u)] [b (next-u)] [s (next-string)]) (out-s (string/substring a b s)))]
    [(eq? code 8) (let* ([a (next-u)] [s (next-string)]) (out-s (string/take a s)))]
    [(eq? code 9) (let* ([a (next-u)] [s (next-string)]) (out-s (string/skip a s)))]
    [(eq? code 10) (let* ([a (next-u)] [s (next-string)]) (out-u (conv (string/byte-at a s))))]
    [(eq? code 11) (let* ([a (next-u)] [s (next-string)]) (out-bool (string/char-boundary? a s)))]
    [(eq? code 12) (for (let c) (string/chars (next-string)) (out-c c))]
    [(eq? code 13) (for (: (let i) (let c)) (string/char-indices (next-string)) (begin (out-u i) (out-c c)))]
    [(eq? code 14) (out-s (string/from-chars (next-chars)))]
    [(eq? code 15) (let* ([a (next-string)] [s (next-string)]) (begin (out-bool (string/starts-with? a s)) (out-bool (string/ends-with? a s)) (out-bool (string/contains? a s)) (wr (string/find? a s))))]
    [(eq? code 16) (let* ([a (next-string)] [b (next-string)] [s (next-string)]) (out-s (string/replace a b s)))]
    [(eq? code 17) (let* ([a (next-string)] [s (next-string)]) (out-s (string/remove-start a s)))]
    [(eq? code 18) (let* ([a (next-string)] [s (next-string)]) (out-s (string/remove-end a s)))]
    [(eq? code 19) (let* ([a (next-string)] [s (next-string)]) (for (let x) (string/split a s) (out-s x)))]
    [(eq? code 20) (for (let x) (string/split-lines (next-string)) (out-s x))]
    [(eq? code 21) (out-s (string/reverse (next-string)))]
    [(eq? code 22) (let* ([a (next-string)] [l (next-strings)]) (out-s (string/join a l)))]
    [(eq? code 23) (let* ([a (next-string)] [s (next-string)]) (begin (cmp a s) (cmp (text/from-string a) (text/from-string s))))]
    [(eq? code 24) (out-s (string (debug (next-string))))]
    [(eq? code 25) (let* ([s (next-string)]) (out-s (string/unsafe-from-c-ptr (string/c-compatible-ptr s))))]
    [(eq? code 26) (let1 c (chr (next)) (begin (out-bool (char/ascii? c)) (out-so (char/escape? c))
       (match (char/unescape? c) [none (out-tag 78)] [(some (let d)) (begin (out-tag 83) (out-c d))])
       (out-u (char/utf-8-length c)) (out-s (string c)) (out-s (string (debug c))) (out-c c)))]
    [(eq? code 27) (let* ([a (chr (next))] [b (chr (next))]) (cmp a b))]
    [(eq? code 28) (match (char/from-unicode-scalar (conv (next))) [none (out-tag 78)] [(some (let c)) (begin (out-tag 83) (out-c c))])]
    [(eq? code 29) (text-session (text/from-string (next-string)))]
    [(eq? code 30) (let1 r {(Result String E)} (read-string-to-end! (vector/from-array (next-bytes))) (out-res r))]
    [(eq? code 31) (out-res (read-string-to-end! (slow)))]
    [(eq? code 32) (let1 r {(Result (Array U8) E)} (read-bytes-to-end! (slow)) (match r [(ok (let b)) (begin (out-tag 79) (out-b b))] [(err _) (out-tag 73)]))]
    [(eq? code 33) (let* ([b (next-bytes)] [v (vector/from-array b)] [n (next-u)] [buf {(Array U8)} (array/new 238 n)] [r {(Result U64 E)} (read-into-buf! buf v)])
       (begin (match r [(ok (let k)) (out-u k)] [_ (out-tag 33)]) (out-b buf) (out-b (vector/buffer v))))]
    [(eq? code 34) (let* ([w {(Vector U8)} vector/empty] [n (ref (next-u))])
       (begin (while (< 0 ~n) (begin (ignore (num w (next))) (set! n (- ~n 1)))) (out-b (vector/buffer w))))]
    [(eq? code 35) (let* ([w (vector/from-array (next-bytes))] [n (ref (next-u))] [bad (ref #f)])
       (while (< 0 ~n) (begin (if ~bad unit (match (numr w (next)) [(ok _) unit] [(err _) (begin (out-tag 69) (set! bad #t))])) (set! n (- ~n 1)))))]
    [(eq? code 36) (let* ([v {(Vector U8)} vector/empty] [w (string-writer v)] [s (next-string)] [i (next)] [c (chr (next))]
          [r {(Result unit E)} (display-all! w s i c "x" #\y)])
       (begin (match r [(ok unit) (out-tag 79)] [_ (out-tag 33)]) (out-b (vector/buffer v))))]
    [(eq? code 37) (out-s (string (next-string) (chr (next)) (next) "|" (text/from-string (next-string))))]
    [(eq? code 38) (let* ([a (next-string)] [s (next-string)]) (out-s (string/from-chars (it/chain (string/chars a) (string/chars s)))))]
    [(eq? code 39) (begin (out-s string/empty) (out-s (string)) (out-s default {String}) (out-s (text/copy-to-string default)) (out-bool (text/empty? text/empty)) (out-s (string (deep-copy "ab")))) ]
    ; exhaustive scans
    [(eq? code 40) (let* ([a (next)] [b (next)] [i (ref a)] [t text/empty] [l (ref 0 {U64})])
       (begin
         (while (< ~i b) (begin (text/put! (chr ~i) t) (set! l (+ ~l (char/utf-8-length (chr ~i)))) (set! i (+ ~i 1))))
         (let* ([s (text/copy-to-string t)] [j (ref a)] [bad (ref 0 {U64})])
           (begin
             (for (let c) (string/chars s) (begin (when (ne? (conv (char/unicode-scalar c)) ~j) (set! bad (+ ~bad 1))) (set! j (+ ~j 1))))
             (out-u ~l) (out-i ~j) (out-u ~bad) (out-bool (string/valid-sequence? (string/bytes s))) (out-s s)))))]
    [(eq? code 41) (let* ([p (next-bytes)] [b (array/push 0 p)] [n (array/length p)] [i (ref 0 {I64})] [w (ref 0 {U64})])
       (while (< ~i 256)
         (begin (set! b[n] (conv ~i)) (set! w (+ (* ~w 2) (if (string/valid-sequence? b) 1 0))) (set! i (+ ~i 1))
           (when (eq? (% ~i 64) 0) (begin (out-h ~w) (set! w 0))))))]
    [else (out-tag 33)]))
(function (main) {(-> unit)}
  (let1 go (ref #t)
    (while ~go
      (let1 code (next)
        (begin
          (cond
            [(eq? code 0) (set! go #f)]
            [(eq? code 99) (when (eq? (guard (next)) 1) (begin (op (next)) (guard-end!)))]
            [else (op code)])
          (out-nl))))))
(main)
'''.replace("#\\\\y", "#\\y")

EDGE = [0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1b333, 0x1b334, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0x3bf, 0x100, 0]
S = drv.enc_str
X = drv.shex


def scalar(rng):
    r = rng.random()
    if r < 0.45:
        return rng.choice([97, 98, 65, 32, 48, 10, 13, 34, 92, 9])
    if r < 0.6:
        return rng.choice(EDGE)
    while True:
        c = rng.choice([rng.randrange(0x80), rng.randrange(0x80, 0x800), rng.randrange(0x800, 0x10000), rng.randrange(0x10000, 0x110000)])
        if not 0xd800 <= c <= 0xdfff:
            return c


def text(rng, n=None, alpha=None):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, rng.randrange(0, 30)]) if n is None else n
    if alpha is None:
        if rng.random() < 0.5:
            alpha = [scalar(rng) for _ in range(rng.choice([1, 2, 3]))]
        else:
            return "".join(chr(scalar(rng)) for _ in range(n))
    return "".join(chr(rng.choice(alpha)) for _ in range(n))


def valid(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


def badbytes(rng):
    b = bytearray(text(rng).encode())
    r = rng.random()
    if r < 0.3:
        return bytes(b)
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = rng.randrange(len(b) + 1)
        k = rng.randrange(4)
        if k == 0 and b:
            del b[min(i, len(b) - 1)]
        elif k == 1:
            b.insert(i, rng.choice([0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff, rng.randrange(256)]))
        elif k == 2 and b:
            b[min(i, len(b) - 1)] = rng.randrange(256)
        else:
            b[i:i] = bytes(rng.choice([(0xed, 0xa0, 0x80), (0xed, 0xbf, 0xbf), (0xc0, 0x80), (0xe0, 0x9f, 0xbf), (0xf0, 0x8f, 0xbf, 0xbf), (0xf4, 0x90, 0x80, 0x80), (0xe0, 0xa0), (0xf0, 0x90, 0x80)]))
    return bytes(b)


def esc(c):
    return {"\t": "\\t", "\r": "\\r", "\n": "\\n", '"': '\\"', "\\": "\\\\"}.get(c)


def dbg(s):
    return '"' + "".join(esc(c) or c for c in s) + '"'


def bnd(s):
    b = s.encode()
    return [i for i in range(len(b) + 1) if i == len(b) or b[i] & 0xc0 != 0x80]


def cmp(a, b):
    o = (a > b) - (a < b)
    return [str(o)] + [str(int(x)) for x in (o < 0, o <= 0, o > 0, o >= 0, o == 0, o != 0)]


def replace(a, b, s):
    return s.replace(a, b)


def split_lines(s):
    out = s.split("\n")
    if out[-1] == "":
        out.pop()
        out = [x[:-1] if x.endswith("\r") else x for x in out]
    else:
        out = [x[:-1] if x.endswith("\r") else x for x in out[:-1]] + out[-1:]
    return out


NUMS = {1: (1, False), 2: (2, False), 3: (4, False), 4: (8, False), 5: (1, True), 6: (2, True), 7: (4, True), 8: (8, True)}


def related(rng):
    """a string and a part likely to occur in it"""
    al = [scalar(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    s = text(rng, rng.choice([0, 1, 3, 6, 12, 25]), al)
    k = rng.random()
    if k < 0.55 and s:
        i = rng.randrange(len(s))
        a = s[i:i + rng.choice([1, 1, 2, 3])]
        if rng.random() < 0.2:
            a += chr(rng.choice(al))
    elif k < 0.65:
        a = ""
    else:
        a = text(rng, rng.choice([1, 2, 3]), al)
    if rng.random() < 0.15:      # a part whose bytes occur only across characters' boundaries
        c = chr(scalar(rng))
    return s, a


def gen(rng):
    """-> (description, tokens, expected tokens, key or None); a leading 99 is added by the caller for expected None (panic)"""
    code = rng.choice(list(range(1, 40)) + [7, 15, 15, 16, 16, 19, 19, 29, 29, 29, 1, 13, 18, 17])
    if code in (1, 2, 3, 4, 5):
        b = badbytes(rng)
        v = valid(b)
        e = {1: ["S", X(b)], 2: [X(b)], 3: ["1"], 4: ["S", X(b)], 5: [X(b)]}[code] if v else {1: ["N"], 2: None, 3: ["0"], 4: ["N"], 5: None}[code]
        return [code] + S(b), e
    if code == 6:
        s = text(rng)
        b = s.encode()
        return [6] + S(s), [str(len(b)), str(int(not b))] + [str(x) for x in b]
    if code in (7, 8, 9, 10, 11):
        s = text(rng)
        b, ok = s.encode(), bnd(s)
        pick = lambda: rng.choice(ok) if rng.random() < 0.7 else rng.choice([rng.randrange(len(b) + 2), len(b) + 1, 2**63, 2**64 - 1])
        i = pick()
        if code == 7:
            j = pick()
            if i > j and rng.random() < 0.8:
                i, j = j, i
            e = [X(b[i:j])] if i <= j <= len(b) and i in ok and j in ok else None
            return [7, i, j] + S(s), e
        if code == 11:
            return [11, i] + S(s), [str(int(i in ok))]
        if code == 10:
            return [10, i] + S(s), [str(b[i])] if i < len(b) else None
        k = min(i, len(b))
        return [code, i] + S(s), ([X(b[:k] if code == 8 else b[k:])] if k in ok else None)
    if code == 12:
        s = text(rng)
        return [12] + S(s), [str(ord(c)) for c in s]
    if code == 13:
        s = text(rng)
        e, i = [], 0
        for c in s:
            e += [str(i), str(ord(c))]
            i += len(c.encode())
        return [13] + S(s), e
    if code == 14:
        s = text(rng)
        return [14, len(s)] + [ord(c) for c in s], [X(s)]
    if code == 15:
        s, a = related(rng)
        i = s.encode().find(a.encode())
        return [15] + S(a) + S(s), [str(int(s.startswith(a))), str(int(s.endswith(a))), str(int(a in s))] + (["N"] if i < 0 else ["S", str(i)])
    if code == 16:
        s, a = related(rng)
        b = rng.choice([text(rng, 1), "", a + a, text(rng)])
        return [16] + S(a) + S(b) + S(s), [X(s.replace(a, b))]
    if code in (17, 18):
        s, a = related(rng)
        if rng.random() < 0.6:
            s = a * rng.randrange(3) + s if code == 17 else s + a * rng.randrange(3)
        r = s
        while a and (r.startswith(a) if code == 17 else r.endswith(a)):
            r = r[len(a):] if code == 17 else r[:-len(a)]
        return [code] + S(a) + S(s), [X(r)]
    if code == 19:
        s, a = related(rng)
        return [19] + S(a) + S(s), [X(x) for x in (s.split(a) if a else list(s))]
    if code == 20:
        s = "".join(rng.choice(["\n", "\r\n", "\r", "a", "\u00e9", "", "b c", "\r\r\n", "\n\n"]) for _ in range(rng.randrange(0, 9)))
        return [20] + S(s), [X(x) for x in split_lines(s)]
    if code == 21:
        s = text(rng)
        return [21] + S(s), [X(s[::-1])]
    if code == 22:
        a, l = text(rng, rng.choice([0, 1, 2])), [text(rng) for _ in range(rng.choice([0, 1, 2, 4]))]
        return [22] + S(a) + [len(l)] + [t for x in l for t in S(x)], [X(a.join(l))]
    if code == 23:
        a = text(rng)
        k = rng.random()
        if k < 0.3:
            b = a
        elif k < 0.6 and a:
            i = rng.randrange(len(a))
            b = a[:i] + chr(scalar(rng)) + a[i + 1:]
        elif k < 0.8:
            b = a + rng.choice(["\0", "a", "\u00ff"])
        else:
            b = text(rng)
        if rng.random() < 0.5:
            a, b = b, a
        return [23] + S(a) + S(b), cmp(a.encode(), b.encode()) * 2
    if code == 24:
        s = text(rng)
        return [24] + S(s), [X(dbg(s))]
    if code == 25:
        s = text(rng).replace("\0", "x")
        return [25] + S(s), [X(s)]
    if code == 26:
        c = chr(rng.choice([scalar(rng), scalar(rng), 92, 34, 110, 114, 116, 9, 10, 13]))
        u = {"t": 9, "r": 13, "n": 10, '"': 34, "\\": 92}.get(c)
        e = [str(int(ord(c) < 128))] + (["S", X(esc(c))] if esc(c) else ["N"]) + (["N"] if u is None else ["S", str(u)])
        return [26, ord(c)], e + [str(len(c.encode())), X(c), X("#\\" + (esc(c) or c)), str(ord(c))]
    if code == 27:
        a = scalar(rng)
        b = rng.choice([a, scalar(rng), scalar(rng)])
        return [27, a, b], cmp(a, b)
    if code == 28:
        n = rng.choice([scalar(rng), 0xd800, 0xdfff, 0xdbff, 0x110000, 0x110001, 2**31, 2**32 - 1, 0xd7ff, 0xe000, rng.randrange(2**32)])
        return [28, n], ["S", str(n)] if n < 0x110000 and not 0xd800 <= n <= 0xdfff else ["N"]
    if code == 29:
        s = text(rng)
        toks, e, cur = [29] + S(s), [], s
        for _ in range(rng.randrange(1, 12)):
            k = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14])
            b = cur.encode()
            if k == 1:
                a = text(rng)
                toks += [1] + S(a)
                cur += a
            elif k == 2:
                c = scalar(rng)
                toks += [2, c]
                cur += chr(c)
            elif k == 3:
                n = rng.choice(bnd(cur))
                toks += [3, n]
                e += [X(b[:n])]
                cur = b[n:].decode()
            elif k == 4:
                toks += [4]
                e += [X(b)]
                cur = ""
            elif k == 5:
                toks += [5]
                e += ["0"]
            elif k == 6:
                toks += [6]
                e += [X(b)]
            elif k == 7:
                toks += [7]
                e += [X(cur + "!")] + cmp(b, b + b"!")
            elif k == 8:
                toks += [8]
                e += [X("(text/from-string " + dbg(cur) + ")")]
            elif k == 9:
                toks += [9]
                e += [X(cur + cur)]
            elif k == 10:
                toks += [10]
                e += [str(len(b)), str(int(not b))]
            elif k == 11:
                toks += [11]
                e += [str(x) for x in b]
            elif k == 12:
                a, n, c = text(rng), rng.randrange(-10**6, 10**6), scalar(rng)
                toks += [12] + S(a) + [n, c]
                cur += a + str(n) + chr(c)
            elif k == 13:
                a, d = text(rng), text(rng)
                toks += [13] + S(a) + S(d)
                cur = a + d
            elif k == 14:
                n = rng.choice([x for x in range(len(b) + 3) if x not in bnd(cur)] + [2**64 - 1])
                toks += [14, n]
                e += ["sig6"]
            e += [";", X(cur)]
        return toks + [0], e + [";", X(cur)]
    if code == 30:
        b = badbytes(rng)
        return [30] + S(b), ["O", X(b)] if valid(b) else ["I"]
    if code in (31, 32):
        b = badbytes(rng)
        if rng.random() < 0.1:
            b = b * rng.choice([100, 1000])
        n = rng.choice([1, 2, 3, 7, 1000, 4096, 10000])
        if len(b) // n > 3000:
            n = 1000
        n2 = min(n, 4096)
        calls = -(-len(b) // n2) + 1
        lim = rng.choice([calls, calls + 5, calls, calls - 1, rng.randrange(calls + 1)])
        e = ["I"] if lim < calls or (code == 31 and not valid(b)) else ["O", X(b)]
        return [code] + S(b) + [n, lim], e
    if code == 33:
        b = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 12)))
        n = rng.choice([0, 1, len(b), len(b) + 1, rng.randrange(0, 15)])
        k = min(n, len(b))
        return [33] + S(b) + [n], [str(k), X(b[:k] + b"\xee" * (n - k)), X(b[k:])]
    if code == 34:
        toks, out = [], b""
        n = rng.randrange(0, 8)
        for _ in range(n):
            k = rng.randrange(1, 10)
            if k == 9:
                b = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 5)))
                toks += [9] + S(b)
                out += b
            else:
                w, sg = NUMS[k]
                v = rng.choice([0, 1, 2**(8 * w) - 1, 2**(8 * w - 1), rng.randrange(2**(8 * w))])
                out += v.to_bytes(w, "little")
                if sg and v >= 2**(8 * w - 1):
                    v -= 2**(8 * w)
                toks += [k, v]
        return [34, n] + toks, [X(out)]
    if code == 35:
        b = bytes(rng.choice([0, 255, 127, 128, rng.randrange(256)]) for _ in range(rng.randrange(0, 30)))
        n = rng.randrange(0, 8)
        toks, e, p = [35] + S(b) + [n], [], 0
        for _ in range(n):
            k = rng.randrange(1, 10)
            w, sg = NUMS.get(k, (rng.randrange(0, 5), False))
            toks += [k] + ([w] if k == 9 else [])
            if len(b) - p < w:
                e += ["E"]
                # the driver reads no further operands once a read has failed
                return [35] + S(b) + [toks_count(toks, b)] + toks[2 + len(b) + 1:], e
            e += [X(b[p:p + w]) if k == 9 else str(int.from_bytes(b[p:p + w], "little", signed=sg))]
            p += w
        return toks, e
    if code == 36:
        s, n, c = text(rng), rng.randrange(-10**9, 10**9), scalar(rng)
        return [36] + S(s) + [n, c], ["O", X(s + str(n) + chr(c) + "xy")]
    if code == 37:
        s, c, n, t = text(rng), scalar(rng), rng.randrange(-10**9, 10**9), text(rng)
        return [37] + S(s) + [c, n] + S(t), [X(s + chr(c) + str(n) + "|" + t)]
    if code == 38:
        a, s = text(rng), text(rng)
        return [38] + S(a) + S(s), [X(a + s)]
    if code == 39:
        return [39], [X("")] * 4 + ["1", X("ab")]
    raise KeyError(code)


def toks_count(toks, b):
    """number of reads in a truncated read script"""
    rest, n = toks[2 + len(b) + 1:], 0
    while rest:
        rest = rest[2:] if rest[0] == 9 else rest[1:]
        n += 1
    return n
