"""Drivers and reference models for the mutable maps and sets (ordered and hashed) of std."""
import bisect

# Key kinds: I32, String, counting key with its own order (first field decides; reversed), adversarial hash key.
KINDS = r'''
(value-data CK (ck: I64 I64))
(instance Tok.CK (Tok CK) (function (rd) (let1 a (next) (ck: a (* a 7)))) (function (wr a) (match a [(ck: (let x) (let y)) (begin (out-i x) (when (ne? y (* x 7)) (out-tag 88)))])))
(instance Eq.CK (Eq CK) (function (eq? a b) (with ([(ck: (let x) _) a] [(ck: (let y) _) b]) (eq? x y))))
(instance Ord.CK (Ord CK) (function (compare a b)
  (tick!)
  (with ([(ck: (let x) _) a] [(ck: (let y) _) b]) (if (eq? x y) ordering:equal (if (< x y) ordering:greater ordering:less)))))
(instance DeepCopy.CK (DeepCopy CK) (function (deep-copy a) a))
(instance DebugDisplay.CK (DebugDisplay CK) (function (debug-display! w a) (match a [(ck: (let x) _) (debug-display! w x)])))
(instance Hash.CK (Hash CK) (function (hash! s a) (match a [(ck: (let x) _) (hash! s x)])))
(value-data HK (hk: I64 I64))
(instance Tok.HK (Tok HK) (function (rd) (let* ([a (next)] [b (next)]) (hk: a b))) (function (wr a) (match a [(hk: (let x) (let y)) (begin (out-i x) (out-i y))])))
(instance Eq.HK (Eq HK) (function (eq? a b) (with ([(hk: (let x) (let p)) a] [(hk: (let y) (let q)) b]) (and (eq? x y) (eq? p q)))))
(instance Hash.HK (Hash HK) (function (hash! s a) (match a [(hk: _ (let p)) (hash! s p)])))
(instance DeepCopy.HK (DeepCopy HK) (function (deep-copy a) a))
(instance DebugDisplay.HK (DebugDisplay HK) (function (debug-display! w a) (match a [(hk: (let x) (let y)) (display-all! w x "/" y)])))
(value-data W (w: I64 I64 I64))
(instance Tok.W (Tok W) (function (rd) (let1 a (next) (w: a (+ a 1) (* a 3)))) (function (wr a) (match a [(w: (let x) (let y) (let z)) (begin (out-i x) (when (or (ne? y (+ x 1)) (ne? z (* x 3))) (out-tag 88)))])))
(instance DebugDisplay.W (DebugDisplay W) (function (debug-display! w a) (match a [(w: (let x) _ _) (debug-display! w x)])))
(instance Eq.W (Eq W) (function (eq? a b) (with ([(w: (let x) _ _) a] [(w: (let y) _ _) b]) (eq? x y))))
(instance Ord.W (Ord W) (function (compare a b) (with ([(w: (let x) _ _) a] [(w: (let y) _ _) b]) (compare x y))))
(instance Hash.W (Hash W) (function (hash! s a) (match a [(w: (let x) _ _) (hash! s x)])))
(instance DeepCopy.W (DeepCopy W) (function (deep-copy a) a))
(instance Tok.Ref (Tok (Ref I64)) (function (rd) (ref (next))) (function (wr a) (out-i ~a)))
(class (Mut A) (function (mut! v a) {(-> I64 A unit)}))
(instance Mut.Ref (Mut (Ref I64)) (function (mut! v a) (set! a v)))
(instance Mut.I64 (Mut I64) (function (mut! v a) unit))
(instance Mut.U8 (Mut U8) (function (mut! v a) unit))
(instance Mut.W (Mut W) (function (mut! v a) unit))
(instance Mut.String (Mut String) (function (mut! v a) unit))
(function (wr-pairs it) {(forall K V) (-> (Iterator (: K V)) unit) (where (Tok K) (Tok V))}
  (for (: (let k) (let v)) it (wr k) (wr v) (out-tag 59)))
(function (wr-list it) {(forall K) (-> (Iterator K) unit) (where (Tok K))}
  (for (let k) it (wr k) (out-tag 59)))
(function (wr-opt2 o) {(forall K V) (-> (Option (: K V)) unit) (where (Tok K) (Tok V))}
  (match o [none (out-tag 78)] [(some (: (let k) (let v))) (begin (out-tag 83) (wr k) (wr v))]))
'''


def map_driver(M, combos, T):
    """M: 'ord-map' or 'hash-map'; T: OrdMap/HashMap."""
    ordered = M == "ord-map"
    S, TS = ("ord-set", "OrdSet") if ordered else ("hash-set", "HashSet")
    kc = "(Ord K)" if ordered else "(Eq K) (Hash K)"
    where = "(where (Tok K) (Tok V) (Mut V) (DeepCopy K) (DeepCopy V) (DebugDisplay K) (DebugDisplay V) (Eq V) (Hash V) (Hash K) %s%s)" % (
        kc if ordered else "(Eq K)", " (Ord V)" if ordered else "")
    src = '(import "std/%s" _)\n(import "std/%s" _)\n(import "std/xxhash" XxHasher xx-hasher/_ _.XxHasher)\n' % (M, S) + KINDS
    src += "(function (op m regs code) {(forall K V) (-> (%s K V) (Array (%s K V)) I64 unit) %s}\n  (cond\n" % (T, T, where)
    ops = [
        (1, "(wr (let* ([k (rd)] [v (rd)]) (@M/insert! k v m)))"),
        (2, "(wr (@M/remove! (rd) m))"),
        (3, "(wr (@M/get? (rd) m))"),
        (4, "(out-bool (@M/has? (rd) m))"),
        (5, "(begin (out-u (@M/length m)) (out-bool (@M/empty? m)))"),
        (11, "(@M/clear! m)"),
        (12, "(wr-pairs (@M/elems m))"),
        (13, "(wr-list (@M/keys m))"),
        (14, "(wr-list (@M/values m))"),
        (15, "(set! regs[(next-u)] (shallow-copy m))"),
        (16, "(set! regs[(next-u)] (deep-copy m))"),
        (17, "(out-bool (eq? m (get regs[(next-u)])))"),
        (20, "(out-s (string (debug m)))"),
        (21, "(let* ([r (next-u)] [n (next-u)] [v {(Vector (: K V))} vector/empty] [i (ref 0 {U64})]) (while (< ~i n) (let* ([a (rd)] [b (rd)]) (vector/push! (: a b) v)) (set! i (+ ~i 1))) (set! regs[r] (@M/collect v)))"),
        (22, "(wr (let* ([k (rd)] [v (rd)]) (@M/insert-elem! (: k v) m)))"),
        (23, "(set! regs[(next-u)] m)"),
        (24, "(set! regs[(next-u)] default)"),
        (25, "(let* ([n (next-u)] [i (ref 0 {U64})] [it (@M/elems m)] [it2 (@M/keys m)]) (while (< ~i n) (wr-opt2 (iterator/next! it)) (wr (iterator/next! it2)) (set! i (+ ~i 1))))"),
        (26, "(let* ([k (rd)] [x (next)]) (match (@M/get? k m) [none (out-tag 78)] [(some (let v)) (mut! x v)]))"),
    ]
    if ordered:
        ops += [
            (7, "(wr-opt2 (@M/get-min? m))"), (8, "(wr-opt2 (@M/get-max? m))"),
            (9, "(wr-opt2 (@M/remove-min! m))"), (10, "(wr-opt2 (@M/remove-max! m))"),
            (18, "(out-ord (compare m (get regs[(next-u)])))"),
            (19, "(out-bool (let* ([o (get regs[(next-u)])] [h (xx-hasher/new)]) (eq? (hash h m) (hash h o))))"),
        ]
    else:
        ops += [
            (27, "(set! regs[(next-u)] (@M/with-capacity (next-u)))"),
            (28, "(@M/reserve-capacity! (next-u) m)"),
        ]
    for code, body in ops:
        src += "    [(eq? code %d) %s]\n" % (code, body.replace("@M", M))
    src += '    [else (out-tag 33)]))\n'
    # sets
    swhere = "(where (Tok K) (DeepCopy K) (DebugDisplay K) (Hash K) %s)" % (kc if ordered else "(Eq K)")
    src += "(function (sop m regs code) {(forall K) (-> (%s K) (Array (%s K)) I64 unit) %s}\n  (cond\n" % (TS, TS, swhere)
    sops = [
        (1, "(out-bool (@M/insert! (rd) m))"), (2, "(out-bool (@M/remove! (rd) m))"), (4, "(out-bool (@M/has? (rd) m))"),
        (5, "(begin (out-u (@M/length m)) (out-bool (@M/empty? m)))"), (11, "(@M/clear! m)"), (13, "(wr-list (iterate m))"),
        (15, "(set! regs[(next-u)] (shallow-copy m))"), (16, "(set! regs[(next-u)] (deep-copy m))"),
        (17, "(out-bool (eq? m (get regs[(next-u)])))"), (20, "(out-s (string (debug m)))"),
        (21, "(let* ([r (next-u)] [n (next-u)] [v {(Vector K)} vector/empty] [i (ref 0 {U64})]) (while (< ~i n) (vector/push! (rd) v) (set! i (+ ~i 1))) (set! regs[r] (@M/collect v)))"),
        (23, "(set! regs[(next-u)] m)"), (24, "(set! regs[(next-u)] default)"),
    ]
    if ordered:
        sops += [(7, "(wr (@M/min? m))"), (8, "(wr (@M/max? m))"), (9, "(wr (@M/remove-min! m))"), (10, "(wr (@M/remove-max! m))"),
                 (18, "(out-ord (compare m (get regs[(next-u)])))"),
                 (19, "(out-bool (let* ([o (get regs[(next-u)])] [h (xx-hasher/new)]) (eq? (hash h m) (hash h o))))")]
    for code, body in sops:
        src += "    [(eq? code %d) %s]\n" % (code, body.replace("@M", S))
    src += '    [else (out-tag 33)]))\n'
    src += "(function (drive regs) {(forall K V) (-> (Array (%s K V)) unit) %s}\n" % (T, where)
    src += """  (let1 go (ref #t)
    (while ~go
      (let1 code (next)
        (if (eq? code 0) (set! go #f)
          (let* ([r (next-u)] [m (get regs[r])])
            (ignore (ticks!))
            (op m regs code) (out-tag 35) (out-u (ticks!)) (out-nl)))))))
"""
    src += "(function (sdrive regs) {(forall K) (-> (Array (%s K)) unit) %s}\n" % (TS, swhere)
    src += """  (let1 go (ref #t)
    (while ~go
      (let1 code (next)
        (if (eq? code 0) (set! go #f)
          (let* ([r (next-u)] [m (get regs[r])])
            (ignore (ticks!))
            (sop m regs code) (out-tag 35) (out-u (ticks!)) (out-nl)))))))
"""
    if not ordered:
        src += "(function (hashes n) {(-> U64 unit)} (let* ([i (ref 0 {U64})] [h (xx-hasher/new)]) (while (< ~i n) (out-h (hash h (hk: 0 (conv ~i)))) (out-nl) (set! i (+ ~i 1)))))\n"
    src += "(function (main which) {(-> I64 unit)} (cond\n"
    for i, (k, v) in enumerate(combos):
        if v is None:
            src += "  [(eq? which %d) (sdrive (array/new* [^0 %s/empty] 4) {(-> (Array (%s %s)) unit)})]\n".replace("{(-> (Array (%s %s)) unit)}", "") % (i + 1, S) if False else \
                "  [(eq? which %d) (let1 regs {(Array (%s %s))} (array/new* [^0 %s/empty] 4) (sdrive regs))]\n" % (i + 1, TS, k, S)
        else:
            src += "  [(eq? which %d) (let1 regs {(Array (%s %s %s))} (array/new* [^0 %s/empty] 4) (drive regs))]\n" % (i + 1, T, k, v, M)
    if not ordered:
        src += "  [(eq? which 99) (hashes (next-u))]\n"
    src += "  [else (out-tag 33)]))\n(main (next))\n"
    return src
