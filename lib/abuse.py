"""Well- and ill-formed uses of the macros and special forms of the language."""
import sx

MACROS = """= < > <= >= min max quasiquote try? try! lambda s:integer s:bool s:list print! println! eprintln! fprint! assert-eq? assert-ne? ordering/or for
conv-from conv-to conv-to? + - * / % approx-eq? get unsafe-get get? set! is? |> ^0 ^1 ^2 ^6 loop when when? cond cond? let* let1 match? case case1 case? with
with1 with? if-match if-match1 while-match when-match1 display-all! result/and option/or assert assert-is? path string hash-all! derive derive/Eq derive/Hash
derive/Ord derive/DeepCopy derive/DebugDisplay derive/Default phantom hash-map hash-set ord-map ord-set s/match while""".split()
SPECIAL = "let match begin if while set! let-macro return annotate quote function transparent-function macro data value-data class instance builtin-op builtin-type c-function import export no-implicit-std and or not unquote quasiquote unquote-splicing forall where -> : case type-of".split()
MODS = ["std/hash-map", "std/hash-set", "std/ord-map", "std/ord-set", "std/derive", "std/access", "std/phantom", "std/persistent/hash-map", "std/internal/s", "std/s", "std/bits", "std/text", "std/iterator", "std/rw", "std/io", "std/string", "std/math", "std/hash"]
ATOMS = """x y z f it _ unit none some ok err : -> 0 1 -1 2.5 "s" "" #\\a #t #f () (:) (some 1) (x) (x y) [x 1] [(some (let y)) y] (: 1 2) (let x) I32 String Bool {I32} {(-> I32 I32)}
else Eq T (T A) (forall A) (where (Eq A)) ~ ~/m "std/eq" 'a `(a ,b) ,x ,@x '() [] {} ((f x) 1) ([x 1]) ([x 1] [y 2]) [(f x) x] (-> x) (|) = + = => <- :: a=b 99999999999999999999 1e10 #\\\\n""".split("\n")
ATOMS = [a for l in ATOMS for a in l.split(" ")]   # pieces, unbalanced ones are dropped below


def atoms():
    out = []
    for a in ATOMS + ["(some 1)", "(x y)", "[x 1]", "[(some (let y)) y]", "(: 1 2)", "(let x)", "{I32}", "{(-> I32 I32)}", "(T A)", "(forall A)", "(where (Eq A))", "`(a ,b)", "((f x) 1)", "([x 1])", "([x 1] [y 2])",
                      "[(f x) x]", "[else 1]", "[#t 1]", "(a b c)", "(instance N (Eq T))", "(function (f x) x)", "(f {I32} 1)", "'(a . b)"]:
        if a and all(a.count(x) == a.count(y) for x, y in ("()", "[]", "{}")):
            out.append(a)
    return out


AT = atoms()


def form(r, d=2):
    h = r.choice(MACROS) if r.random() < 0.65 else r.choice(SPECIAL)
    n = r.choice([0, 0, 1, 1, 2, 2, 3, 4, 6])
    args = []
    for _ in range(n):
        if d > 0 and r.random() < 0.25:
            args.append(form(r, d - 1))
        elif r.random() < 0.15:
            args.append("(%s)" % " ".join(r.choice(AT) for _ in range(r.randrange(4))))
        else:
            args.append(r.choice(AT))
    o, c = r.choice(["()"] * 6 + ["[]"])
    return "%s%s%s" % (o, " ".join([h] + args), c)


def module(r):
    out = []
    for m in r.sample(MODS, r.choice([0, 1, 1, 2, 4])):
        out.append('(import "%s" _)' % m)
    if r.random() < 0.5:
        out.append("(function (f x) {(-> I32 I32)} x)")
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        f = form(r)
        if k < 0.45:
            out.append(f)
        elif k < 0.7:
            out.append("(function (g%d x) {(-> I32 I32)} %s)" % (len(out), f))
        elif k < 0.8:
            out.append("(let ([y %s]) %s)" % (f, form(r)))
        elif k < 0.9:
            out.append("(data (T%d A) (t%d %s) %s)" % (len(out), len(out), r.choice(["I32", "A", f]), f))
        else:
            out.append("(match %s [%s %s])" % (r.choice(["1", "(some 1)", f]), f, form(r)))
    return "\n".join(out) + "\n"
