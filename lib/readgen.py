"""Trees written as text in random layouts, and what reading them should give."""
import random, struct, re

DUMP = r'''
(import "std/memory" _)
(import "std/array" Array array array/_ _.Array)
(import "std/string" _)
(import "std/s-display" _)
(export show disp bad)
(macro (show s) (s/match s [(_ ,a) (ok (s:string (dump a)))] [_ (err "show")]))
(macro (disp s) (s/match s [(_ ,a) (ok (s:string (string a)))] [_ (err "disp")]))
(macro (bad s) (s/match s [(_ (s:string (let m)) . _) (err m)] [_ (err "bad")]))
(function (float-bits v) {(-> F64 U64)} (ptr/load (ptr/cast (array/ptr (array/new v 1)))))
(function (hex s) {(-> String String)}
  (let ([r (ref "")] [i (ref 0 {U64})])
    (begin
      (while (< ~i (string/length s))
        (begin (set! r (string ~r " " (string/byte-at ~i s))) (set! i (+ ~i 1))))
      ~r)))
(function (dump s) {(-> (Syntax Sexp) String)}
  (match s
    [(s:integer (let signed) (let value)) (string (if signed "i" "u") value)]
    [(s:fpnumber (let v)) (string "f" (float-bits v))]
    [(s:bool (let v)) (if v "T" "F")]
    [(s:symbol (let v)) (string "s[" (hex v) "]")]
    [(s:string (let v)) (string "S[" (hex v) "]")]
    [(s:char (let v)) (string "c" (char/unicode-scalar v))]
    [(s:cons (let a) (let b)) (string "(" (dump a) " . " (dump b) ")")]
    [(s:nil) "0"]
    [_ "?"]))
'''.replace("(macro (bad s) (s/match s [(_ (s:string (let m)) . _) (err m)] [_ (err \"bad\")]))",
            "(macro (bad s) (match s [(s:cons _ (s:cons (s:string (let m)) _)) (err m)] [_ (err \"bad\")]))")

ID = "!$%&*+-./0123456789:<=>?ABCDEFGHIJKLMNOPQRSTUVWXYZ^_abcdefghijklmnopqrstuvwxyz|"
NUMBERISH = re.compile(r"[+-]?(\d|\.\d|inf|nan)", re.I)
SUGAR = {"'": "quote", "`": "quasiquote", ",": "unquote", ",@": "unquote-splicing", "\\": "capture", "~": "load"}
ESC = {"\t": "t", "\r": "r", "\n": "n", '"': '"', "\\": "\\"}


def by(s):
    return "".join(" %d" % b for b in s.encode())


def dump(t):
    k = t[0]
    if k == "int":
        return "u%d" % t[1] if not t[2] else "i%d" % (t[1] % 2 ** 64)
    if k == "flt":
        return "f%d" % struct.unpack("<Q", struct.pack("<d", float(t[1])))[0]
    if k == "sym":
        return "s[%s]" % by(t[1])
    if k == "str":
        return "S[%s]" % by(t[1])
    if k == "chr":
        return "c%d" % ord(t[1])
    if k == "bool":
        return "T" if t[1] else "F"
    if k == "list":
        r = dump(t[2]) if t[2] else "0"
        for x in reversed(t[1]):
            r = "(%s . %s)" % (dump(x), r)
        return r
    if k == "sugar":
        return dump(("list", [("sym", SUGAR[t[1]]), t[2]], None))
    if k == "try":
        return dump(("list", [("sym", "try" + t[1]), t[2]], None))
    if k == "ann":
        return dump(("list", [("sym", "annotate"), t[1]] + t[2], None))
    raise ValueError(k)


class Gen:
    def __init__(self, r, plain=False):
        self.r = r
        self.plain = plain      # only what prints back exactly (floats of few digits)
        self.count = {}

    def symbol(self):
        r = self.r
        while True:
            x = r.random()
            if x < 0.3:
                s = r.choice(["a", "foo", "x", "list", "quote", "annotate", "try?", "a/b", "+", "-", "...", "..", "=>", "$", "|", "a.b", ":", "1+", "-a", "a?", "b!", "if", "t", "f", "unquote", "?x", "!y", "??", "-.", "e5", ".e5", "x10"])
            else:
                s = "".join(r.choice(ID) for _ in range(r.randrange(1, 9)))
            # a number, or what another reader of numbers may take for one, is not a symbol here
            if s in (".", "?", "!") or (NUMBERISH.match(s) and s not in ("1+",)):
                continue
            if s.startswith("$") and len(s) >= 1:
                continue    # metavariables and directives
            return s

    def flt(self):
        r = self.r
        if self.plain:
            return "%s%d.%d" % (r.choice(["", "-"]), r.randrange(100000), r.randrange(1, 10)) if r.random() < 0.7 else "%s%d.0" % (r.choice(["", "-"]), r.randrange(1000))
        x = r.random()
        if x < 0.3:
            return "%s%d.%s" % (r.choice(["", "-"]), r.randrange(1000), r.choice(["0", "5", "25", "1", "000001", str(r.getrandbits(60))]))
        if x < 0.8:
            return "%s%d.%d%s%s%d" % (r.choice(["", "-"]), r.getrandbits(r.randrange(1, 40)) if r.random() < 0.7 else 0, r.getrandbits(r.randrange(1, 60)), r.choice("eE"), r.choice(["", "-", "+"]), r.randrange(0, 280))
        if x < 0.87:
            return r.choice(["00.5", "-00.25", "7.", "-8.", ".5", "-.125", "+1.5", "+.75", "4.9e-324", "1e-400", "2.2250738585072011e-308", "1e5", "2E-3", "3e+2", "18446744073709551616", "-9223372036854775809", "9" * 30, "1" + "0" * 50 + ".0"])
        # halfway between two doubles, and its neighbours
        m = (1 << 52) + r.getrandbits(52)
        v = (2 * m + 1) * 2 ** r.choice([0, 3, 20])
        return "%d%s" % (v, r.choice([".0", ".1", ".0000001"])) if r.random() < 0.7 else "%d.0e%d" % (r.getrandbits(50), r.randrange(5))

    def char(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return chr(r.randrange(32, 127))
        if x < 0.6:
            return r.choice("\t\r\n\"\\ ;()[]{}'`,@~#\x7f\x01\x00")
        while True:
            c = r.choice([r.randrange(0x80, 0x800), r.randrange(0x800, 0xd800), r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x110000), 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xfeff, 0x2028])
            return chr(c)

    def tree(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.45:
            k = r.choice(["int", "int", "flt", "sym", "sym", "sym", "str", "str", "chr", "chr", "bool"])
            self.count[k] = self.count.get(k, 0) + 1
            if k == "int":
                y = r.random()
                v = r.choice([0, 1, 255, 2 ** 63, 2 ** 63 - 1, 2 ** 64 - 1]) if y < 0.2 else r.getrandbits(r.randrange(1, 65))
                if r.random() < 0.3:
                    return ("int", -r.choice([1, 2 ** 63, 2 ** 63 - 1, r.getrandbits(r.randrange(1, 64)) or 1]), True)
                return ("int", v, False)
            if k == "flt":
                return ("flt", self.flt())
            if k == "sym":
                return ("sym", self.symbol())
            if k == "str":
                return ("str", "".join(self.char() for _ in range(r.choice([0, 1, 1, 3, 10, 40]))))
            if k == "chr":
                return ("chr", self.char())
            return ("bool", r.random() < 0.5)
        k = r.choice(["list"] * 6 + ["dotted", "sugar", "sugar", "try", "ann"])
        self.count[k] = self.count.get(k, 0) + 1
        sub = lambda: self.tree(d - 1)
        if k == "list":
            return ("list", [sub() for _ in range(r.choice([0, 1, 1, 2, 3, 5]))], None)
        if k == "dotted":
            # any tail: a list after the dot continues the list
            return ("list", [sub() for _ in range(r.choice([1, 1, 2, 3]))], sub())
        if k == "sugar":
            return ("sugar", r.choice(list(SUGAR)), sub())
        if k == "try":
            return ("try", r.choice("?!"), sub())
        return ("ann", sub(), [sub() for _ in range(r.choice([0, 1, 1, 2]))])


class Writer:
    """writes tokens with random separators and remembers where each lies"""

    def __init__(self, r, simple=False):
        self.r = r
        self.out = []
        self.last = ""      # kind of the last token: "id" when letters could run together
        self.line = self.col = 1
        self.simple = simple

    def raw(self, s):
        self.out.append(s)
        b = s.encode()
        n = b.count(b"\n")
        if n:
            self.line += n
            self.col = len(b) - b.rfind(b"\n")
        else:
            self.col += len(b)

    def space(self, need):
        r = self.r
        x = r.random()
        if not need and x < (0.4 if not self.simple else 0.6):
            return
        if self.simple or x < 0.75:
            self.raw(" ")
            return
        for _ in range(r.choice([1, 1, 2, 4])):
            self.raw(r.choice([" ", "  ", "\t", "\n", "\r\n", "\n\n   ", "\r", "; a comment ( \" #\\ \n", ";\n", ";; \u8a71 ) ] }\r\n"]))

    def tok(self, s, kind=""):
        """-> (line, column) of its start"""
        need = (self.last == "id" and kind == "id") or (self.last == "," and s[0] == "@")
        self.space(need)
        p = (self.line, self.col)
        self.raw(s)
        self.last = kind if kind == "id" else s
        self.end = (self.line, self.col)
        return p

    def string(self, s):
        r = self.r
        o = []
        for ch in s:
            if ch in '"\\' or ch in ESC and r.random() < 0.5:
                o.append("\\" + ESC[ch])
            else:
                o.append(ch)
        return '"' + "".join(o) + '"'

    def put(self, t):
        """-> (start, end)"""
        r = self.r
        k = t[0]
        if k == "int":
            s = str(t[1])
            if r.random() < 0.1:
                s = s.replace("-", "-00") if t[2] else r.choice(["00", "+", "+0"]) + s
            a = self.tok(s, "id")
        elif k == "flt" or k == "sym":
            a = self.tok(t[1], "id")
        elif k == "str":
            a = self.tok(self.string(t[1]))
        elif k == "chr":
            c = t[1]
            a = self.tok("#\\" + ("\\" + ESC[c] if c == "\\" or c in ESC and r.random() < 0.5 else c))
        elif k == "bool":
            a = self.tok("#t" if t[1] else "#f")
        elif k == "list":
            o, e = r.choice(["()", "()", "[]"])
            a = self.tok(o)
            self.body(t)
            self.tok(e)
        elif k == "sugar":
            if r.random() < 0.25:
                return self.put(("list", [("sym", SUGAR[t[1]]), t[2]], None))
            # the quote binds the whole annotated expression after it
            a = self.tok(t[1])
            self.put(t[2])
        elif k in ("try", "ann"):
            inner = t[2] if k == "try" else t[1]
            full = ("list", [("sym", "try" + t[1]), inner], None) if k == "try" else ("list", [("sym", "annotate"), inner] + t[2], None)
            if inner[0] == "sugar" or r.random() < 0.15:
                return self.put(full)
            a, e = self.put(inner)
            if self.sugared:
                # 'a? means '(a?): written so only when the inner one was not written with its mark
                raise Again()
            if k == "try":
                self.tok(t[1], "id")
            else:
                self.tok("{")
                for x in t[2]:
                    self.put(x)
                self.tok("}")
        self.sugared = k == "sugar"
        return a, self.end

    def body(self, t):
        r = self.r
        items, tail = t[1], t[2]
        if tail is None and len(items) >= 1 and items[-1][0] == "list" and r.random() < 0.3:
            for x in items[:-1]:
                self.put(x)
            self.tok("@")
            self.body(items[-1])
        elif tail is None and len(items) >= 2 and r.random() < 0.1:
            n = r.randrange(1, len(items))
            for x in items[:n]:
                self.put(x)
            self.tok(".", "id")
            self.put(("list", items[n:], None))
        elif tail is not None:
            for x in items:
                self.put(x)
            self.tok(".", "id")
            self.put(tail)
        else:
            for x in items:
                self.put(x)


class Again(Exception):
    pass


def text(r, t, simple=False):
    """-> a text of the tree"""
    for _ in range(50):
        w = Writer(r, simple)
        w.sugared = False
        try:
            w.put(t)
        except Again:
            continue
        return "".join(w.out)
    return None
