"""S-expressions as text: a reader keeping source tokens, a printer, and random edits of programs."""
import random, re

TOK = re.compile(r'''\s+|;[^\n]*|(?P<s>"(?:\\.|[^"\\])*")|(?P<c>\#\\(?:[^\s()\[\]{}"';]+|.))|(?P<o>[(\[{])|(?P<x>[)\]}])|(?P<q>,@|[`',\\^~](?=[^\s)\]}]))|(?P<a>[^\s()\[\]{}"';]+)|(?P<e>.)''', re.S)
PAIR = {"(": ")", "[": "]", "{": "}"}


class L(list):
    """A list with its bracket."""
    __slots__ = ("b",)

    def __init__(self, xs=(), b="("):
        super().__init__(xs)
        self.b = b


class Q:
    """A prefixed expression: 'x `x ,x ,@x \\x ^x ~x."""
    __slots__ = ("p", "x")

    def __init__(self, p, x):
        self.p, self.x = p, x


def read(text):
    toks = []
    for m in TOK.finditer(text):
        k = m.lastgroup
        if k:
            toks.append((k, m.group()))
    pos = 0

    def item():
        nonlocal pos
        k, t = toks[pos]
        pos += 1
        if k == "o":
            r = L(b=t)
            while pos < len(toks) and toks[pos][0] != "x":
                r.append(item())
            pos += 1
            return r
        if k == "q":
            return Q(t, item())
        return t
    out = L()
    while pos < len(toks):
        if toks[pos][0] == "x":
            pos += 1
            continue
        out.append(item())
    return out


def show(x):
    if isinstance(x, L):
        return x.b + " ".join(map(show, x)) + PAIR[x.b]
    if isinstance(x, Q):
        return x.p + show(x.x)
    return x


def show_module(x):
    return "\n".join(map(show, x)) + "\n"


def copy(x):
    if isinstance(x, L):
        return L(map(copy, x), x.b)
    if isinstance(x, Q):
        return Q(x.p, copy(x.x))
    return x


KEYWORDS = """function transparent-function c-function macro data value-data class instance import export no-implicit-std
 where forall -> let let1 if while begin match and or set! ref return annotate let* _ not quote : . @ unit #t #f 0 1 -1 3.5 "s" #\\a some none ok err
 Bool I32 U8 F64 String Char unit Option Result Syntax Sexp syntax with $if $let $for $or $and $not $symbol $if-is? value type class *""".split()
ATOMS = '0 1 -1 255 2147483647 2147483648 9223372036854775807 18446744073709551615 0.5 1e300 -0.0 #t #f "" "ab" "\\n" #\\a #\\space foo Bar'.split()


class Mutator:
    def __init__(self, rng, pool, frozen=("builtin-op", "c-function")):
        self.r, self.pool, self.frozen = rng, pool, frozen

    def spots(self, m):
        """Every (parent list, index) that may be edited."""
        out = []

        def walk(x):
            if isinstance(x, L):
                if x and isinstance(x[0], str) and x[0] in self.frozen:
                    return
                for i, y in enumerate(x):
                    out.append((x, i))
                    walk(y)
            elif isinstance(x, Q):
                walk(x.x)
        walk(m)
        return out

    def atoms(self, m):
        out = []

        def walk(x):
            if isinstance(x, L):
                for y in x:
                    walk(y)
            elif isinstance(x, Q):
                walk(x.x)
            else:
                out.append(x)
        walk(m)
        return out

    def edit(self, m):
        """One random edit of module m in place; returns its name."""
        r = self.r
        sp = self.spots(m)
        if not sp:
            return None
        l, i = r.choice(sp)
        k = r.choice("del dup swap sub subother atom atom2 kw wrap unwrap ann noann moveform lit split join bracket quote".split())
        x = l[i]
        if k == "del":
            del l[i]
        elif k == "dup":
            l.insert(i, copy(x))
        elif k == "swap":
            j = r.randrange(len(l))
            l[i], l[j] = l[j], l[i]
        elif k == "sub":
            l2, j = r.choice(sp)
            l[i] = copy(l2[j])
        elif k == "subother":
            o = r.choice(self.pool)
            s2 = self.spots(o)
            if s2:
                l2, j = r.choice(s2)
                l[i] = copy(l2[j])
        elif k in ("atom", "atom2"):
            # an atom replaced by another atom of the program (or of its neighbourhood)
            cand = [(a, b) for a, b in sp if isinstance(a[b], str)]
            if cand:
                a, b = r.choice(cand)
                a[b] = r.choice(self.atoms(m))
        elif k == "kw":
            cand = [(a, b) for a, b in sp if isinstance(a[b], str)]
            if cand:
                a, b = r.choice(cand)
                a[b] = r.choice(KEYWORDS)
        elif k == "wrap":
            l[i] = L([x], r.choice("((["))
        elif k == "unwrap":
            if isinstance(x, L):
                l[i:i + 1] = list(x)
        elif k == "ann":
            l.insert(i + 1, L([r.choice(["A", "I32", "Bool", "_", "unit"])], "{"))
        elif k == "noann":
            cand = [(a, b) for a, b in sp if isinstance(a[b], L) and a[b].b == "{"]
            if cand:
                a, b = r.choice(cand)
                del a[b]
        elif k == "moveform":
            if len(m) > 1:
                y = m.pop(r.randrange(len(m)))
                m.insert(r.randrange(len(m) + 1), y)
        elif k == "lit":
            cand = [(a, b) for a, b in sp if isinstance(a[b], str)]
            if cand:
                a, b = r.choice(cand)
                a[b] = r.choice(ATOMS)
        elif k == "split":
            if isinstance(x, L) and len(x) > 1:
                j = r.randrange(1, len(x))
                l[i:i + 1] = [L(x[:j], x.b), L(x[j:], x.b)]
        elif k == "join":
            if i + 1 < len(l) and isinstance(x, L) and isinstance(l[i + 1], L):
                l[i:i + 2] = [L(list(x) + list(l[i + 1]), x.b)]
        elif k == "bracket":
            if isinstance(x, L):
                x.b = r.choice("([{")
        elif k == "quote":
            l[i] = Q(r.choice(["'", "`", ",", ",@", "\\", "^", "~"]), x)
        return k


def garble(r, text):
    """Edits below the level of expressions."""
    b = bytearray(text.encode())
    for _ in range(r.randint(1, 3)):
        k = r.randrange(6)
        p = r.randrange(len(b) + 1)
        if k == 0:
            b[p:p] = r.choice([b"(", b")", b"[", b"]", b"{", b"}", b'"', b"\\", b"#", b"#\\", b";", b"'", b",", b"@", b"|", b".", b"\x00", b"\xff", "é".encode(), b"\n", b"#t", b"0x", b"#\\u", b"\\x41"])
        elif k == 1:
            del b[p:p + r.randint(1, 12)]
        elif k == 2:
            del b[p:]
        elif k == 3 and b:
            q = min(p, len(b) - 1)
            b[q] ^= 1 << r.randrange(8)
        elif k == 4:
            q = r.randrange(len(b) + 1)
            b[p:p] = b[q:q + r.randint(1, 40)]
        elif k == 5:
            b[p:p] = r.choice([b"99999999999999999999999", b"1e999999", b"-", b"+", b"1.", b".5", b"(" * 200, b"'" * 50, b"{}", b"()", b"[]"])
    return bytes(b)
