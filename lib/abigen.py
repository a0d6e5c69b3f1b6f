"""Random C signatures and structures: an llrl program that calls them, a C peer that logs every value it receives and returns known ones, and the log that must come out (C06)."""
import random, struct

INTS = {"I8": (1, True, "int8_t"), "I16": (2, True, "int16_t"), "I32": (4, True, "int32_t"), "I64": (8, True, "int64_t"),
        "U8": (1, False, "uint8_t"), "U16": (2, False, "uint16_t"), "U32": (4, False, "uint32_t"), "U64": (8, False, "uint64_t")}
FL = {"F32": (4, "float"), "F64": (8, "double")}
PTR = "(P U8)"
SCALARS = list(INTS) + list(FL) + [PTR]


class Struct:
    def __init__(self, i, fields):
        self.i, self.fields = i, fields
        self.name = "S%d" % i

    def flat(self, pre=""):
        """scalar leaves: (C access path, type)"""
        for k, f in enumerate(self.fields):
            if isinstance(f, Struct):
                yield from f.flat(pre + "f%d." % k)
            else:
                yield pre + "f%d" % k, f


def size_align(t):
    if isinstance(t, Struct):
        o, al = 0, 1
        for f in t.fields:
            s, a = size_align(f)
            o = (o + a - 1) // a * a + s
            al = max(al, a)
        return (o + al - 1) // al * al, al
    s = INTS[t][0] if t in INTS else FL[t][0] if t in FL else 8
    return s, s


def leaves(t, off=0):
    if not isinstance(t, Struct):
        return [(off, t)]
    out, o = [], 0
    for f in t.fields:
        s, a = size_align(f)
        o = (o + a - 1) // a * a
        out += leaves(f, off + o)
        o += s
    return out


def classes(t):
    """eightbyte classes, or None for memory"""
    s, _ = size_align(t)
    if s > 16:
        return None
    n = (s + 7) // 8
    c = ["F"] * n
    for o, x in leaves(t):
        if x not in FL:
            c[o // 8] = "I"
    return c


def llvm_ok(t):
    """at most one scalar per eightbyte (what the LLVM back end passes like C does)"""
    if not isinstance(t, Struct):
        return True
    if size_align(t)[0] > 16:
        return False
    e = [o // 8 for o, _ in leaves(t)]
    return len(e) == len(set(e))


class Gen:
    def __init__(self, r, llvm):
        self.r, self.llvm = r, llvm
        self.structs = []
        mix = r.choice(["any", "any", "floats", "small", "big", "pairs"])
        for i in range(r.randint(2, 7)):
            for _ in range(50):
                n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8] if mix != "pairs" else [2])
                fs = []
                for _ in range(n):
                    if self.structs and r.random() < 0.25:
                        fs.append(r.choice(self.structs))
                    else:
                        fs.append(r.choice({"any": SCALARS, "floats": ["F32", "F64", "F32", "I32"], "small": ["I8", "U8", "I16", "U16", "I32", "F32"], "big": ["I64", "F64", "U64", PTR], "pairs": SCALARS}[mix]))
                s = Struct(i, fs)
                if size_align(s)[0] <= (r.choice([8, 16, 16, 24, 64])):
                    break
            self.structs.append(s)
        self.funs = []
        for k in range(r.randint(4, 9)):
            self.funs.append(self.fun(k))
        self.expect = []
        self.ncheck = 0

    def typ(self, pos):
        r = self.r
        if self.structs and r.random() < 0.45:
            c = [s for s in self.structs if not self.llvm or llvm_ok(s) or pos == "ret"]
            if c:
                return r.choice(c)
        return r.choice(SCALARS)

    def fun(self, k):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 6, 7, 8, 9, 12, 15])
        bias = r.choice([None, None, "F64", "I64", "struct"])
        args = []
        ret = None if r.random() < 0.12 else self.typ("ret")
        gp = 6 - (1 if ret is not None and classes_mem(ret) else 0)
        fp = 8
        for _ in range(n):
            for _ in range(20):
                t = bias if bias in SCALARS and r.random() < 0.6 else self.typ("arg")
                if bias == "struct" and r.random() < 0.6:
                    c = [s for s in self.structs if not self.llvm or llvm_ok(s)]
                    t = r.choice(c) if c else t
                cl = classes(t)
                need_i, need_f = (cl or []).count("I"), (cl or []).count("F")
                fits = cl is not None and need_i <= gp and need_f <= fp
                if self.llvm and isinstance(t, Struct) and len(cl) > 1 and not fits:
                    continue
                if fits:
                    gp -= need_i
                    fp -= need_f
                args.append(t)
                break
        return (k, args, ret)

    # ------------------------------------------------------------ values
    def scalar(self, t, literal):
        r = self.r
        if t in INTS:
            b, sg, _ = INTS[t]
            lo, hi = (-(1 << (8 * b - 1)), (1 << (8 * b - 1)) - 1) if sg else (0, (1 << (8 * b)) - 1)
            return r.choice([r.randint(lo, hi), r.randint(lo, hi), lo, hi, 0, 1, max(lo, -1)])
        if t in FL:
            if literal:
                return r.choice([0.0, 1.0, -1.5, r.randint(-99999, 99999) / 8, r.randint(-999, 999) / 64, r.randint(-2000000, 2000000) * 1.0])
            while True:
                if t == "F32":
                    v = struct.unpack("<f", struct.pack("<I", r.getrandbits(32)))[0]
                else:
                    v = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
                if v == v:
                    return v
        return r.choice([0, 1, 0xdeadbeef, r.getrandbits(47), r.getrandbits(64)])

    def value(self, t, literal):
        if isinstance(t, Struct):
            return [self.value(f, literal) for f in t.fields]
        return self.scalar(t, literal)

    def flatv(self, t, v):
        if isinstance(t, Struct):
            return [x for f, w in zip(t.fields, v) for x in self.flatv(f, w)]
        return [(t, v)]

    @staticmethod
    def show(t, v):
        if t in INTS:
            return "%d" % v
        if t == "F32":
            return "%08x" % struct.unpack("<I", struct.pack("<f", v))[0]
        if t == "F64":
            return "%016x" % struct.unpack("<Q", struct.pack("<d", v))[0]
        return "%x" % v

    # ------------------------------------------------------------ text
    @staticmethod
    def ctype(t):
        if t is None:
            return "void"
        if isinstance(t, Struct):
            return "struct " + t.name
        return INTS[t][2] if t in INTS else FL[t][1] if t in FL else "uint8_t *"

    @staticmethod
    def ltype(t):
        return "unit" if t is None else t.name if isinstance(t, Struct) else t

    def cval(self, t, v):
        if isinstance(t, Struct):
            return "{" + ", ".join(self.cval(f, w) for f, w in zip(t.fields, v)) + "}"
        if t in INTS:
            if t == "I64" and v == -(1 << 63):
                return "INT64_MIN"
            return "(%s)%d%s" % (INTS[t][2], v, "ULL" if t == "U64" else "LL" if t == "I64" else "U" if t == "U32" else "LL")
        if t in FL:
            return "%s%s" % (v.hex() if v not in (float("inf"), float("-inf")) else ("INFINITY" if v > 0 else "-INFINITY"), "f" if t == "F32" else "") if abs(v) != float("inf") else ("INFINITY" if v > 0 else "-INFINITY")
        return "(uint8_t *)0x%xULL" % v

    def lval(self, t, v):
        """an llrl expression for a literal value"""
        if isinstance(t, Struct):
            return "(s%d: %s)" % (t.i, " ".join(self.lval(f, w) for f, w in zip(t.fields, v)))
        if t in INTS:
            return "%d" % v
        if t in FL:
            return repr(float(v)) if "e" not in repr(float(v)) else "%.1f" % v
        return "(i2p %d)" % v

    def clog(self, t, path):
        if t in INTS:
            return 'put("%s", (%s)%s);' % ("%lld" if INTS[t][1] else "%llu", "long long" if INTS[t][1] else "unsigned long long", path)
        if t == "F32":
            return "{ float z = %s; uint32_t b; memcpy(&b, &z, 4); put(\"%%08llx\", (unsigned long long)b); }" % path
        if t == "F64":
            return "{ double z = %s; uint64_t b; memcpy(&b, &z, 8); put(\"%%016llx\", (unsigned long long)b); }" % path
        return 'put("%%llx", (unsigned long long)(uintptr_t)%s);' % path

    def clogs(self, t, path):
        if isinstance(t, Struct):
            return " ".join(self.clog(x, path + "." + p) for p, x in t.flat())
        return self.clog(t, path)

    def build(self):
        r = self.r
        C = ["#include <stdio.h>", "#include <stdint.h>", "#include <string.h>", "#include <math.h>",
             "static void put(const char *f, unsigned long long v) { putchar(' '); printf(f, v); }",
             "static void begin(const char *n) { fputs(n, stdout); }",
             "static void end(void *frame) { if ((uintptr_t)frame % 16) fputs(\" MISALIGNED STACK\", stdout); putchar('\\n');",
             "  __asm__ volatile(\"xorl %%eax,%%eax; movq $-1,%%rcx; movq %%rcx,%%rdx; movq %%rcx,%%rsi; movq %%rcx,%%rdi; movq %%rcx,%%r8; movq %%rcx,%%r9; movq %%rcx,%%r10; movq %%rcx,%%r11;\"",
             "    \"pcmpeqb %%xmm0,%%xmm0; pcmpeqb %%xmm1,%%xmm1; pcmpeqb %%xmm2,%%xmm2; pcmpeqb %%xmm3,%%xmm3; pcmpeqb %%xmm4,%%xmm4; pcmpeqb %%xmm5,%%xmm5; pcmpeqb %%xmm6,%%xmm6; pcmpeqb %%xmm7,%%xmm7;"
             "pcmpeqb %%xmm8,%%xmm8; pcmpeqb %%xmm15,%%xmm15\" ::: \"rax\",\"rcx\",\"rdx\",\"rsi\",\"rdi\",\"r8\",\"r9\",\"r10\",\"r11\",\"xmm0\",\"xmm1\",\"xmm2\",\"xmm3\",\"xmm4\",\"xmm5\",\"xmm6\",\"xmm7\",\"xmm8\",\"xmm15\"); }"]
        L = ["(no-implicit-std)", '(import "builtin" _)', '(c-function putchar {(-> I32 I32)} "putchar")',
             '(builtin-type (P A) "ptr" [pnull "null"] [(pnn A) "non-null"])',
             '(builtin-op i2p {(forall A) (-> U64 (P A))} "integer.to-ptr")', '(builtin-op pcast {(forall A B) (-> (P A) (P B))} "ptr.cast")',
             '(builtin-op pload {(forall A) (-> (P A) A)} "ptr.load")', '(builtin-op pstore {(forall A) (-> A (P A) unit)} "ptr.store")',
             '(builtin-op poff {(forall A) (-> I64 (P A) (P A))} "ptr.offset")', '(builtin-op ptmp {(forall A) (-> A (P A))} "ptr.temporary")',
             "(value-data (Ph A) ph)", '(builtin-op szof {(forall A) (-> (Ph A) U64)} "size-of")', '(builtin-op alof {(forall A) (-> (Ph A) U64)} "align-of")',
             '(c-function wsize {(-> I32 U64 U64 unit)} "w_size")', '(function (ign x) {(forall A) (-> A unit)} unit)']
        C.append('void w_size(int32_t i, uint64_t s, uint64_t a) { begin("size"); put("%lld", i); put("%llu", s); put("%llu", a); end(__builtin_frame_address(0)); }')
        for s in self.structs:
            C.append("struct %s { %s };" % (s.name, " ".join("%s f%d;" % (self.ctype(f), k) for k, f in enumerate(s.fields))))
            C.append("_Static_assert(sizeof(struct %s) == %d && _Alignof(struct %s) == %d, \"model\");" % (s.name, size_align(s)[0], s.name, size_align(s)[1]))
            L.append("(value-data %s (s%d: %s))" % (s.name, s.i, " ".join(self.ltype(f) for f in s.fields)))
        for k, t in enumerate(SCALARS):
            C.append("void w_%d(int32_t tag, %s x) { begin(\"got\"); put(\"%%lld\", tag); %s end(__builtin_frame_address(0)); }" % (k, self.ctype(t), self.clog(t, "x")))
            L.append('(c-function w%d {(-> I32 %s unit)} "w_%d")' % (k, t, k))
        self.tag = 0
        body, self.expect = [], []
        getters = 0
        # sizes and values in memory
        for s in self.structs:
            body.append("(wsize %d (szof (ph {(Ph %s)})) (alof (ph {(Ph %s)})))" % (s.i, s.name, s.name))
            body[-1] = "(wsize %d (szof (phx%d)) (alof (phx%d)))" % (s.i, s.i, s.i)
            L.append("(function (phx%d) {(-> (Ph %s))} ph)" % (s.i, s.name))
            self.expect.append("size %d %d %d" % (s.i, *size_align(s)))
            n = r.randint(1, 4)
            vs = [self.value(s, False) for _ in range(n)]
            C.append("static struct %s arr%d[%d] = {%s};" % (s.name, s.i, n, ", ".join(self.cval(s, v) for v in vs)))
            C.append("struct %s *a_%d(void) { return arr%d; }" % (s.name, s.i, s.i))
            C.append("void c_%d(struct %s *p, int32_t n) { begin(\"mem%d\"); put(\"%%lld\", n); %s end(__builtin_frame_address(0)); }" % (s.i, s.name, s.i, self.clogs(s, "(*p)")))
            L.append('(c-function a%d {(-> (P %s))} "a_%d")\n(c-function c%d {(-> (P %s) I32 unit)} "c_%d")' % (s.i, s.name, s.i, s.i, s.name, s.i))
            k = r.randrange(n)
            body.append(self.read("(pload (poff %d (a%d)))" % (k, s.i), s, vs[k]))
            v = self.value(s, True)
            j = r.randrange(n)
            body.append("(pstore %s (poff %d (a%d)))" % (self.lval(s, v), j, s.i))
            vs[j] = v
            for q in range(n):
                body.append("(c%d (poff %d (a%d)) %d)" % (s.i, q, s.i, q))
                self.expect.append(" ".join(["mem%d" % s.i, str(q)] + [self.show(t, x) for t, x in self.flatv(s, vs[q])]))
            if r.random() < 0.5:
                body.append("(c%d (ptmp %s) 9)" % (s.i, self.lval(s, v)))
                self.expect.append(" ".join(["mem%d" % s.i, "9"] + [self.show(t, x) for t, x in self.flatv(s, v)]))
        for k, args, ret in self.funs:
            nret = 3
            rv = [self.value(ret, False) for _ in range(nret)] if ret is not None else []
            C.append("%s f_%d(%s) { static int n; begin(\"f%d\"); %s end(__builtin_frame_address(0)); %s }" % (
                self.ctype(ret), k, ", ".join("%s a%d" % (self.ctype(t), i) for i, t in enumerate(args)) or "void", k, " ".join(self.clogs(t, "a%d" % i) for i, t in enumerate(args)),
                ("static const %s v[%d] = {%s}; return v[n++ %% %d];" % (self.ctype(ret).replace("uint8_t *", "uint8_t *"), nret, ", ".join(self.cval(ret, v) for v in rv), nret) if ret is not None else "(void)n;")
                .replace("static const uint8_t * v", "static uint8_t *const v")))
            L.append('(c-function f%d {(-> %s)} "f_%d")' % (k, " ".join([self.ltype(t) for t in args] + [self.ltype(ret)]), k))
            for call in range(r.choice([1, 2, 3])):
                av, vals, pre = [], [], []
                for i, t in enumerate(args):
                    lit = r.random() < 0.6
                    v = self.value(t, lit)
                    if lit:
                        e = self.lval(t, v)
                        if r.random() < 0.2:
                            pre.append((i, e))
                            e = "y%d" % i
                    else:
                        g = getters
                        getters += 1
                        C.append("%s g_%d(void) { end0(); %s%s v = %s; return v; }" % (self.ctype(t), g, "", self.ctype(t), self.cval(t, v)) if False else
                                 "%s g_%d(void) { %s v = %s; return v; }" % (self.ctype(t), g, self.ctype(t), self.cval(t, v)))
                        L.append('(c-function g%d {(-> %s)} "g_%d")' % (g, self.ltype(t), g))
                        e = "(g%d)" % g
                    av.append(e)
                    vals.append(v)
                ex = "(f%d%s)" % (k, "".join(" " + a for a in av))
                if pre:
                    ex = "(let (%s) %s)" % (" ".join("[y%d %s]" % p if not isinstance(args[p[0]], str) else "[y%d {%s} %s]" % (p[0], self.ltype(args[p[0]]), p[1]) for p in pre), ex)
                self.expect.append(" ".join(["f%d" % k] + [self.show(t, x) for a, v in zip(args, vals) for t, x in self.flatv(a, v)]))
                body.append(ex if ret is None else self.read(ex, ret, rv[call % nret]))
        # wrap: some statements inside functions with parameters and locals, so that frames differ
        out = []
        for i, e in enumerate(body):
            w = r.randrange(4)
            if w == 0:
                L.append("(function (h%d a b c) {(-> I32 F64 S0 unit)} (begin %s (ign a)))" % (i, e))
                out.append("(h%d %d 2.5 %s)" % (i, i, self.lval(self.structs[0], self.value(self.structs[0], True))))
            elif w == 1:
                out.append("(let ([k%d {I32} 7] [l%d {I8} 3]) (begin %s (ign l%d)))" % (i, i, e, i))
            else:
                out.append(e)
        return "\n".join(L + out) + "\n", "\n".join(C) + "\n", "\n".join(self.expect) + "\n"

    def read(self, e, t, v):
        """log the scalars of the value of expression e"""
        names = []

        def pat(t):
            if isinstance(t, Struct):
                return "(s%d: %s)" % (t.i, " ".join(pat(f) for f in t.fields))
            names.append((len(names), t))
            return "(let x%d)" % names[-1][0]
        p = pat(t)
        logs = []
        for (i, ty), (_, x) in zip(names, self.flatv(t, v)):
            self.tag += 1
            logs.append((i, ty, self.tag, x))
        order = logs[:]
        self.r.shuffle(order)
        for i, ty, tag, x in order:
            self.expect.append("got %d %s" % (tag, self.show(ty, x)))
        return "(match %s [%s (begin %s)])" % (e, p, " ".join("(w%d %d x%d)" % (SCALARS.index(ty), tag, i) for i, ty, tag, x in order))


def classes_mem(t):
    return classes(t) is None
