"""Interpreting drivers: one llrl program compiled from /repo's current std, fed histories of operations as
integers on stdin; it logs what every operation returned.  Input and output go through a C shim linked with the
program (vf_*), so that the observation channel does not depend on the library under observation."""
import os
import common

SHIM = r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
static char *vf_buf; static size_t vf_pos, vf_len;
static void vf_die(void) { fflush(stdout); fprintf(stderr, "vf: script exhausted\n"); _Exit(97); }
static void vf_load(void) {
  size_t cap = 1 << 16; vf_buf = malloc(cap);
  for (;;) {
    ssize_t n = read(0, vf_buf + vf_len, cap - vf_len);
    if (n <= 0) break;
    vf_len += n;
    if (vf_len == cap) vf_buf = realloc(vf_buf, cap *= 2);
  }
}
int64_t vf_next(void) {
  int neg = 0; uint64_t v = 0;
  if (!vf_buf) vf_load();
  while (vf_pos < vf_len && (vf_buf[vf_pos] == ' ' || vf_buf[vf_pos] == '\n')) vf_pos++;
  if (vf_pos >= vf_len) vf_die();
  if (vf_buf[vf_pos] == '-') { neg = 1; vf_pos++; }
  while (vf_pos < vf_len && vf_buf[vf_pos] >= '0' && vf_buf[vf_pos] <= '9') v = v * 10 + (uint64_t)(vf_buf[vf_pos++] - '0');
  return neg ? (int64_t)(0 - v) : (int64_t)v;
}
/* run the next n tokens in a child process: 1 in the child, 0 in the parent once the child is gone */
int64_t vf_guard(int64_t n) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) { int d = open("/dev/null", 1); dup2(d, 2); return 1; }
  int st = 0;
  waitpid(p, &st, 0);
  while (n-- > 0) vf_next();
  if (WIFSIGNALED(st)) printf("sig%d ", WTERMSIG(st)); else printf("ret%d ", WEXITSTATUS(st));
  return 0;
}
#ifndef VF_SO
/* the program's own bulk copies must not overlap (undefined); checked here because this libc happens to tolerate it */
void *memcpy(void *restrict d, const void *restrict s, size_t n) {
  uintptr_t a = (uintptr_t)d, b = (uintptr_t)s;
  if (n && a != b && a < b + n && b < a + n) { static const char m[] = "vf: memcpy on overlapping memory\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _Exit(98); }
  void *r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
#endif
void vf_guard_end(void) { fflush(stdout); _Exit(0); }
void vf_i(int64_t v) { printf("%lld ", (long long)v); }
void vf_u(uint64_t v) { printf("%llu ", (unsigned long long)v); }
void vf_h(uint64_t v) { printf("%016llx ", (unsigned long long)v); }
void vf_tag(int64_t c) { putchar((int)c); putchar(' '); }
void vf_s(const uint8_t *p, uint64_t n) { putchar('"'); for (uint64_t i = 0; i < n; i++) printf("%02x", p[i]); putchar(' '); }
static uint64_t vf_c;
void vf_tick(void) { vf_c++; }
uint64_t vf_fb64(double d) { uint64_t u; __builtin_memcpy(&u, &d, 8); return u; }
double vf_bf64(uint64_t u) { double d; __builtin_memcpy(&d, &u, 8); return d; }
uint32_t vf_fb32(float d) { uint32_t u; __builtin_memcpy(&u, &d, 4); return u; }
float vf_bf32(uint32_t u) { float d; __builtin_memcpy(&d, &u, 4); return d; }
uint64_t vf_ticks(void) { uint64_t c = vf_c; vf_c = 0; return c; }
void vf_nl(void) { putchar('\n'); fflush(stdout); }
'''

PRELUDE = r'''
(import "std/memory" Ptr ptr/_ _.Ptr)
(import "std/system" exit!)
(c-function <next> {(-> I64)} "vf_next")
(c-function out-i {(-> I64 unit)} "vf_i")
(c-function out-u {(-> U64 unit)} "vf_u")
(c-function out-h {(-> U64 unit)} "vf_h")
(c-function out-tag {(-> I64 unit)} "vf_tag")
(c-function <outs> {(-> (Ptr U8) U64 unit)} "vf_s")
(c-function out-nl {(-> unit)} "vf_nl")
(c-function guard {(-> I64 I64)} "vf_guard")
(c-function guard-end! {(-> unit)} "vf_guard_end")
(c-function f64-bits {(-> F64 U64)} "vf_fb64")
(c-function bits-f64 {(-> U64 F64)} "vf_bf64")
(c-function f32-bits {(-> F32 U32)} "vf_fb32")
(c-function bits-f32 {(-> U32 F32)} "vf_bf32")
(c-function tick! {(-> unit)} "vf_tick")
(c-function ticks! {(-> U64)} "vf_ticks")
(function (next) {(-> I64)} (<next>))
(function (next-u) {(-> U64)} (conv (<next>)))
(function (out-s s) {(-> String unit)} (<outs> (string/unsafe-ptr s) (string/length s)))
(function (out-b b) {(-> (Array U8) unit)} (<outs> (array/ptr b) (array/length b)))
(function (out-bool b) {(-> Bool unit)} (out-i (if b 1 0)))
(function (out-ord o) {(-> Ordering unit)} (out-i (match o [ordering:less -1] [ordering:equal 0] [ordering:greater 1])))
(function (next-bytes) {(-> (Array U8))}
  (let* ([n (next-u)] [v {(Vector U8)} vector/empty] [i (ref 0 {U64})])
    (while (< ~i n) (vector/push! (conv (next)) v) (set! i (+ ~i 1)))
    (vector/buffer v)))
(function (next-string) {(-> String)}
  (string/unsafe-from-array (next-bytes)))
(class (Tok A)
  (function (rd) {(-> A)})
  (function (wr a) {(-> A unit)}))
(instance Tok.I64 (Tok I64) (function (rd) (next)) (function (wr a) (out-i a)))
(instance Tok.U64 (Tok U64) (function (rd) (next-u)) (function (wr a) (out-u a)))
(instance Tok.I32 (Tok I32) (function (rd) (conv (next))) (function (wr a) (out-i (conv a))))
(instance Tok.U8 (Tok U8) (function (rd) (conv (next))) (function (wr a) (out-i (conv a))))
(instance Tok.U16 (Tok U16) (function (rd) (conv (next))) (function (wr a) (out-i (conv a))))
(instance Tok.I8 (Tok I8) (function (rd) (conv (next))) (function (wr a) (out-i (conv a))))
(instance Tok.I16 (Tok I16) (function (rd) (conv (next))) (function (wr a) (out-i (conv a))))
(instance Tok.U32 (Tok U32) (function (rd) (conv (next))) (function (wr a) (out-i (conv a))))
(instance Tok.F64 (Tok F64) (function (rd) (bits-f64 (next-u))) (function (wr a) (out-h (f64-bits a))))
(instance Tok.F32 (Tok F32) (function (rd) (bits-f32 (conv (next)))) (function (wr a) (out-h (conv (f32-bits a)))))
(instance Tok.Bool (Tok Bool) (function (rd) (ne? (next) 0)) (function (wr a) (out-bool a)))
(instance Tok.String (Tok String) (function (rd) (next-string)) (function (wr a) (out-s a)))
(instance Tok.Option (forall A) (Tok (Option A)) (where (Tok A))
  (function (rd) (if (eq? (next) 0) none (some (rd))))
  (function (wr a) (match a [none (out-tag 78)] [(some (let x)) (begin (out-tag 83) (wr x))])))
'''


class Driver:
    def __init__(self, c, compiler, body, name, cfgs, prelude=True):
        self.c, self.name = c, name
        self.dir = os.path.join(c.tmp, name)
        os.makedirs(self.dir, exist_ok=True)
        self.src = (PRELUDE if prelude else "") + body
        with open(os.path.join(self.dir, "shim.c"), "w") as f:
            f.write(SHIM)
        with open(os.path.join(self.dir, "d.llrl"), "w") as f:
            f.write(self.src)
        self.exe = {}
        # the compiler's JIT resolves C functions in its own process while it builds: give it the shim too
        so = os.path.join(self.dir, "shim.so")
        p = common.sh(["clang", "-O1", "-shared", "-fPIC", "-DVF_SO", "-o", so, "shim.c"], cwd=self.dir, timeout=60)
        if p.rc != 0:
            raise common.Broken("shim does not compile: " + p.etext)

        def build(cfg):
            exe = os.path.join(self.dir, "d." + cfg)
            p = common.sh([compiler, *common.CONFIGS[cfg], "-c", "shim.c", "-o", exe, "d"], cwd=self.dir, timeout=300,
                          extra_env={"LD_PRELOAD": so})
            return cfg, exe, p
        for cfg, exe, p in common.pmap(build, cfgs):
            if p.rc != 0 or not os.path.exists(exe):
                raise common.Broken("driver %s does not compile (%s): %s" % (name, cfg, (p.text + p.etext)[-2500:]))
            self.exe[cfg] = exe

    def run(self, cfg, tokens, timeout=120):
        data = " ".join(map(str, tokens)).encode() + b"\n"
        return common.sh([self.exe[cfg]], cwd=self.dir, timeout=timeout, input=data)


def split(line):
    """-> list of tokens of one logged line"""
    return line.split(" ")[:-1] if line.endswith(" ") else line.split(" ")


def shex(s):
    return '"' + (s.encode() if isinstance(s, str) else bytes(s)).hex()


def enc_str(s):
    b = s.encode() if isinstance(s, str) else bytes(s)
    return [len(b)] + list(b)
