/* Calls the runtime library's functions as told on stdin, one call per line; every string argument is an allocation of exactly its size. */
#define _GNU_SOURCE
#include <rt.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

/* ---- faults: the k-th call of a system function fails */
static int fail_what, fail_at, fail_errno;
#define FAULT(id) if (fail_what == id && --fail_at == 0) { errno = fail_errno; return BAD; }
#define BAD -1
int __real_pipe2(int *p, int f);
int __wrap_pipe2(int *p, int f) { FAULT(1) return __real_pipe2(p, f); }
pid_t __real_fork(void);
pid_t __wrap_fork(void) { FAULT(2) return __real_fork(); }
#undef BAD
static int shut[64], nshut;
int __real_close(int);
int __wrap_close(int fd) { if (nshut < 64) shut[nshut++] = fd; return __real_close(fd); }

static char line[1 << 20];
static char *tok(void) { return strtok(0, " \n"); }
static rt_string str(void) {
  char *t = tok();
  size_t n = strlen(t + 1) / 2; /* t[0] is 's' */
  rt_string s;
  s.len = n;
  s.ptr = malloc(n ? n : 1);
  if (!n) s.ptr += 1; /* nothing may be read */
  for (size_t i = 0; i < n; i++) { unsigned v; sscanf(t + 1 + 2 * i, "%2x", &v); s.ptr[i] = (char)v; }
  return s;
}
static char *cstr(void) { rt_string s = str(); char *p = malloc(s.len + 1); memcpy(p, s.ptr, s.len); p[s.len] = 0; return p; }
static void out(rt_string s) { putchar('s'); for (uint64_t i = 0; i < s.len; i++) printf("%02x", (unsigned char)s.ptr[i]); putchar(' '); }
static int open_fds(void) { int n = 0; for (int i = 0; i < 200; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static void drain(FILE *f) { int c; putchar('s'); while ((c = getc(f)) != EOF) printf("%02x", c); putchar(' '); }

int main(int argc, char **argv) {
  (void)argc; (void)argv;
  while (fgets(line, sizeof line, stdin)) {
    char *op = strtok(line, " \n");
    if (!op) continue;
#define IS(x) (!strcmp(op, x))
    if (IS("i64s")) { int r = atoi(tok()); out(llrt_i64_to_string(r, strtoll(tok(), 0, 10))); }
    else if (IS("u64s")) { int r = atoi(tok()); out(llrt_u64_to_string(r, strtoull(tok(), 0, 10))); }
    else if (IS("f64s")) { uint64_t u = strtoull(tok(), 0, 10); double d; memcpy(&d, &u, 8); out(llrt_f64_to_string(d)); }
    else if (IS("f32s")) { uint32_t u = strtoul(tok(), 0, 10); float d; memcpy(&d, &u, 4); out(llrt_f32_to_string(d)); }
    else if (IS("si64")) { int r = atoi(tok()); to_i64 v = llrt_string_to_i64(r, str()); if (v.success) printf("%lld ", (long long)v.value); else printf("N "); }
    else if (IS("su64")) { int r = atoi(tok()); to_u64 v = llrt_string_to_u64(r, str()); if (v.success) printf("%llu ", (unsigned long long)v.value); else printf("N "); }
    else if (IS("sf64")) { to_f64 v = llrt_string_to_f64(str()); uint64_t u; memcpy(&u, &v.value, 8); if (v.success) printf("%llu ", (unsigned long long)u); else printf("N "); }
    else if (IS("sf32")) { to_f32 v = llrt_string_to_f32(str()); uint32_t u; memcpy(&u, &v.value, 4); if (v.success) printf("%u ", u); else printf("N "); }
    else if (IS("eq")) { rt_string a = str(), b = str(); printf("%d ", !!llrt_string_eq(a, b)); }
    else if (IS("cmp")) { rt_string a = str(), b = str(); printf("%d ", llrt_string_cmp(a, b)); }
    else if (IS("cat")) { rt_string a = str(), b = str(); rt_string c = llrt_string_concat(a, b); out(c); out(a); out(b); }
    else if (IS("gen")) { int n = atoi(tok()); while (n--) out(llrt_string_genid()); }
    else if (IS("args")) {
      int n = atoi(tok()); char **v = calloc(n + 2, sizeof *v);
      for (int i = 0; i < n; i++) v[i] = cstr();
      llrt_init(n, v);
      for (int i = 0; i < n; i++) { memset(v[i], 'Z', strlen(v[i])); free(v[i]); v[i] = 0; }
      rt_args a = llrt_args();
      printf("%llu ", (unsigned long long)a.argc);
      for (uint64_t i = 0; i < a.argc; i++) out(a.argv[i]);
      struct sigaction sa; sigaction(SIGPIPE, 0, &sa); printf("%d ", sa.sa_handler == SIG_IGN);
    }
    else if (IS("syms")) {
      rt_symbol_array a = llrt_symbols(); int bad = 0;
      for (uint64_t i = 0; i < a.len; i++) bad += (uint64_t)dlsym(RTLD_DEFAULT, a.ptr[i].name) != a.ptr[i].addr;
      printf("%d %llu ", bad, (unsigned long long)a.len);
    }
    else if (IS("std")) printf("%d ", *llrt_stdin() == (void *)stdin && *llrt_stdout() == (void *)stdout && *llrt_stderr() == (void *)stderr);
    else if (IS("cwd")) out(llrt_getcwd());
    else if (IS("dir")) {
      DIR *d = opendir(cstr());
      for (;;) { rt_string s = llrt_readdir(d); if (s.len == 0) break; out(s); }
      rt_string s = llrt_readdir(d); printf("%llu ", (unsigned long long)s.len);
      closedir(d);
    }
    else if (IS("seed")) { int n = atoi(tok()), same = 0; uint64_t p = llrt_xxh_seed(); while (n--) { uint64_t q = llrt_xxh_seed(); same += q == p; p = q; } printf("%d ", same); }
    else if (IS("time")) printf("%.6f ", llrt_time());
    else if (IS("errno")) { errno = atoi(tok()); printf("%d ", llrt_current_errno()); }
    else if (IS("panic")) {
      rt_string s = str(); int p[2]; if (pipe(p)) return 3;
      fflush(stdout); pid_t c = __real_fork();
      if (!c) { dup2(p[1], 2); llrt_panic(s); }
      close(p[1]); FILE *f = fdopen(p[0], "r"); drain(f); fclose(f);
      int st; waitpid(c, &st, 0); printf("%d ", WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st));
    }
    else if (IS("exit")) {
      int v = atoi(tok()); rt_string s = str(); int p[2]; if (pipe(p)) return 3;
      fflush(stdout); pid_t c = __real_fork();
      if (!c) { dup2(p[1], 1); fwrite(s.ptr, 1, s.len, stdout); llrt_exit(v); }
      close(p[1]); FILE *f = fdopen(p[0], "r"); drain(f); fclose(f);
      int st; waitpid(c, &st, 0); printf("%d ", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    }
    else if (IS("wait")) { /* wait for a child that ends as told */
      char *how = tok(); int v = atoi(how + 1); fflush(stdout); pid_t c = __real_fork();
      if (!c) { if (how[0] == 'k') { signal(SIGABRT, SIG_DFL); kill(getpid(), v); pause(); } _exit(v); }
      int w = llrt_wait(c); printf("%d %d ", w, llrt_wait(c));
    }
    else if (IS("run") || IS("spawn")) { /* fault, errno, program, input, arguments */
      int sp = IS("spawn");
      int fw = atoi(tok()), fa = atoi(tok()), fe = atoi(tok());
      char *name = cstr(); rt_string in = str(); int n = atoi(tok());
      char **v = calloc(n + 2, sizeof *v); v[0] = name;
      for (int i = 0; i < n; i++) v[i + 1] = cstr();
      signal(SIGPIPE, SIG_IGN);
      int before = open_fds();
      printf("before "); /* stays buffered: it must be printed exactly once */
      if (!sp) fflush(stdout);
      nshut = 0; fail_errno = fe; fail_at = fa; fail_what = fw;
      rt_process p = sp ? llrt_spawn_process(name, v) : llrt_execute_process(name, v);
      fail_what = 0;
      if (p.err) {
        int bad = 0; for (int i = 0; i < nshut; i++) bad += shut[i] < 3;
        int zombie = waitpid(-1, 0, WNOHANG) > 0;
        printf("E%d fds%+d closed-standard%d zombie%d ", p.err, open_fds() - before, bad, zombie);
      } else {
        if (sp) { fwrite(in.ptr, 1, in.len, p.cin); fclose(p.cin); drain(p.cout); drain(p.cerr); fclose(p.cout); fclose(p.cerr); }
        printf("%d ", llrt_wait(p.pid));
        printf("fds%+d ", open_fds() - before);
        struct sigaction sa; sigaction(SIGPIPE, 0, &sa); printf("%d ", sa.sa_handler == SIG_IGN);
      }
    }
    else { printf("? "); }
    putchar('\n'); fflush(stdout);
  }
  return 0;
}
