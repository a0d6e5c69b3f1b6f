"""Files, directories, processes, environment: an interpreting llrl program and a C program that does the same with the system's own calls.
Both are run on the same script, each in its own copy of a directory tree, as an unprivileged user."""
import random

SRC = r'''
(import "std/io" _)
(import "std/access" _)
(import "std/system" _)
(import "std/string" _)
(import "std/string-reader" _)
(import "std/rw" _)
(import "std/array" Array array array/_ _.Array)
(import "std/vector" Vector vector vector/_ _.Vector)
(import "std/it" it/_)
(c-function out-e {(-> I64 unit)} "vf_e")
(function (code e) {(-> IoError I64)}
  (match e
    [io-error:closed 1] [io-error:not-found 2] [io-error:permission-denied 3] [io-error:connection-refused 4] [io-error:connection-reset 5]
    [io-error:connection-aborted 6] [io-error:not-connected 7] [io-error:addr-in-use 8] [io-error:addr-not-available 9] [io-error:broken-pipe 10]
    [io-error:already-exists 11] [io-error:invalid-input 12] [io-error:invalid-data 13] [io-error:timed-out 14] [io-error:interrupted 15]
    [io-error:unexpected-eof 16] [io-error:other 17]))
(function (out-r r) {(-> (Result unit IoError) unit)} (match r [(ok unit) (out-tag 79)] [(err (let e)) (out-e (code e))]))
(function (next-args) {(-> (Vector String))}
  (let* ([n (next-u)] [v {(Vector String)} vector/empty] [i (ref 0 {U64})])
    (while (< ~i n) (vector/push! (next-string) v) (set! i (+ ~i 1))) v))
(function (sorted v) {(-> (Vector String) unit)}
  ; insertion sort, so that the order the system lists entries in does not matter
  (let ([i (ref 1 {U64})] [n (vector/length v)])
    (begin
      (while (< ~i n)
        (begin
          (let1 j (ref ~i)
            (while (and (< 0 ~j) (lt? (get v[~j]) (get v[(- ~j 1)])))
              (let1 t (get v[~j]) (begin (set! v[~j] (get v[(- ~j 1)])) (set! v[(- ~j 1)] t) (set! j (- ~j 1))))))
          (set! i (+ ~i 1))))
      (out-u n)
      (for (let s) v (out-s s)))))
(function (op k files dirs) {(-> I64 (Vector File) (Vector Directory) unit)}
  (cond
    [(eq? k 1) (let* ([s (next-u)] [p (next-string)] [m (next-string)])
       (match (file/open! p m) [(ok (let f)) (begin (out-tag 79) (ignore (file/close! (get files[s]))) (set! files[s] f))] [(err (let e)) (out-e (code e))]))]
    [(eq? k 2) (let* ([s (next-u)] [n (next-u)] [b {(Array U8)} (array/new 238 n)])
       (match (file/read! b (get files[s])) [(ok (let k)) (begin (out-u k) (out-b b))] [(err (let e)) (out-e (code e))]))]
    [(eq? k 3) (let* ([s (next-u)]) (out-r (file/write! (next-bytes) (get files[s]))))]
    [(eq? k 4) (out-r (file/flush! (get files[(next-u)])))]
    [(eq? k 5) (out-r (file/close! (get files[(next-u)])))]
    [(eq? k 6) (let1 f (get files[(next-u)]) (begin (out-bool (file/eof? f)) (out-bool (file/error? f)) (out-bool (file/closed? f))))]
    [(eq? k 7) (out-r (remove! (next-string)))]
    [(eq? k 8) (out-r (remove-all! (next-string)))]
    [(eq? k 9) (out-r (directory/create! (next-string)))]
    [(eq? k 10) (out-r (directory/remove! (next-string)))]
    [(eq? k 11) (let* ([s (next-u)] [p (next-string)])
       (match (directory/open! p) [(ok (let d)) (begin (out-tag 79) (ignore (directory/close! (get dirs[s]))) (set! dirs[s] d))] [(err (let e)) (out-e (code e))]))]
    [(eq? k 12) (let* ([d (get dirs[(next-u)])] [v {(Vector String)} vector/empty]) (begin (for (let e) (directory/entries! d) (vector/push! e v)) (sorted v)))]
    [(eq? k 13) (let* ([d (get dirs[(next-u)])] [v {(Vector String)} vector/empty] [go (ref #t)])
       (begin
         (while ~go (match (directory/next! d)
           [(ok (some (let e))) (vector/push! e v)]
           [(ok none) (begin (out-tag 78) (set! go #f))]
           [(err (let e)) (begin (out-e (code e)) (set! go #f))]))
         (sorted v)))]
    [(eq? k 14) (out-r (directory/close! (get dirs[(next-u)])))]
    [(eq? k 15) (out-bool (directory/closed? (get dirs[(next-u)])))]
    [(eq? k 16) (match (read-bytes-to-end! (get files[(next-u)])) [(ok (let b)) (out-b b)] [(err (let e)) (out-e (code e))])]
    [(eq? k 17) (match (read-string-to-end! (get files[(next-u)])) [(ok (let s)) (out-s s)] [(err (let e)) (out-e (code e))])]
    [(eq? k 18) (let* ([p (next-string)] [m (next-string)] [b (next-bytes)]) (out-r (with-file! p m (lambda (f) (file/write! b f)))))]
    [(eq? k 19) (let* ([p (next-string)]) (match (with-file! p "r" (lambda (f) (read-bytes-to-end! f))) [(ok (let b)) (out-b b)] [(err (let e)) (out-e (code e))]))]
    [(eq? k 20) (let* ([p (next-string)]) (match (with-directory! p (lambda (d) (ok (let1 v {(Vector String)} vector/empty (begin (for (let e) (directory/entries! d) (vector/push! e v)) v))))) [(ok (let v)) (sorted v)] [(err (let e)) (out-e (code e))]))]
    [(eq? k 21) (match (getenv (next-string)) [none (out-tag 78)] [(some (let s)) (out-s s)])]
    [(eq? k 22) (let* ([p (next-string)] [a (next-args)])
       (match (process/execute! p a) [(ok none) (out-tag 78)] [(ok (some (let s))) (out-i (conv s))] [(err (let e)) (out-e (code e))]))]
    [(eq? k 23) (let* ([p (next-string)] [a (next-args)] [in (next-bytes)])
       (match (with-process! p a (lambda (q)
           @begin
           (out-r (file/write! in (process/in q)))
           (out-r (file/close! (process/in q)))
           (out-b (read-bytes-to-end! (process/out q))!)
           (out-b (read-bytes-to-end! (process/err q))!)
           (match (process/wait! q) [none (out-tag 78)] [(some (let s)) (out-i (conv s))])
           (ok unit)))
         [(ok unit) (out-tag 79)] [(err (let e)) (out-e (code e))]))]
    [(eq? k 24) (begin (ignore (print! (next-string))) (ignore (file/flush! stdout)))]
    [(eq? k 25) (let* ([f (get files[(next-u)])] [s (next-string)] [i (next)] [r {(Result unit IoError)} (fprintln! f s "|" i)]) (out-r r))]
    [(eq? k 26) (let* ([f (get files[(next-u)])] [r {(Result I32 IoError)} (read-i32! f)]) (match r [(ok (let i)) (out-i (conv i))] [(err (let e)) (out-e (code e))]))]
    [(eq? k 27) (out-s path/cwd)]
    [(eq? k 28) (let* ([a (next-u)] [v (args)]) (begin (out-u (array/length v)) (for (let s) v (out-s s)) (out-u a)))]
    [(eq? k 29) (let* ([s (next-string)]) (begin (print! s) (exit! (conv (next)))))]
    [(eq? k 30) (let* ([p (next-string)]) (begin
        (out-s (path/canonicalize p)) (out-s (path/base-name p)) (out-s (path/dir-name p)) (wr (path/extension? p)) (out-bool (path/absolute? p)) (out-bool (path/relative? p))
        (out-s (path/with-extension (some "e") p)) (out-s (path/with-extension none p)) (out-s (path/default-extension "d" p))
        (for (let c) (path/components p) (match c [path-component:root-dir (out-tag 82)] [path-component:current-dir (out-tag 67)] [path-component:parent-dir (out-tag 80)] [(path-component:normal (let s)) (out-s s)]))))]
    [(eq? k 31) (let* ([p (next-string)] [q (next-string)]) (begin (out-s (path p q)) (out-s (path/canonicalize (path p q))) (out-s (canonicalized-path p q))))]
    [else (out-tag 33)]))
(function (main) {(-> unit)}
  (let ([go (ref #t)] [i (ref 0 {U64})] [files {(Vector File)} vector/empty] [dirs {(Vector Directory)} vector/empty])
    (begin
      (while (< ~i 6) (begin (vector/push! file/closed files) (vector/push! directory/closed dirs) (set! i (+ ~i 1))))
      (while ~go (let1 k (next) (if (eq? k 0) (set! go #f) (begin (op k files dirs) (out-nl))))))))
(main)
'''

# the error numbers of Linux, and the library's names for them in their order
NAMES = {1: 3, 2: 2, 4: 15, 13: 3, 17: 11, 22: 12, 32: 10, 98: 8, 99: 9, 103: 6, 104: 5, 107: 7, 110: 14, 111: 4}

REF = r'''
/* the same script with the system's own calls */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <spawn.h>
#include <signal.h>
#include <sys/stat.h>
extern char **environ;
static FILE *F[6]; static DIR *D[6];
static void e_no(int e) { switch (e) { TABLE default: vf_e(17); } }
static void res(int ok) { int e = errno; if (ok) vf_tag('O'); else e_no(e); }
static char *str(size_t *n) { size_t k = vf_next(); char *s = malloc(k + 1); for (size_t i = 0; i < k; i++) s[i] = (char)vf_next(); s[k] = 0; if (n) *n = k; return s; }
static int cmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static void list(DIR *d) {
  char *v[4096]; size_t n = 0; struct dirent *e;
  while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v[n++] = strdup(e->d_name);
  qsort(v, n, sizeof *v, cmp);
  vf_u(n);
  for (size_t i = 0; i < n; i++) vf_s((uint8_t *)v[i], strlen(v[i]));
}
static int remove_all(const char *p) {
  struct stat st;
  if (lstat(p, &st)) return -1;
  if (S_ISDIR(st.st_mode)) {
    DIR *d = opendir(p);
    if (d) {
      struct dirent *e;
      while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
        char *q; if (asprintf(&q, "%s/%s", p, e->d_name) < 0) abort();
        if (remove_all(q)) { int k = errno; closedir(d); errno = k; return -1; }
        free(q);
      }
      closedir(d);
    }
  }
  return remove(p);
}
static int valid(const uint8_t *s, size_t n) {
  for (size_t i = 0; i < n;) {
    uint32_t c = s[i]; int k = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
    if (k < 0 || n - i <= (size_t)k) return 0;
    uint32_t v = k == 0 ? c : c & (0x3f >> k);
    for (int j = 1; j <= k; j++) { if ((s[i + j] & 0xc0) != 0x80) return 0; v = v << 6 | (s[i + j] & 0x3f); }
    if ((k == 2 && v < 0x800) || (k == 3 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000)) return 0;
    i += k + 1;
  }
  return 1;
}
static void slurp(FILE *f, int utf) {
  uint8_t *b = malloc(1 << 22); size_t n = 0, k;
  if (!f) { vf_e(1); return; }
  for (;;) {
    k = fread(b + n, 1, 4096, f);
    if (k != 4096 && !feof(f)) { res(0); return; }
    if (!k) break;
    n += k;
  }
  if (utf && !valid(b, n)) vf_e(13); else vf_s(b, n);
}
static char **argvec(char *p) { size_t n = vf_next(); char **a = calloc(n + 2, sizeof *a); a[0] = p; for (size_t i = 0; i < n; i++) a[i + 1] = str(0); return a; }
int main(int argc, char **argv) {
  signal(SIGPIPE, SIG_IGN);
  posix_spawnattr_t at; posix_spawnattr_init(&at); sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGPIPE);
  posix_spawnattr_setsigdefault(&at, &ss); posix_spawnattr_setflags(&at, POSIX_SPAWN_SETSIGDEF);
  for (;;) {
    int64_t k = vf_next(); size_t n; int s;
    if (!k) break;
    switch (k) {
    case 1: { s = vf_next(); char *p = str(0), *m = str(0); FILE *f = fopen(p, m); res(!!f); if (f) { if (F[s]) fclose(F[s]); F[s] = f; } break; }
    case 2: { s = vf_next(); n = vf_next(); uint8_t *b = malloc(n + 1); memset(b, 238, n); if (!F[s]) { vf_e(1); break; }
      size_t g = fread(b, 1, n, F[s]); if (g == n || feof(F[s])) { vf_u(g); vf_s(b, n); } else res(0); break; }
    case 3: { s = vf_next(); char *b = str(&n); if (!F[s]) vf_e(1); else res(fwrite(b, 1, n, F[s]) == n); break; }
    case 4: s = vf_next(); if (!F[s]) vf_e(1); else res(!fflush(F[s])); break;
    case 5: s = vf_next(); if (!F[s]) vf_tag('O'); else { FILE *f = F[s]; F[s] = 0; res(!fclose(f)); } break;
    case 6: s = vf_next(); vf_i(!F[s] || feof(F[s])); vf_i(F[s] && ferror(F[s])); vf_i(!F[s]); break;
    case 7: res(!remove(str(0))); break;
    case 8: res(!remove_all(str(0))); break;
    case 9: res(!mkdir(str(0), 0777)); break;
    case 10: res(!rmdir(str(0))); break;
    case 11: { s = vf_next(); DIR *d = opendir(str(0)); res(!!d); if (d) { if (D[s]) closedir(D[s]); D[s] = d; } break; }
    case 12: s = vf_next(); if (D[s]) list(D[s]); else vf_u(0); break;
    case 13: s = vf_next(); if (D[s]) { vf_tag('N'); list(D[s]); } else { vf_e(1); vf_u(0); } break;
    case 14: s = vf_next(); if (!D[s]) vf_tag('O'); else { DIR *d = D[s]; D[s] = 0; res(!closedir(d)); } break;
    case 15: vf_i(!D[vf_next()]); break;
    case 16: slurp(F[vf_next()], 0); break;
    case 17: slurp(F[vf_next()], 1); break;
    case 18: { char *p = str(0), *m = str(0), *b = str(&n); FILE *f = fopen(p, m); if (!f) { res(0); break; } res(fwrite(b, 1, n, f) == n); fclose(f); break; }
    case 19: { FILE *f = fopen(str(0), "r"); if (!f) { res(0); break; } slurp(f, 0); fclose(f); break; }
    case 20: { DIR *d = opendir(str(0)); if (!d) { res(0); break; } list(d); closedir(d); break; }
    case 21: { char *v = getenv(str(0)); if (v) vf_s((uint8_t *)v, strlen(v)); else vf_tag('N'); break; }
    case 22: { char *p = str(0), **a = argvec(p); pid_t pid; fflush(stdout); int e = posix_spawnp(&pid, p, 0, &at, a, environ); int st;
      if (e) { e_no(e); break; } waitpid(pid, &st, 0); if (WIFEXITED(st)) vf_i(WEXITSTATUS(st)); else vf_tag('N'); break; }
    case 23: { char *p = str(0), **a = argvec(p), *b = str(&n); int in[2], out[2], er[2]; pid_t pid; int st;
      if (pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC) || pipe2(er, O_CLOEXEC)) abort();
      posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
      posix_spawn_file_actions_adddup2(&fa, in[0], 0); posix_spawn_file_actions_adddup2(&fa, out[1], 1); posix_spawn_file_actions_adddup2(&fa, er[1], 2);
      int e = posix_spawnp(&pid, p, &fa, &at, a, environ);
      close(in[0]); close(out[1]); close(er[1]);
      if (e) { e_no(e); close(in[1]); close(out[0]); close(er[0]); break; }
      FILE *fi = fdopen(in[1], "w"), *fo = fdopen(out[0], "r"), *fe = fdopen(er[0], "r");
      res(fwrite(b, 1, n, fi) == n); res(!fclose(fi)); slurp(fo, 0); slurp(fe, 0);
      waitpid(pid, &st, 0); if (WIFEXITED(st)) vf_i(WEXITSTATUS(st)); else vf_tag('N'); vf_tag('O'); fclose(fo); fclose(fe); break; }
    case 24: { char *b = str(&n); fwrite(b, 1, n, stdout); fflush(stdout); break; }
    case 25: { s = vf_next(); char *b = str(&n); long long i = vf_next(); if (!F[s]) { vf_e(1); break; } int ok = 0; char t[32]; int tn = sprintf(t, "|%lld\n", i);
      ok = fwrite(b, 1, n, F[s]) == n; ok = ok && fwrite(t, 1, tn, F[s]) == (size_t)tn; res(ok); break; }
    case 26: { s = vf_next(); int32_t v; if (!F[s]) { vf_e(1); break; } size_t g = fread(&v, 1, 4, F[s]); if (g == 4) vf_i(v); else if (feof(F[s])) vf_e(16); else res(0); break; }
    case 27: { char *c = getcwd(0, 0); vf_s((uint8_t *)c, strlen(c)); break; }
    case 28: { int64_t a = vf_next(); vf_u(argc - 1); for (int i = 1; i < argc; i++) vf_s((uint8_t *)argv[i], strlen(argv[i])); vf_u(a); break; }
    case 29: { char *b = str(&n); int st = vf_next(); fwrite(b, 1, n, stdout); exit(st); }
    default: vf_tag('!');
    }
    vf_nl();
  }
  return 0;
}
'''

SHIM_EXTRA = "void vf_e(int64_t e) { printf(\"E%lld \", (long long)e); }\n"

# what the processes run: says what it got, copies its input, then ends as asked
ECHO = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
int main(int argc, char **argv) {
  struct sigaction sa; sigaction(SIGPIPE, 0, &sa);
  FILE *o = argc > 1 && !strncmp(argv[1], "log=", 4) ? fopen(argv[1] + 4, "a") : stdout;
  if (!o) return 99;
  fprintf(o, "%d%s", argc, sa.sa_handler == SIG_DFL ? "" : " sigpipe");
  for (int i = 0; i < argc; i++) { fputc(' ', o); for (char *p = i ? argv[i] : "x"; *p; p++) fprintf(o, "%02x", (unsigned char)*p); }
  fputc('\n', o);
  for (int fd = 3; fd < 40; fd++) if (fd != fileno(o) && fcntl_open(fd)) fprintf(o, "descriptor %d is open\n", fd);
  fflush(o);
  if (o == stdout) { int c; fputs("err", stderr); while ((c = getchar()) != EOF) putchar(c); fflush(stdout); }
  const char *l = argc > 1 ? argv[argc - 1] : "";
  if (!strncmp(l, "exit", 4)) return atoi(l + 4);
  if (!strncmp(l, "kill", 4)) { kill(getpid(), atoi(l + 4)); pause(); }
  return 0;
}
'''.replace("int main", "#include <fcntl.h>\nstatic int fcntl_open(int fd) { return fcntl(fd, F_GETFD) >= 0; }\nint main", 1)


def source():
    return SRC


def ref():
    t = " ".join("case %d: vf_e(%d); break;" % x for x in NAMES.items())
    return REF.replace("TABLE", t)


def enc(s):
    b = s.encode() if isinstance(s, str) else bytes(s)
    return [len(b)] + list(b)


PARTS = ["a", "b", "c.txt", "dir", "x y", "é", "d1", "d2", "nope", ".hid", "a-very-long-name-" + "z" * 60]


def path(r, tree):
    if tree and r.random() < 0.7:
        p = r.choice(tree)
    else:
        p = "/".join(r.choice(PARTS) for _ in range(r.choice([1, 1, 2, 2, 3])))
    x = r.random()
    if x < 0.05:
        p += "/"
    elif x < 0.08:
        p = "./" + p
    elif x < 0.10:
        p = p + "/" + r.choice(PARTS)
    elif x < 0.115:
        p = "dir/../" + p
    elif x < 0.125:
        p = ""
    elif x < 0.13:
        p = "n" * 300
    return p


def data(r):
    n = r.choice([0, 1, 2, 5, 17, 100, 1000, 4095, 4096, 4097, 8192, 20000])
    if n > 4000 and r.random() < 0.6:
        n = 30
    if r.random() < 0.4:
        return "".join(r.choice("abcé漢😀\n ") for _ in range(n)).encode()
    return bytes(r.getrandbits(8) for _ in range(n))


def word(r):
    return bytes(r.choice([r.randrange(1, 256), r.randrange(32, 127)]) for _ in range(r.choice([0, 1, 3, 8, 40])))


def tree(r):
    """initial tree: {path: bytes | None (directory) | ("link", target)}, modes"""
    t = {}
    dirs = [""]
    for _ in range(r.randrange(3, 14)):
        d = r.choice(dirs)
        p = (d + "/" if d else "") + r.choice(PARTS)
        if p in t or len(p) > 200:
            continue
        x = r.random()
        if x < 0.4:
            t[p] = None
            dirs.append(p)
        elif x < 0.5:
            t[p] = ("link", r.choice(["dir", "../a", "nowhere", ".", "a", "keep", "../keep"]))
        else:
            t[p] = data(r)
    modes = {}
    for p in list(t):
        if r.random() < 0.06 and not isinstance(t[p], tuple):
            # no file is executable: what becomes of a script without #! is left to the shell
            modes[p] = r.choice([0, 0o400, 0o200, 0o500, 0o300, 0o700]) & (0o777 if t[p] is None else 0o666)
    return t, modes


def script(r, t):
    """-> list of ops (tokens)"""
    known = list(t) + ["dir", "a", "b"]
    ops = []
    mode = {}
    for _ in range(r.randrange(15, 60)):
        s = r.randrange(6)
        k = r.choice([1, 1, 1, 1, 2, 2, 3, 3, 3, 4, 5, 5, 6, 6, 7, 8, 9, 9, 10, 11, 11, 12, 13, 14, 15, 16, 17, 18, 18, 19, 20, 21, 22, 22, 23, 24, 25, 26, 26, 27, 28])
        if k == 1:
            m = r.choice(["r", "r", "w", "w", "a", "r+", "w+", "a+", "x", "rb", "wx", "wb"])
            p = path(r, known)
            if r.random() < 0.04:
                p = r.choice(["/dev/full", "/dev/null"])
                m = r.choice(["w", "a"])
            else:
                known.append(p)
            ops.append([1, s] + enc(p) + enc(m))
            mode[s] = None if "+" in m else m[0]
        elif k in (2, 16, 17, 26):
            if mode.get(s) == "+w":
                continue
            if s in mode and mode[s] is None:
                mode[s] = "+r"
            ops.append([2, s, r.choice([0, 1, 4, 16, 100, 4096, 5000])] if k == 2 else [k, s])
        elif k in (3, 25):
            if mode.get(s) == "+r":
                continue
            if s in mode and mode[s] is None:
                mode[s] = "+w"
            ops.append([3, s] + enc(data(r)) if k == 3 else [25, s] + enc("v é") + [r.choice([0, -1, 123456789, -(1 << 63), (1 << 63) - 1])])
        elif k in (4, 5, 6, 12, 13, 14, 15):
            ops.append([k, s])
        elif k in (7, 9, 10, 19, 20):
            p = path(r, known)
            if k == 9:
                known.append(p)
            ops.append([k] + enc(p))
        elif k == 8:
            p = path(r, known).rstrip("/")
            if p.strip("./") in ("", "dir/.."):
                continue
            ops.append([8] + enc(p))
        elif k == 11:
            ops.append([11, s] + enc(path(r, [x for x in known if t.get(x, 0) is None] or known)))
        elif k == 18:
            p = path(r, known)
            known.append(p)
            ops.append([18] + enc(p) + enc(r.choice(["w", "a", "r", "wx"])) + enc(data(r)))
        elif k == 21:
            ops.append([21] + enc(r.choice(["VF_A", "VF_B", "VF_EMPTY", "VF_NONE", "", "VF_A=", "PATH"])))
        elif k in (22, 23):
            a = [word(r) for _ in range(r.choice([0, 1, 2, 5]))]
            if k == 22:
                a = [b"log=log"] + a
            a += [r.choice([b"exit%d" % r.choice([0, 1, 7, 127, 255]), b"kill9", b"kill15", b"kill6", b"z"])]
            prog = r.choice(["./echo", "./echo", "./echo", "echoprog", "nothere", "./dir", "./keep/f", ""])
            o = [k] + enc(prog) + [len(a)] + [x for y in a for x in enc(y)]
            ops.append(o + enc(data(r)) if k == 23 else o)
        elif k == 24:
            ops.append([24] + enc(r.choice(["plain ", "é ", ""])))
        elif k == 27:
            ops.append([27])
        elif k == 28:
            ops.append([28, 5])
    if r.random() < 0.3:
        ops.append([29] + enc(r.choice(["bye", ""])) + [r.choice([0, 1, 2, 77, 255])])
    return ops


def canonical(cwd, p):
    parts = [x for x in cwd.split("/") if x]
    if p.startswith("/"):
        parts = []
    for x in p.split("/"):
        if x in ("", "."):
            continue
        if x == "..":
            parts = parts[:-1]
        else:
            parts.append(x)
    return "/" + "/".join(parts) if parts else "/"
