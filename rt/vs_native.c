/* Native side of the harness interface: replays one concrete input against the real build.
   argv[1]: input file, lines "name value".  Exit 0: all assertions hold; 1: an assertion failed
   (printed); 77: the input violates an assumption.  Allocation failure through --wrap. */
#define _GNU_SOURCE
#include "vs.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
extern void harness(void);
static struct { char name[64]; long v; int used; } in[4096]; static int nin;
static long nlive;
static FILE *vout; /* where the results go, also while the standard output is kept */
int vs_range(const char *name, int lo, int hi) {
  for (int i = 0; i < nin; i++) if (!in[i].used && strcmp(in[i].name, name) == 0) { in[i].used = 1; if (in[i].v < lo || in[i].v > hi) exit(77); return (int)in[i].v; }
  return lo;
}
void vs_assume(int c) { if (!c) { fprintf(vout, "\nASSUMPTION-NOT-MET\n"); _exit(77); } }
void vs_assert_(int c, const char *m) { if (!c) { fprintf(vout, "\nASSERTION-FAILED: %s\n", m); _exit(1); } }
void vs_cover(const char *m) { fprintf(vout, "\nCOVER %s\n", m); }
void vs_trace(const char *t, long v) { fprintf(vout, "\nTRACE %s %ld\n", t, v); }
void vs_dbg(const char *t, long v) { fprintf(vout, "\nDBG %s %ld\n", t, v); }
int vs_alloc_fail_at = -1, vs_alloc_count = 0;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
#define BIG (16u << 20) /* larger requests fail in the model too */
static int fails(void) { if (vs_alloc_fail_at < 0) return 0; return vs_alloc_count++ == vs_alloc_fail_at; }
void *__wrap_malloc(size_t n) { if (fails() || n > BIG) return 0; void *p = __real_malloc(n ? n : 1); if (p) {
#ifndef VS_MSAN
  memset(p, 0xA5, n);
#endif
  nlive++; } return p; }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (fails() || (b && a > BIG / b)) return 0; void *p = __real_calloc(a, b); if (p) nlive++; return p; }
void *__wrap_realloc(void *q, size_t n) { if (fails() || n > BIG) return 0; void *p = __real_realloc(q, n); if (p && !q) nlive++; return p; }
void __wrap_free(void *p) { if (p) nlive--; __real_free(p); }
void vs_no_leaks(void) { if (nlive != 0) { fprintf(vout, "\nASSERTION-FAILED: heap memory still allocated (%ld blocks)\n", nlive); _exit(1); } }
static int *rs, rn, ri;
void vs_rand_script(int *v, int n) { rs = v; rn = n; ri = 0; }
int rand(void) { if (!rs || rn <= 0) return 0; int r = rs[ri]; if (ri + 1 < rn) ri++; return r; }
void srand(unsigned s) { (void)s; }
static int nopen;
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *);
FILE *__wrap_fopen(const char *n, const char *m) { if (*m == 'w' && *n != '/' && strchr(n, '/')) { char d[256]; snprintf(d, sizeof d, "%.*s", (int)(strchr(n, '/') - n), n); mkdir(d, 0777); } FILE *f = __real_fopen(n, m); if (f) nopen++; return f; }
extern FILE *__real_tmpfile(void); FILE *__wrap_tmpfile(void) { FILE *f = __real_tmpfile(); nopen += f != 0; return f; }
int __wrap_fclose(FILE *f) { nopen--; return __real_fclose(f); }
void vs_file_put(const char *name, const char *d, int len) { for (const char *q = name; *q; q++) if (*q == '/' && q > name) { char t[256]; snprintf(t, sizeof t, "%.*s", (int)(q - name), name); mkdir(t, 0700); } FILE *f = __real_fopen(name, "w"); if (!f) abort(); for (int i = 0; i < len; i++) fputc(d[i], f); __real_fclose(f); }
int vs_file_get(const char *name, char *b, int cap) { FILE *f = __real_fopen(name, "r"); if (!f) return -1; int n = 0, c; while ((c = fgetc(f)) != EOF) { if (n < cap) b[n] = (char)c; n++; } __real_fclose(f); return n; }
void vs_files_release(void) {}
void vs_stdin_pipe(const char *d, int len) { int p[2]; if (pipe(p) || write(p[1], d, len) != len || close(p[1]) || dup2(p[0], 9) != 9 || !freopen("/dev/fd/9", "r", stdin)) abort(); close(p[0]); }
void vs_stdin(const char *d, int len) { vs_file_put("stdin.in", d, len); if (!freopen("stdin.in", "r", stdin)) abort(); }
void vs_stdout_keep(void) { if (!freopen("stdout.out", "w", stdout)) abort(); }
int vs_stdout_get(char *b, int cap) { fflush(stdout); return vs_file_get("stdout.out", b, cap); }
int vs_open_streams(void) { return nopen; }
long vs_heap_live(const void *p) { return p != 0; }
int main(int argc, char **argv) {
  vout = fdopen(dup(1), "w"); setvbuf(vout, 0, _IONBF, 0); setvbuf(stdout, 0, _IONBF, 0);
  if (argc > 1) { FILE *f = __real_fopen(argv[1], "r"); if (!f) return 99; while (nin < 4096 && fscanf(f, "%63s %ld", in[nin].name, &in[nin].v) == 2) nin++; __real_fclose(f); }
  if (argc > 2 && chdir(argv[2]) != 0) return 99;
  harness(); fprintf(vout, "\nEND\n"); return 0;
}

