/* Environment model used inside the engine: heap, strings, stdio on in-memory files, rand, time.
   Functions named vsl_X replace the undefined external X; vsv_X replaces the variadic external X and
   receives its variable arguments as an array of 8-byte slots. */
#include <stddef.h>
#include <stdint.h>
#include "vs.h"
void *__vsx_alloc(size_t n);
void __vsx_free(void *p);
size_t __vsx_size(void *p);
int __vsx_islive(const void *p);
void __vsx_dead(void);
void *memset(void *, int, size_t);
void *memcpy(void *, const void *, size_t);

int vs_alloc_fail_at = -1, vs_alloc_count = 0;
long vs_heap_live(const void *p) { return __vsx_islive(p); }
static int alloc_fails(void) { if (vs_alloc_fail_at < 0) return 0; int k = vs_alloc_count; vs_alloc_count = k + 1; return k == vs_alloc_fail_at; }
void *vsl_malloc(size_t n) { if (alloc_fails()) return 0; return __vsx_alloc(n); }
void *vsl_calloc(size_t a, size_t b) { if (alloc_fails()) return 0; void *p = __vsx_alloc(a * b); if (p) memset(p, 0, a * b); return p; }
void vsl_free(void *p) { __vsx_free(p); }
void *vsl_realloc(void *p, size_t n) {
  if (alloc_fails()) return 0;
  void *q = __vsx_alloc(n); if (!q) return 0;
  if (p) { size_t o = __vsx_size(p); memcpy(q, p, o < n ? o : n); __vsx_free(p); }
  return q;
}
/* ------------------------------------------------------------------ strings */
size_t vsl_strlen(const char *s) { size_t i = 0; while (s[i]) i++; return i; }
int vsl_strcmp(const char *a, const char *b) { int i = 0; while (a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int vsl_strncmp(const char *a, const char *b, size_t n) { size_t i = 0; if (!n) return 0; while (i + 1 < n && a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
char *vsl_strcpy(char *d, const char *s) { int i = 0; while ((d[i] = s[i])) i++; return d; }
char *vsl_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; if (i < n) memset(d + i, 0, n - i); return d; }
char *vsl_strcat(char *d, const char *s) { vsl_strcpy(d + vsl_strlen(d), s); return d; }
char *vsl_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *vsl_strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *vsl_strstr(const char *h, const char *n) { for (;; h++) { int i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; if (!*h) return 0; } }
size_t vsl_strcspn(const char *s, const char *r) { size_t i = 0; for (; s[i]; i++) if (vsl_strchr(r, s[i])) return i; return i; }
int vsl_memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
char *vsl_strdup(const char *s) { size_t n = vsl_strlen(s) + 1; char *r = vsl_malloc(n); if (r) memcpy(r, s, n); return r; }
static int isspc(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int isdig(int c) { return c >= '0' && c <= '9'; }
int vsl_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int vsl_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int vsl_atoi(const char *s) { int n = 0, neg = 0; while (isspc(*s)) s++; if (*s == '-' || *s == '+') { neg = *s == '-'; s++; } while (isdig(*s)) { n = n * 10 + (*s - '0'); s++; } return neg ? -n : n; }
static unsigned short ctab[384]; static const unsigned short *cptr; static int cinit;
const unsigned short **vsl___ctype_b_loc(void) {
  if (!cinit) { cinit = 1; for (int c = 0; c < 384; c++) ctab[c] = 0;
    for (int c = 0; c < 128; c++) { unsigned short m = 0;
      if (c >= 'A' && c <= 'Z') m |= 256 | 1024 | 8; if (c >= 'a' && c <= 'z') m |= 512 | 1024 | 8; if (isdig(c)) m |= 2048 | 4096 | 8;
      if ((c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f')) m |= 4096; if (isspc(c)) m |= 8192; if (c >= 32 && c < 127) m |= 16384; if (c > 32 && c < 127) m |= 32768; ctab[128 + c] = m; }
    cptr = ctab + 128; }
  return &cptr;
}
static int ltab[384]; static const int *lptr; static int linit;
const int **vsl___ctype_tolower_loc(void) { if (!linit) { linit = 1; for (int c = 0; c < 384; c++) ltab[c] = vsl_tolower(c - 128); lptr = ltab + 128; } return &lptr; }
/* ------------------------------------------------------------------ further functions a changed source may use */
void *vsl_memchr(const void *p, int c, size_t n) { const unsigned char *q = p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void *)(q + i); return 0; }
size_t vsl_strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *vsl_strncat(char *d, const char *s, size_t n) { size_t k = vsl_strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
char *vsl_stpcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d + i; }
size_t vsl_strspn(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) { int f = 0; for (size_t k = 0; a[k]; k++) f |= a[k] == s[i]; if (!f) break; } return i; }
char *vsl_strpbrk(const char *s, const char *a) { size_t i = vsl_strcspn(s, a); return s[i] ? (char *)s + i : 0; }
char *vsl_strndup(const char *s, size_t n) { size_t k = vsl_strnlen(s, n); char *p = vsl_malloc(k + 1); if (p) { for (size_t i = 0; i < k; i++) p[i] = s[i]; p[k] = 0; } return p; }
int vsl_abs(int x) { return x < 0 ? -x : x; }
long vsl_labs(long x) { return x < 0 ? -x : x; }
static int dig(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
long vsl_strtol(const char *s, char **e, int base) {
  int i = 0, neg = 0, any = 0; long v = 0; while (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)) i++;
  if (s[i] == '+' || s[i] == '-') neg = s[i++] == '-';
  if ((base == 0 || base == 16) && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && dig(s[i + 2]) < 16) { i += 2; base = 16; } else if (base == 0) base = s[i] == '0' ? 8 : 10;
  while (dig(s[i]) < base) { if (v < 0x7fffffffffffffL) v = v * base + dig(s[i]); i++; any = 1; }
  if (e) *e = (char *)(any ? s + i : s); return neg ? -v : v; }
unsigned long vsl_strtoul(const char *s, char **e, int base) { return (unsigned long)vsl_strtol(s, e, base); }
long long vsl_strtoll(const char *s, char **e, int base) { return vsl_strtol(s, e, base); }
long vsl_atol(const char *s) { return vsl_strtol(s, 0, 10); }
void vsl_qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *p = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = p[(j - 1) * sz + k]; p[(j - 1) * sz + k] = p[j * sz + k]; p[j * sz + k] = t; } }
static int eno; int *vsl___errno_location(void) { return &eno; }
void vsl___assert_fail(const char *a, const char *f, unsigned l, const char *fn) { (void)a; (void)f; (void)l; (void)fn; vs_assert(0, "an assertion of the code failed"); }
/* ------------------------------------------------------------------ rand, time */
static int *rscript; static int rn, ri;
void vs_rand_script(int *v, int n) { rscript = v; rn = n; ri = 0; }
int vsl_rand(void) { if (!rscript || rn <= 0) return 0; int r = rscript[ri]; if (ri + 1 < rn) ri++; return r; }
void vsl_srand(unsigned s) { (void)s; }
long vsl_time(long *t) { if (t) *t = 0; return 0; }
long vsl_clock(void) { return 0; }
void vsl_exit(int c) { (void)c; __vsx_dead(); }
void vsl_abort(void) { __vsx_dead(); }
/* ------------------------------------------------------------------ stdio */
#define NF 12
#define FCAP 4096
#define OCAP 16384
typedef struct { char name[256]; char *data; int len, used; } vfile;
typedef struct { int file, pos, open, wr, eof, un; } vstream;
static vfile vf[NF + 2]; static vstream vstr[NF + 3]; static int stdin_set, stdout_kept, stdin_pipe; /* vf[NF]: what stands on stdin, vf[NF + 1]: what went to stdout */
struct _IO_FILE; typedef struct _IO_FILE FILE;
FILE *stdin = (FILE *)&vstr[NF], *stdout = (FILE *)&vstr[NF + 1], *stderr = (FILE *)&vstr[NF + 2];
#define EOF (-1)
static int isconsole(vstream *s) { return (s == &vstr[NF] && !stdin_set) || (s == &vstr[NF + 1] && !stdout_kept) || s == &vstr[NF + 2]; }
static int findfile(const char *name) { for (int i = 0; i < NF; i++) if (vf[i].used && vsl_strcmp(vf[i].name, name) == 0) return i; return -1; }
static int mkfile(const char *name) { int i = findfile(name); if (i < 0) { for (i = 0; i < NF && vf[i].used; i++) ; if (i == NF) { vs_assert(0, "model: too many files"); return -1; } vf[i].used = 1; for (int k = 0; k < 256 && (k == 0 || name[k - 1]); k++) vf[i].name[k] = name[k];} 
  if (!vf[i].data) vf[i].data = __vsx_alloc(FCAP); vf[i].len = 0; return i; }
void vs_file_put(const char *name, const char *data, int len) { int i = mkfile(name); for (int k = 0; k < len; k++) vf[i].data[k] = data[k]; vf[i].len = len; }
int vs_file_get(const char *name, char *buf, int cap) { int i = findfile(name); if (i < 0) return -1; int n = vf[i].len; for (int k = 0; k < n && k < cap; k++) buf[k] = vf[i].data[k]; return n; }
void vs_stdin(const char *data, int len) { if (!vf[NF].data) vf[NF].data = __vsx_alloc(FCAP); for (int k = 0; k < len; k++) vf[NF].data[k] = data[k]; vf[NF].len = len; vf[NF].used = 1; vstr[NF].file = NF; vstr[NF].pos = 0; vstr[NF].open = 1; vstr[NF].wr = 0; vstr[NF].eof = 0; vstr[NF].un = -1; stdin_set = 1; }
void vs_stdin_pipe(const char *data, int len) { vs_stdin(data, len); stdin_pipe = 1; }
void vs_stdout_keep(void) { vf[NF + 1].data = __vsx_alloc(OCAP); vf[NF + 1].len = 0; vf[NF + 1].used = 1; vstr[NF + 1].file = NF + 1; vstr[NF + 1].pos = 0; vstr[NF + 1].open = 1; vstr[NF + 1].wr = 1; vstr[NF + 1].un = -1; stdout_kept = 1; }
int vs_stdout_get(char *buf, int cap) { int n = vf[NF + 1].len; for (int k = 0; k < n && k < cap; k++) buf[k] = vf[NF + 1].data[k]; return n; }
void vs_files_release(void) { stdin_set = 0; stdin_pipe = 0; stdout_kept = 0; for (int i = 0; i <= NF + 1; i++) { if (vf[i].data) __vsx_free(vf[i].data); vf[i].data = 0; vf[i].used = 0; } }
int vs_open_streams(void) { int n = 0; for (int i = 0; i < NF; i++) n += vstr[i].open; return n; }
FILE *vsl_fopen(const char *name, const char *mode) {
  int i; if (mode[0] == 'r') { i = findfile(name); if (i < 0) return 0; } else { if (vsl_strlen(name) > 255) return 0; i = mkfile(name); if (i < 0) return 0; }
  int s; for (s = 0; s < NF && vstr[s].open; s++) ; if (s == NF) { vs_assert(0, "model: too many open streams"); return 0; }
  vstr[s].file = i; vstr[s].pos = mode[0] == 'a' ? vf[i].len : 0; vstr[s].open = 1; vstr[s].wr = mode[0] != 'r'; vstr[s].eof = 0; vstr[s].un = -1; return (FILE *)&vstr[s];
}
static vstream *S(FILE *f) { vstream *s = (vstream *)f; vs_assert(s != 0, "stdio call on a NULL stream"); if (!isconsole(s)) vs_assert(s->open, "stdio call on a closed stream"); return s; }
int vsl_fclose(FILE *f) { vstream *s = S(f); s->open = 0; if (s->file < NF && vf[s->file].name[0] == 1) vf[s->file].used = 0; return 0; }
FILE *vsl_tmpfile(void) { static int k; char nm[8] = {1, (char)(1 + k % 100), 0}; k++; return vsl_fopen(nm, "w+"); }
int vsl_fflush(FILE *f) { (void)f; return 0; }
int vsl_fgetc(FILE *f) { vstream *s = S(f); if (isconsole(s)) return EOF; if (s->un >= 0) { int c = s->un; s->un = -1; return c; } if (s->pos >= vf[s->file].len) { s->eof = 1; return EOF; } return (unsigned char)vf[s->file].data[s->pos++]; }
int vsl_getc(FILE *f) { return vsl_fgetc(f); }
int vsl_getchar(void) { return vsl_fgetc(stdin); }
int vsl_ungetc(int c, FILE *f) { vstream *s = S(f); if (c == EOF) return EOF; s->un = (unsigned char)c; s->eof = 0; return (unsigned char)c; }
int vsl_feof(FILE *f) { return S(f)->eof; }
int vsl_ferror(FILE *f) { (void)f; return 0; }
static void put(vstream *s, int c) { if (isconsole(s)) return; vfile *v = &vf[s->file]; vs_assert(s->pos < (s->file > NF ? OCAP : FCAP), "model: file capacity"); v->data[s->pos] = (char)c; s->pos++; if (s->pos > v->len) v->len = s->pos; }
int vsl_fputc(int c, FILE *f) { put(S(f), c); return (unsigned char)c; }
int vsl_putc(int c, FILE *f) { put(S(f), c); return (unsigned char)c; }
int vsl_putchar(int c) { put(S(stdout), c); return c; }
int vsl_fputs(const char *p, FILE *f) { vstream *s = S(f); if (isconsole(s)) { vsl_strlen(p); return 1; } for (; *p; p++) put(s, *p); return 1; }
int vsl_puts(const char *p) { vsl_fputs(p, stdout); put(S(stdout), '\n'); return 1; }
char *vsl_fgets(char *b, int n, FILE *f) { int i = 0; if (n <= 0) return 0; while (i + 1 < n) { int c = vsl_fgetc(f); if (c == EOF) break; b[i++] = (char)c; if (c == '\n') break; } if (i == 0) return 0; b[i] = 0; return b; }
size_t vsl_fwrite(const void *p, size_t sz, size_t n, FILE *f) { vstream *s = S(f); const char *c = p; for (size_t i = 0; i < sz * n; i++) put(s, c[i]); return n; }
size_t vsl_fread(void *p, size_t sz, size_t n, FILE *f) { char *c = p; size_t i; for (i = 0; i < sz * n; i++) { int ch = vsl_fgetc(f); if (ch == EOF) break; c[i] = (char)ch; } return sz ? i / sz : 0; }
long vsl_ftell(FILE *f) { vstream *s = S(f); if (s == &vstr[NF] && stdin_pipe) return -1; return s->pos - (s->un >= 0); }
int vsl_fseek(FILE *f, long off, int wh) { vstream *s = S(f); if (s == &vstr[NF] && stdin_pipe) return -1; s->un = -1; s->eof = 0; s->pos = (int)(wh == 0 ? off : wh == 1 ? s->pos + off : vf[s->file].len + off); return 0; }
void vsl_clearerr(FILE *f) { S(f)->eof = 0; }
void vsl_perror(const char *s) { (void)s; }
int vsl_setvbuf(FILE *f, char *b, int m, size_t n) { (void)f; (void)b; (void)m; (void)n; return 0; }
void vsl_rewind(FILE *f) { vsl_fseek(f, 0, 0); }
int vsl_remove(const char *n) { int i = findfile(n); if (i < 0) return -1; vf[i].used = 0; return 0; }
/* ------------------------------------------------------------------ formatted output */
typedef struct { char *dst; vstream *st; int n; } sink;
static void emit(sink *o, int c) { if (o->dst) o->dst[o->n] = (char)c; else if (o->st) put(o->st, c); o->n++; }
static void pad(sink *o, int k) { for (; k > 0; k--) emit(o, ' '); }
static int vfmt(sink *o, const char *f, const uint64_t *a) {
  int k = 0;
  for (; *f; f++) {
    if (*f != '%') { emit(o, *f); continue; }
    f++; int width = 0, left = 0, zero = 0, prec = -1, lng = 0;
    if (*f == '-') { left = 1; f++; } if (*f == '0') { zero = 1; f++; }
    while (isdig(*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; if (*f == '*') { prec = (int)a[k++]; f++; } else { prec = 0; while (isdig(*f)) prec = prec * 10 + (*f++ - '0'); } }
    while (*f == 'l' || *f == 'z') { lng = 1; f++; }
    if (*f == '%') emit(o, '%');
    else if (*f == 'c') emit(o, (char)(int)a[k++]);
    else if (*f == 's') { const char *s = (const char *)a[k++]; int i = 0; for (; (prec < 0 || i < prec) && s[i]; i++) emit(o, s[i]); pad(o, width - i); }
    else if (*f == 'd' || *f == 'i' || *f == 'u') {
      long v = lng ? (long)a[k] : *f == 'u' ? (long)(unsigned)a[k] : (long)(int)a[k]; k++; char b[24]; int i = 0, neg = v < 0; unsigned long u = neg ? 0ul - (unsigned long)v : (unsigned long)v;
      do { b[i++] = (char)('0' + u % 10); u /= 10; } while (u); if (neg) b[i++] = '-';
      int w = width - i; if (!left) { if (zero) for (; w > 0; w--) emit(o, '0'); else pad(o, w); }
      while (i) emit(o, b[--i]); if (left) pad(o, w);
    } else if (*f == 'f') { k++; emit(o, '0'); if (prec != 0) { emit(o, '.'); for (int i = 0; i < (prec < 0 ? 6 : prec); i++) emit(o, '0'); } } /* only elapsed times are printed; the clock is 0 */
    else vs_assert(0, "model: printf conversion");
  }
  return o->n;
}
int vsv_sprintf(char *d, const char *f, const uint64_t *a) { sink o = {d, 0, 0}; int n = vfmt(&o, f, a); d[n] = 0; return n; }
int vsv_snprintf(char *d, size_t cap, const char *f, const uint64_t *a) { char tmp[1024]; sink o = {tmp, 0, 0}; int n = vfmt(&o, f, a); int m = n < (int)cap - 1 ? n : (int)cap - 1; if (cap) { for (int i = 0; i < m; i++) d[i] = tmp[i]; d[m] = 0; } return n; }
int vsv_fprintf(FILE *f, const char *fm, const uint64_t *a) { vstream *s = S(f); sink o = {0, isconsole(s) ? 0 : s, 0}; return vfmt(&o, fm, a); }
int vsv_printf(const char *fm, const uint64_t *a) { return vsv_fprintf(stdout, fm, a); }
/* ------------------------------------------------------------------ formatted input */
typedef struct { const char *s; FILE *f; int i; } src;
static int nextc(src *r) { if (r->f) return vsl_fgetc(r->f); int c = (unsigned char)r->s[r->i]; if (!c) return EOF; r->i++; return c; }
static void backc(src *r, int c) { if (c == EOF) return; if (r->f) vsl_ungetc(c, r->f); else r->i--; }
static void skipspc(src *r) { int c; do c = nextc(r); while (isspc(c)); backc(r, c); }
static int vscan(src *r, const char *f, const uint64_t *a) {
  int k = 0, done = 0;
  for (; *f; f++) {
    if (isspc(*f)) { skipspc(r); continue; }
    if (*f != '%') { int c = nextc(r); if (c != (unsigned char)*f) { backc(r, c); return c == EOF && !done ? EOF : done; } continue; }
    f++; int width = 0, skip = 0; if (*f == '*') { skip = 1; f++; } while (isdig(*f)) width = width * 10 + (*f++ - '0');
    if (*f == 'c') { int c = nextc(r); if (c == EOF) return done ? done : EOF; if (!skip) { *(char *)a[k++] = (char)c; done++; } continue; }
    skipspc(r);
    if (*f == 's') { int c = nextc(r), n = 0; if (c == EOF) return done ? done : EOF; char *d = skip ? 0 : (char *)a[k++]; while (c != EOF && !isspc(c) && (!width || n < width)) { if (d) d[n] = (char)c; n++; c = nextc(r); } backc(r, c); if (d) { d[n] = 0; done++; } continue; }
    if (*f == 'd') {
      int neg = 0, n = 0, any = 0, left = width ? width : 1000000; int c = nextc(r); if (c == EOF) return done ? done : EOF;
      if (c == '-' || c == '+') { neg = c == '-'; left--; c = left > 0 ? nextc(r) : (left = 0, c); if (left <= 0) return done; }
      while (left > 0 && isdig(c)) { any = 1; n = (int)((unsigned)n * 10u + (unsigned)(c - '0')); left--; if (left > 0) c = nextc(r); else c = -2; }
      if (c != -2) backc(r, c);
      if (!any) return done; if (!skip) { *(int *)a[k++] = neg ? -n : n; done++; } continue; }
    vs_assert(0, "model: scanf conversion");
  }
  return done;
}
int vsv_sscanf(const char *s, const char *f, const uint64_t *a) { vsl_strlen(s); src r = {s, 0, 0}; return vscan(&r, f, a); }
int vsv_fscanf(FILE *fp, const char *f, const uint64_t *a) { src r = {0, fp, 0}; S(fp); return vscan(&r, f, a); }
int vsv_scanf(const char *f, const uint64_t *a) { return vsv_fscanf(stdin, f, a); }
