/* Reading arbitrary text.
   KIND 0: PRE, then LEN symbolic characters (the text may end at any of them), then POST
   KIND 1: the text BASE with NC symbolic corruptions (replace, delete, insert, truncate) at symbolic positions
   ALPH: the characters tried (default: every byte but NUL, every byte at all when only a file is read)
   VIA 0 file, 1 memory, 2 both (same verdict and same graph), 3 graph6 iterator over memory, 4 over a file
   G6 1: the verdict must be that of the graph6 format (texts of the KIND 0 form, one-byte orders up to GN) */
#include "oracle.h"
#include "io/g6-read-iterator.h"
#include <stdlib.h>
#include <string.h>
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef G6
#define G6 0
#endif
#ifndef GN
#define GN 8
#endif
#ifndef MORE
#define MORE 3
#endif
#ifndef ALO
#define ALO 0
#define AHI (int)sizeof BASE - 2
#endif
#define TCAP 400
static char txt[TCAP]; static int len;
static int letter(void) {
#ifdef ALPH
  static const char al[] = ALPH; int i = vs_range("c", 0, (int)sizeof al - 2); return (unsigned char)al[i];
#else
  return vs_range("c", VIA == 0 || VIA == 4 ? 0 : 1, 255);
#endif
}
static void make(void) {
  len = 0;
#if KIND == 0
  for (const char *p = PRE; *p; p++) txt[len++] = *p;
  int n = vs_range("n", LO, LEN), base = len;
  for (int i = 0; i < LEN; i++) { int c = letter(); txt[base + i] = (char)c; }
  len = base + n;
  for (const char *p = POST; *p; p++) txt[len++] = *p;
#else
  for (const char *p = BASE; *p; p++) txt[len++] = *p;
  for (int k = 0; k < NC; k++) {
    int kind = vs_range("k", 0, 3), at = vs_range("at", ALO, AHI), c = letter();
    vs_assume(at < len);
    if (kind == 0) txt[at] = (char)c;
    else if (kind == 1) { for (int i = at; i + 1 < len; i++) txt[i] = txt[i + 1]; len--; }
    else if (kind == 2) { for (int i = len; i > at; i--) txt[i] = txt[i - 1]; txt[at] = (char)c; len++; }
    else len = at;
  }
#endif
  txt[len] = 0;
}
static omat got[2];
static int judge(graphP g, int r, omat *m) { /* a graph that was delivered is well formed */
  if (r != OK) return 0;
  vs_assert(g->N >= 1, "reading succeeded but delivered no graph");
  if (g->N >= ON) return 1;
  om_of_graph(g, m); int loops = 0; for (int v = 1; v <= g->N; v++) loops |= m->a[v][v];
  vs_assert(!loops, "the graph read has a loop");
  int other = 0; for (int v = 1; v <= g->N; v++) other |= gp_GetVertexIndex(g, v) != v && gp_GetVertexIndex(g, v) != 0;
  vs_assert(!other, "a vertex has another vertex's number");
  return 1;
}
#if G6
/* the format: optional header, order byte, ceil(n(n-1)/2/6) bytes 63..126 with zero padding bits, end of line */
static int wellformed(omat *m) {
  int at = 0, head = 1; static const char h[] = ">>graph6<<";
  for (int i = 0; i < 10; i++) head &= i < len && txt[i] == h[i];
  if (head) at = 10;
  if (at >= len) return 0;
  if ((txt[0] >= '0' && txt[0] <= '9') || (txt[0] == 'N' && len > 1 && txt[1] == '=')) return -1; /* another format */
  int n = (unsigned char)txt[at] - 63;
#if GN >= 63
  if (n == 63) { if (at + 3 >= len) return 0; n = 0; for (int k = 1; k <= 3; k++) { int c = (unsigned char)txt[at + k]; if (c < 63 || c > 126 || (k == 1 && c == 126)) return 0; n = n << 6 | (c - 63); }
    if (n < 63) return -1; /* no claim for small orders in the long form */
    if ((long)n * (n - 1) / 2 > 6L * len) return 0;
    at += 3; if (n > GN) return -1; }
  else
#endif
  if (n < 1 || n > GN) { vs_assume(n != 63); return n < 1 || n > 63 ? 0 : -1; }
  int zero = 0, end = at + 1; while (end < len && txt[end] != '\n' && txt[end] != '\r') { if (!txt[end]) zero = 1; end++; }
  if (zero) return -1; /* no claim for zero bytes in a line */
  int nb = n * (n - 1) / 2, nc = (nb + 5) / 6; if (end - at - 1 != nc) return 0;
  om_zero(m, n); int ok = 1, bit = 0, i = 1, j = 2;
  for (int k = 0; k < nc; k++) { int c = (unsigned char)txt[at + 1 + k]; ok &= c >= 63 && c <= 126; c -= 63;
    for (int b = 5; b >= 0; b--) { int x = (c >> b) & 1; if (bit >= nb) ok &= !x; else { m->a[i][j] = m->a[j][i] = x; if (++i == j) { i = 1; j++; } } bit++; } }
  return ok;
}
#endif
#if VIA >= 3
/* one line of a stream, from at: 1 a graph (next line in *nx), 0 broken, -1 no claim, 2 the end */
static int lineform(int at, int first, omat *m, int *nx) {
  if (at >= len) { *nx = at; return 2; }
  int end = at, odd = 0; while (end < len && txt[end] != '\n') { odd |= !txt[end] || (txt[end] == '\r' && !(end + 1 < len && txt[end + 1] == '\n')); end++; }
  *nx = end + 1; if (end > at && txt[end - 1] == '\r') end--;
  if (odd || (at == 0 && txt[0] == '>')) return -1;
  if (end == at) return 0;
  int n = (unsigned char)txt[at] - 63; if (n < 1 || n > GN) return at == 0 && n == 63 ? -1 : 0;
  if (first && n != first) return 0;
  int nb = n * (n - 1) / 2, nc = (nb + 5) / 6; if (end - at - 1 != nc) return 0;
  om_zero(m, n); int ok = 1, bit = 0, i = 1, j = 2;
  for (int k = 0; k < nc; k++) { int c = (unsigned char)txt[at + 1 + k]; ok &= c >= 63 && c <= 126; c -= 63;
    for (int b = 5; b >= 0; b--) { int x = (c >> b) & 1; if (bit >= nb) ok &= !x; else { m->a[i][j] = m->a[j][i] = x; if (++i == j) { i = 1; j++; } } bit++; } }
  return ok;
}
#endif
void harness(void) {
  make();
  int r[2] = {9, 9};
#if VIA <= 2
  for (int s = 0; s < 2; s++) {
    if (VIA != 2 && VIA != s) continue;
    graphP g = gp_New(); vs_assert(g != 0, "gp_New failed");
    if (s == 0) { vs_file_put("in", txt, len); char name[8] = "in"; r[s] = gp_Read(g, name); }
    else { char *t = malloc(len + 1); vs_assert(t != 0, "model: memory"); for (int i = 0; i <= len; i++) t[i] = txt[i]; r[s] = gp_ReadFromString(g, t); }
    vs_assert(r[s] == OK || r[s] == NOTOK || r[s] == NONEMBEDDABLE, "reading returned an undefined status");
    judge(g, r[s], &got[s]);
    vs_trace("r", r[s]); vs_trace("M", r[s] == OK ? g->M : -1);
#if G6
    static omat m; int ok = wellformed(&m);
    if (ok == 1) { vs_cover("valid"); vs_assert(r[s] == OK, "a valid graph6 text is refused"); vs_assert(g->N == m.n && om_equal(&got[s], &m), "the graph read is not the one the graph6 text describes"); }
    if (ok == 0) { vs_cover("invalid"); vs_assert(r[s] != OK, "an invalid graph6 text is accepted"); }
#endif
    if (r[s] == OK) vs_cover("accepted"); else vs_cover("refused");
    gp_Free(&g); vs_assert(g == 0, "freeing the graph failed");
  }
  if (VIA == 2) { vs_assert((r[0] == OK) == (r[1] == OK), "a text is accepted from a file but not from memory or vice versa");
    if (r[0] == OK) vs_assert(got[0].n == got[1].n && om_equal(&got[0], &got[1]), "the same text gives different graphs from a file and from memory"); }
#else
  graphP g = gp_New(), p = 0; G6ReadIterator *it = 0; int n = 0, rr;
  vs_assert(allocateG6ReadIterator(&it, g) == OK && it, "allocating the iterator failed");
  if (VIA == 3) { char *t = malloc(len + 1); for (int i = 0; i <= len; i++) t[i] = txt[i]; rr = beginG6ReadIterationFromG6String(it, t); if (len == 0) free(t); }
  else { vs_file_put("in", txt, len); char name[8] = "in"; rr = beginG6ReadIterationFromG6FilePath(it, name); }
  static omat lm; int nx = 0, at = 0, lf, first = 0, claim = 1; static int lead; lead = len ? (unsigned char)txt[0] - 63 : 0; if (lead < 1 || lead > GN) claim = 0;
  while (rr == OK && n < MORE) {
    lf = claim ? lineform(at, first, &lm, &nx) : -1; if (lf == -1) claim = 0;
    rr = readGraphUsingG6ReadIterator(it);
    if (lf == 0) vs_assert(rr != OK, "a broken line of a sequence is accepted"); if (lf >= 1) vs_assert(rr == OK, "a line of a sequence that follows the format is refused");
    if (rr != OK) break;
    vs_assert(getPointerToGraphReadIn(it, &p) == OK, "iterator state"); if (lf >= 1) vs_assert((p == 0) == (lf == 2), "the end of the sequence is misplaced"); if (!p) break;
    int before = g->N; judge(g, OK, &got[0]); n++; if (lf == 1) { vs_assert(g->N == lm.n && om_equal(&got[0], &lm), "a graph read from a sequence is not the one its line describes"); at = nx; first = lm.n; vs_cover("line"); } vs_assert(g->N == before, "the order changed within a sequence");
  }
  if (n) vs_cover("accepted"); if (rr != OK) vs_cover("refused");
  vs_trace("n", n);
  endG6ReadIteration(it); freeG6ReadIterator(&it); vs_assert(it == 0, "freeing the iterator failed"); gp_Free(&g);
#endif
  vs_assert(vs_open_streams() == 0, "a file was left open");
  vs_files_release(); vs_no_leaks();
}
