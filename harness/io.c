/* Writing a graph as text and reading it back.
   FMT 1 adjacency list, 2 adjacency matrix, 4 graph6;  VIA 0 file, 1 memory;  DIG 1: symbolic edge directions;
   ZB 1: zero-based text chosen symbolically;  HDR 1 (graph6): the header is stripped before reading */
#include "oracle.h"
#include <stdlib.h>
#include <string.h>
#ifndef DIG
#define DIG 0
#endif
#ifndef ZB
#define ZB 0
#endif
#ifndef HDR
#define HDR 0
#endif
#define TCAP 4096
static int mode(void) { return FMT == 1 ? WRITE_ADJLIST : FMT == 2 ? WRITE_ADJMATRIX : WRITE_G6; }
static int put(graphP g, char *name, char *buf) { /* text of g into buf, length */
#if VIA == 0
  vs_assert(gp_Write(g, name, mode()) == OK, "writing the graph failed");
  int n = vs_file_get(name, buf, TCAP - 1); vs_assert(n > 0 && n < TCAP, "nothing was written"); buf[n] = 0; return n;
#else
  char *s = 0; vs_assert(gp_WriteToString(g, &s, mode()) == OK, "writing the graph failed"); vs_assert(s != 0, "no text was delivered");
  int n = (int)strlen(s); vs_assert(n > 0 && n < TCAP, "nothing was written"); strcpy(buf, s); free(s); return n;
#endif
}
static int get(graphP h, char *name, const char *buf, int n) {
#if VIA == 0
  vs_file_put(name, buf, n); return gp_Read(h, name);
#else
  char *s = malloc(n + 1); memcpy(s, buf, n); s[n] = 0; return gp_ReadFromString(h, s);
#endif
}
static int dirm[ON][ON]; /* directions of the source: 0 none, 1 only u->v (u<v), 2 only v->u */
static void check_dirs(graphP g) {
  int bad = 0;
  for (int v = 1; v <= NN; v++) { int e = gp_GetFirstArc(g, v); while (gp_IsArc(e)) { int w = gp_GetNeighbor(g, e), d = gp_GetDirection(g, e), a = v < w ? v : w, b = v < w ? w : v, k = dirm[a][b];
      int want = k == 0 ? 0 : (k == 1) == (v < w) ? EDGEFLAG_DIRECTION_OUTONLY : EDGEFLAG_DIRECTION_INONLY; bad |= d != want; e = gp_GetNextArc(g, e); } }
  vs_assert(!bad, "an edge has another direction than in the original graph");
}
static char T1[TCAP], T2[TCAP], X[TCAP];
void harness(void) {
  static esym s; static omat m, x; graphP g = sym_graph(&s, &m, NN); int zb = 0;
  static int L1[4 * ON * ON], L2[4 * ON * ON]; int k1 = 0, k2 = 0;
#if ZB
  zb = vs_range("zero_based", 0, 1); if (zb) g->internalFlags |= FLAGS_ZEROBASEDIO;
#endif
#if DIG
  for (int i = 0; i < s.k; i++) { int d = vs_range("dir", 0, 2); if (s.on[i]) { dirm[s.u[i]][s.v[i]] = d; int e = gp_GetNeighborEdgeRecord(g, s.u[i], s.v[i]);
      if (d == 1) gp_SetDirection(g, e, EDGEFLAG_DIRECTION_OUTONLY); if (d == 2) gp_SetDirection(g, e, EDGEFLAG_DIRECTION_INONLY); } }
  check_dirs(g);
#endif
  for (int v = 1; v <= NN; v++) { int e = gp_GetFirstArc(g, v); while (gp_IsArc(e)) { L1[k1++] = gp_GetNeighbor(g, e); e = gp_GetNextArc(g, e); } }
#if DIG && FMT != 1
  /* digraphs are refused by the other formats, harmlessly */
  int any = 0; for (int i = 0; i < s.k; i++) any |= s.on[i] && dirm[s.u[i]][s.v[i]];
  if (any && FMT == 2) { char *q = 0; int r = VIA ? gp_WriteToString(g, &q, mode()) : gp_Write(g, "a.txt", mode()); vs_assert(r != OK, "a digraph was written as a matrix"); if (q) free(q); vs_cover("refused"); gp_Free(&g); vs_files_release(); vs_no_leaks(); return; }
#endif
  int n = put(g, "a.txt", T1);
  om_of_graph(g, &x); vs_assert(om_equal(&x, &m), "writing changed the graph");
#if FMT == 2
  { /* the documented matrix: the order, then one row per vertex holding the flags of the later vertices */
    int p = 0, q = sprintf(X, "%d", NN), bad = 0; for (int i = 0; i < q; i++) bad |= T1[p++] != X[i];
    for (int u = 1; u <= NN; u++) { bad |= T1[p++] != '\n'; for (int w = 1; w <= NN; w++) bad |= T1[p++] != (w <= u ? ' ' : m.a[u][w] ? '1' : '0'); }
    bad |= T1[p++] != '\n'; bad |= p != n; vs_assert(!bad, "the text is not the upper triangular matrix of the graph"); }
#elif FMT == 4
  { int p = 0, bits = 0, cnt = 0, bad = 0; const char *hd = ">>graph6<<"; for (; hd[p]; p++) bad |= T1[p] != hd[p];
#if NN < 63
    bad |= T1[p++] != 63 + NN;
#else
    bad |= T1[p++] != 126; bad |= T1[p++] != 63 + (NN >> 12 & 63); bad |= T1[p++] != 63 + (NN >> 6 & 63); bad |= T1[p++] != 63 + (NN & 63);
#endif
    for (int j = 2; j <= NN; j++) for (int i = 1; i < j; i++) {
#if NN < ON
        int b = m.a[i][j] != 0;
#else
        int b = 0; for (int t = 0; t < s.k; t++) if (s.u[t] == i && s.v[t] == j) b = s.on[t];
#endif
        bits = bits << 1 | b; if (++cnt == 6) { bad |= T1[p++] != 63 + bits; bits = 0; cnt = 0; } }
    if (cnt) bad |= T1[p++] != 63 + (bits << (6 - cnt));
    if (p < n) bad |= T1[p++] != '\n';
    bad |= p != n; vs_assert(!bad, "the text is not the graph6 encoding of the graph"); }
#endif
  int off = HDR ? 10 : 0;
  graphP h = gp_New(); vs_assert(get(h, "b.txt", T1 + off, n - off) == OK, "reading back what was written failed");
  vs_assert(h->N == NN, "the order changed"); om_of_graph(h, &x); vs_assert(om_equal(&x, &m), "reading back yields another graph");
#if DIG
  check_dirs(h);
#endif
#if FMT == 1
  if (!DIG) { for (int v = 1; v <= NN; v++) { int e = gp_GetFirstArc(h, v); while (gp_IsArc(e)) { L2[k2++] = gp_GetNeighbor(h, e); e = gp_GetNextArc(h, e); } }
    int bad = k1 != k2; if (!bad) for (int i = 0; i < k1; i++) bad |= L1[i] != L2[i]; vs_assert(!bad, "reading back yields the neighbours in another order"); }
  vs_assert(((h->internalFlags & FLAGS_ZEROBASEDIO) != 0) == zb, "the numbering base was not recognised");
#endif
  vs_assert(put(h, "c.txt", T2) == n && strcmp(T1, T2) == 0, "writing the graph read back gives another text");
  vs_assert(vs_open_streams() == 0, "a file was left open");
  vs_trace("n", n); vs_trace("c", T1[n / 2]); vs_trace("m", h->M);
  gp_Free(&g); gp_Free(&h); vs_files_release(); vs_no_leaks();
}
