/* LEDA edge lists.  MM edge lines with symbolic ends (loops, repetitions, either order), N = NN;  FIXED: further edges listed first;
   KIND 0: well-formed; 1: an end out of range, a wrong edge count or a text cut after some line is refused; 2: from memory the format is refused;
   EXT 1: the K3,3 search is attached when reading.  Style of the lines chosen symbolically */
#include "oracle.h"
#include <stdlib.h>
#include <string.h>
#include "homeomorphSearch/graphK33Search.h"
#ifndef EXT
#define EXT 0
#endif
#define TCAP 4096
static char T[TCAP]; static int p;
static void str(const char *s) { for (int i = 0; s[i]; i++) T[p++] = s[i]; }
static void num(int v) {
#if NN > 8
  T[p++] = (char)(v > 9 ? '0' + v / 10 : ' ');
#endif
  T[p++] = (char)('0' + v % 10);
}
static const struct { int u, v; } fx[] = {
#ifdef FIXED
  FIXED,
#endif
  {0, 0}};
void harness(void) {
  static omat m, x; static int U[MM + 1], V[MM + 1]; static int at[NN + MM + 64]; int nl = 0, nf = sizeof fx / sizeof fx[0] - 1;
  int style = vs_range("style", 0, 2), bad = 0, k = KIND == 1 ? vs_range("listed", 0, MM + 1) : vs_range("listed", 0, MM), cut = -1; m.n = NN;
  for (int i = 0; i < MM; i++) { U[i] = vs_range("u", KIND == 1 ? 0 : 1, KIND == 1 ? NN + 1 : NN); V[i] = vs_range("v", KIND == 1 ? 0 : 1, KIND == 1 ? NN + 1 : NN); }
  /* a line ends in a line feed or a carriage return and a line feed; comments on the first, third lines do not occur */
#define EOLN do { if (style == 2) T[p++] = '\r'; else T[p++] = ' '; T[p++] = '\n'; at[nl++] = p; } while (0)
  str("LEDA.GRAPH"); EOLN; str(style == 1 ? "string" : "void  "); EOLN; str(style == 1 ? "int " : "void"); EOLN; num(NN); EOLN;
  for (int v = 1; v <= NN; v++) { str(style == 1 ? "|{9 1}|" : "|{}|   "); EOLN; }
  num(nf + k); EOLN;
  for (int i = 0; i < nf; i++) { num(fx[i].u); str(" "); num(fx[i].v); str(" 0 |{}|"); EOLN; m.a[fx[i].u][fx[i].v] = m.a[fx[i].v][fx[i].u] = 1; }
  for (int i = 0; i < MM; i++) { num(U[i]); str(" "); num(V[i]); str(style == 1 ? " 0 |{7}|" : " 0 |{}| "); EOLN;
    if (i < k) { for (int a = 1; a <= NN; a++) for (int b = 1; b <= NN; b++) if (a != b) m.a[a][b] |= (U[i] == a && V[i] == b) || (U[i] == b && V[i] == a); bad |= U[i] < 1 || U[i] > NN || V[i] < 1 || V[i] > NN; } }
  bad |= k > MM; int len = p;
#if KIND == 1
  { int c = vs_range("cut", 0, 5 + NN + nf + MM); vs_assume(c <= nl); if (c < nl) { len = 0; for (int i = 0; i < nl; i++) if (c == i + 1) len = at[i]; cut = c; bad |= c < 5 + NN + nf + k; } }
#endif
  graphP g = gp_New();
#if EXT
  vs_assert(gp_AttachK33Search(g) == OK, "attach");
#endif
#if KIND == 2
  { char *s = malloc(len + 1); memcpy(s, T, len); s[len] = 0; vs_assert(gp_ReadFromString(g, s) != OK, "a LEDA text in memory is accepted"); vs_cover("refused"); gp_Free(&g); vs_no_leaks(); return; }
#endif
  vs_file_put("g.leda", T, len); int r = gp_Read(g, "g.leda");
  if (bad) { vs_assert(r != OK, "a damaged edge list is read"); vs_cover("refused"); }
  else {
    vs_assert(r == OK, "an edge list cannot be read"); vs_assert(g->N == NN, "the order of the graph"); om_of_graph(g, &x); vs_assert(om_equal(&x, &m), "the graph is not the one described");
    int cnt = 0; for (int a = 1; a <= NN; a++) for (int b = 1; b < a; b++) cnt += x.a[a][b]; vs_assert((int)g->M == cnt, "the number of edges"); vs_cover("read"); if (cnt < nf + k) vs_cover("simplified");
    char *s = 0; vs_assert(gp_WriteToString(g, &s, WRITE_ADJLIST) == OK, "writing it as an adjacency list"); graphP h = gp_New(); vs_assert(gp_ReadFromString(h, s) == OK, "reading that back"); om_of_graph(h, &x); vs_assert(om_equal(&x, &m), "the adjacency list written is another graph"); gp_Free(&h);
#if EXT
    vs_assert(gp_Embed(g, EMBEDFLAGS_SEARCHFORK33) != NOTOK, "searching the graph read");
#endif
  }
  vs_trace("r", r); vs_trace("M", g->M); vs_trace("cut", cut); gp_Free(&g); vs_assert(vs_open_streams() == 0, "a file was left open"); vs_files_release(); vs_no_leaks();
}
