/* Standard streams.  KIND 0: a text on the standard input, as a file or a pipe, is read as from a file - FMT 1, 2, 4 or 5 (LEDA), symbolic graph,
   one byte possibly changed at a symbolic place (ALO..AHI), possibly cut; XD 1: a drawing follows the graph;
   1: what is written to the standard output is what is written to a file, followed by more output; 2: the command line between the two streams */
#include "oracle.h"
#include <stdlib.h>
#include <string.h>
#include "planarityRelated/graphDrawPlanar.h"
extern int vs_app_main(int argc, char *argv[]);
#ifndef XD
#define XD 0
#endif
#ifndef ZB
#define ZB 0
#endif
#define TCAP 4096
static char T[TCAP], U[3 * TCAP], X[3 * TCAP];
static int mode_of(int f) { return f == 1 ? WRITE_ADJLIST : f == 2 ? WRITE_ADJMATRIX : f == 3 ? WRITE_DEBUGINFO : WRITE_G6; }
static int name_of(char *t, int k) { static const char *const nm[] = {"a.txt", "stdout.txt", "stderr2", "stdin.txt", "stdi", "std", "xstdout"}; int i = 0; for (; nm[k][i]; i++) t[i] = nm[k][i]; t[i] = 0; return i; }
static int text_of(graphP g) {
#if FMT == 5
  int n = 0; const char *hd = "LEDA.GRAPH\nvoid\nvoid\n"; for (; hd[n]; n++) T[n] = hd[n]; T[n++] = '0' + NN; T[n++] = '\n'; for (int v = 1; v <= NN; v++) { memcpy(T + n, "|{}|\n", 5); n += 5; }
  T[n++] = (char)('0' + g->M); T[n++] = '\n'; for (int u = 1; u <= NN; u++) for (int v = u + 1; v <= NN; v++) if (gp_IsNeighbor(g, u, v)) { T[n++] = '0' + u; T[n++] = ' '; T[n++] = '0' + v; memcpy(T + n, " 0 |{}|\n", 8); n += 8; } T[n] = 0; return n;
#else
  char *s = 0; vs_assert(gp_WriteToString(g, &s, mode_of(FMT)) == OK && s, "writing to memory"); int n = (int)strlen(s); vs_assert(n < TCAP, "text too long"); strcpy(T, s); free(s); return n;
#endif
}
#if KIND == 0
static void read_both(graphP a, graphP b, int pipe, int n, char *nm) {
  vs_file_put(nm, T, n); if (pipe) vs_stdin_pipe(T, n); else vs_stdin(T, n);
#if XD
  vs_assert(gp_AttachDrawPlanar(a) == OK && gp_AttachDrawPlanar(b) == OK, "attach");
#endif
  int r = gp_Read(a, nm), q = gp_Read(b, "stdin"); static omat x, y;
  vs_assert(r == q, "the standard input is judged otherwise than a file"); vs_assert(vs_open_streams() == 0, "a file was left open");
  if (r == OK) { vs_cover("read"); om_of_graph(a, &x); om_of_graph(b, &y); vs_assert(a->N == b->N && om_equal(&x, &y), "the standard input yields another graph than a file"); vs_assert(a->internalFlags == b->internalFlags, "the numbering base is recognised otherwise");
    char *s = 0, *t = 0; vs_assert(gp_WriteToString(a, &s, WRITE_ADJLIST) == OK && gp_WriteToString(b, &t, WRITE_ADJLIST) == OK, "writing"); vs_assert(strcmp(s, t) == 0, "the standard input yields another text than a file"); free(s); free(t); }
  else vs_cover("refused");
  vs_trace("r", r);
}
#endif
void harness(void) {
  static esym s; static omat m, x; int n;
#if KIND == 0
  int pipe = vs_range("pipe", 0, 1), pos = vs_range("place", 0, AHI - ALO + 1), ch = vs_range("byte", 0, 7), cut = vs_range("cut", 0, 1), fn = vs_range("name", 0, 6); static char nm[16]; static const char by[] = {'0', '1', '9', ' ', '\n', '-', '~', 'N'};
  graphP g = sym_graph(&s, &m, NN), a = gp_New(), b = gp_New();
#if XD
  vs_assert(gp_AttachDrawPlanar(g) == OK, "attach"); int r = gp_Embed(g, EMBEDFLAGS_DRAWPLANAR); vs_assume(r == OK); vs_assert(gp_SortVertices(g) == OK, "sorting");
#endif
  n = text_of(g); gp_Free(&g); int nn = n;
  if (pos > 0) { int k = ALO + pos - 1; for (int i = ALO; i <= AHI; i++) if (i == k && i < n) { if (cut) nn = i; else T[i] = by[ch]; } }
  name_of(nm, fn); read_both(a, b, pipe, nn, nm); if (pos == 0) { om_of_graph(b, &x); vs_assert(b->N == NN && om_equal(&x, &m), "another graph than the one written"); }
  gp_Free(&a); gp_Free(&b);
#elif KIND == 1
  graphP g = sym_graph(&s, &m, NN); int twice = vs_range("twice", 0, 1), fn = vs_range("name", 0, 6); static char nm[16]; if (ZB) g->internalFlags |= FLAGS_ZEROBASEDIO;
#if XD
  vs_assert(gp_AttachDrawPlanar(g) == OK, "attach"); int r = gp_Embed(g, EMBEDFLAGS_DRAWPLANAR); vs_assume(r == OK);
#if XD == 2
  vs_assume(g->M > 0);
#define PUT(nm) gp_DrawPlanar_RenderToFile(g, nm)
#endif
#endif
#ifndef PUT
#define PUT(nm) gp_Write(g, nm, mode_of(FMT))
#endif
  name_of(nm, fn); vs_stdout_keep(); vs_assert(PUT(nm) == OK, "writing to a file"); int l = vs_file_get(nm, T, TCAP); vs_assert(l > 0 && l < TCAP, "nothing was written"); vs_assert(vs_stdout_get(X, 0) == 0, "writing to a file writes to the standard output");
 static omat y; om_of_graph(g, &y);
  printf("first\n"); vs_assert(PUT("stdout") == OK, "writing to the standard output"); printf("middle\n"); if (twice) vs_assert(PUT("stdout") == OK, "writing to the standard output again"); vs_assert(PUT("stderr") == OK, "writing to the standard error"); printf("last\n");
  int u = vs_stdout_get(U, sizeof U), q = 0; vs_assert(u > 0 && u < (int)sizeof U, "text too long");
  memcpy(X, "first\n", 6); q = 6; for (int i = 0; i < l; i++) X[q++] = T[i]; memcpy(X + q, "middle\n", 7); q += 7; if (twice) { vs_cover("twice"); for (int i = 0; i < l; i++) X[q++] = T[i]; } memcpy(X + q, "last\n", 5); q += 5;
  vs_assert(u == q, "the standard output got another amount of text than the file"); int bad = 0; for (int i = 0; i < q; i++) bad |= X[i] != U[i]; vs_assert(!bad, "the standard output got another text than the file");
  vs_assert(vs_open_streams() == 0, "a file was left open"); om_of_graph(g, &x); vs_assert(om_equal(&x, &y), "writing changed the graph"); vs_trace("l", l); gp_Free(&g);
#else
  static char A0[] = "planarity", As[] = "-s", Aq[] = "-q", Ac[] = "-x", Ai[] = "stdin", Ao[] = "stdout", Fi[] = "in.txt", Fo[] = "out.txt", O2[] = "out2.txt"; char *av[8], *aw[8];
  int pipe = vs_range("pipe", 0, 1), io = vs_range("streams", 1, 3), second = vs_range("second", 0, 1); Ac[1] = "po234d"[CMD]; graphP g = sym_graph(&s, &m, NN); n = text_of(g); gp_Free(&g);
  vs_file_put("in.txt", T, n); if (pipe) vs_stdin_pipe(T, n); else vs_stdin(T, n);
  int k = 0; av[k] = aw[k] = A0, k++; av[k] = aw[k] = As, k++; av[k] = aw[k] = Aq, k++; av[k] = aw[k] = Ac, k++; av[k] = Ai; aw[k] = Fi; if (!(io & 1)) av[k] = Fi; k++; av[k] = Ao; aw[k] = Fo; if (!(io & 2)) av[k] = Fo; k++; if (second) { av[k] = aw[k] = O2; k++; } av[k] = aw[k] = 0;
  int r = vs_app_main(k, aw), l = vs_file_get("out.txt", U, TCAP), l2 = vs_file_get("out2.txt", T, TCAP); if (l >= 0) remove("out.txt"); if (l2 >= 0) remove("out2.txt");
  vs_stdout_keep(); int q = vs_app_main(k, av); vs_assert(r == q, "the exit status differs when the standard streams are used"); vs_assert(r == 0 || r == 1, "the command failed");
  int bad = 0, w; if (io & 2) { w = vs_stdout_get(X, TCAP); vs_assert(w == (l < 0 ? 0 : l), "the standard output got another amount of text than the file"); } else { w = vs_file_get("out.txt", X, TCAP); vs_assert(w == l, "the output has another length"); vs_assert(vs_stdout_get(X, 0) == 0, "a quiet command writes to the standard output"); }
  for (int i = 0; i < w && i < l; i++) bad |= X[i] != U[i]; vs_assert(!bad, "the output differs when the standard streams are used");
  int w2 = vs_file_get("out2.txt", X, TCAP); vs_assert(w2 == l2, "the second output differs"); bad = 0; for (int i = 0; i < w2; i++) bad |= X[i] != T[i]; vs_assert(!bad, "the second output differs");
  if (r) vs_cover("refused"); else vs_cover("accepted"); vs_trace("r", r); vs_trace("l", l); vs_assert(vs_open_streams() == 0, "a file was left open");
#endif
  vs_files_release(); vs_no_leaks();
}
