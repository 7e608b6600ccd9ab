/* The commands that make random graphs, under every stream of random numbers (as in random.c).
   ACT 0: -rm, 1: -rn, 2: -r, 3: random graphs from the menu after reconfiguration, 4: a single graph from the menu.  CMD as in cli.c, KG: number of graphs for -r */
#include "oracle.h"
#include <stdlib.h>
#include <string.h>
#include "planarityRelated/graphDrawPlanar.h"
#include "homeomorphSearch/graphK23Search.h"
#include "homeomorphSearch/graphK33Search.h"
#include "homeomorphSearch/graphK4Search.h"
extern int vs_app_main(int argc, char *argv[]);
#ifndef SYM
#define SYM 6
#endif
#ifndef RMAX
#define RMAX 15
#endif
#ifndef KG
#define KG 1
#endif
#ifndef CMD
#define CMD 0
#endif
#define TCAP 4096
#define PAIRS (NN * (NN + 1))
static const int flagsOf[] = {EMBEDFLAGS_PLANAR, EMBEDFLAGS_OUTERPLANAR, EMBEDFLAGS_SEARCHFORK23, EMBEDFLAGS_SEARCHFORK33, EMBEDFLAGS_SEARCHFORK4, EMBEDFLAGS_DRAWPLANAR};
static const char *const letter = "po234d";
static int script[SYM + 4 * KG * (2 * PAIRS + 1)], nscript; static char U[TCAP];
static void stream(void) {
  int n = 0;
  for (int i = 0; i < SYM; i++) script[n++] = vs_range("rand", 0, RMAX);
  for (int k = 0; k < KG; k++) for (int sh = 0; sh < 2; sh++) { for (int a = 0; a < NN; a++) for (int b = 0; b <= NN; b++) { script[n++] = a; script[n++] = b; } if (!sh) script[n++] = 0; }
  nscript = n;
}
static int read_file(const char *name) { int n = vs_file_get(name, U, TCAP - 1); vs_assert(n < TCAP - 1, "text too long"); U[n < 0 ? 0 : n] = 0; return n; }
static graphP graph_in(const char *name, int order) { /* the graph of an output file */
  int n = read_file(name); vs_assert(n >= 0, "an output file is missing"); char *s = malloc(n + 1); memcpy(s, U, n + 1);
  graphP h = gp_New(); vs_assert(gp_ReadFromString(h, s) == OK, "output cannot be read"); vs_assert(h->N == order, "order of the output"); return h;
}
static int nbr(const char *t, int *p) { int v = 0; vs_assert(t[*p] >= '0' && t[*p] <= '9', "number expected"); while (t[*p] >= '0' && t[*p] <= '9') v = v * 10 + t[(*p)++] - '0'; return v; }
static void edge_list(const char *name, const omat *m) { /* a title line, then exactly the edges of m, then 0 0 */
  static omat x; int n = read_file(name), p = 0, u, v, bad = 0; vs_assert(n >= 0, "the edge list is missing"); memset(&x, 0, sizeof x); x.n = NN;
  while (U[p] && U[p] != '\n') p++; vs_assert(U[p] == '\n', "edge list without title"); p++;
  for (;;) { u = nbr(U, &p); vs_assert(U[p] == ' ', "edge list"); p++; v = nbr(U, &p); vs_assert(U[p] == '\n', "edge list"); p++; if (!u && !v) break; vs_assert(u >= 1 && u <= NN && v >= 1 && v <= NN, "edge list: vertex out of range"); x.a[u][v]++; x.a[v][u]++; }
  vs_assert(!U[p], "text after the end of the edge list"); for (int i = 1; i <= NN; i++) for (int j = 1; j <= NN; j++) bad |= x.a[i][j] != m->a[i][j]; vs_assert(!bad, "the edge list is not the one of the graph");
}
#if ACT >= 2
static char O[16384 + 1];
static int stat(const char *what, int n) { /* the number that follows the words in the console text */
  int k = (int)strlen(what), p = 0; while (p < n && memcmp(O + p, what, k)) p++; vs_assert(p < n, "a statistic is missing"); p += k; return nbr(O, &p);
}
#endif
void harness(void) {
  static char A0[] = "planarity", Aq[] = "-q", An[4], Ak[4], O1[] = "out.txt", O2[] = "out2.txt"; static omat m, x; char *argv[9]; int k = 0, r, fm[64], F;
  stream(); An[0] = (char)('0' + NN);
#if ACT == 4 /* a single graph through the menu, the result on the console */
  static char S[40], L[64], want[64]; int sl = 0, e = vs_range("extra", 0, 1), list = vs_range("edge_list", 0, 1), up = vs_range("upper", 0, 1); memcpy(S, "r\n", 2); sl = 2;
  S[sl++] = (char)((e ? 'n' : 'm') - (up ? 32 : 0)); S[sl++] = '\n'; S[sl++] = letter[CMD]; S[sl++] = '\n'; S[sl++] = An[0]; S[sl++] = '\n'; S[sl++] = list ? 'y' : 'n'; memcpy(S + sl, "\nk\nq\n", 5); sl += 5; vs_stdin(S, sl); argv[0] = A0; argv[1] = 0;
  vs_rand_script(script, nscript); vs_stdout_keep(); r = vs_app_main(1, argv); vs_trace("status", r); vs_assert(r == 0, "exit status of the menu"); int n = vs_stdout_get(O, 16384); vs_assert(n < 16384, "text too long"); O[n] = 0; (void)k; (void)Aq; (void)Ak; (void)O1; (void)O2; (void)fm; (void)F;
  graphP g = gp_New(); vs_assert(gp_InitGraph(g, NN) == OK, "init"); if (CMD == 2) gp_AttachK23Search(g); if (CMD == 3) gp_AttachK33Search(g); if (CMD == 4) gp_AttachK4Search(g); if (CMD == 5) gp_AttachDrawPlanar(g);
  vs_rand_script(script, nscript); vs_assert(gp_CreateRandomGraphEx(g, 3 * NN - 6 + e) == OK, "generating"); om_of_graph(g, &m); int q = gp_Embed(g, flagsOf[CMD]); vs_assert(q == OK || q == NONEMBEDDABLE, "embedding failed"); gp_SortVertices(g); int spec = CMD < 2 || (CMD == 5 ? q == OK : q == NONEMBEDDABLE); if (spec) om_of_graph(g, &x); gp_Free(&g);
  if (NN > 4) vs_assert(om_edges(&m) == 3 * NN - 6 + e, "number of edges");
  static const char *const Y[] = {"is planar.", "is outerplanar.", "has no subgraph homeomorphic to K_{2,3}.", "has no subgraph homeomorphic to K_{3,3}.", "has no subgraph homeomorphic to K_4.", "is planar."}, *const Z[] = {"is not planar.", "is not outerplanar.", "has a subgraph homeomorphic to K_{2,3}.", "has a subgraph homeomorphic to K_{3,3}.", "has a subgraph homeomorphic to K_4.", "is not planar."};
  strcpy(want, "The graph "); strcat(want, q == OK ? Y[CMD] : Z[CMD]); { int w = (int)strlen(want), p = 0; while (p < n && memcmp(O + p, want, w)) p++; vs_assert(p < n, "the answer of the algorithm is not reported"); }
  if (q == OK) vs_cover("positive"); else vs_cover("negative");
  for (int j = 0; j < 2; j++) { strcpy(L, j ? "nonPlanarEdgeList.txt" : "maxPlanarEdgeList.txt"); if (list && j == e) { edge_list(L, &m); strcat(L, ".out.txt"); if (spec) edge_list(L, &x); vs_cover("edge list"); } else vs_assert(vs_file_get(L, U, 4) < 0, "unrequested edge list"); }
#elif ACT < 2
  static char Am[] = "-rm", Ar[] = "-rn"; int quiet = vs_range("quiet", 0, 1), two = vs_range("second_output", 0, 1), list = vs_range("edge_list", 0, 1), ask = vs_range("prompt", 0, 1); static char S[16]; int sl = 0;
  argv[k++] = A0; argv[k++] = ACT ? Ar : Am; if (quiet) argv[k++] = Aq; argv[k++] = An; argv[k++] = O1; if (two) argv[k++] = O2; argv[k] = 0;
  if (ask) { S[sl++] = An[0]; S[sl++] = '\n'; An[0] = '0'; } S[sl++] = list ? 'y' : 'n'; S[sl++] = '\n'; vs_stdin(S, sl);
  vs_rand_script(script, nscript); r = vs_app_main(k, argv); vs_trace("status", r);
  graphP g = gp_New(); vs_assert(gp_InitGraph(g, NN) == OK, "init"); vs_rand_script(script, nscript); vs_assert(gp_CreateRandomGraphEx(g, 3 * NN - 6 + ACT) == OK, "generating"); om_of_graph(g, &m); gp_Free(&g);
  if (ACT == 0 || NN < 5) vs_assert(r == 0, "exit status of a planar graph"); else vs_assert(r == 1, "exit status of a graph that is not planar");
  if (NN > 4 || !ACT && NN > 2) vs_assert(om_edges(&m) == 3 * NN - 6 + ACT, "number of edges");
  graphP h = graph_in(O1, NN);
  if (r == 0) { cert_planar(h, &m, fm, &F); vs_cover("embedding"); } else { cert_subgraph_of(h, &m, &x); vs_assert(is_Kk(&x, 5) | is_K33(&x), "obstruction is not a K5 or K3,3 homeomorph"); vs_cover("obstruction"); }
  om_of_graph(h, &x); gp_Free(&h);
  if (two) { static omat y; graphP q = graph_in(O2, NN); om_of_graph(q, &y); vs_assert(om_equal(&y, &m), "the second output is not the generated graph"); gp_Free(&q); } else vs_assert(vs_file_get(O2, U, 4) < 0, "unrequested output");
  static char L[64]; strcpy(L, ACT ? "nonPlanarEdgeList.txt" : "maxPlanarEdgeList.txt");
  if (list && !quiet) { edge_list(L, &m); strcat(L, ".out.txt"); edge_list(L, &x); vs_cover("edge list"); } else vs_assert(vs_file_get(L, U, 4) < 0, "unrequested edge list");
#else
  static char Ar[] = "-r", Ac[] = "-p", name[32]; static omat gm[KG]; static int verdict[KG], minor[KG]; int files[4] = {0, 0, 0, 0}, ok = 0; static char S[40]; int sl = 0; Ac[1] = letter[CMD]; Ak[0] = (char)('0' + KG);
  vs_rand_script(script, nscript);
  { graphP g = gp_New(); vs_assert(gp_InitGraph(g, NN) == OK, "init"); for (int i = 0; i < KG; i++) { vs_assert(gp_CreateRandomGraph(g) == OK, "generating"); om_of_graph(g, &gm[i]);
      graphP h = gp_DupGraph(g); if (CMD == 2) gp_AttachK23Search(h); if (CMD == 3) gp_AttachK33Search(h); if (CMD == 4) gp_AttachK4Search(h); if (CMD == 5) gp_AttachDrawPlanar(h);
      verdict[i] = gp_Embed(h, flagsOf[CMD]); minor[i] = CMD < 2 && verdict[i] == NONEMBEDDABLE ? h->IC.minorType : 0; ok += verdict[i] == OK; gp_Free(&h); gp_ReinitializeGraph(g); } gp_Free(&g); }
  vs_trace("ok", ok); vs_rand_script(script, nscript); vs_stdout_keep();
#if ACT == 2
  int ask = vs_range("prompt", 0, 1); if (ask) { S[sl++] = Ak[0]; S[sl++] = '\n'; S[sl++] = An[0]; S[sl++] = '\n'; Ak[0] = An[0] = '0'; vs_stdin(S, sl); }
  int quiet = vs_range("quiet", 0, 1); argv[k++] = A0; argv[k++] = Ar; if (quiet) argv[k++] = Aq; argv[k++] = Ac; argv[k++] = Ak; argv[k++] = An; argv[k] = 0;
  r = vs_app_main(k, argv);
#else
  int quiet = 0; memcpy(S, "r\nr\n", 4); sl = 4; for (int i = 0; i < 4; i++) { files[i] = vs_range("file", 0, 1); S[sl++] = files[i] ? 'y' : 'n'; S[sl++] = '\n'; }
  S[sl++] = Ac[1]; S[sl++] = '\n'; S[sl++] = Ak[0]; S[sl++] = '\n'; S[sl++] = An[0]; memcpy(S + sl, "\nk\nq\n", 5); sl += 5; vs_stdin(S, sl); argv[0] = A0; argv[1] = 0;
  r = vs_app_main(1, argv);
#endif
  vs_assert(r == 0, "exit status");
  int n = vs_stdout_get(O, 16384); vs_assert(n < 16384, "text too long"); O[n] = 0;
  if (!quiet) {
    static const char *const W[] = {"Num Embedded=", "Num Embedded=", "Of the generated graphs, ", "Of the generated graphs, ", "Of the generated graphs, ", "Num Graphs Embedded and Drawn="};
    vs_assert(stat(W[CMD], n) == ok, "the number of graphs reported");
    if (CMD < 2) { int s = 0; for (int c = 0; c < 5; c++) if (CMD == 0 || c < 2 || c == 4) { static char q[] = "Minor A = "; q[6] = (char)('A' + c); s += stat(q, n); } vs_assert(s == KG - ok, "the obstructions reported do not add up"); }
    if (CMD < 2) { /* each obstruction is counted under the kind the embedder found */
      static const int K[9] = {MINORTYPE_A, MINORTYPE_B, MINORTYPE_C, MINORTYPE_D, MINORTYPE_E, MINORTYPE_E1, MINORTYPE_E2, MINORTYPE_E3, MINORTYPE_E4}; int cnt[9] = {0};
      for (int i = 0; i < KG; i++) { for (int c = 0; c < 5; c++) if (minor[i] & K[c]) { cnt[c]++; break; } for (int c = 5; c < 9; c++) if (minor[i] & K[c]) { cnt[c]++; vs_cover("kind of minor E"); break; } }
      for (int c = 0; c < 5; c++) if (CMD == 0 || c < 2 || c == 4) { static char q[] = "Minor A = "; q[6] = (char)('A' + c); vs_assert(stat(q, n) == cnt[c], "an obstruction is counted under another kind"); }
      if (CMD == 0) for (int c = 5; c < 9; c++) { static char q[] = "Minor E1 = "; q[7] = (char)('1' + c - 5); vs_assert(stat(q, n) == cnt[c], "an obstruction is counted under another kind of minor E"); } }
    vs_cover("statistics"); if (ok && ok < KG) vs_cover("mixed");
  }
  static const char *const dir[] = {"random/0.txt", "embedded/0.txt", "obstructed/0.txt", "adjlist/0.txt"};
  for (int i = 0; i < KG; i++) for (int f = 0; f < 4; f++) {
    strcpy(name, dir[f]); int p = 0; while (name[p] != '/') p++; name[p + 1] = (char)('0' + i);
    int want = files[f] && (f == 0 || (f == 2 ? CMD < 2 && verdict[i] == NONEMBEDDABLE : verdict[i] == OK)), have = vs_file_get(name, U, 4) >= 0; vs_assert(have == want, "an output is present or absent contrary to the configuration");
    if (have) { graphP h = graph_in(name, NN); om_of_graph(h, &x);
      if (f == 0) vs_assert(om_equal(&x, &gm[i]), "the graph written is not the one generated");
      if (f == 1) vs_assert(om_edges(&x) == om_edges(&gm[i]), "edges of the embedded graph");
      if ((f == 1 || f == 3) && CMD >= 2 && CMD <= 4) { vs_assert(om_equal(&x, &gm[i]), "the graph written is not the one generated"); vs_cover("searched"); }
      else if (f == 3) { vs_assert(om_edges(&x) == om_edges(&gm[i]), "edges of the embedding"); if (CMD == 1) cert_outerplanar(h, &x); else cert_planar(h, &x, fm, &F); vs_cover("embedding"); }
      if (f == 2) { vs_assert(om_edges(&x) <= om_edges(&gm[i]), "edges of the obstruction"); vs_assert(CMD == 0 ? is_Kk(&x, 5) | is_K33(&x) : is_Kk(&x, 4) | is_K23(&x), "not an obstruction"); vs_cover("obstruction"); }
      gp_Free(&h); }
  }
#endif
  vs_assert(vs_open_streams() == 0, "stream left open"); vs_files_release(); vs_no_leaks();
}
