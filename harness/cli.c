/* The command line on one graph.  ACT 0: -s C I O [O2], 1: legacy "I O [-n O2]", 2: SpecificGraph with texts in memory,
   3: refused invocations, 4: the menu.  CMD: 0 planar .. 5 draw;  IFMT: 1 adjacency list, 2 matrix, 4 graph6;  ZB: zero-based list */
#include "oracle.h"
#include <stdlib.h>
#include <string.h>
#include "planarityRelated/graphDrawPlanar.h"
#include "homeomorphSearch/graphK23Search.h"
#include "homeomorphSearch/graphK33Search.h"
#include "homeomorphSearch/graphK4Search.h"
extern int vs_app_main(int argc, char *argv[]);
extern char *GetAlgorithmName(char), Mode;
extern int SpecificGraph(char, char *, char *, char *, char *, char **, char **);
#ifndef ZB
#define ZB 0
#endif
#define TCAP 4096
static const int flagsOf[] = {EMBEDFLAGS_PLANAR, EMBEDFLAGS_OUTERPLANAR, EMBEDFLAGS_SEARCHFORK23, EMBEDFLAGS_SEARCHFORK33, EMBEDFLAGS_SEARCHFORK4, EMBEDFLAGS_DRAWPLANAR};
static const char *const letter = "po234d";
static char T[TCAP], U[TCAP];
static int num(char *t, int p, int v) { if (v > 9) t[p++] = (char)('0' + v / 10); t[p++] = (char)('0' + v % 10); return p; }
static int compose(const omat *m, char *t) {
  int p = 0;
#if IFMT == 1
  t[p++] = 'N'; t[p++] = '='; p = num(t, p, NN); t[p++] = '\n';
  for (int v = 1; v <= NN; v++) { p = num(t, p, v - ZB); t[p++] = ':'; for (int w = NN; w >= 1; w--) if (m->a[v][w]) { t[p++] = ' '; p = num(t, p, w - ZB); } t[p++] = ' '; if (ZB) { t[p++] = '-'; t[p++] = '1'; } else t[p++] = '0'; t[p++] = '\n'; }
#elif IFMT == 2
  p = num(t, p, NN); t[p++] = '\n';
  for (int v = 1; v <= NN; v++) { for (int w = 1; w <= NN; w++) t[p++] = w <= v ? ' ' : (char)('0' + m->a[v][w]); t[p++] = '\n'; }
#else
  int bits = 0, cnt = 0; t[p++] = 63 + NN;
  for (int j = 2; j <= NN; j++) for (int i = 1; i < j; i++) { bits = bits << 1 | (m->a[i][j] != 0); if (++cnt == 6) { t[p++] = (char)(63 + bits); bits = 0; cnt = 0; } }
  if (cnt) t[p++] = (char)(63 + (bits << (6 - cnt))); t[p++] = '\n';
#endif
  t[p] = 0; return p;
}
/* the graph of a text, which has to be readable */
static graphP graph_of(const char *t, int n) { char *s = malloc(n + 1); memcpy(s, t, n); s[n] = 0; graphP h = gp_New(); vs_assert(gp_ReadFromString(h, s) == OK, "output cannot be read"); vs_assert(h->N == NN, "order of the output"); return h; }
static void certify(const char *t, int n, const omat *m, int r) { /* what the text says proves verdict r for m */
  static omat x; graphP h = graph_of(t, n);
  if (r == OK) { if (CMD == 1) cert_outerplanar(h, m); else cert_planar(h, m, 0, 0); vs_cover("embedding"); }
  else { cert_subgraph_of(h, m, &x); vs_cover("obstruction");
    if (CMD == 0) vs_assert(is_Kk(&x, 5) | is_K33(&x), "obstruction is not a K5 or K3,3 homeomorph"); if (CMD == 1) vs_assert(is_Kk(&x, 4) | is_K23(&x), "obstruction is not a K4 or K2,3 homeomorph");
    if (CMD == 2) vs_assert(is_K23(&x), "subgraph found is not a K2,3 homeomorph"); if (CMD == 3) vs_assert(is_K33(&x), "subgraph found is not a K3,3 homeomorph"); if (CMD == 4) vs_assert(is_Kk(&x, 4), "subgraph found is not a K4 homeomorph"); }
  gp_Free(&h);
}
static char *lib_drawing(int *r) { /* verdict and drawing of the library for the graph of T */
  graphP h = graph_of(T, (int)strlen(T)); char *p = 0;
  if (CMD == 2) gp_AttachK23Search(h); if (CMD == 3) gp_AttachK33Search(h); if (CMD == 4) gp_AttachK4Search(h); if (CMD == 5) gp_AttachDrawPlanar(h);
  *r = gp_Embed(h, flagsOf[CMD]); gp_SortVertices(h); if (CMD == 5 && *r == OK) vs_assert(gp_DrawPlanar_RenderToString(h, &p) == OK, "rendering"); gp_Free(&h); return p;
}
static int read_file(const char *name) { int n = vs_file_get(name, U, TCAP - 1); vs_assert(n < TCAP - 1, "text too long"); U[n < 0 ? 0 : n] = 0; return n; }
static int same(const char *a, const char *b) { int i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
void harness(void) {
  static char A0[] = "planarity", As[] = "-s", Aq[] = "-q", Ac[] = "-x", Ai[] = "in.txt", Ao[] = "out.txt", A2[] = "out2.txt", An[] = "-n";
  static esym s; static omat m; int r, n;
#if ACT == 3
  static char *bad[][6] = {{A0, As, Ac, Ai, Ao}, {A0, As, Ac, Ai}, {A0, As, Ac}, {A0, As}, {A0, As, Aq, Ac, Ai}, {A0, Ac, Ao, Ai}, {A0, Ac, Aq, Ai}}; static const int len[] = {5, 4, 3, 2, 5, 4, 4};
  int k = vs_range("invocation", 0, 6), pre = vs_range("input", 0, 3); Ac[1] = (char)vs_range("letter", 32, 126);
  static char *const G[] = {"", "N=2\n1: 2 0\n2: 3 0\n", "2\n 1\n  \n", "A_\n"}; static const int gl[] = {0, 18, 8, 3};
  vs_assume(k < 5 || !(Ac[1] == 't' || Ac[1] == 'x' || Ac[1] == 'h' || Ac[1] == 'i' || Ac[1] == 's' || Ac[1] == 'r')); vs_assume(Ac[1] != 'q');
  if (pre) vs_file_put("in.txt", G[pre], gl[pre]);
  int valid = k == 0 && pre > 1 && (Ac[1] == 'p' || Ac[1] == 'd' || Ac[1] == 'o' || Ac[1] == '2' || Ac[1] == '3' || Ac[1] == '4');
  r = vs_app_main(len[k], bad[k]);
  if (valid) { vs_assert(r == 0, "exit status of a proper invocation"); vs_cover("proper"); } else { vs_assert(r != 0 && r != 1, "a refused invocation exits with a verdict"); vs_assert(vs_file_get("out.txt", U, 4) < 0, "a refused invocation writes an output"); vs_cover("refused"); }
  vs_trace("status", r); vs_assert(vs_open_streams() == 0, "stream left open"); vs_files_release(); vs_no_leaks(); return;
#endif
#if ACT == 5 /* names of any length */
  static char N1[1300], N2[1300], F1[] = "in.txt", F2[] = "out.txt"; static const int len[] = {127, 128, 129, 130, 200, 255, 256, 600, 986, 987, 988, 1000, 1022, 1023, 1024, 1025, 1026, 1100, 1299};
  static char *act[] = {"-s", "-t", "-x"}, *cmd[] = {"-p", "-p", "-a"}; int w = vs_range("command", 0, 2), li = vs_range("length", 0, 18), which = vs_range("which", 1, 3), q = vs_range("quiet", 0, 1), k = 0; char *argv[8];
  for (int i = 0; i < 1299; i++) N1[i] = N2[i] = i < len[li] ? 'a' + i % 26 : 0; N2[0] = 'Z';
  if (!(which & 1)) vs_file_put("in.txt", "A_\n", 3);
  argv[k++] = A0; argv[k++] = act[w]; if (q) argv[k++] = Aq; argv[k++] = cmd[w]; argv[k++] = which & 1 ? N1 : F1; argv[k++] = which & 2 ? N2 : F2; argv[k] = 0;
  r = vs_app_main(k, argv); vs_trace("status", r);
  if (which & 1) { vs_assert(r == -1, "exit status for an input that does not exist"); vs_cover("no input"); }
  else if (len[li] <= 128) { vs_assert(r == 0 && vs_file_get(N2, U, 4) > 0, "no output under a proper name"); vs_cover("proper name"); }
  else if (w && len[li] > 255) { vs_assert(r == -1, "exit status if the output cannot be written"); vs_cover("no output"); }
  vs_assert(vs_open_streams() == 0, "stream left open"); vs_files_release(); vs_no_leaks(); return;
#endif
  sym_edges(&s, &m, NN); n = compose(&m, T); vs_file_put("in.txt", T, n);
  int lr; char *pic = lib_drawing(&lr), *o1 = 0, *o2 = 0; vs_trace("verdict", lr);
  int two = vs_range("second_output", 0, 1);
#if ACT == 0
  int quiet = vs_range("quiet", 0, 1), k = 0; char *argv[8]; Ac[1] = letter[CMD];
  argv[k++] = A0; argv[k++] = As; if (quiet) argv[k++] = Aq; argv[k++] = Ac; argv[k++] = Ai; argv[k++] = Ao; if (two) argv[k++] = A2; argv[k] = 0;
  r = vs_app_main(k, argv); vs_assert(r == (lr == OK ? 0 : 1), "the exit status is not the verdict"); r = lr;
#elif ACT == 1
  int k = 0; char *argv[6]; argv[k++] = A0; argv[k++] = Ai; argv[k++] = Ao; if (two) { argv[k++] = An; argv[k++] = A2; } argv[k] = 0;
  r = vs_app_main(k, argv); vs_assert(r == 0, "the exit status is not the verdict"); r = lr;
#elif ACT == 4
  static char S[80], P[64], Q[80]; int k = 0; char *argv[2] = {A0, 0}, L = letter[CMD]; two = 1;
  if (vs_range("mode", 0, 1)) { memcpy(S, "r\ns\n", 4); k = 4; } else Mode = 's';
  if (L > '9' && vs_range("upper", 0, 1)) L -= 32; S[k++] = L; S[k++] = '\n'; memcpy(S + k, "in.txt\nk\nq\n", 11); k += 11; vs_stdin(S, k);
  r = vs_app_main(1, argv); vs_assert(r == 0, "exit status of the menu"); r = lr;
  strcpy(P, "in.txt."); strcat(P, GetAlgorithmName(letter[CMD])); strcat(P, ".out.txt"); strcpy(Q, P); strcat(Q, ".render.txt");
#else
  char *in = malloc(n + 1); memcpy(in, T, n + 1); int named = vs_range("named", 0, 1);
  r = SpecificGraph(letter[CMD], named ? Ai : 0, 0, 0, in, &o1, two ? &o2 : 0); vs_assert(r == lr, "the result is not the verdict");
  if (o1) vs_file_put("out.txt", o1, (int)strlen(o1)); if (o2) vs_file_put("out2.txt", o2, (int)strlen(o2));
#endif
#if ACT != 4
  static char P[] = "out.txt", Q[] = "out2.txt";
#endif
  int n1 = read_file(P), want1 = CMD <= 1 ? r == OK || ((ACT == 2 || ACT == 4) && two) : CMD == 5 ? r == OK : r == NONEMBEDDABLE;
  vs_assert((n1 >= 0) == (want1 != 0), "primary output present or absent contrary to the documentation");
  if (n1 >= 0) certify(U, n1, &m, r);
  int n2 = read_file(Q), want2 = two && ACT != 2 && ACT != 4 && CMD <= 1 && r == NONEMBEDDABLE || two && CMD == 5 && r == OK;
  vs_assert((n2 >= 0) == (want2 != 0), "secondary output present or absent contrary to the documentation");
  if (n2 >= 0) { if (CMD == 5) { vs_assert(same(U, pic), "the drawing is not the one of the embedding"); vs_cover("drawing"); } else certify(U, n2, &m, r); }
  vs_assert(read_file("in.txt") == n && same(U, T), "the input file was changed");
  if (r != OK) vs_cover("refused");
  if (pic) free(pic); if (o1) free(o1); if (o2) free(o2);
  vs_assert(vs_open_streams() == 0, "stream left open"); vs_files_release(); vs_no_leaks();
}
