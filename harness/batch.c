/* Commands over whole files.  ACT 0: -t C I O on KG graphs of order NN;  1: -x F I O on one graph (IFMT to OFMT);  2: TransformGraph with texts in memory;  3: TestAllGraphs to memory;  4, 5: like 0, 1 through the menu;
   BADAT: line of the -t input that is no graph (with BADCH in it), ORD2: order of that line's graph (a different one is an error) */
#include "oracle.h"
#include <stdlib.h>
#include <string.h>
#include "planarityRelated/graphDrawPlanar.h"
#include "homeomorphSearch/graphK23Search.h"
#include "homeomorphSearch/graphK33Search.h"
#include "homeomorphSearch/graphK4Search.h"
extern int vs_app_main(int argc, char *argv[]);
extern int TransformGraph(char *, char *, char *, int *, char *, char **);
extern int TestAllGraphs(char *, char *, char *, char **);
#ifndef KG
#define KG 1
#endif
#ifndef CMD
#define CMD 0
#endif
#ifndef ZB
#define ZB 0
#endif
#define TCAP 4096
static const int flagsOf[] = {EMBEDFLAGS_PLANAR, EMBEDFLAGS_OUTERPLANAR, EMBEDFLAGS_SEARCHFORK23, EMBEDFLAGS_SEARCHFORK33, EMBEDFLAGS_SEARCHFORK4, EMBEDFLAGS_DRAWPLANAR};
static const char *const letter = "po234d";
static char T[TCAP], U[TCAP];
static int num(char *t, int p, int v) { if (v > 9) p = num(t, p, v / 10); t[p++] = (char)('0' + v % 10); return p; }
static int enc(const omat *m, char *t, int p) { int bits = 0, cnt = 0; t[p++] = 63 + NN;
  for (int j = 2; j <= NN; j++) for (int i = 1; i < j; i++) { bits = bits << 1 | (m->a[i][j] != 0); if (++cnt == 6) { t[p++] = (char)(63 + bits); bits = 0; cnt = 0; } }
  if (cnt) t[p++] = (char)(63 + (bits << (6 - cnt))); return p; }
static int list(const omat *m, char *t, int zb) { int p = 0;
  t[p++] = 'N'; t[p++] = '='; p = num(t, p, NN); t[p++] = '\n';
  for (int v = 1; v <= NN; v++) { p = num(t, p, v - zb); t[p++] = ':'; for (int w = NN; w >= 1; w--) if (m->a[v][w]) { t[p++] = ' '; p = num(t, p, w - zb); } t[p++] = ' '; if (zb) { t[p++] = '-'; t[p++] = '1'; } else t[p++] = '0'; t[p++] = '\n'; } return p; }
static int matrix(const omat *m, char *t) { int p = num(t, 0, NN); t[p++] = '\n'; for (int v = 1; v <= NN; v++) { for (int w = 1; w <= NN; w++) t[p++] = w <= v ? ' ' : (char)('0' + m->a[v][w]); t[p++] = '\n'; } return p; }
static int lib_verdict(const esym *s) {
  graphP h = gp_New(); vs_assert(gp_EnsureArcCapacity(h, NN > 1 ? NN * (NN - 1) : 2) == OK && gp_InitGraph(h, NN) == OK, "init");
  if (CMD == 2) gp_AttachK23Search(h); if (CMD == 3) gp_AttachK33Search(h); if (CMD == 4) gp_AttachK4Search(h); if (CMD == 5) gp_AttachDrawPlanar(h);
  build_edges(h, s); int r = gp_Embed(h, flagsOf[CMD]); gp_Free(&h); return r;
}
static int read_file(const char *name) { int n = vs_file_get(name, U, TCAP - 1); vs_assert(n < TCAP - 1, "text too long"); U[n < 0 ? 0 : n] = 0; return n; }
static int run(char *act, char *c, char *i, char *o) { static char A0[] = "planarity", Aq[] = "-q"; char *argv[7]; int k = 0; argv[k++] = A0; argv[k++] = act; if (vs_range("quiet", 0, 1)) argv[k++] = Aq; argv[k++] = c; argv[k++] = i; argv[k++] = o; argv[k] = 0; return vs_app_main(k, argv); }
/* choice c of the menu; the output goes to out.txt or, if the answer is empty, to the console */
static int console;
static int menu(char c, char *in, char what) {
  static char S[80], A0[] = "planarity"; char *argv[2] = {A0, 0}; int k = 0; console = vs_range("console", 0, 1);
  S[k++] = vs_range("upper", 0, 1) ? c - 32 : c; S[k++] = '\n'; strcpy(S + k, in); k += (int)strlen(in); S[k++] = '\n'; if (!console) { memcpy(S + k, "out.txt", 7); k += 7; } S[k++] = '\n';
  if (vs_range("mistake", 0, 1)) { S[k++] = '!'; S[k++] = '\n'; } if (what > '9' && vs_range("upper_what", 0, 1)) what -= 32; S[k++] = what; memcpy(S + k, "\nk\nq\n", 6); k += 6; vs_stdin(S, k);
  if (console) vs_stdout_keep();
  int r = vs_app_main(1, argv); vs_assert(r == 0, "exit status of the menu");
  if (console) { /* what stands between the heading and the question that follows goes where the file would be */
    static char O[16384 + 1]; int n = vs_stdout_get(O, 16384), p = 0; vs_assert(n < 16384, "text too long"); O[n] = 0; vs_assert(vs_file_get("out.txt", O, 0) < 0, "console output in a file");
    while (p < n && memcmp(O + p, "Output:\n", 8)) p++;
    if (p < n) { int q = p + 8; while (q < n && memcmp(O + q, "\n\nPress", 7)) q++; vs_assert(q < n, "no question follows the output"); vs_file_put("out.txt", O + p + 8, q - p - 8); vs_cover("console"); }
  }
  return r;
}
void harness(void) {
  static char At[] = "-t", Ax[] = "-x", Ac[] = "-?", Ai[16] = "in.g6", Ao[] = "out.txt", N1[] = "in.txt";
  static esym s[KG]; static omat m[KG], x; int n = 0, r;
#if ACT == 6 /* arguments and inputs of a transformation in memory that are refused, and those next to them */
  static char *const G[] = {"", "N=2\n1: 2 0\n2: 1 0\n", "2\n 1\n  \n", "A_\n", "A", "N=2\n1: 3 0\n", "x"}; int gi = vs_range("input", 0, 6), d = vs_range("dash", 0, 2); Ac[0] = d ? '-' : 'x'; Ac[1] = (char)vs_range("letter", 32, 126);
  char *in = malloc(strlen(G[gi]) + 1), *o = 0; strcpy(in, G[gi]); r = TransformGraph(Ac, 0, in, 0, 0, &o); int good = d && (Ac[1] == 'a' || Ac[1] == 'm' || Ac[1] == 'g') && gi >= 1 && gi <= 3;
  vs_trace("result", r); vs_assert((r == OK) == good && (o != 0) == good, "transforming or refusing"); if (good) vs_cover("transformed"); else vs_cover("refused"); if (o) free(o);
  vs_assert(vs_open_streams() == 0, "stream left open"); vs_files_release(); vs_no_leaks(); return;
#endif
  for (int k = 0; k < KG; k++) sym_edges(&s[k], &m[k], NN);
#if ACT == 0 || ACT == 3 || ACT == 4
  int ok = 0, non = 0, good = KG, hd = vs_range("header", 0, 1), last = vs_range("final_newline", 0, 1); Ac[1] = letter[CMD];
  if (hd) { memcpy(T, ">>graph6<<", 10); n = 10; }
  for (int k = 0; k < KG; k++) {
#ifdef BADAT
    int p = n; n = enc(&m[k], T, n); if (k == BADAT) { int how = vs_range("damage", 0, 3); if (how == 0) n--; if (how == 1) T[n++] = 'A'; if (how == 2) T[p]++; if (how == 3) T[n - 1] = ' '; good = k; }
#else
    n = enc(&m[k], T, n);
#endif
    if (k < KG - 1 || last) T[n++] = '\n';
    if (k < good) { int q = lib_verdict(&s[k]); if (q == OK) ok++; else if (q == NONEMBEDDABLE) non++; vs_trace("verdict", q); }
  }
  /* the results name the file without its directories */
  int deep = ACT == 0 || ACT == 4 ? vs_range("directory", 0, 2) : 0; if (deep) strcpy(Ai, deep == 1 ? "a/in.g6" : "a/b/in.g6");
  vs_file_put(Ai, T, n);
#if ACT == 0
  r = run(At, Ac, Ai, Ao);
#elif ACT == 4
  r = menu('t', Ai, Ac[1]);
#else
  { char *o = 0; r = TestAllGraphs(Ac, Ai, 0, &o) == OK ? 0 : -1; if (o) { vs_file_put("out.txt", o, (int)strlen(o)); free(o); } }
#endif
  int n1 = read_file("out.txt"), p = 0; 
  if (good == KG) { vs_assert(r == 0, "testing all graphs failed"); vs_assert(n1 >= 0, "no results were written"); vs_cover("counted"); if (ok && non) vs_cover("mixed"); } else { vs_assert(ACT == 4 || (r != 0 && r != 1), "an unreadable graph is passed over"); vs_cover("broken"); }
  if (n1 >= 0) {
    static char W[80]; int w = 0, bad = 0; W[w++] = '-'; W[w++] = letter[CMD]; W[w++] = ' ';
    vs_assert(!memcmp(U, "FILENAME=\"in.g6\"", 16), "the results name another file");
    while (U[p] && U[p] != '\n') p++; vs_assert(U[p] == '\n', "results have no second line"); p++;
    if (good == KG) { w = num(W, w, KG); W[w++] = ' '; w = num(W, w, ok); W[w++] = ' '; w = num(W, w, non); memcpy(W + w, " SUCCESS\n", 9); w += 9; for (int i = 0; i <= w; i++) bad |= U[p + i] != W[i]; vs_assert(!bad, "the counts reported are not those of the graphs"); }
    else { vs_assert(n1 >= 7 && memcmp(U + n1 - 7, " ERROR\n", 7) == 0, "results of an unreadable file are not marked as an error"); }
  }
  vs_assert(vs_file_get(Ai, U, TCAP) == n && memcmp(U, T, n) == 0, "the input file was changed");
#else
  n = IFMT == 1 ? list(&m[0], T, ZB) : IFMT == 2 ? matrix(&m[0], T) : (n = enc(&m[0], T, 0), T[n] = '\n', n + 1); T[n] = 0; Ac[1] = OFMT == 1 ? 'a' : OFMT == 2 ? 'm' : 'g';
#if ACT == 1
  vs_file_put("in.txt", T, n); r = run(Ax, Ac, N1, Ao);
  vs_assert(r == 0, "the transformation failed");
#elif ACT == 5
  vs_file_put("in.txt", T, n); r = menu('x', N1, Ac[1]);
#else
  { char *in = malloc(n + 1), *o = 0; memcpy(in, T, n + 1); int base = 7; r = TransformGraph(Ac, 0, in, &base, 0, &o); vs_assert(r == OK && o != 0, "the transformation failed"); if (o) { vs_file_put("out.txt", o, (int)strlen(o)); free(o); } vs_assert(base == ((IFMT == 1 && ZB) || IFMT == 4), "base reported"); }
#endif
  int n1 = read_file("out.txt");  vs_assert(n1 > 0, "no output was written");
  if (OFMT == 4) { int k = enc(&m[0], T + TCAP / 2, 0), bad = 0; vs_assert(memcmp(U, ">>graph6<<", 10) == 0, "no graph6 header"); for (int i = 0; i < k; i++) bad |= U[10 + i] != T[TCAP / 2 + i]; bad |= !(U[10 + k] == 0 || U[10 + k] == '\n' && U[11 + k] == 0); vs_assert(!bad, "the text is not the graph6 encoding of the graph"); }
  else vs_assert(OFMT == 1 ? U[0] == 'N' : U[0] >= '0' && U[0] <= '9', "output in another format");
  if (OFMT == 1) { char z = IFMT == 1 && ZB || IFMT == 4 ? '0' : '1'; int i = 0; while (U[i] && U[i] != '\n') i++; vs_assert(U[i + 1] == z && U[i + 2] == ':', "the numbering of the vertices changed"); }
  char *q = malloc(n1 + 1); memcpy(q, U, n1 + 1); graphP h = gp_New(); vs_assert(gp_ReadFromString(h, q) == OK, "output cannot be read"); vs_assert(h->N == NN, "order of the output");
  om_of_graph(h, &x); vs_assert(om_equal(&x, &m[0]), "the transformation changed the graph"); gp_Free(&h); vs_cover("transformed");
#endif
  vs_trace("status", r); vs_assert(vs_open_streams() == 0, "stream left open"); vs_files_release(); vs_no_leaks();
}
