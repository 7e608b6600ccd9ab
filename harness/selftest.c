/* The comparisons on which the application's self-test rests.
   KIND 0: TextFileMatchesString, 1: TextFilesEqual, 2: BinaryFilesEqual, 3: ReadTextFileIntoString on every pair of texts of up to LEN
   characters over {a, b, LF, CR};  4: runSpecificGraphTest, 5: runGraphTransformationTest with an exemplar changed at any one position */
#include "oracle.h"
#include <stdlib.h>
#include <string.h>
extern int TextFileMatchesString(char *, char *), TextFilesEqual(char *, char *), BinaryFilesEqual(char *, char *), runSpecificGraphTest(char *, char *, int), runGraphTransformationTest(char *, char *, int);
extern char *ReadTextFileIntoString(char *), *GetAlgorithmName(char);
extern int vs_app_main(int argc, char *argv[]);
#ifndef LEN
#define LEN 4
#endif
#define TCAP 4096
#if KIND < 4
static int text(char *t) { int n = vs_range("length", 0, LEN); for (int i = 0; i < LEN; i++) { int c = vs_range("char", 0, 4); t[i] = i < n ? (char)(c == 0 ? 'a' : c == 1 ? 'b' : c == 2 ? '\n' : c == 3 ? '\r' : 0xC3) : 0; } t[n] = 0; return n; }
static int strip(const char *t, int n, char *u) { int k = 0; for (int i = 0; i < n; i++) if (t[i] != '\r') u[k++] = t[i]; for (int i = k; i <= LEN; i++) u[i] = 0; return k; }
void harness(void) {
  static char A[LEN + 2], B[LEN + 2], C[LEN + 2], D[LEN + 2], f1[] = "one.txt", f2[] = "two.txt"; int n = text(A), k = KIND == 3 ? 0 : text(B), same = 1, r, have1 = vs_range("have1", 0, 3) != 0, have2 = KIND == 1 || KIND == 2 ? vs_range("have2", 0, 3) != 0 : 1;
  if (have1) vs_file_put(f1, A, n);
#if KIND == 3
  char *s = ReadTextFileIntoString(f1); vs_assert((s != 0) == have1, "missing file");
  if (s) { for (int i = 0; i <= LEN; i++) if (i <= n) same &= s[i] == A[i]; vs_assert(same, "the string is not the text of the file"); free(s); vs_cover("read"); } r = s != 0;
#else
  if (KIND == 2) { same = n == k; for (int i = 0; i < LEN; i++) same &= A[i] == B[i]; } else { same = strip(A, n, C) == strip(B, k, D); for (int i = 0; i < LEN; i++) same &= C[i] == D[i]; }
#if KIND == 0
  char *s = malloc(k + 1); for (int i = 0; i <= LEN; i++) if (i <= k) s[i] = B[i];
  r = TextFileMatchesString(f1, s); free(s);
#else
  if (have2) vs_file_put(f2, B, k);
  r = KIND == 1 ? TextFilesEqual(f1, f2) : BinaryFilesEqual(f1, f2);
#endif
  vs_assert((r != 0) == (have1 && have2 && same), "the comparison is wrong"); if (r) vs_cover("equal"); else vs_cover("different");
#endif
  vs_trace("result", r); vs_assert(vs_open_streams() == 0, "stream left open"); vs_files_release(); vs_no_leaks();
}
#else
static char T[TCAP], U[TCAP];
static int num(char *t, int p, int v) { if (v > 9) t[p++] = (char)('0' + v / 10); t[p++] = (char)('0' + v % 10); return p; }
static int how, place;
static int spoil(const char *name) { /* change the file at one place, or only its line ends; is it still the same text? */
  int n = vs_file_get(name, U, TCAP), q = place, same = 1, m = n; vs_assert(n > 0 && n < TCAP - 2, "no exemplar");
  static char V[TCAP]; memcpy(V, U, n); q = q % n;
  if (how == 1) { V[q] = V[q] == '1' ? '2' : '1'; same = 0; }
  if (how == 2) { m = q; same = 0; }                                  /* cut off */
  if (how == 3) { V[m++] = ' '; same = 0; }                           /* longer */
  if (how == 4) { int k = 0; for (int i = 0; i < n; i++) { if (U[i] == '\n') V[k++] = '\r'; V[k++] = U[i]; } m = k; }
  vs_file_put(name, V, m); return same;
}
void harness(void) {
  static esym s; static omat m; static char A0[] = "planarity", As[] = "-s", Ax[] = "-x", Ac[] = "-?", Aq[] = "-q", in[] = "in.txt"; static char P[64], Q[80]; int p = 0, mem = vs_range("in_memory", 0, 1), same, r, made, second = vs_range("second", 0, 1), exemplar = vs_range("exemplar", 0, 1); how = vs_range("how", 0, 4); place = vs_range("place", 0, 99);
  sym_edges(&s, &m, NN);
  T[p++] = 'N'; T[p++] = '='; p = num(T, p, NN); T[p++] = '\n';
  for (int v = 1; v <= NN; v++) { p = num(T, p, v - ZB); T[p++] = ':'; for (int w = NN; w >= 1; w--) if (m.a[v][w]) { T[p++] = ' '; p = num(T, p, w - ZB); } T[p++] = ' '; if (ZB) { T[p++] = '-'; T[p++] = '1'; } else T[p++] = '0'; T[p++] = '\n'; }
  vs_file_put("in.txt", T, p); Ac[1] = WHAT;
#if KIND == 4
  strcpy(P, "in.txt."); strcat(P, GetAlgorithmName(WHAT)); strcat(P, ".out.txt"); strcpy(Q, P); strcat(Q, ".render.txt");
  { char *a[] = {A0, As, Aq, Ac, in, P, Q, 0}; r = vs_app_main(WHAT == 'd' || WHAT == 'p' || WHAT == 'o' ? 7 : 6, a); vs_assert(r == 0 || r == 1, "making the exemplar failed"); }
  /* an obstruction is the primary output when the text is kept in memory */
  made = vs_file_get(P, U, TCAP); if (made < 0 && (made = vs_file_get(Q, U, TCAP)) >= 0) { vs_file_put(P, U, made); } 
  if (made < 0) { vs_cover("no output"); if (exemplar) vs_file_put(P, "N=1\n1: 0\n", 9); r = runSpecificGraphTest(Ac, in, mem); vs_assert(r != 0, "a test without output succeeds"); vs_files_release(); vs_no_leaks(); return; }
  same = WHAT == 'd' && second ? spoil(Q) : spoil(P);
  r = runSpecificGraphTest(Ac, in, mem);
#else
  strcpy(P, "in.txt."); strcat(P, ZB ? "0-based." : "1-based."); strcat(P, WHAT == 'a' ? "AdjList.out.txt" : WHAT == 'm' ? "AdjMat.out.txt" : "G6.out.g6");
  { char *a[] = {A0, Ax, Aq, Ac, in, P, 0}; r = vs_app_main(6, a); vs_assert(r == 0, "making the exemplar failed"); }
  same = spoil(P);
  r = runGraphTransformationTest(Ac, in, mem);
#endif
  vs_trace("result", r); vs_assert((r == 0) == (same != 0), "the self-test does not tell right results from wrong ones"); if (same) vs_cover("success"); else vs_cover("failure");
  vs_assert(vs_open_streams() == 0, "stream left open"); vs_files_release(); vs_no_leaks();
}
#endif
