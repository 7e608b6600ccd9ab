/* The application when a memory request fails: no crash, no leak, no stream left open, no verdict that is not the right one.
   ACT 0: -s, 1: -t, 2: -x, 3: -rm, 4: -r, 5: SpecificGraph in memory, 6: TestAllGraphs to a string, 7: TransformGraph in memory.  FAILS: the request that fails is one of the first FAILS */
#include "oracle.h"
#include <stdlib.h>
#include <string.h>
#include "planarityRelated/graphDrawPlanar.h"
#include "homeomorphSearch/graphK23Search.h"
#include "homeomorphSearch/graphK33Search.h"
#include "homeomorphSearch/graphK4Search.h"
extern int vs_app_main(int argc, char *argv[]);
extern int SpecificGraph(char, char *, char *, char *, char *, char **, char **), TestAllGraphs(char *, char *, char *, char **), TransformGraph(char *, char *, char *, int *, char *, char **);
#ifndef CMD
#define CMD 0
#endif
#ifndef OFMT
#define OFMT 1
#endif
#define TCAP 4096
static const int flagsOf[] = {EMBEDFLAGS_PLANAR, EMBEDFLAGS_OUTERPLANAR, EMBEDFLAGS_SEARCHFORK23, EMBEDFLAGS_SEARCHFORK33, EMBEDFLAGS_SEARCHFORK4, EMBEDFLAGS_DRAWPLANAR};
static const char *const letter = "po234d";
static char T[TCAP], U[TCAP];
static int enc(const omat *m, char *t, int p) {
  int bits = 0, cnt = 0; t[p++] = 63 + NN;
  for (int j = 2; j <= NN; j++) for (int i = 1; i < j; i++) { bits = bits << 1 | (m->a[i][j] != 0); if (++cnt == 6) { t[p++] = (char)(63 + bits); bits = 0; cnt = 0; } }
  if (cnt) t[p++] = (char)(63 + (bits << (6 - cnt)));
  t[p++] = '\n'; return p;
}
void harness(void) {
  static esym s; static omat m; static char A0[] = "planarity", As[] = "-s", At[] = "-t", Ax[] = "-x", Am[] = "-rm", Ar[] = "-r", Aq[] = "-q", Ac[] = "-?", Ai[] = "in.g6", Ao[] = "out.txt", A2[] = "out2.txt", An[4], A1[] = "1";
  static int script[8 * NN * (NN + 1)]; int n = 0, r, k = vs_range("fail", 0, FAILS), want; char *argv[8], *o1 = 0, *o2 = 0;
  sym_edges(&s, &m, NN); An[0] = (char)('0' + NN); Ac[1] = letter[CMD]; int ns = 0; for (int h = 0; h < 4; h++) { for (int a = 0; a < NN; a++) for (int b = 0; b <= NN; b++) if (ns + 2 < 8 * NN * (NN + 1)) { script[ns++] = a; script[ns++] = b; } if (!(h & 1) && ns < 8 * NN * (NN + 1)) script[ns++] = 0; }
  graphP g = gp_New(); gp_InitGraph(g, NN); if (CMD == 2) gp_AttachK23Search(g); if (CMD == 3) gp_AttachK33Search(g); if (CMD == 4) gp_AttachK4Search(g); if (CMD == 5) gp_AttachDrawPlanar(g);
  build_edges(g, &s); want = gp_Embed(g, flagsOf[CMD]); gp_Free(&g); want = want == OK ? 0 : 1; if (ACT == 1 || ACT == 2 || ACT == 3 || ACT == 4 || ACT == 6 || ACT == 7) want = 0;
  n = enc(&m, T, 0); if (ACT == 1 || ACT == 6) n = enc(&m, T, n); T[n] = 0; if (ACT != 3 && ACT != 4) vs_file_put("in.g6", T, n);
  vs_rand_script(script, ns); char *in = 0; if (ACT == 5 || ACT == 7) { in = malloc(n + 1); memcpy(in, T, n + 1); }
  vs_alloc_fail_at = k; vs_alloc_count = 0;
#if ACT == 0
  { char *a[] = {A0, As, Aq, Ac, Ai, Ao, A2, 0}; memcpy(argv, a, sizeof a); r = vs_app_main(7, argv); }
#elif ACT == 1
  { char *a[] = {A0, At, Aq, Ac, Ai, Ao, 0}; memcpy(argv, a, sizeof a); r = vs_app_main(6, argv); }
#elif ACT == 2
  { char *a[] = {A0, Ax, Aq, Ac, Ai, Ao, 0}; Ac[1] = OFMT == 1 ? 'a' : OFMT == 2 ? 'm' : 'g'; memcpy(argv, a, sizeof a); r = vs_app_main(6, argv); }
#elif ACT == 3
  { char *a[] = {A0, Am, Aq, An, Ao, A2, 0}; memcpy(argv, a, sizeof a); r = vs_app_main(6, argv); }
#elif ACT == 4
  { char *a[] = {A0, Ar, Aq, Ac, A1, An, 0}; memcpy(argv, a, sizeof a); r = vs_app_main(6, argv); }
#elif ACT == 5
  (void)argv; r = SpecificGraph(letter[CMD], 0, 0, 0, in, &o1, &o2); r = r == OK ? 0 : r == NONEMBEDDABLE ? 1 : -1;
#elif ACT == 6
  (void)argv; r = TestAllGraphs(Ac, Ai, 0, &o1) == OK ? 0 : -1;
#else
  (void)argv; Ac[1] = OFMT == 1 ? 'a' : OFMT == 2 ? 'm' : 'g'; r = TransformGraph(Ac, 0, in, 0, 0, &o1) == OK ? 0 : -1;
#endif
  int made = vs_alloc_count; vs_alloc_fail_at = -1; vs_trace("status", r); vs_trace("requests", made);
  if (r >= 0) vs_assert(r == want, "a verdict that is not the one of the graph"); else vs_assert(made > k, "failure without a failed request");
  if (made > k) vs_cover("failed"); else vs_cover("completed");
  if (r == 0 && (ACT == 6 || ACT == 7)) vs_assert(o1 != 0, "success without output"); if (r >= 0 && (ACT == 1 || ACT == 2 || ACT == 3)) vs_assert(vs_file_get("out.txt", U, 4) > 0, "success without output");
  if (o1) free(o1); if (o2) free(o2);
  vs_assert(vs_open_streams() == 0, "stream left open"); vs_files_release(); vs_no_leaks();
}
