/* graph6 text of large orders: KE edges at fixed positions, each present or not; the text is compared bit by bit and read back */
#include "oracle.h"
#include <stdlib.h>
#include <string.h>
static const int P[][2] = {EDGES};
#define KE (int)(sizeof P / sizeof P[0])
void harness(void) {
  int on[KE]; graphP g = gp_New(), h; char *s = 0; vs_assert(gp_InitGraph(g, NN) == OK, "init");
  for (int i = 0; i < KE; i++) { on[i] = vs_range("e", 0, 1); if (on[i]) vs_assert(gp_AddEdge(g, P[i][0], i & 1, P[i][1], i >> 1 & 1) == OK, "adding an edge failed"); }
  vs_assert(gp_WriteToString(g, &s, WRITE_G6) == OK && s, "writing the graph failed");
  int p = 0, bad = memcmp(s, ">>graph6<<", 10) != 0; p = 10; long bits = (long)NN * (NN - 1) / 2, len = (bits + 5) / 6;
  if (NN < 63) bad |= s[p++] != 63 + NN;
  else { bad |= s[p++] != 126; bad |= s[p++] != 63 + (NN >> 12 & 63); bad |= s[p++] != 63 + (NN >> 6 & 63); bad |= s[p++] != 63 + (NN & 63); }
  vs_assert(!bad, "the order is not encoded as graph6 prescribes");
  char *q = malloc(len); memset(q, 63, len);
  for (int i = 0; i < KE; i++) { int a = P[i][0] < P[i][1] ? P[i][0] : P[i][1], b = P[i][0] + P[i][1] - a; long t = (long)(b - 1) * (b - 2) / 2 + (a - 1); q[t / 6] += on[i] << (5 - t % 6); }
  vs_assert(memcmp(s + p, q, len) == 0, "the text is not the graph6 encoding of the graph"); free(q);
  vs_assert(s[p + len] == 0 || (s[p + len] == '\n' && s[p + len + 1] == 0), "the text has another length");
  h = gp_New(); vs_assert(gp_ReadFromString(h, s) == OK, "reading back what was written failed");
  vs_assert(h->N == NN, "the order changed"); int m = 0;
  for (int i = 0; i < KE; i++) { m += on[i]; int f = 0, e = gp_GetFirstArc(h, P[i][0]), k = 0; while (gp_IsArc(e) && k++ < 2 * KE) { f += gp_GetNeighbor(h, e) == P[i][1]; e = gp_GetNextArc(h, e); } vs_assert(f == on[i], "reading back yields another graph"); }
  vs_assert(h->M == m, "reading back yields another number of edges");
  vs_trace("m", m); gp_Free(&g); gp_Free(&h); vs_files_release(); vs_no_leaks();
}
