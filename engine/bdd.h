// Small ROBDD package with complement edges.  A guard is a 32-bit ref:
// (node index << 1) | complement.  Node 0 is the constant; ref 0 = TRUE, ref 1 = FALSE.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <vector>
#include <unordered_map>

typedef uint32_t G;
static const G GT = 0, GF = 1;
static inline G gnot(G a) { return a ^ 1; }

struct Bdd {
  struct Node { uint32_t var, hi, lo, next; };   // hi is never complemented
  std::vector<Node> n;
  std::vector<uint32_t> table;
  uint32_t mask;
  struct CE { uint32_t a, b, r; };
  std::vector<CE> cache, icache;
  uint32_t cmask;
  uint64_t ops = 0, hits = 0;
  uint64_t maxNodes = 400000000ull;

  Bdd() {
    n.push_back({0xffffffffu, 0, 0, 0});
    mask = (1u << 20) - 1; table.assign(mask + 1, 0);
    cmask = (1u << 22) - 1;
    cache.assign(cmask + 1, CE{0xffffffffu, 0, 0});
    icache.assign(cmask + 1, CE{0xffffffffu, 0, 0});
  }
  static inline uint32_t h3(uint32_t a, uint32_t b, uint32_t c) {
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b * 0xC2B2AE3D27D4EB4Full + c * 0x165667B19E3779F9ull);
    x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return (uint32_t)x;
  }
  void grow() {
    mask = mask * 2 + 1; table.assign((size_t)mask + 1, 0);
    for (uint32_t i = 1; i < n.size(); i++) {
      uint32_t h = h3(n[i].var, n[i].hi, n[i].lo) & mask; n[i].next = table[h]; table[h] = i;
    }
  }
  G mk(uint32_t v, G hi, G lo) {
    if (hi == lo) return hi;
    uint32_t c = hi & 1; hi ^= c; lo ^= c;
    uint32_t h = h3(v, hi, lo) & mask;
    for (uint32_t i = table[h]; i; i = n[i].next)
      if (n[i].var == v && n[i].hi == hi && n[i].lo == lo) return (i << 1) | c;
    if (n.size() >= maxNodes) { fprintf(stderr, "vsx: BDD node limit\n"); printf("{\"status\":\"bddlimit\"}\n"); fflush(stdout); _exit(4); }
    n.push_back({v, hi, lo, table[h]}); table[h] = n.size() - 1;
    uint32_t id = n.size() - 1;
    if (n.size() > mask) grow();
    return (id << 1) | c;
  }
  inline uint32_t var(G a) const { return n[a >> 1].var; }
  inline G hi(G a) const { return n[a >> 1].hi ^ (a & 1); }
  inline G lo(G a) const { return n[a >> 1].lo ^ (a & 1); }
  G And(G a, G b) {
    if (a == b) return a;
    if (a == (b ^ 1)) return GF;
    if (a == GT) return b; if (b == GT) return a;
    if (a == GF || b == GF) return GF;
    if (a > b) { G t = a; a = b; b = t; }
    ops++;
    uint32_t h = h3(a, b, 7) & cmask;
    if (cache[h].a == a && cache[h].b == b) { hits++; return cache[h].r; }
    uint32_t va = var(a), vb = var(b), v = va < vb ? va : vb;
    G ah = va == v ? hi(a) : a, al = va == v ? lo(a) : a;
    G bh = vb == v ? hi(b) : b, bl = vb == v ? lo(b) : b;
    G r1 = And(ah, bh), r0 = And(al, bl);
    G r = mk(v, r1, r0);
    cache[h] = {a, b, r};
    return r;
  }
  G Or(G a, G b) { return gnot(And(gnot(a), gnot(b))); }
  // is a AND b satisfiable?
  bool inter(G a, G b) {
    if (a == b) return a != GF;
    if (a == (b ^ 1)) return false;
    if (a == GT) return b != GF; if (b == GT) return a != GF;
    if (a == GF || b == GF) return false;
    if (a > b) { G t = a; a = b; b = t; }
    ops++;
    uint32_t h = h3(a, b, 13) & cmask;
    if (icache[h].a == a && icache[h].b == b) { hits++; return icache[h].r; }
    uint32_t h2 = h3(a, b, 7) & cmask;
    if (cache[h2].a == a && cache[h2].b == b) return cache[h2].r != GF;
    uint32_t va = var(a), vb = var(b), v = va < vb ? va : vb;
    G ah = va == v ? hi(a) : a, al = va == v ? lo(a) : a;
    G bh = vb == v ? hi(b) : b, bl = vb == v ? lo(b) : b;
    bool r = inter(ah, bh) || inter(al, bl);
    icache[h] = {a, b, (uint32_t)r};
    return r;
  }
  bool implies(G a, G b) { return !inter(a, gnot(b)); }
  G mkvar(uint32_t v) { return mk(v, GT, GF); }
  bool eval(G a, const std::vector<char> &asg) const {
    while (a > 1) { a = asg[var(a)] ? hi(a) : lo(a); }
    return a == GT;
  }
};
