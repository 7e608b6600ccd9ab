// vsx: bounded symbolic executor for LLVM IR with state merging ("value summaries").
//
// Every program value is a finite set of (concrete value, guard) pairs; guards are Boolean functions
// over the bits of the symbolic inputs, kept as BDDs.  All paths of a run are executed together: basic
// blocks are scheduled in weak topological order, loops advance in lock step, so each block is executed
// once per iteration for the whole set of inputs that reach it.  Assertions become formulas
//   path-guard AND NOT condition
// over bit-vector ite-terms and are decided by z3; a model is a counterexample.
#include "bdd.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/ADT/APFloat.h>
#include <z3.h>
#include <map>
#include <unordered_set>
#include <set>
#include <string>
#include <memory>
#include <algorithm>
#include <functional>
#include <cstring>
#include <cmath>
#include <chrono>
#include <csignal>
#include <sys/resource.h>
#include <pthread.h>
#include <unistd.h>
#include <array>

using namespace llvm;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

static Bdd B;
static G U = GT;               // live inputs: every assumption made and no terminating violation so far
enum { O_INT = 0, O_UNDEF = 1 };

struct Ent { u64 v; u32 o; G g; };
typedef SmallVector<Ent, 1> VS;

static const u64 VSLIMIT = 70000;
[[noreturn]] static void fatal(const std::string &m);

// ---------------------------------------------------------------- objects
struct Slot { u8 kind = 0; VS v; std::unique_ptr<std::array<VS, 4>> b; };
enum { S_EMPTY = 0, S_W4, S_P8H, S_P8C, S_BYTES };
enum { K_HEAP, K_STACK, K_GLOBAL, K_FUNC };
struct Obj {
  u64 size = 0; G birth = GT; G freed = GF; u8 kind = K_HEAP; bool ro = false, dead = false;
  std::string name; std::vector<Slot> s; llvm::Function *fn = nullptr;
};
static std::vector<Obj> objs;

static u32 newObj(u64 size, u8 kind, G birth, const std::string &name) {
  objs.emplace_back(); Obj &o = objs.back();
  o.size = size; o.kind = kind; o.birth = birth; o.name = name;
  o.s.resize((size + 3) / 4);
  return objs.size() - 1;
}

// ---------------------------------------------------------------- helpers on summaries
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sext(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }
static inline VS one(u64 v, u32 o = O_INT) { VS r; r.push_back({v, o, GT}); return r; }

// Accumulates entries, merging equal values.
struct Acc {
  VS r; std::unordered_map<u64, u32> idx; bool useIdx = false;
  static u64 key(u64 v, u32 o) { return v * 0x9E3779B97F4A7C15ull ^ ((u64)o << 32) * 0xC2B2AE3D27D4EB4Full; }
  void add(u64 v, u32 o, G g) {
    if (g == GF) return;
    if (!useIdx) {
      for (auto &e : r) if (e.v == v && e.o == o) { e.g = B.Or(e.g, g); return; }
      r.push_back({v, o, g});
      if (r.size() > 12) { useIdx = true; for (u32 i = 0; i < r.size(); i++) idx[key(r[i].v, r[i].o)] = i; }
    } else {
      auto it = idx.find(key(v, o));
      if (it != idx.end() && r[it->second].v == v && r[it->second].o == o) { r[it->second].g = B.Or(r[it->second].g, g); return; }
      idx[key(v, o)] = r.size(); r.push_back({v, o, g});
      if (r.size() > VSLIMIT) fatal("value summary too large");
    }
  }
  VS &done() { if (r.size() == 1) r[0].g = GT; return r; }
};

// ---------------------------------------------------------------- statistics, violations, obligations
struct Viol { std::string kind, msg, loc; G g; };
static std::vector<Viol> viols;
static std::map<std::string, size_t> violIdx;
struct Obl { G pg; int pred; VS x, y; unsigned w; std::string msg; };
static std::vector<Obl> obls;
static u64 nTrivialObl = 0, nBlocks = 0, nInsts = 0, nMemChecks = 0, nMemMulti = 0;
static std::set<std::pair<G, G>> memObl;       // (path guard, guard of in-bounds live targets)
static std::map<std::string, G> covers;
struct TraceEv { G g; std::string tag; VS v; };
static std::vector<TraceEv> traces;
struct Sym { std::string name; int lo, hi; u32 firstVar, nbits; };
static std::vector<Sym> syms;
static u32 nVars = 0;
static std::vector<signed char> fixedVar;      // -1 free, 0/1 fixed (cube splitting / concrete replay)
static std::vector<const char *> callStack;
static std::set<std::string> fnsExecuted;
static double timeLimit = 1e18; static std::chrono::steady_clock::time_point t0;
static std::vector<u64> concreteIn; static bool concreteMode = false;
static int cubeI = 0, cubeBits = 0;
static bool optOverflow = true;
static u64 loopLimit = 20000;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
static void fatal(const std::string &m) {
  fprintf(stderr, "vsx: fatal: %s\n  stack:", m.c_str());
  for (auto c : callStack) fprintf(stderr, " %s", c);
  fprintf(stderr, "\n"); printf("{\"status\":\"error\",\"error\":\"%s\"}\n", m.c_str()); fflush(stdout); _exit(3);
}

// ---------------------------------------------------------------- decoded program
struct DInst;
struct DBlock { std::vector<DInst> insts; int nphi = 0; std::vector<int> phiDst;
  std::map<int, std::vector<int>> phiIn;   // predecessor block id -> operand per phi
  int pos = 0; int loopEnd = -1; const BasicBlock *bb; };
struct DInst {
  unsigned op; unsigned sub = 0; unsigned w = 0, w2 = 0; int dst = -1; SmallVector<int, 3> ops; const Instruction *I = nullptr;
  i64 off = 0; SmallVector<std::pair<int, i64>, 2> idx; std::vector<std::pair<u64, int>> cases; int t = -1, f = -1;
  bool nsw = false; llvm::Function *callee = nullptr; int builtin = 0; int cmpA = 0, cmpB = 0, cmpPred = -1; unsigned cmpW = 0; bool variadic = false;
};
struct DFn { llvm::Function *F; std::vector<DBlock> blocks; int nregs = 0; std::vector<VS> consts; std::string name; };
enum { I_BIN, I_ICMP, I_FCMP, I_SELECT, I_CAST, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_CALL, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACH, I_NOP, I_COPY, I_FNEG };
enum { BI_NONE = 0, BI_RANGE, BI_ASSUME, BI_ASSERT, BI_COVER, BI_TRACE, BI_ALLOC, BI_FREE, BI_SIZE, BI_MEMCPY, BI_MEMSET, BI_NOLEAK, BI_MINMAX, BI_ABS, BI_FSH, BI_BITS, BI_SAT, BI_EXPECT, BI_EXIT, BI_DBG, BI_SPLIT, BI_ISLIVE };

static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<const llvm::Function *, std::unique_ptr<DFn>> dfns;
static std::unordered_map<const GlobalValue *, u32> gobj;

static std::string locOf(const Instruction *I) {
  std::string s = I ? I->getFunction()->getName().str() : "?";
  if (I && I->getDebugLoc()) { auto *sc = cast<DIScope>(I->getDebugLoc().getScope()); s += " " + sc->getFilename().str() + ":" + std::to_string(I->getDebugLoc().getLine()); }
  return s;
}
static void addViol(const std::string &kind, const std::string &msg, const Instruction *I, G g) {
  if (g == GF) return;
  std::string loc = locOf(I), key = kind + "|" + msg + "|" + loc;
  auto it = violIdx.find(key);
  if (it == violIdx.end()) { violIdx[key] = viols.size(); std::string st; for (size_t k = 0; k < callStack.size() && k < 12; k++) { st += st.empty() ? "" : ">"; st += callStack[k]; }
    viols.push_back({kind, msg, loc + " [" + st + "]", g}); }
  else viols[it->second].g = B.Or(viols[it->second].g, g);
}
// report and remove the inputs from the run
static void kill(const std::string &kind, const std::string &msg, const Instruction *I, G &pg, G bad) {
  bad = B.And(bad, B.And(pg, U)); if (bad == GF) return;
  addViol(kind, msg, I, bad);
  U = B.And(U, gnot(bad)); pg = B.And(pg, gnot(bad));
}

// ---------------------------------------------------------------- memory
static inline bool isPtr(const Ent &e) { return e.o >= 2; }

static void weakMerge(VS &cell, G gp, const VS &val, Obj &o) {
  // fast path: identical constant
  if (cell.size() == 1 && val.size() == 1 && cell[0].v == val[0].v && cell[0].o == val[0].o) return;
  G live = B.And(o.birth, U);
  if (!B.inter(live, gnot(gp))) { // strong
    if (val.size() == 1) { cell = val; return; }
    Acc a; for (auto &e : val) a.add(e.v, e.o, B.And(e.g, gp)); cell = a.done(); return;
  }
  Acc a; G ng = gnot(gp);
  if (cell.size() == 1) a.add(cell[0].v, cell[0].o, B.And(live, ng));
  else for (auto &e : cell) { G g = B.And(e.g, ng); if (g != GF && U != GT) g = B.And(g, U); a.add(e.v, e.o, g); }
  if (val.size() == 1) a.add(val[0].v, val[0].o, gp);
  else for (auto &e : val) a.add(e.v, e.o, B.And(e.g, gp));
  cell = a.done();
}
static const VS UNDEFVS = one(0, O_UNDEF);

// combine byte-ish pieces: pieces[i] has width wi bits; little endian concatenation
static VS concat(const std::vector<const VS *> &p, unsigned wi, G gp) {
  bool allc = true; for (auto x : p) if (x->size() != 1) allc = false;
  if (allc) { u64 v = 0; for (size_t i = 0; i < p.size(); i++) { if ((*p[i])[0].o != O_INT) return UNDEFVS; v |= (*p[i])[0].v << (wi * i); } return one(v); }
  VS cur = one(0);
  for (size_t i = 0; i < p.size(); i++) {
    Acc a;
    for (auto &x : cur) for (auto &y : *p[i]) {
      G g = B.And(x.g, y.g); if (g == GF || !B.inter(g, gp)) continue;
      if (x.o != O_INT || y.o != O_INT) a.add(0, O_UNDEF, g); else a.add(x.v | (y.v << (wi * i)), O_INT, g);
    }
    cur = a.done();
  }
  return cur;
}
static VS extract(const VS &x, unsigned sh, unsigned w) {
  if (x.size() == 1) return x[0].o == O_INT ? one((x[0].v >> sh) & maskw(w)) : UNDEFVS;
  Acc a; for (auto &e : x) if (e.o == O_INT) a.add((e.v >> sh) & maskw(w), O_INT, e.g); else a.add(0, O_UNDEF, e.g);
  return a.done();
}
static void toBytes(Obj &o, u64 si) {
  Slot &s = o.s[si];
  if (s.kind == S_BYTES) return;
  auto nb = std::make_unique<std::array<VS, 4>>();
  if (s.kind == S_EMPTY) for (int i = 0; i < 4; i++) (*nb)[i] = UNDEFVS;
  else if (s.kind == S_W4) for (int i = 0; i < 4; i++) (*nb)[i] = extract(s.v, 8 * i, 8);
  else {
    u64 h = s.kind == S_P8H ? si : si - 1; VS full = o.s[h].v;
    VS lo = extract(full, 0, 32), hi = extract(full, 32, 32);
    o.s[h].kind = S_W4; o.s[h].v = lo; o.s[h + 1].kind = S_W4; o.s[h + 1].v = hi;
    toBytes(o, si); return;
  }
  s.kind = S_BYTES; s.v.clear(); s.b = std::move(nb);
}
static void toW4(Obj &o, u64 si) {
  Slot &s = o.s[si];
  if (s.kind == S_W4) return;
  if (s.kind == S_EMPTY) { s.kind = S_W4; s.v = UNDEFVS; return; }
  if (s.kind == S_BYTES) { VS r = concat({&(*s.b)[0], &(*s.b)[1], &(*s.b)[2], &(*s.b)[3]}, 8, o.birth); s.kind = S_W4; s.v = r; s.b.reset(); return; }
  toBytes(o, si); toW4(o, si);
}
static void toP8(Obj &o, u64 si) {
  Slot &s = o.s[si];
  if (s.kind == S_P8H) return;
  if (si + 1 >= o.s.size()) fatal("8-byte access at the end of an object");
  Slot &t = o.s[si + 1];
  if (s.kind == S_EMPTY && t.kind == S_EMPTY) { s.kind = S_P8H; s.v = UNDEFVS; t.kind = S_P8C; return; }
  if (t.kind == S_P8H) toW4(o, si + 1);
  toW4(o, si); toW4(o, si + 1);
  VS r = concat({&s.v, &t.v}, 32, o.birth); s.kind = S_P8H; s.v = r; t.kind = S_P8C; t.v.clear();
}
static const VS &readCell(Obj &o, u64 off, unsigned bytes, VS &tmp) {
  u64 si = off >> 2;
  if (bytes == 4 && !(off & 3)) {
    Slot &s = o.s[si];
    if (s.kind == S_W4) return s.v;
    if (s.kind == S_EMPTY) return UNDEFVS;
    if (s.kind == S_BYTES) { tmp = concat({&(*s.b)[0], &(*s.b)[1], &(*s.b)[2], &(*s.b)[3]}, 8, o.birth); return tmp; }
    tmp = s.kind == S_P8H ? extract(s.v, 0, 32) : extract(o.s[si - 1].v, 32, 32); return tmp;
  }
  if (bytes == 8 && !(off & 3)) {
    Slot &s = o.s[si];
    if (s.kind == S_P8H) return s.v;
    VS a, b; VS ta, tb; a = readCell(o, off, 4, ta); b = readCell(o, off + 4, 4, tb);
    tmp = concat({&a, &b}, 32, o.birth); return tmp;
  }
  if (bytes == 1) {
    Slot &s = o.s[si]; unsigned k = off & 3;
    if (s.kind == S_BYTES) return (*s.b)[k];
    if (s.kind == S_EMPTY) return UNDEFVS;
    if (s.kind == S_W4) tmp = extract(s.v, 8 * k, 8);
    else if (s.kind == S_P8H) tmp = extract(s.v, 8 * k, 8);
    else tmp = extract(o.s[si - 1].v, 32 + 8 * k, 8);
    return tmp;
  }
  std::vector<VS> parts(bytes); std::vector<const VS *> pp;
  for (unsigned i = 0; i < bytes; i++) { VS t; parts[i] = readCell(o, off + i, 1, t); }
  for (auto &p : parts) pp.push_back(&p);
  tmp = concat(pp, 8, o.birth); return tmp;
}
static void writeCell(Obj &o, u64 off, unsigned bytes, G gp, const VS &val) {
  u64 si = off >> 2;
  bool strong = !B.inter(B.And(o.birth, U), gnot(gp));
  if (bytes == 4 && !(off & 3)) {
    Slot &s = o.s[si];
    if (s.kind != S_W4) { if (s.kind == S_P8H || s.kind == S_P8C) toBytes(o, si);
      if (strong || s.kind == S_EMPTY) { s.kind = S_W4; s.b.reset(); s.v = UNDEFVS; } else toW4(o, si); }
    weakMerge(s.v, gp, val, o); return;
  }
  if (bytes == 8 && !(off & 3)) {
    Slot &s = o.s[si];
    if (s.kind != S_P8H) {
      if (strong) { if (s.kind == S_P8C) toBytes(o, si); if (o.s[si + 1].kind == S_P8H) toBytes(o, si + 1);
        s.kind = S_P8H; s.b.reset(); s.v = UNDEFVS; o.s[si + 1].kind = S_P8C; o.s[si + 1].v.clear(); o.s[si + 1].b.reset(); }
      else toP8(o, si);
    }
    weakMerge(s.v, gp, val, o); return;
  }
  if (bytes == 1) { toBytes(o, si); weakMerge((*o.s[si].b)[off & 3], gp, val, o); return; }
  for (unsigned i = 0; i < bytes; i++) writeCell(o, off + i, 1, gp, extract(val, 8 * i, 8));
}

// Check an access; returns the guard under which (obj,off) may be accessed; reports the rest.
static bool checkTarget(const Ent &e, u64 bytes, bool write, G gp, const Instruction *I, G &pg, G &okg) {
  okg = GF; nMemChecks++;
  const char *rw = write ? "write" : "read";
  if (e.o == O_UNDEF) { kill("memory", std::string(rw) + " through uninitialised pointer", I, pg, gp); return false; }
  if (e.o == O_INT) { kill("memory", e.v == 0 ? std::string(rw) + " through NULL pointer" : std::string(rw) + " through invalid pointer", I, pg, gp); return false; }
  Obj &o = objs[e.o];
  if (o.kind == K_FUNC) { kill("memory", std::string(rw) + " of function object", I, pg, gp); return false; }
  if ((i64)e.v < 0 || e.v + bytes > o.size) { kill("memory", std::string(rw) + " out of bounds of object " + o.name, I, pg, gp); return false; }
  if (o.freed != GF) { G b = B.And(gp, o.freed); if (b != GF) { kill("memory", std::string(rw) + " after free of " + o.name, I, pg, b); gp = B.And(gp, gnot(b)); if (gp == GF) return false; } }
  if (write && o.ro) { kill("memory", "write to constant object " + o.name, I, pg, gp); return false; }
  okg = gp; return true;
}
static void noteMem(G pg, G ok) { nMemMulti++; memObl.insert({pg, ok}); }

static VS doLoad(const VS &p, unsigned bytes, G &pg, const Instruction *I) {
  VS tmp; G ok;
  if (p.size() == 1) {
    if (!checkTarget(p[0], bytes, false, pg, I, pg, ok)) return UNDEFVS;
    const VS &c = readCell(objs[p[0].o], p[0].v, bytes, tmp);
    if (c.size() == 1) return c;
    Acc a; for (auto &e : c) { G g = B.And(e.g, ok); a.add(e.v, e.o, g); }
    return a.done();
  }
  Acc a; G oks = GF;
  for (auto &e : p) {
    G gp = B.And(e.g, pg); if (gp == GF) continue;
    if (!checkTarget(e, bytes, false, gp, I, pg, ok)) continue;
    oks = B.Or(oks, ok);
    const VS &c = readCell(objs[e.o], e.v, bytes, tmp);
    if (c.size() == 1) a.add(c[0].v, c[0].o, ok);
    else for (auto &x : c) a.add(x.v, x.o, B.And(x.g, ok));
  }
  noteMem(pg, oks);
  if (a.r.empty()) return UNDEFVS;
  return a.done();
}
static void doStore(const VS &p, const VS &val, unsigned bytes, G &pg, const Instruction *I) {
  G ok;
  if (p.size() == 1) {
    if (!checkTarget(p[0], bytes, true, pg, I, pg, ok)) return;
    writeCell(objs[p[0].o], p[0].v, bytes, ok, val); return;
  }
  G oks = GF;
  for (auto &e : p) {
    G gp = B.And(e.g, pg); if (gp == GF) continue;
    if (!checkTarget(e, bytes, true, gp, I, pg, ok)) continue;
    oks = B.Or(oks, ok);
    writeCell(objs[e.o], e.v, bytes, ok, val);
  }
  noteMem(pg, oks);
}

// ---------------------------------------------------------------- constants
static u32 fnObj(llvm::Function *F) {
  auto it = gobj.find(F); if (it != gobj.end()) return it->second;
  u32 id = newObj(1, K_FUNC, GT, F->getName().str()); objs[id].fn = F; gobj[F] = id; return id;
}
static void initMem(u32 id, u64 off, const Constant *C);
static u32 gvObj(const GlobalVariable *GV) {
  auto it = gobj.find(GV); if (it != gobj.end()) return it->second;
  u64 sz = DL->getTypeAllocSize(GV->getValueType());
  u32 id = newObj(sz, K_GLOBAL, GT, GV->getName().str()); gobj[GV] = id;
  if (GV->hasInitializer()) initMem(id, 0, GV->getInitializer());
  objs[id].ro = GV->isConstant();
  return id;
}
static Ent constEnt(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) { if (CI->getBitWidth() > 64) fatal("wide constant"); return {CI->getZExtValue(), O_INT, GT}; }
  if (isa<ConstantPointerNull>(C)) return {0, O_INT, GT};
  if (isa<UndefValue>(C)) return {0, O_UNDEF, GT};
  if (auto *CF = dyn_cast<ConstantFP>(C)) return {CF->getValueAPF().bitcastToAPInt().getZExtValue(), O_INT, GT};
  if (auto *F = dyn_cast<llvm::Function>(C)) return {0, fnObj(const_cast<llvm::Function *>(F)), GT};
  if (auto *GA = dyn_cast<GlobalAlias>(C)) return constEnt(GA->getAliasee());
  if (auto *GV = dyn_cast<GlobalVariable>(C)) return {0, gvObj(GV), GT};
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (auto *GO = dyn_cast<GEPOperator>(CE)) { APInt off(64, 0); if (!GO->accumulateConstantOffset(*DL, off)) fatal("const gep"); Ent b = constEnt(cast<Constant>(GO->getPointerOperand())); b.v += off.getZExtValue(); return b; }
    switch (CE->getOpcode()) { case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constEnt(CE->getOperand(0)); }
  }
  std::string s; raw_string_ostream os(s); C->print(os); fatal("unsupported constant " + s);
}
static void initMem(u32 id, u64 off, const Constant *C) {
  Type *T = C->getType();
  if (auto *ST = dyn_cast<StructType>(T)) { auto *SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) initMem(id, off + SL->getElementOffset(i), C->getAggregateElement(i)); return; }
  if (auto *AT = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(AT->getElementType());
    for (u64 i = 0; i < AT->getNumElements(); i++) initMem(id, off + i * es, C->getAggregateElement((unsigned)i)); return; }
  Ent e = constEnt(C); VS v; v.push_back(e);
  writeCell(objs[id], off, DL->getTypeStoreSize(T), GT, v);
}

// ---------------------------------------------------------------- decoding
static unsigned bitw(Type *T) { if (T->isPointerTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; return 0; }

static int builtinOf(StringRef n) {
  if (n == "vs_range") return BI_RANGE; if (n == "vs_assume") return BI_ASSUME; if (n == "vs_assert_") return BI_ASSERT;
  if (n == "vs_cover") return BI_COVER; if (n == "vs_trace") return BI_TRACE; if (n == "__vsx_alloc") return BI_ALLOC;
  if (n == "__vsx_free") return BI_FREE; if (n == "__vsx_size") return BI_SIZE; if (n == "vs_no_leaks") return BI_NOLEAK;
  if (n == "__vsx_dead") return BI_EXIT; if (n == "vs_dbg") return BI_DBG; if (n == "__vsx_islive") return BI_ISLIVE; 
  if (n == "memcpy" || n == "memmove") return BI_MEMCPY; if (n == "memset") return BI_MEMSET;
  if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove")) return BI_MEMCPY;
  if (n.starts_with("llvm.memset")) return BI_MEMSET;
  if (n.starts_with("llvm.smax") || n.starts_with("llvm.smin") || n.starts_with("llvm.umax") || n.starts_with("llvm.umin")) return BI_MINMAX;
  if (n.starts_with("llvm.abs")) return BI_ABS;
  if (n.starts_with("llvm.fshl") || n.starts_with("llvm.fshr")) return BI_FSH;
  if (n.starts_with("llvm.ctpop") || n.starts_with("llvm.bswap") || n.starts_with("llvm.ctlz") || n.starts_with("llvm.cttz")) return BI_BITS;
  if (n.starts_with("llvm.uadd.sat") || n.starts_with("llvm.usub.sat")) return BI_SAT;
  if (n.starts_with("llvm.expect")) return BI_EXPECT;
  return BI_NONE;
}

static void wto(DFn &D, const std::vector<std::vector<int>> &succ, std::vector<int> nodes, int head, std::vector<int> &order,
                std::vector<int> &loopHeadLast);

static DFn &decode(llvm::Function *F) {
  auto &slot = dfns[F]; if (slot) return *slot;
  slot = std::make_unique<DFn>(); DFn &D = *slot; D.F = F; D.name = F->getName().str();
  std::unordered_map<const BasicBlock *, int> bid; int nb = 0;
  for (auto &bb : *F) bid[&bb] = nb++;
  std::vector<std::vector<int>> succ(nb);
  for (auto &bb : *F) for (auto *s : successors(&bb)) succ[bid[&bb]].push_back(bid[s]);
  // weak topological order
  std::vector<int> order; std::vector<int> lastOf(nb, -1);
  {
    std::function<void(std::vector<int>, int)> rec = [&](std::vector<int> nodes, int head) {
      // SCCs of the subgraph `nodes`, edges into head removed when head>=0 (head itself already emitted)
      std::set<int> in(nodes.begin(), nodes.end());
      std::vector<int> num(nb, 0), low(nb, 0); std::vector<char> on(nb, 0); std::vector<int> st; int cnt = 0; std::vector<std::vector<int>> sccs;
      std::function<void(int)> dfs = [&](int v) {
        num[v] = low[v] = ++cnt; st.push_back(v); on[v] = 1;
        for (int w : succ[v]) { if (!in.count(w) || w == head) continue; if (!num[w]) { dfs(w); low[v] = std::min(low[v], low[w]); } else if (on[w]) low[v] = std::min(low[v], num[w]); }
        if (low[v] == num[v]) { sccs.emplace_back(); int w; do { w = st.back(); st.pop_back(); on[w] = 0; sccs.back().push_back(w); } while (w != v); }
      };
      if (head >= 0) { for (int w : succ[head]) if (in.count(w) && !num[w]) dfs(w); } else if (!nodes.empty()) dfs(0);
      for (auto it = sccs.rbegin(); it != sccs.rend(); ++it) {
        auto &scc = *it; std::set<int> sset(scc.begin(), scc.end());
        bool selfloop = false; for (int w : succ[scc[0]]) if (w == scc[0]) selfloop = true;
        if (scc.size() == 1 && !selfloop) { order.push_back(scc[0]); continue; }
        // entry of the SCC: node with a predecessor outside
        int h = -1; int entries = 0;
        for (int v : scc) { bool ext = v == 0; for (int u = 0; u < nb; u++) if (!sset.count(u)) { bool isIn = in.count(u) || u == head; if (isIn) for (int w : succ[u]) if (w == v) ext = true; } if (ext) { h = v; entries++; } }
        if (entries != 1) fatal("irreducible control flow in " + D.name);
        order.push_back(h);
        std::vector<int> rest; for (int v : scc) if (v != h) rest.push_back(v);
        if (!rest.empty()) rec(rest, h);
        lastOf[h] = order.size() - 1;
      }
    };
    std::vector<int> all(nb); for (int i = 0; i < nb; i++) all[i] = i;
    rec(all, -1);
  }
  std::vector<int> pos(nb, -1); for (size_t i = 0; i < order.size(); i++) pos[order[i]] = i;
  std::unordered_map<const Value *, int> reg; std::map<const Constant *, int> cidx;
  auto R = [&](const Value *v) -> int {
    if (auto *C = dyn_cast<Constant>(v)) {
      auto it = cidx.find(C); if (it != cidx.end()) return it->second;
      VS x; x.push_back(constEnt(C)); D.consts.push_back(x); return cidx[C] = -(int)D.consts.size();
    }
    auto it = reg.find(v); if (it != reg.end()) return it->second;
    return reg[v] = D.nregs++;
  };
  for (auto &A : F->args()) R(&A);
  D.blocks.resize(nb);
  for (auto &bb : *F) {
    DBlock &b = D.blocks[bid[&bb]]; b.bb = &bb; b.pos = pos[bid[&bb]]; b.loopEnd = lastOf[bid[&bb]];
    if (b.pos < 0) continue;
    for (auto &I : bb) {
      if (auto *P = dyn_cast<PHINode>(&I)) {
        b.nphi++; b.phiDst.push_back(R(P));
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
          int p = bid[P->getIncomingBlock(i)]; auto &vec = b.phiIn[p];
          if ((int)vec.size() < b.nphi) vec.push_back(R(P->getIncomingValue(i)));
        }
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      DInst d; d.I = &I; d.op = I_NOP; d.w = bitw(I.getType());
      if (!I.getType()->isVoidTy()) d.dst = R(&I);
      if (auto *BO = dyn_cast<BinaryOperator>(&I)) { d.op = I_BIN; d.sub = BO->getOpcode(); d.ops = {R(I.getOperand(0)), R(I.getOperand(1))};
        if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) d.nsw = OB->hasNoSignedWrap(); }
      else if (auto *IC = dyn_cast<ICmpInst>(&I)) { d.op = I_ICMP; d.sub = IC->getPredicate(); d.w = bitw(I.getOperand(0)->getType()); d.ops = {R(I.getOperand(0)), R(I.getOperand(1))}; }
      else if (auto *FC = dyn_cast<FCmpInst>(&I)) { d.op = I_FCMP; d.sub = FC->getPredicate(); d.w = bitw(I.getOperand(0)->getType()); d.ops = {R(I.getOperand(0)), R(I.getOperand(1))}; }
      else if (isa<SelectInst>(&I)) { d.op = I_SELECT; d.ops = {R(I.getOperand(0)), R(I.getOperand(1)), R(I.getOperand(2))}; }
      else if (isa<FreezeInst>(&I)) { d.op = I_COPY; d.ops = {R(I.getOperand(0))}; }
      else if (isa<UnaryOperator>(&I)) { d.op = I_FNEG; d.ops = {R(I.getOperand(0))}; }
      else if (auto *CI = dyn_cast<CastInst>(&I)) { d.op = I_CAST; d.sub = CI->getOpcode(); d.w2 = bitw(I.getOperand(0)->getType()); d.ops = {R(I.getOperand(0))}; }
      else if (auto *GE = dyn_cast<GetElementPtrInst>(&I)) {
        d.op = I_GEP; MapVector<Value *, APInt> vo; APInt co(64, 0);
        if (!cast<GEPOperator>(GE)->collectOffset(*DL, 64, vo, co)) fatal("gep");
        d.off = co.getSExtValue(); d.ops = {R(GE->getPointerOperand())};
        for (auto &p : vo) d.idx.push_back({R(p.first), p.second.getSExtValue()});
        d.cases.clear(); for (auto &p : vo) d.cases.push_back({bitw(p.first->getType()), 0});
      }
      else if (auto *LI = dyn_cast<LoadInst>(&I)) { d.op = I_LOAD; if (!d.w) fatal("aggregate load in " + D.name); d.w2 = DL->getTypeStoreSize(LI->getType()); d.ops = {R(LI->getPointerOperand())}; }
      else if (auto *SI = dyn_cast<StoreInst>(&I)) { d.op = I_STORE; if (!bitw(SI->getValueOperand()->getType())) fatal("aggregate store in " + D.name); d.w2 = DL->getTypeStoreSize(SI->getValueOperand()->getType()); d.ops = {R(SI->getPointerOperand()), R(SI->getValueOperand())}; }
      else if (auto *AI = dyn_cast<AllocaInst>(&I)) { d.op = I_ALLOCA; d.off = DL->getTypeAllocSize(AI->getAllocatedType()); d.ops = {R(AI->getArraySize())}; }
      else if (auto *BR = dyn_cast<BranchInst>(&I)) {
        if (BR->isConditional()) { d.op = I_CBR; d.ops = {R(BR->getCondition())}; d.t = bid[BR->getSuccessor(0)]; d.f = bid[BR->getSuccessor(1)]; }
        else { d.op = I_BR; d.t = bid[BR->getSuccessor(0)]; } }
      else if (auto *SW = dyn_cast<SwitchInst>(&I)) { d.op = I_SWITCH; d.ops = {R(SW->getCondition())}; d.t = bid[SW->getDefaultDest()]; for (auto &c : SW->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), bid[c.getCaseSuccessor()]}); }
      else if (auto *RI = dyn_cast<ReturnInst>(&I)) { d.op = I_RET; if (RI->getReturnValue()) d.ops = {R(RI->getReturnValue())}; }
      else if (isa<UnreachableInst>(&I)) d.op = I_UNREACH;
      else if (auto *CB = dyn_cast<CallInst>(&I)) {
        d.op = I_CALL; auto *CF = dyn_cast<llvm::Function>(CB->getCalledOperand()->stripPointerCasts());
        if (CF && CF->isIntrinsic()) {
          StringRef n = CF->getName();
          if (n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.stack")) { continue; }
        }
        for (auto &a : CB->args()) d.ops.push_back(R(a.get()));
        if (CF) {
          d.builtin = builtinOf(CF->getName()); d.callee = CF;
          if (d.builtin == BI_MINMAX) d.sub = CF->getName().starts_with("llvm.smax") ? 0 : CF->getName().starts_with("llvm.smin") ? 1 : CF->getName().starts_with("llvm.umax") ? 2 : 3;
          if (d.builtin == BI_FSH) d.sub = CF->getName().starts_with("llvm.fshr");
          if (d.builtin == BI_SAT) d.sub = CF->getName().starts_with("llvm.usub");
          if (d.builtin == BI_BITS) d.sub = CF->getName().starts_with("llvm.ctpop") ? 0 : CF->getName().starts_with("llvm.bswap") ? 1 : CF->getName().starts_with("llvm.ctlz") ? 2 : 3;
          if (!d.builtin && CF->isDeclaration()) {
            std::string n = CF->getName().str(); if (n.rfind("__isoc99_", 0) == 0) n = n.substr(9);
            if (CF->isVarArg()) { auto *T = M->getFunction("vsv_" + n); if (T && !T->isDeclaration()) { d.callee = T; d.variadic = true; d.sub = CF->getFunctionType()->getNumParams(); } }
            else { auto *T = M->getFunction("vsl_" + n); if (T && !T->isDeclaration()) d.callee = T; }
          }
          if (d.builtin == BI_ASSERT) {
            const Value *c = CB->getArgOperand(0); if (auto *Z = dyn_cast<ZExtInst>(c)) c = Z->getOperand(0);
            if (auto *IC = dyn_cast<ICmpInst>(c)) { d.cmpPred = IC->getPredicate(); d.cmpA = R(IC->getOperand(0)); d.cmpB = R(IC->getOperand(1)); d.cmpW = bitw(IC->getOperand(0)->getType()); }
          }
        } else d.ops.push_back(R(CB->getCalledOperand()));
        for (auto &a : CB->args()) d.cases.push_back({bitw(a->getType()), 0});
      }
      else { std::string s; raw_string_ostream os(s); I.print(os); fatal("unsupported instruction " + s); }
      b.insts.push_back(std::move(d));
    }
  }
  return D;
}

// ---------------------------------------------------------------- operators on entries
// returns 0 ok, 1 division by zero, 2 signed overflow
static int evalBin(unsigned op, unsigned w, const Ent &a, const Ent &b, bool nsw, u64 &v, u32 &o) {
  o = O_INT;
  if (a.o == O_UNDEF || b.o == O_UNDEF) {
    if ((op == Instruction::And && ((a.o == O_INT && a.v == 0) || (b.o == O_INT && b.v == 0)))) { v = 0; return 0; }
    if (op == Instruction::Or && ((a.o == O_INT && a.v == maskw(w)) || (b.o == O_INT && b.v == maskw(w)))) { v = maskw(w); return 0; }
    v = 0; o = O_UNDEF; return 0; }
  if (a.o >= 2 || b.o >= 2) {
    if (op == Instruction::Sub && a.o == b.o) { v = (a.v - b.v) & maskw(w); return 0; }
    if (op == Instruction::Add && b.o == O_INT) { v = a.v + b.v; o = a.o; return 0; }
    if (op == Instruction::Add && a.o == O_INT) { v = a.v + b.v; o = b.o; return 0; }
    if (op == Instruction::Sub && b.o == O_INT) { v = a.v - b.v; o = a.o; return 0; }
    u64 x = a.o >= 2 ? ((u64)a.o << 40) + a.v : a.v, y = b.o >= 2 ? ((u64)b.o << 40) + b.v : b.v;
    Ent aa{x, O_INT, GT}, bb{y, O_INT, GT}; return evalBin(op, w, aa, bb, nsw, v, o);
  }
  u64 m = maskw(w); i64 sa = sext(a.v, w), sb = sext(b.v, w); __int128 t;
  switch (op) {
  case Instruction::Add: v = (a.v + b.v) & m; if (nsw) { t = (__int128)sa + sb; if (t != (__int128)sext(v, w)) return 2; } return 0;
  case Instruction::Sub: v = (a.v - b.v) & m; if (nsw) { t = (__int128)sa - sb; if (t != (__int128)sext(v, w)) return 2; } return 0;
  case Instruction::Mul: v = (a.v * b.v) & m; if (nsw) { t = (__int128)sa * sb; if (t != (__int128)sext(v, w)) return 2; } return 0;
  case Instruction::UDiv: if (!b.v) return 1; v = a.v / b.v; return 0;
  case Instruction::URem: if (!b.v) return 1; v = a.v % b.v; return 0;
  case Instruction::SDiv: if (!b.v) return 1; if (sb == -1) { v = (0 - a.v) & m; return 0; } v = (u64)(sa / sb) & m; return 0;
  case Instruction::SRem: if (!b.v) return 1; if (sb == -1) { v = 0; return 0; } v = (u64)(sa % sb) & m; return 0;
  case Instruction::Shl: if (b.v >= w) { v = 0; o = O_UNDEF; return 0; } v = (a.v << b.v) & m; return 0;
  case Instruction::LShr: if (b.v >= w) { v = 0; o = O_UNDEF; return 0; } v = a.v >> b.v; return 0;
  case Instruction::AShr: if (b.v >= w) { v = 0; o = O_UNDEF; return 0; } v = (u64)(sa >> b.v) & m; return 0;
  case Instruction::And: v = a.v & b.v; return 0;
  case Instruction::Or: v = a.v | b.v; return 0;
  case Instruction::Xor: v = a.v ^ b.v; return 0;
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
    double x, y, r; if (w == 32) { float fx, fy; u32 p = a.v, q = b.v; memcpy(&fx, &p, 4); memcpy(&fy, &q, 4); x = fx; y = fy; } else { memcpy(&x, &a.v, 8); memcpy(&y, &b.v, 8); }
    r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : x / y;
    if (w == 32) { float f = r; u32 q; memcpy(&q, &f, 4); v = q; } else memcpy(&v, &r, 8); return 0; }
  }
  fatal("unsupported binary operator");
}
static bool evalCmp(unsigned pred, unsigned w, const Ent &a, const Ent &b) {
  bool eq = a.o == b.o && a.v == b.v;
  if (pred == CmpInst::ICMP_EQ) return eq; if (pred == CmpInst::ICMP_NE) return !eq;
  u64 x = a.o >= 2 ? ((u64)a.o << 40) + a.v : a.v, y = b.o >= 2 ? ((u64)b.o << 40) + b.v : b.v;
  switch (pred) {
  case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y;
  case CmpInst::ICMP_SGT: return sext(x, w) > sext(y, w); case CmpInst::ICMP_SGE: return sext(x, w) >= sext(y, w);
  case CmpInst::ICMP_SLT: return sext(x, w) < sext(y, w); case CmpInst::ICMP_SLE: return sext(x, w) <= sext(y, w);
  }
  fatal("cmp");
}
template <class Fn> static VS combine2(const VS &a, const VS &b, G pg, Fn f) {
  Acc acc;
  if (a.size() == 1 && b.size() == 1) { f(a[0], b[0], pg, acc); return acc.done(); }
  if (a.size() == 1) { for (auto &y : b) { G g = B.And(y.g, pg); if (g != GF) f(a[0], y, g, acc); } return acc.done(); }
  if (b.size() == 1) { for (auto &x : a) { G g = B.And(x.g, pg); if (g != GF) f(x, b[0], g, acc); } return acc.done(); }
  for (auto &x : a) { G gx = B.And(x.g, pg); if (gx == GF) continue; for (auto &y : b) { G g = B.And(gx, y.g); if (g != GF) f(x, y, g, acc); } }
  return acc.done();
}

static VS execFn(llvm::Function *F, std::vector<VS> args, G &pg);
static VS builtin(const DInst &d, const std::vector<const VS *> &a, G &pg);

static std::string cstr(const VS &p) {
  std::string r; if (p.size() != 1 || p[0].o < 2) return "?"; Obj &o = objs[p[0].o];
  for (u64 i = p[0].v; i < o.size; i++) { VS t; const VS &c = readCell(o, i, 1, t); if (c.size() != 1 || c[0].o != O_INT || !c[0].v) break; r += (char)c[0].v; }
  return r;
}
// removes inputs on which v is uninitialised
static void noUndef(const VS &v, G &pg, const Instruction *I, const char *what) {
  for (auto &e : v) if (e.o == O_UNDEF) { G b = B.And(e.g, pg); if (b != GF) { kill("uninit", what, I, pg, b); } }
}
static void memop(const DInst &d, const VS &dst, const VS &src, const VS &len, bool isset, G &pg) {
  noUndef(len, pg, d.I, "length of memory operation uninitialised");
  for (auto &l : len) {
    if (l.o != O_INT) continue; G gl = B.And(l.g, pg); if (gl == GF || l.v == 0) continue; u64 n = l.v;
    for (auto &t : dst) {
      G gt = B.And(gl, t.g); if (gt == GF) continue; G ok;
      if (!checkTarget(t, n, true, gt, d.I, pg, ok)) continue;
      if (isset) {
        VS bv = src; u64 off = t.v, end = t.v + n;
        while (off < end) {
          if (!(off & 3) && off + 4 <= end && bv.size() == 1 && bv[0].o == O_INT) {
            u64 x = bv[0].v & 255; Obj &o = objs[t.o];
            if (!(off & 7) && off + 8 <= end && o.s[off >> 2].kind == S_P8H) { writeCell(o, off, 8, ok, one(x * 0x0101010101010101ull)); off += 8; }
            else { writeCell(o, off, 4, ok, one(x * 0x01010101ull)); off += 4; }
          } else { writeCell(objs[t.o], off, 1, ok, extract(bv, 0, 8)); off++; }
        }
        continue;
      }
      for (auto &s : src) {
        G gs = B.And(ok, s.g); if (gs == GF) continue; G ok2;
        if (!checkTarget(s, n, false, gs, d.I, pg, ok2)) continue;
        if (s.o == t.o && s.v == t.v) continue;
        if (((s.v | t.v) & 3) == 0) {
          // copy slot-wise, reading everything first
          std::vector<std::tuple<u64, unsigned, VS>> items; u64 i = 0; Obj &so = objs[s.o];
          while (i < n) {
            u64 si = (s.v + i) >> 2; VS tmp;
            if (i + 8 <= n && so.s[si].kind == S_P8H) { items.push_back({i, 8, readCell(so, s.v + i, 8, tmp)}); i += 8; }
            else if (i + 4 <= n && so.s[si].kind != S_BYTES) { items.push_back({i, 4, readCell(so, s.v + i, 4, tmp)}); i += 4; }
            else { items.push_back({i, 1, readCell(so, s.v + i, 1, tmp)}); i += 1; }
          }
          for (auto &it : items) writeCell(objs[t.o], t.v + std::get<0>(it), std::get<1>(it), ok2, std::get<2>(it));
        } else {
          std::vector<VS> bs(n); for (u64 i = 0; i < n; i++) { VS tmp; bs[i] = readCell(objs[s.o], s.v + i, 1, tmp); }
          for (u64 i = 0; i < n; i++) writeCell(objs[t.o], t.v + i, 1, ok2, bs[i]);
        }
      }
    }
  }
}

static G lit(u32 v, bool pos) {
  if (v < fixedVar.size() && fixedVar[v] >= 0) return (fixedVar[v] == (pos ? 1 : 0)) ? GT : GF;
  G x = B.mkvar(v); return pos ? x : gnot(x);
}

static VS builtin(const DInst &d, const std::vector<const VS *> &a, G &pg) {
  switch (d.builtin) {
  case BI_RANGE: {
    if (B.inter(U, gnot(pg))) fatal("symbolic input created under a path condition");
    int lo = (int)sext((*a[1])[0].v, 32), hi = (int)sext((*a[2])[0].v, 32); std::string nm = cstr(*a[0]);
    u32 n = hi - lo + 1, k = 0; while ((1u << k) < n) k++;
    Sym s{nm, lo, hi, nVars, k};
    while (fixedVar.size() < nVars + k) { u32 v = fixedVar.size(); fixedVar.push_back(v < (u32)cubeBits ? (cubeI >> v) & 1 : -1); }
    if (concreteMode) { u64 i = syms.size(); u64 val = i < concreteIn.size() ? concreteIn[i] : 0; for (u32 j = 0; j < k; j++) fixedVar[nVars + j] = (val >> (k - 1 - j)) & 1; }
    nVars += k; syms.push_back(s);
    Acc acc;
    for (u32 c = 0; c < (1u << k); c++) { G g = GT; for (int j = k - 1; j >= 0; j--) g = B.And(g, lit(s.firstVar + j, (c >> (k - 1 - j)) & 1)); acc.add((u64)(u32)(lo + (int)(c % n)), O_INT, g); }
    if (k == 0) return one((u32)lo);
    return acc.done();
  }
  case BI_ASSUME: {
    noUndef(*a[0], pg, d.I, "assumption on uninitialised value");
    G bad = GF; for (auto &e : *a[0]) if (e.v == 0) bad = B.Or(bad, e.g);
    bad = B.And(bad, pg); if (bad != GF) { U = B.And(U, gnot(bad)); pg = B.And(pg, gnot(bad)); }
    return VS();
  }
  case BI_ASSERT: {
    std::string msg = cstr(*a[1]);
    noUndef(*a[0], pg, d.I, "assertion on uninitialised value");
    G bad = GF, good = GF; for (auto &e : *a[0]) if (e.v == 0) bad = B.Or(bad, e.g); else good = B.Or(good, e.g);
    bad = B.And(bad, pg);
    if (a.size() > 2) { // comparison operands, decided by z3
      if (a[2]->size() > 1 || a[3]->size() > 1) obls.push_back({pg, d.cmpPred, *a[2], *a[3], d.cmpW, msg}); else if (bad == GF) nTrivialObl++;
    } else if (bad == GF) { if (good == GT || pg == good) nTrivialObl++; else { VS x; x.push_back({1, O_INT, good}); x.push_back({0, O_INT, gnot(good)}); obls.push_back({pg, CmpInst::ICMP_NE, x, one(0), 32, msg}); } }
    if (bad != GF) kill("assert", msg, d.I, pg, bad);
    return VS();
  }
  case BI_COVER: { std::string m = cstr(*a[0]); auto it = covers.find(m); if (it == covers.end()) covers[m] = B.And(pg, U); else it->second = B.Or(it->second, B.And(pg, U)); return VS(); }
  case BI_TRACE: { traces.push_back({pg, cstr(*a[0]), *a[1]}); return VS(); }
  case BI_ALLOC: {
    noUndef(*a[0], pg, d.I, "allocation size uninitialised"); Acc acc;
    for (auto &e : *a[0]) { if (e.o == O_UNDEF) continue; G g = B.And(e.g, pg); if (g == GF) continue; if (e.v > (1u << 24)) { acc.add(0, O_INT, g); continue; }
      std::string nm = "heap"; for (int i = (int)callStack.size() - 1; i >= 0; i--) if (strcmp(callStack[i], "malloc") && strcmp(callStack[i], "calloc") && strcmp(callStack[i], "realloc")) { nm = std::string("heap@") + callStack[i]; break; }
      u32 id = newObj(e.v, K_HEAP, g, nm); acc.add(0, id, g); }
    if (acc.r.empty()) return one(0);
    return acc.done();
  }
  case BI_FREE: {
    noUndef(*a[0], pg, d.I, "free of uninitialised pointer");
    for (auto &e : *a[0]) {
      G g = B.And(e.g, pg); if (g == GF || e.o == O_UNDEF) continue;
      if (e.o == O_INT) { if (e.v) kill("memory", "free of invalid pointer", d.I, pg, g); continue; }
      Obj &o = objs[e.o];
      if (o.kind != K_HEAP || e.v != 0) { kill("memory", "free of non-heap or interior pointer (" + o.name + ")", d.I, pg, g); continue; }
      G dbl = B.And(g, o.freed); if (dbl != GF) { kill("memory", "double free of " + o.name, d.I, pg, dbl); g = B.And(g, gnot(dbl)); }
      o.freed = B.Or(o.freed, g);
      if (!B.inter(B.And(o.birth, U), gnot(o.freed))) { o.dead = true; std::vector<Slot>().swap(o.s); o.s.resize((o.size + 3) / 4); }
    }
    return VS();
  }
  case BI_ISLIVE: { // is this a pointer to the start of a live heap object?
    Acc acc; for (auto &e : *a[0]) { G g = B.And(e.g, pg); if (g == GF) continue; if (e.o < 2) { acc.add(0, O_INT, g); continue; } Obj &o = objs[e.o]; G dead = B.And(g, o.freed); acc.add(0, O_INT, dead); acc.add(1, O_INT, B.And(g, gnot(dead))); }
    return acc.done();
  }
  case BI_SIZE: { Acc acc; for (auto &e : *a[0]) { G g = B.And(e.g, pg); if (g == GF) continue; if (e.o < 2) acc.add(0, O_INT, g); else acc.add(objs[e.o].size, O_INT, g); } return acc.done(); }
  case BI_NOLEAK: {
    G lk = GF; std::string which; for (auto &o : objs) if (o.kind == K_HEAP && o.freed != GT) { G l = B.And(B.And(o.birth, gnot(o.freed)), B.And(pg, U)); if (l != GF) { lk = B.Or(lk, l); if (which.find(o.name) == std::string::npos) which += " " + o.name; } }
    if (lk == GF) nTrivialObl++;
    kill("leak", "heap memory still allocated:" + which, d.I, pg, lk); return VS();
  }
  case BI_MEMCPY: memop(d, *a[0], *a[1], *a[2], false, pg); return d.dst >= 0 ? *a[0] : VS();
  case BI_MEMSET: memop(d, *a[0], *a[1], *a[2], true, pg); return d.dst >= 0 ? *a[0] : VS();
  case BI_MINMAX: { unsigned w = d.w, k = d.sub; return combine2(*a[0], *a[1], pg, [&](const Ent &x, const Ent &y, G g, Acc &acc) {
      if (x.o == O_UNDEF || y.o == O_UNDEF) { acc.add(0, O_UNDEF, g); return; }
      bool gt = k < 2 ? sext(x.v, w) > sext(y.v, w) : x.v > y.v; bool mx = k == 0 || k == 2; acc.add((gt == mx) ? x.v : y.v, O_INT, g); }); }
  case BI_ABS: { unsigned w = d.w; VS z = one(0); return combine2(*a[0], z, pg, [&](const Ent &x, const Ent &, G g, Acc &acc) { if (x.o == O_UNDEF) acc.add(0, O_UNDEF, g); else { i64 s = sext(x.v, w); acc.add((u64)(s < 0 ? -s : s) & maskw(w), O_INT, g); } }); }
  case BI_FSH: { unsigned w = d.w; bool right = d.sub; /* the upper (fshl) or lower (fshr) word of the shifted pair */
      auto part = [&](const VS &x, bool high) { return combine2(x, *a[2], pg, [&](const Ent &p, const Ent &z, G g, Acc &acc) {
          if (p.o == O_UNDEF || z.o == O_UNDEF) { acc.add(0, O_UNDEF, g); return; }
          unsigned k = (unsigned)(z.v % w); if (right) k = w - k; u64 r = high ? (k >= w ? 0 : p.v << k) : (k == 0 ? 0 : k >= w ? p.v : p.v >> (w - k)); acc.add(r & maskw(w), O_INT, g); }); };
      VS hi = part(*a[0], true), lo = part(*a[1], false);
      return combine2(hi, lo, pg, [&](const Ent &p, const Ent &q, G g, Acc &acc) { if (p.o == O_UNDEF || q.o == O_UNDEF) acc.add(0, O_UNDEF, g); else acc.add(p.v | q.v, O_INT, g); }); }
  case BI_BITS: { unsigned w = d.w; VS z = one(0); return combine2(*a[0], z, pg, [&](const Ent &x, const Ent &, G g, Acc &acc) { if (x.o == O_UNDEF) { acc.add(0, O_UNDEF, g); return; }
      u64 r = 0; unsigned k = 0; switch (d.sub) { case 0: r = __builtin_popcountll(x.v); break; case 1: for (k = 0; k < w; k += 8) r = r << 8 | (x.v >> k & 255); break;
        case 2: for (k = 0; k < w && !(x.v >> (w - 1 - k) & 1); k++) ; r = k; break; default: for (k = 0; k < w && !(x.v >> k & 1); k++) ; r = k; } acc.add(r, O_INT, g); }); }
  case BI_SAT: { unsigned w = d.w; return combine2(*a[0], *a[1], pg, [&](const Ent &x, const Ent &y, G g, Acc &acc) { if (x.o == O_UNDEF || y.o == O_UNDEF) { acc.add(0, O_UNDEF, g); return; }
      u64 r = d.sub ? (x.v > y.v ? x.v - y.v : 0) : (x.v + y.v < x.v || x.v + y.v > maskw(w) ? maskw(w) : x.v + y.v); acc.add(r, O_INT, g); }); }
  case BI_EXPECT: return *a[0];
  case BI_EXIT: { U = B.And(U, gnot(pg)); pg = GF; return VS(); }
  case BI_DBG: { fprintf(stderr, "dbg %s:", cstr(*a[0]).c_str()); for (auto &e : *a[1]) { G g = B.And(e.g, pg); if (g != GF) fprintf(stderr, " %lld/%u", (long long)e.v, e.o); } fprintf(stderr, "\n"); return VS(); }
  }
  fatal("builtin");
}

static VS callOne(llvm::Function *F, const DInst &d, std::vector<VS> args, G &pg) {
  if (F->isDeclaration()) {
    std::string n = F->getName().str();
    auto *T = M->getFunction("vsl_" + n);
    if (T && !T->isDeclaration()) return execFn(T, std::move(args), pg);
    fatal("call to undefined function " + n + " at " + locOf(d.I));
  }
  return execFn(F, std::move(args), pg);
}

static bool timeUp() { return elapsed() > timeLimit; }

struct Pend { std::vector<std::pair<G, std::vector<VS>>> in; bool live = false; };

static VS execFn(llvm::Function *F, std::vector<VS> args, G &pg0) {
  DFn &D = decode(F);
  if (callStack.size() > 400) { kill("recursion", "recursion deeper than 400 frames", nullptr, pg0, pg0); return UNDEFVS; }
  callStack.push_back(D.name.c_str()); fnsExecuted.insert(D.name);
  std::vector<VS> R(D.nregs);
  for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) R[i] = std::move(args[i]);
  int nb = D.blocks.size();
  std::vector<Pend> fwd(nb), back(nb);
  std::map<std::pair<u64, int>, int> q;      // key -> block*2+isback
  std::vector<u64> visits(nb, 0);
  std::vector<u32> frameObjs;
  auto fkey = [&](int b) { return std::make_pair((u64)D.blocks[b].pos * 2, 0); };
  auto bkey = [&](int b) { return std::make_pair((u64)D.blocks[b].loopEnd * 2 + 1, -D.blocks[b].pos); };
  auto val = [&](int r) -> const VS & { return r >= 0 ? R[r] : D.consts[-r - 1]; };
  auto edge = [&](int from, int to, G g) {
    if (g == GF) return;
    DBlock &T = D.blocks[to]; std::vector<VS> ph;
    if (T.nphi) { auto &ops = T.phiIn[from]; ph.reserve(T.nphi); for (int o : ops) ph.push_back(val(o)); }
    bool isb = T.pos <= D.blocks[from].pos;
    Pend &P = isb ? back[to] : fwd[to];
    if (!P.live) { P.live = true; q[isb ? bkey(to) : fkey(to)] = to * 2 + isb; }
    P.in.push_back({g, std::move(ph)});
  };
  std::vector<std::pair<G, VS>> rets;
  bool hasRet = !F->getReturnType()->isVoidTy();
  { Pend &P = fwd[0]; P.live = true; P.in.push_back({pg0, {}}); q[fkey(0)] = 0; }
  while (!q.empty()) {
    auto it = q.begin(); int bi = it->second >> 1; bool isb = it->second & 1; q.erase(it);
    Pend P; std::swap(P, isb ? back[bi] : fwd[bi]);
    DBlock &b = D.blocks[bi];
    G pg = GF; for (auto &x : P.in) pg = B.Or(pg, x.first);
    pg = B.And(pg, U); if (pg == GF) continue;
    nBlocks++; if ((nBlocks & 255) == 0 && timeUp()) { fprintf(stderr, "vsx: time limit\n"); printf("{\"status\":\"timeout\",\"wall\":%.1f}\n", elapsed()); fflush(stdout); _exit(5); }
    if (++visits[bi] > loopLimit) { kill("loop", "loop did not finish within the iteration bound", b.insts.empty() ? nullptr : b.insts[0].I, pg, pg); continue; }
    // phis
    if (b.nphi) {
      std::vector<VS> res(b.nphi);
      for (int k = 0; k < b.nphi; k++) {
        if (P.in.size() == 1) { res[k] = std::move(P.in[0].second[k]); continue; }
        bool same = true; auto &f0 = P.in[0].second[k];
        for (auto &x : P.in) { auto &v = x.second[k]; if (v.size() != 1 || f0.size() != 1 || v[0].v != f0[0].v || v[0].o != f0[0].o) { same = false; break; } }
        if (same) { res[k] = f0; continue; }
        Acc a; for (auto &x : P.in) { auto &v = x.second[k]; if (v.size() == 1) a.add(v[0].v, v[0].o, x.first); else for (auto &e : v) a.add(e.v, e.o, B.And(e.g, x.first)); }
        res[k] = a.done();
      }
      for (int k = 0; k < b.nphi; k++) R[b.phiDst[k]] = std::move(res[k]);
    }
    for (DInst &d : b.insts) {
      nInsts++;
      switch (d.op) {
      case I_BIN: {
        const VS &x = val(d.ops[0]), &y = val(d.ops[1]); int err = 0; G e1 = GF, e2 = GF;
        VS r = combine2(x, y, pg, [&](const Ent &p, const Ent &qn, G g, Acc &acc) { u64 v; u32 o; int e = evalBin(d.sub, d.w, p, qn, d.nsw, v, o);
          if (e == 1) { e1 = B.Or(e1, g); err = 1; } else { if (e == 2) { e2 = B.Or(e2, g); err = 1; } acc.add(v, o, g); } });
        if (err) { if (e1 != GF) kill("arith", "division by zero", d.I, pg, e1); if (e2 != GF && optOverflow) kill("arith", "signed integer overflow", d.I, pg, e2); }
        if (r.empty()) r = UNDEFVS;
        R[d.dst] = std::move(r); break; }
      case I_ICMP: R[d.dst] = combine2(val(d.ops[0]), val(d.ops[1]), pg, [&](const Ent &p, const Ent &qn, G g, Acc &acc) {
          if (p.o == O_UNDEF || qn.o == O_UNDEF) acc.add(0, O_UNDEF, g); else acc.add(evalCmp(d.sub, d.w, p, qn), O_INT, g); }); break;
      case I_FCMP: R[d.dst] = combine2(val(d.ops[0]), val(d.ops[1]), pg, [&](const Ent &p, const Ent &qn, G g, Acc &acc) {
          double x, y; memcpy(&x, &p.v, 8); memcpy(&y, &qn.v, 8); bool r = false;
          switch (d.sub) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break;
            case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break; default: fatal("fcmp"); }
          acc.add(r, O_INT, g); }); break;
      case I_SELECT: {
        const VS &c = val(d.ops[0]); noUndef(c, pg, d.I, "select on uninitialised value");
        if (c.size() == 1) { VS t = val(d.ops[c[0].v ? 1 : 2]); R[d.dst] = std::move(t); break; }
        Acc a; for (auto &e : c) { if (e.o == O_UNDEF) continue; G g = B.And(e.g, pg); if (g == GF) continue; const VS &v = val(d.ops[e.v ? 1 : 2]);
          if (v.size() == 1) a.add(v[0].v, v[0].o, g); else for (auto &z : v) a.add(z.v, z.o, B.And(z.g, g)); }
        R[d.dst] = a.done(); break; }
      case I_COPY: { VS t = val(d.ops[0]); R[d.dst] = std::move(t); break; }
      case I_FNEG: { VS z = one(0); R[d.dst] = combine2(val(d.ops[0]), z, pg, [&](const Ent &p, const Ent &, G g, Acc &acc) { acc.add(p.v ^ (1ull << (d.w - 1)), O_INT, g); }); break; }
      case I_CAST: {
        const VS &x = val(d.ops[0]);
        if (0) {} else if (d.sub == Instruction::PtrToInt || d.sub == Instruction::IntToPtr || d.sub == Instruction::BitCast || d.sub == Instruction::ZExt) { VS t = x; R[d.dst] = std::move(t); break; }
        VS z = one(0);
        R[d.dst] = combine2(x, z, pg, [&](const Ent &p, const Ent &, G g, Acc &acc) {
          if (p.o == O_UNDEF) { acc.add(0, O_UNDEF, g); return; }
          u64 r = 0; double dv; float fv; u32 t;
          switch (d.sub) {
          case Instruction::Trunc: r = p.v & maskw(d.w); break;
          case Instruction::SExt: r = (u64)sext(p.v, d.w2) & maskw(d.w); break;
          case Instruction::SIToFP: dv = (double)sext(p.v, d.w2); memcpy(&r, &dv, 8); break;
          case Instruction::UIToFP: dv = (double)p.v; memcpy(&r, &dv, 8); break;
          case Instruction::FPToSI: memcpy(&dv, &p.v, 8); r = (u64)(i64)dv & maskw(d.w); break;
          case Instruction::FPToUI: memcpy(&dv, &p.v, 8); r = (u64)dv & maskw(d.w); break;
          case Instruction::FPExt: t = p.v; memcpy(&fv, &t, 4); dv = fv; memcpy(&r, &dv, 8); break;
          default: fatal("cast"); }
          acc.add(r, O_INT, g); }); break; }
      case I_GEP: {
        VS cur = val(d.ops[0]);
        if (d.off) for (auto &e : cur) e.v += d.off;
        for (size_t k = 0; k < d.idx.size(); k++) {
          const VS &ix = val(d.idx[k].first); i64 sc = d.idx[k].second; unsigned iw = d.cases[k].first;
          cur = combine2(cur, ix, pg, [&](const Ent &p, const Ent &qn, G g, Acc &acc) {
            if (p.o == O_UNDEF || qn.o == O_UNDEF) acc.add(0, O_UNDEF, g); else acc.add(p.v + (u64)(sext(qn.v, iw) * sc), p.o, g); });
        }
        R[d.dst] = std::move(cur); break; }
      case I_LOAD: { VS r = doLoad(val(d.ops[0]), d.w2, pg, d.I); if (d.w < 8 * d.w2) for (auto &e : r) if (e.o == O_INT) e.v &= maskw(d.w); R[d.dst] = std::move(r); break; }
      case I_STORE: doStore(val(d.ops[0]), val(d.ops[1]), d.w2, pg, d.I); break;
      case I_ALLOCA: { const VS &n = val(d.ops[0]); if (n.size() != 1) fatal("symbolic alloca"); u32 id = newObj(d.off * n[0].v, K_STACK, pg, std::string("local ") + d.I->getName().str() + " of " + D.name); frameObjs.push_back(id); R[d.dst] = one(0, id); break; }
      case I_CALL: {
        if (d.builtin) {
          std::vector<const VS *> a; for (int o : d.ops) a.push_back(&val(o));
          if (d.builtin == BI_ASSERT && d.cmpPred >= 0) { a.push_back(&val(d.cmpA)); a.push_back(&val(d.cmpB)); }
          VS r = builtin(d, a, pg); if (d.dst >= 0) R[d.dst] = std::move(r); break;
        }
        std::vector<VS> args; size_t na = d.callee ? d.ops.size() : d.ops.size() - 1;
        if (d.variadic) {
          size_t nf = d.sub; for (size_t k = 0; k < nf; k++) args.push_back(val(d.ops[k]));
          u32 id = newObj(8 * (na - nf + 1), K_STACK, pg, "varargs"); frameObjs.push_back(id);
          for (size_t k = nf; k < na; k++) writeCell(objs[id], 8 * (k - nf), 8, pg, val(d.ops[k]));
          args.push_back(one(0, id));
        } else for (size_t k = 0; k < na; k++) args.push_back(val(d.ops[k]));
        if (d.callee) { VS r = callOne(d.callee, d, std::move(args), pg); if (d.dst >= 0) R[d.dst] = r.empty() ? UNDEFVS : std::move(r); }
        else {
          const VS fp = val(d.ops.back()); Acc acc; G after = GF;
          for (auto &e : fp) {
            G g = B.And(e.g, pg); if (g == GF) continue;
            if (e.o < 2 || !objs[e.o].fn || e.v != 0) { kill("memory", "call through invalid function pointer", d.I, pg, g); continue; }
            G gg = g; VS r = callOne(objs[e.o].fn, d, args, gg); after = B.Or(after, gg);
            if (r.size() == 1) acc.add(r[0].v, r[0].o, gg); else for (auto &z : r) acc.add(z.v, z.o, B.And(z.g, gg));
          }
          pg = B.And(after, U); if (d.dst >= 0) R[d.dst] = acc.r.empty() ? UNDEFVS : acc.done();
        }
        break; }
      case I_BR: edge(bi, d.t, pg); break;
      case I_CBR: {
        const VS &c = val(d.ops[0]); noUndef(c, pg, d.I, "branch on uninitialised value");
        if (c.size() == 1) { if (pg != GF) edge(bi, c[0].v ? d.t : d.f, pg); break; }
        for (auto &e : c) if (e.o == O_INT) edge(bi, e.v ? d.t : d.f, B.And(e.g, pg)); break; }
      case I_SWITCH: {
        const VS &c = val(d.ops[0]); noUndef(c, pg, d.I, "switch on uninitialised value");
        std::map<int, G> tg; for (auto &e : c) { if (e.o == O_UNDEF) continue; G g = B.And(e.g, pg); if (g == GF) continue; int t = d.t; for (auto &k : d.cases) if (k.first == e.v) { t = k.second; break; }
          auto r = tg.insert({t, g}); if (!r.second) r.first->second = B.Or(r.first->second, g); }
        for (auto &k : tg) edge(bi, k.first, k.second); break; }
      case I_RET: rets.push_back({pg, hasRet ? val(d.ops[0]) : VS()}); break;
      case I_UNREACH: kill("unreachable", "unreachable code reached", d.I, pg, pg); break;
      case I_NOP: break;
      }
      if (pg == GF) break;
    }
  }
  G out = GF; for (auto &r : rets) out = B.Or(out, r.first);
  pg0 = B.And(out, U);
  VS res;
  if (hasRet) {
    if (rets.size() == 1) res = std::move(rets[0].second);
    else { Acc a; for (auto &r : rets) if (r.second.size() == 1) a.add(r.second[0].v, r.second[0].o, r.first); else for (auto &e : r.second) a.add(e.v, e.o, B.And(e.g, r.first)); if (a.r.empty()) res = UNDEFVS; else res = a.done(); }
  }
  for (u32 id : frameObjs) { objs[id].freed = GT; objs[id].dead = true; std::vector<Slot>().swap(objs[id].s); }
  callStack.pop_back();
  return res;
}

// ---------------------------------------------------------------- z3
struct Z {
  Z3_context c; std::unordered_map<u32, Z3_ast> memo; std::vector<Z3_ast> vars; Z3_sort BS; double solveTime = 0; u64 queries = 0, nSat = 0, nUnsat = 0, nUnknown = 0;
  Z() { Z3_config cfg = Z3_mk_config(); c = Z3_mk_context(cfg); BS = Z3_mk_bool_sort(c); }
  Z3_ast var(u32 v) { while (vars.size() <= v) { std::string s = "b" + std::to_string(vars.size()); vars.push_back(Z3_mk_const(c, Z3_mk_string_symbol(c, s.c_str()), BS)); } return vars[v]; }
  Z3_ast guard(G g) {
    Z3_ast r = node(g >> 1); return (g & 1) ? Z3_mk_not(c, r) : r;
  }
  Z3_ast node(u32 id) {
    auto it = memo.find(id); if (it != memo.end()) return it->second;
    if (id == 0) return memo[0] = Z3_mk_true(c);
    std::vector<u32> st{id};
    while (!st.empty()) { u32 x = st.back(); if (memo.count(x)) { st.pop_back(); continue; }
      u32 h = B.n[x].hi >> 1, l = B.n[x].lo >> 1; bool ok = true;
      if (h && !memo.count(h)) { st.push_back(h); ok = false; } if (l && !memo.count(l)) { st.push_back(l); ok = false; }
      if (!ok) continue; st.pop_back();
      memo[x] = Z3_mk_ite(c, var(B.n[x].var), guard(B.n[x].hi), guard(B.n[x].lo)); }
    return memo[id];
  }
  Z3_ast term(const VS &v, unsigned w) {
    Z3_sort s = Z3_mk_bv_sort(c, w); auto num = [&](const Ent &e) { u64 x = e.o >= 2 ? ((u64)e.o << 40) + e.v : e.v; return Z3_mk_unsigned_int64(c, x & maskw(w), s); };
    Z3_ast r = num(v[0]); for (size_t i = 1; i < v.size(); i++) r = Z3_mk_ite(c, guard(v[i].g), num(v[i]), r); return r;
  }
  Z3_ast cmp(int pred, Z3_ast a, Z3_ast b) {
    switch (pred) { case CmpInst::ICMP_EQ: return Z3_mk_eq(c, a, b); case CmpInst::ICMP_NE: return Z3_mk_not(c, Z3_mk_eq(c, a, b));
    case CmpInst::ICMP_UGT: return Z3_mk_bvugt(c, a, b); case CmpInst::ICMP_UGE: return Z3_mk_bvuge(c, a, b); case CmpInst::ICMP_ULT: return Z3_mk_bvult(c, a, b); case CmpInst::ICMP_ULE: return Z3_mk_bvule(c, a, b);
    case CmpInst::ICMP_SGT: return Z3_mk_bvsgt(c, a, b); case CmpInst::ICMP_SGE: return Z3_mk_bvsge(c, a, b); case CmpInst::ICMP_SLT: return Z3_mk_bvslt(c, a, b); case CmpInst::ICMP_SLE: return Z3_mk_bvsle(c, a, b); } fatal("z3 cmp"); }
  // returns 1 sat (asg filled), 0 unsat, -1 unknown
  int check(const std::vector<Z3_ast> &f, std::vector<char> *asg, unsigned ms) {
    Z3_solver s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")); Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), ms); Z3_solver_set_params(c, s, p);
    for (auto a : f) Z3_solver_assert(c, s, a);
    double t = elapsed(); Z3_lbool r = Z3_solver_check(c, s); solveTime += elapsed() - t; queries++;
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; if (res == 1) nSat++; else if (res == 0) nUnsat++; else nUnknown++;
    if (res == 1 && asg) { asg->assign(nVars + 1, 0); Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
      for (u32 v = 0; v < nVars; v++) { if (v < fixedVar.size() && fixedVar[v] >= 0) { (*asg)[v] = fixedVar[v]; continue; } if (v >= vars.size()) continue; Z3_ast o; if (Z3_model_eval(c, m, vars[v], true, &o) && Z3_get_bool_value(c, o) == Z3_L_TRUE) (*asg)[v] = 1; } Z3_model_dec_ref(c, m); }
    Z3_solver_dec_ref(c, s); Z3_params_dec_ref(c, p); return res;
  }
};
// Obligations are handed to z3 in blocks: an obligation whose guards are large is split on its first
// input bits (cofactors; identical ones once) until its size is below a threshold; blocks are batched.
struct Prob { G pg; int pred; unsigned w; VS x, y; };
struct Blocks {
  Z &z; unsigned ms; G keep; bool unknown = false; u64 blocks = 0, splits = 0; std::set<std::vector<u64>> seen; std::vector<Z3_ast> batch; u64 batchSize = 0; std::string msgs;
  static const u64 T = 100, BT = 3000; std::unordered_map<u32, u32> szMemo; std::unordered_set<u32> mark; 
  Blocks(Z &z_, unsigned m, G k) : z(z_), ms(m), keep(k) {}
  u64 walk(G g, u64 cap) { u64 n = 0; std::vector<u32> st{g >> 1}; while (!st.empty()) { u32 x = st.back(); st.pop_back(); if (!x || !mark.insert(x).second) continue; if (++n > cap) break; st.push_back(B.n[x].hi >> 1); st.push_back(B.n[x].lo >> 1); } return n; }
  u64 size(const Prob &p) { mark.clear(); u64 n = walk(p.pg, T); for (auto &e : p.x) if (n <= T) n += walk(e.g, T - n); for (auto &e : p.y) if (n <= T) n += walk(e.g, T - n); return n; }
  static void norm(VS &v) { VS r; for (auto &e : v) { if (e.g == GT) { Ent t = e; v.clear(); v.push_back(t); return; } if (e.g != GF) r.push_back(e); } v = r; if (v.size() == 1) v[0].g = GT; }
  void add(Prob p, const std::string &msg) { if (keep != GT) p.pg = B.And(p.pg, keep); solve(p, msg); }
  double until = 1e18; // with a violation in hand the rest is only looked at for a short while
  void solve(Prob p, const std::string &msg) {
    if (p.pg == GF) return;
    if (until < 1e17 && elapsed() > until) { unknown = true; return; }
    norm(p.x); norm(p.y);
    if (p.x.empty() || p.y.empty()) return;   // no value here: reported as an uninitialised use instead
    if (p.x.size() == 1 && p.y.size() == 1 && evalCmp(p.pred, p.w, p.x[0], p.y[0])) return;
    std::vector<u64> key{p.pg, (u64)p.pred, p.w}; for (VS *v : {&p.x, &p.y}) { key.push_back(~0ull); for (auto &e : *v) { key.push_back(e.v); key.push_back(((u64)e.o << 32) | e.g); } }
    if (!seen.insert(key).second) return;
    u64 n = size(p);
    if (n <= T) { Z3_ast c = z.cmp(p.pred, z.term(p.x, p.w), z.term(p.y, p.w)); Z3_ast a[2] = {z.guard(p.pg), Z3_mk_not(z.c, c)}; batch.push_back(Z3_mk_and(z.c, 2, a)); blocks++; batchSize += n + 20; if (msgs.size() < 300 && msgs.find(msg) == std::string::npos) msgs += msg + "; "; if (batchSize > BT) flush(); return; }
    splits++;
    u32 v = ~0u; auto top = [&](G g) { if (g > 1) v = std::min(v, (u32)B.var(g)); }; top(p.pg); for (auto &e : p.x) top(e.g); for (auto &e : p.y) top(e.g);
    for (int side = 0; side < 2; side++) { Prob q = p; auto cof = [&](G &g) { if (g > 1 && B.var(g) == v) g = side ? B.hi(g) : B.lo(g); }; cof(q.pg); for (auto &e : q.x) cof(e.g); for (auto &e : q.y) cof(e.g); solve(std::move(q), msg); }
  }
  void flush() {
    if (batch.empty()) return;
    int r = z.check({batch.size() == 1 ? batch[0] : Z3_mk_or(z.c, batch.size(), batch.data())}, nullptr, ms);
    if (r == 1) fatal("z3 finds a violation the guard engine missed: " + msgs); if (r < 0) unknown = true;
    batch.clear(); batchSize = 0; msgs.clear();
  }
};
static std::string jesc(const std::string &s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r; }
static i64 symVal(const Sym &s, const std::vector<char> &asg) { u32 c = 0; for (u32 j = 0; j < s.nbits; j++) c = c * 2 + (asg[s.firstVar + j] ? 1 : 0); return s.lo + (i64)(c % (u32)(s.hi - s.lo + 1)); }
static std::string inputLine(const std::vector<char> &asg) { std::string r = "["; for (size_t i = 0; i < syms.size(); i++) { if (i) r += ","; r += "[\"" + jesc(syms[i].name) + "\"," + std::to_string(symVal(syms[i], asg)) + "]"; } return r + "]"; }
static double count(G g) { // fraction of the input space
  std::unordered_map<u32, double> m; std::function<double(G)> f = [&](G x) -> double { if (x == GT) return 1; if (x == GF) return 0; u32 id = x >> 1; double p; auto it = m.find(id); if (it != m.end()) p = it->second; else { p = 0.5 * f(B.n[id].hi) + 0.5 * f(B.n[id].lo); m[id] = p; } return (x & 1) ? 1 - p : p; }; return f(g); }

static int run(int argc, char **argv) {
  std::string file, entry = "harness"; unsigned z3ms = 300000; int nSamples = 0; u64 seed = 1; bool noOblig = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--entry") entry = argv[++i]; else if (a == "--time") timeLimit = atof(argv[++i]); else if (a == "--cube") { cubeI = atoi(argv[++i]); cubeBits = atoi(argv[++i]); }
    else if (a == "--z3ms") z3ms = atoi(argv[++i]); else if (a == "--samples") nSamples = atoi(argv[++i]); else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
    else if (a == "--no-overflow") optOverflow = false; else if (a == "--loop-limit") loopLimit = atoll(argv[++i]); else if (a == "--no-oblig") noOblig = true; else if (a == "--max-nodes") B.maxNodes = atoll(argv[++i]);
    else if (a == "--concrete") { concreteMode = true; for (char *p = strtok(argv[++i], ","); p; p = strtok(0, ",")) concreteIn.push_back(strtoull(p, 0, 10)); }
    else file = a; }
  t0 = std::chrono::steady_clock::now();
  LLVMContext ctx; SMDiagnostic err; M = parseIRFile(file, err, ctx); if (!M) { err.print("vsx", errs()); return 3; }
  DL = &M->getDataLayout();
  objs.reserve(1 << 16); objs.emplace_back(); objs.emplace_back(); objs[0].kind = objs[1].kind = K_GLOBAL;
  auto *F = M->getFunction(entry); if (!F || F->isDeclaration()) fatal("no entry function " + entry);
  G pg = GT; execFn(F, {}, pg); G endG = B.And(pg, U);
  double execTime = elapsed();
  Z z; std::string out; bool bad = false, unknown = false;
  // violations: confirm with z3 and extract an input
  std::string vj;
  for (auto &v : viols) { std::vector<char> asg; int r = z.check({z.guard(v.g)}, &asg, z3ms); if (r == 0) fatal("z3 and the guard engine disagree"); bad = true; if (!vj.empty()) vj += ",";
    vj += "{\"kind\":\"" + jesc(v.kind) + "\",\"msg\":\"" + jesc(v.msg) + "\",\"loc\":\"" + jesc(v.loc) + "\",\"fraction\":" + std::to_string(count(v.g)) + ",\"input\":" + (r == 1 ? inputLine(asg) : "null") + "}"; }
  // obligations: path guard and negated comparison, grouped by message
  u64 nObl = 0, nDis = 0, nBlk = 0, nSplit = 0;
  if (!noOblig) {
    G Vall = GF; for (auto &v : viols) Vall = B.Or(Vall, v.g);
    Blocks bl(z, bad ? std::min(z3ms, 10000u) : z3ms, gnot(Vall)); if (bad) bl.until = elapsed() + 20;
    for (auto &o : obls) { nObl++; bl.add({o.pg, o.pred, o.w, o.x, o.y}, o.msg); }
    for (auto &m : memObl) { nObl++; VS x; x.push_back({1, O_INT, m.second}); x.push_back({0, O_INT, gnot(m.second)}); bl.add({m.first, CmpInst::ICMP_NE, 32, x, one(0)}, "memory access"); }
    bl.flush(); unknown = bl.unknown; if (!unknown) nDis = nObl; nBlk = bl.blocks; nSplit = bl.splits;
  }
  std::string cj; for (auto &c : covers) { std::vector<char> asg; int r = z.check({z.guard(c.second)}, &asg, z3ms); if (!cj.empty()) cj += ","; cj += "\"" + jesc(c.first) + "\":{\"reached\":" + (r == 1 ? "true" : "false") + ",\"fraction\":" + std::to_string(count(c.second)) + ",\"input\":" + (r == 1 ? inputLine(asg) : "null") + "}"; }
  int rEnd = z.check({z.guard(endG)}, nullptr, z3ms);
  // sampled traces for validation of the encoding against the natively compiled code
  std::string sj; u64 rs = seed * 6364136223846793005ull + 1442695040888963407ull;
  for (int k = 0, tries = 0; k < nSamples && tries < nSamples * 50; tries++) { std::vector<char> asg(nVars + 1, 0); for (u32 v = 0; v < nVars; v++) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; asg[v] = fixedVar[v] >= 0 ? fixedVar[v] : (rs >> 33) & 1; }
    if (!B.eval(endG, asg)) continue; k++;
    if (!sj.empty()) sj += ","; sj += "{\"input\":" + inputLine(asg) + ",\"trace\":["; bool first = true;
    for (auto &t : traces) if (B.eval(t.g, asg)) { for (auto &e : t.v) if (B.eval(e.g, asg)) { if (!first) sj += ","; first = false; sj += "[\"" + jesc(t.tag) + "\"," + std::to_string((i64)e.v) + "]"; break; } }
    sj += "]}"; }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  std::string fj; for (auto &f : fnsExecuted) { if (!fj.empty()) fj += ","; fj += "\"" + f + "\""; }
  printf("{\"status\":\"%s\",\"violations\":[%s],\"covers\":{%s},\"end_reachable\":%s,\"obligations\":%llu,\"discharged\":%llu,\"folded\":%llu,\"asserts_multi\":%zu,\"memchecks\":%llu,\"mem_obligations\":%zu,"
         "\"blocks_solved\":%llu,\"block_splits\":%llu,\"queries\":%llu,\"solver_s\":%.3f,\"exec_s\":%.3f,\"wall\":%.3f,\"blocks\":%llu,\"insts\":%llu,\"bdd_nodes\":%zu,\"bdd_ops\":%llu,\"vars\":%u,\"inputs\":%zu,\"objects\":%zu,\"rss_mb\":%ld,\"samples\":[%s],\"functions\":[%s]}\n",
         bad ? "violation" : unknown ? "unknown" : "ok", vj.c_str(), cj.c_str(), rEnd == 1 ? "true" : "false", (unsigned long long)nObl, (unsigned long long)nDis, (unsigned long long)nTrivialObl, obls.size(), (unsigned long long)nMemChecks, memObl.size(),
         (unsigned long long)nBlk, (unsigned long long)nSplit, (unsigned long long)z.queries, z.solveTime, execTime, elapsed(), (unsigned long long)nBlocks, (unsigned long long)nInsts, B.n.size(), (unsigned long long)B.ops, nVars, syms.size(), objs.size(), ru.ru_maxrss / 1024, sj.c_str(), fj.c_str());
  fflush(stdout); _exit(bad ? 1 : unknown ? 5 : 0);
}

// the executor recurses; give it a large stack of its own
struct MainArgs { int argc; char **argv; };
static void *runThread(void *p) { auto *a = (MainArgs *)p; int r = run(a->argc, a->argv); fflush(stdout); _exit(r); }
int main(int argc, char **argv) {
  MainArgs a{argc, argv}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4096ull << 20);
  pthread_t t; if (pthread_create(&t, &at, runThread, &a)) return 3; pthread_join(t, nullptr); return 3;
}
