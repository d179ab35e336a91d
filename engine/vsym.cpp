// vsym: bounded symbolic execution of LLVM bitcode (clang -O0 + sroa of the real sources) with Z3.
// Concrete memory layout, symbolic contents, exact forking on feasible branches.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <memory>
#include <set>
#include <deque>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <signal.h>
#include <fstream>
#include <sstream>
using namespace llvm;

static std::unique_ptr<Module> M; static const DataLayout *DL;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------- options ----------
static double optTime = 100; static uint64_t optMaxSteps = 3000000; static int optMaxConc = 300; static std::string optOut, optFifo; static int optSamples = 20; static bool optUninit = true; static int optVerbose = 0; static uint64_t optMemMB = 3500; static bool optStopFirst = false; static int optMaxForks = 64;
static double tStart, tDeadline;

// ---------- values & memory ----------
struct Val { ERef e = nullptr; uint64_t c = 0; };
static inline Val CV(uint64_t c) { Val v; v.c = c; return v; }
static inline Val EV(ERef e) { Val v; if (e->kind == K_CONST) v.c = e->val; else v.e = e; return v; }
static inline ERef X(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
#define UNINIT ((ERef)1)

struct Obj { uint64_t base, size; std::vector<uint8_t> conc; std::vector<ERef> sym; uint8_t ro = 0; uint8_t kind = 0; /*0 global 1 stack 2 heap*/ uint32_t seq = 0; };
typedef std::shared_ptr<Obj> ObjP;
static const unsigned SH = 33; static const uint64_t MID = 1ull << 32;
struct Chunk { ObjP o[64]; };
struct AddrSpace {
  std::vector<std::shared_ptr<Chunk>> ch; uint32_t next = 16;
  ObjP *slot(uint32_t id) { if (id / 64 >= ch.size()) return nullptr; auto &c = ch[id / 64]; if (!c) return nullptr; return &c->o[id % 64]; }
  Obj *get(uint64_t a) { uint64_t id = a >> SH; if (id == 0 || id >= next) return nullptr; ObjP *p = slot((uint32_t)id); return p && *p ? p->get() : nullptr; }
  void set(uint32_t id, ObjP o) { if (id / 64 >= ch.size()) ch.resize(id / 64 + 1); auto &c = ch[id / 64]; if (!c) c = std::make_shared<Chunk>(); else if (c.use_count() > 1) c = std::make_shared<Chunk>(*c); c->o[id % 64] = o; }
  Obj *getW(uint64_t a) { Obj *o = get(a); if (!o) return nullptr; uint32_t id = a >> SH; ObjP *p = slot(id); 
    if (ch[id / 64].use_count() > 1) { ch[id / 64] = std::make_shared<Chunk>(*ch[id / 64]); p = slot(id); }
    if (p->use_count() > 1) { *p = std::make_shared<Obj>(**p); } return p->get(); }
};
static uint64_t newObj(AddrSpace &as, uint64_t size, int kind, bool uninit) {
  ObjP o = std::make_shared<Obj>(); uint32_t id = as.next++; o->base = ((uint64_t)id << SH) + MID; o->size = size; o->kind = kind; o->conc.assign(size, 0); if (uninit) o->sym.assign(size, UNINIT); as.set(id, o); return o->base;
}

// ---------- precompiled code ----------
struct KOp { uint8_t kind; uint64_t c; int slot; unsigned w; }; // 0 const 1 slot 2 undef
struct KBlock;
struct KInst { const Instruction *I; unsigned opc; int dst; unsigned w; std::vector<KOp> ops; uint64_t gepOff; std::vector<std::pair<int,uint64_t>> gepIdx; const Function *callee; std::string *cname; int handler; int leafOff, leafN; std::vector<unsigned> leafW; unsigned pred; };
struct KBlock { const BasicBlock *bb; std::vector<KInst> insts; bool visited = false; };
struct KFunc { const Function *F; std::vector<KBlock> blocks; DenseMap<const BasicBlock*, unsigned> bidx; DenseMap<const Value*, int> slots; int nslots = 0; bool entered = false; };
static std::map<const Function*, KFunc*> kfs;
static std::map<const GlobalValue*, uint64_t> gaddr; static std::map<uint64_t, const Function*> faddr;

static unsigned widthOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
  return 0;
}
static void leaves(Type *t, std::vector<unsigned> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { for (auto *e : st->elements()) leaves(e, out); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { for (uint64_t i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), out); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { for (uint64_t i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), out); return; }
  out.push_back(widthOf(t));
}
struct Unsupported { std::string m; };
static uint64_t constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw Unsupported{"wide int"}; return ci->getZExtValue(); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { if (widthOf(cf->getType()) == 0) throw Unsupported{"fp type"}; return cf->getValueAPF().bitcastToAPInt().getZExtValue(); }
  if (isa<ConstantPointerNull>(c)) return 0;
  if (auto *gv = dyn_cast<GlobalValue>(c)) { if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee()); return gaddr.at(gv); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { auto *g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"}; return constVal(cast<Constant>(g->getPointerOperand())) + off.getZExtValue(); }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: { uint64_t v = constVal(ce->getOperand(0)); unsigned w = widthOf(ce->getType()); return v & maskw(w); }
    case Instruction::Trunc: return constVal(ce->getOperand(0)) & maskw(widthOf(ce->getType()));
    case Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & maskw(widthOf(ce->getType()));
    case Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & maskw(widthOf(ce->getType()));
    default: break;
    }
  }
  if (isa<ConstantAggregateZero>(c)) return 0;
  throw Unsupported{"constant"};
}
static void initGlobal(Obj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cds->getRawDataValues(); memcpy(&o->conc[off], raw.data(), raw.size()); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { const StructLayout *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(o, off + i * es, ca->getOperand(i)); return; }
  uint64_t v = constVal(c); unsigned n = DL->getTypeStoreSize(t); memcpy(&o->conc[off], &v, n);
}

// ---------- handlers ----------
enum H { H_NONE = 0, H_IN, H_ASSUME, H_CHECK, H_REACH, H_MALLOC, H_CALLOC, H_REALLOC, H_FREE, H_MEMCPY, H_MEMSET, H_VASTART, H_VACOPY, H_NOP, H_MATH1, H_MATH2, H_EXIT, H_LIVE, H_TIME, H_TRAP, H_FMTD, H_ISSYM, H_NAME, H_CONC, H_STRTOD, H_ABS, H_FSHL, H_FSHR };
static std::map<std::string, int> hmap = {
  {"vh_in8", H_IN}, {"vh_in16", H_IN}, {"vh_in32", H_IN}, {"vh_in64", H_IN}, {"vh_assume", H_ASSUME}, {"vh_check", H_CHECK}, {"vh_reach", H_REACH},
  {"malloc", H_MALLOC}, {"calloc", H_CALLOC}, {"realloc", H_REALLOC}, {"free", H_FREE}, {"memcpy", H_MEMCPY}, {"memmove", H_MEMCPY}, {"memset", H_MEMSET},
  {"exit", H_EXIT}, {"abort", H_EXIT}, {"_exit", H_EXIT}, {"vh_live", H_LIVE}, {"vh_fmt_double", H_FMTD}, {"vh_is_symbolic", H_ISSYM}, {"vh_concretize", H_CONC}, {"vh_strtod", H_STRTOD},
  {"fabs", H_MATH1}, {"fabsf", H_MATH1}, {"floor", H_MATH1}, {"ceil", H_MATH1}, {"trunc", H_MATH1}, {"round", H_MATH1}, {"sqrt", H_MATH1}, {"floorf", H_MATH1}, {"ceilf", H_MATH1}, {"roundf", H_MATH1}, {"sqrtf", H_MATH1}, {"log2f", H_MATH1},
};
static const char *math1[] = {"sin","cos","tan","asin","acos","atan","sinh","cosh","tanh","asinh","acosh","atanh","exp","exp2","expm1","log","log2","log10","log1p","logb","cbrt","erf","erfc","lgamma","tgamma","j0","j1","y0","y1","rint","nearbyint", nullptr};
static const char *math2[] = {"pow","fmod","atan2","hypot","remainder","nextafter","fdim","copysign","fmax","fmin","vh_jn","vh_yn", nullptr};

// ---------- state ----------
struct Frame { KFunc *kf; unsigned bb, pc, prev; std::vector<Val> s; std::vector<uint32_t> allocas; std::vector<std::pair<Val,unsigned>> va; uint64_t vaObj = 0; int retDst = -1; };
struct InRec { ERef e; unsigned w; };
struct State { std::vector<Frame> st; AddrSpace as; CState c; std::vector<InRec> in; unsigned nUndef = 0, nUF = 0; uint64_t steps = 0; int conc = 0; uint32_t heapSeq = 0; std::vector<std::string> reach; uint64_t checks = 0; uint64_t id = 0; };
typedef std::unique_ptr<State> SP;
static AddrSpace baseAS;
static std::deque<SP> work; static uint64_t gStateId = 0;

struct Viol { std::string kind, msg, func, loc; std::vector<std::string> stack; std::vector<std::pair<unsigned,uint64_t>> in; std::vector<std::string> reach; bool undef = false; uint64_t count = 1; };
struct Sample { std::vector<std::pair<unsigned,uint64_t>> in; std::vector<std::string> reach; };
static struct { uint64_t paths = 0, forks = 0, insts = 0, checks = 0, checksProved = 0, checksSyntactic = 0, infeasibleAssume = 0, maxInputs = 0; std::map<std::string, uint64_t> reach, incomplete, checkLabels; std::map<std::string, Viol> viol; std::vector<Sample> samples; uint64_t left = 0; } G;

static void trace(State &s, std::vector<std::string> &out, std::string &func, std::string &loc) {
  for (int i = (int)s.st.size() - 1; i >= 0; i--) {
    Frame &f = s.st[i]; const Instruction *I = f.kf->blocks[f.bb].insts[std::min<size_t>(f.pc, f.kf->blocks[f.bb].insts.size() - 1)].I;
    std::string l = "?"; if (auto &d = I->getDebugLoc()) { auto *sc = cast<DIScope>(d.getScope()); l = sc->getFilename().str() + ":" + std::to_string(d.getLine()); size_t p = l.rfind('/'); if (p != std::string::npos) l = l.substr(p + 1); }
    std::string fn = f.kf->F->getName().str(); out.push_back(fn + " " + l); if (i == (int)s.st.size() - 1) { func = fn; loc = l; }
  }
}
static void modelInputs(State &s, const std::vector<uint64_t> &m, std::vector<std::pair<unsigned,uint64_t>> &out) { for (auto &r : s.in) out.push_back({r.w, evalExpr(r.e, m)}); }
static void report(State &s, const std::string &kind, const std::string &msg, const std::vector<uint64_t> &m, ERef cond = nullptr) {
  Viol v; v.kind = kind; v.msg = msg; trace(s, v.stack, v.func, v.loc); modelInputs(s, m, v.in); v.reach = s.reach;
  if (cond) for (auto x : cond->vars->v) if (gVars[x].kind == 1) v.undef = true;
  std::string key = kind + "|" + msg + "|" + v.func + "|" + v.loc;
  auto it = G.viol.find(key);
  if (it != G.viol.end()) { it->second.count++; return; }
  if (G.viol.size() < 40) G.viol[key] = v;
  if (optVerbose) { fprintf(stderr, "VIOL %s: %s in %s\n", kind.c_str(), msg.c_str(), v.loc.c_str()); for (auto &x : v.stack) fprintf(stderr, "    %s\n", x.c_str()); }
}
struct PathEnd { std::string why; bool done; };
[[noreturn]] static void endPath(const std::string &why, bool done = false) { throw PathEnd{why, done}; }
static void incomplete(const std::string &w) { G.incomplete[w]++; }

static SP cloneState(State &s) { SP n(new State(s)); n->id = ++gStateId; G.forks++; return n; }
static ERef freshUndef(State &s, unsigned w) { return mkVar("undef" + std::to_string(s.nUndef++), w, 1); }

// must be called before the instruction has side effects
static uint64_t concretize(State &s, const Val &v, unsigned w) {
  if (!v.e) return v.c;
  ERef e = substKnown(s.c, v.e); if (e->kind == K_CONST) return e->val;
  uint64_t x = evalExpr(e, s.c.model); ERef eq = mkBin(K_EQ, e, mkConst(x, w)); ERef ne = mkNot(eq); std::vector<uint64_t> m;
  Res r = mayBeTrue(s.c, ne, m);
  if (r == R_UNKNOWN) incomplete("solver unknown (value enumeration)");
  if (r == R_SAT) {
    if (s.conc >= optMaxConc) incomplete("value enumeration limit");
    else { SP n = cloneState(s); n->conc++; addTrue(n->c, ne, m); work.push_back(std::move(n)); }
  }
  addTrue(s.c, eq, s.c.model); return x;
}
static uint64_t addrOf(State &s, const Val &v) { return v.c; }

struct Loc { Obj *o; uint64_t off; ERef symOff; };
// find the object for an n-byte access at p; symOff is set when the offset inside the object is still symbolic
static Loc resolve(State &s, const Val &p0, uint64_t n, bool write, const char *what) {
  Val p = p0; if (p.e) p = EV(substKnown(s.c, p.e));
  auto describe = [&](uint64_t a) { std::string d = what; if (a < 4096) d += ": null pointer"; else { Obj *o = s.as.get(a); if (!o) d += ": dangling or wild pointer"; else d += std::string(": out of bounds of ") + (o->kind == 0 ? "global" : o->kind == 1 ? "stack" : "heap") + " object"; } return d; };
  auto okIn = [&](Obj *o, uint64_t a) { return o && a >= o->base && o->size >= n && a - o->base <= o->size - n; };
  Obj *o; uint64_t off; ERef so = nullptr;
  if (!p.e) {
    o = s.as.get(p.c);
    if (!okIn(o, p.c)) { if (faddr.count(p.c)) { report(s, "memory", std::string(what) + ": data access to code", s.c.model); } else report(s, "memory", describe(p.c), s.c.model); endPath("memory error"); }
    off = p.c - o->base;
  } else {
    uint64_t a = evalExpr(p.e, s.c.model); o = s.as.get(a);
    if (!okIn(o, a)) {
      report(s, "memory", describe(a), s.c.model, p.e);
      bool found = false; std::vector<uint64_t> m;
      if (o && o->size >= n) { ERef inb = mkBin(K_ULE, mkBin(K_SUB, p.e, mkConst(o->base, 64)), mkConst(o->size - n, 64)); if (mayBeTrue(s.c, inb, m) == R_SAT) { addTrue(s.c, inb, m); found = true; } }
      if (!found) endPath("memory error");
    }
    ERef d = mkBin(K_SUB, p.e, mkConst(o->base, 64)); ERef inb = mkBin(K_ULE, d, mkConst(o->size - n, 64)); std::vector<uint64_t> m;
    Res r = mayBeTrue(s.c, mkNot(inb), m);
    if (r == R_UNKNOWN) incomplete("solver unknown (bounds)");
    if (r == R_SAT) {
      uint64_t a2 = evalExpr(p.e, m); Obj *o2 = s.as.get(a2);
      if (okIn(o2, a2)) { SP nst = cloneState(s); addTrue(nst->c, mkNot(inb), m); work.push_back(std::move(nst)); }
      else report(s, "memory", describe(a2), m, p.e);
      addTrue(s.c, inb, s.c.model);
    }
    d = substKnown(s.c, d);
    if (d->kind == K_CONST) off = d->val; else { off = 0; so = d; }
  }
  if (write && o->ro) { report(s, "memory", std::string(what) + ": write to read-only data", s.c.model); endPath("memory error"); }
  return {o, off, so};
}
static ERef readByte(State &s, Obj *&o, uint64_t i) {
  if (o->sym.empty() || !o->sym[i]) return nullptr;
  if (o->sym[i] == UNINIT) { uint64_t a = o->base; Obj *w = s.as.getW(a); w->sym[i] = freshUndef(s, 8); o = w; }
  return o->sym[i];
}
static Val readAt(State &s, Obj *o, uint64_t off, unsigned n, unsigned w) {
  bool anySym = false; if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { anySym = true; break; }
  if (!anySym) { uint64_t v = 0; memcpy(&v, &o->conc[off], n); return CV(v & maskw(w)); }
  ERef r = nullptr;
  for (unsigned i = 0; i < n; i++) { ERef b = readByte(s, o, off + i); if (!b) b = mkConst(o->conc[off + i], 8); r = r ? mkConcat(b, r) : b; }
  return EV(mkExtract(r, 0, w));
}
static void writeAt(State &s, Obj *o, uint64_t off, unsigned n, const Val &v, unsigned w) {
  if (!v.e) { memcpy(&o->conc[off], &v.c, n); if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr; return; }
  if (o->sym.empty()) o->sym.assign(o->size, nullptr);
  ERef e = mkZext(v.e, n * 8);
  for (unsigned i = 0; i < n; i++) { ERef b = mkExtract(e, 8 * i, 8); if (b->kind == K_CONST) { o->conc[off + i] = b->val; o->sym[off + i] = nullptr; } else o->sym[off + i] = b; }
}
// an address computed from several byte variables, each through a few values (a table-driven automaton):
// decide the one with the fewest values first, so that the table index depends on one variable only
static void collect8(ERef e, std::vector<ERef> &out, std::unordered_set<ERef> &seen) {
  if (e->kind == K_CONST || !seen.insert(e).second) return;
  uint32_t v; if (isSingle8(e, v)) { out.push_back(e); return; }
  for (int i = 0; i < e->nops; i++) collect8(e->op[i], out, seen);
}
static ERef replaceIn(ERef e, ERef from, ERef to, std::unordered_map<ERef, ERef> &memo) {
  if (e == from) return to;
  if (e->kind == K_CONST || e->kind == K_VAR) return e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  ERef o[3] = {e->op[0], e->op[1], e->op[2]}; bool ch = false;
  for (int i = 0; i < e->nops; i++) { o[i] = replaceIn(e->op[i], from, to, memo); ch |= o[i] != e->op[i]; }
  return memo[e] = ch ? rebuild(e, o[0], o[1], o[2]) : e;
}
static Val splitAddress(State &s, const Val &p) {
  if (!p.e) return p;
  ERef e = substKnown(s.c, p.e);
  for (int it = 0; it < 6; it++) {
    if (e->kind == K_CONST || e->vars->v.size() < 2 || e->vars->v.size() > 6 || e->size > 4000) break;
    std::vector<ERef> l; std::unordered_set<ERef> seen; collect8(e, l, seen); ERef best = nullptr; size_t bn = 65;
    for (ERef t : l) { uint32_t v = t->vars->v[0]; const uint64_t *tb = table8(t); std::set<uint64_t> d; for (int i = 0; i < 256 && d.size() < bn; i++) if (domTest(s.c, v, i)) d.insert(tb[i]); if (d.size() && d.size() < bn) { bn = d.size(); best = t; } }
    if (!best) break;
    uint64_t x = concretize(s, EV(best), best->width); std::unordered_map<ERef, ERef> memo; e = replaceIn(e, best, mkConst(x, best->width), memo);
  }
  return e->kind == K_CONST ? CV(e->val) : EV(e);
}
static Val load(State &s, const Val &p0, unsigned w) {
  Val p = splitAddress(s, p0);
  unsigned n = (w + 7) / 8; Loc l = resolve(s, p, n, false, "read");
  if (!l.symOff) return readAt(s, l.o, l.off, n, w);
  uint32_t var;
  if (isSingle8(l.symOff, var)) {
    const uint64_t *t = table8(l.symOff); std::map<uint64_t, std::vector<int>> groups; bool ok = true; Obj *o = l.o;
    for (int i = 0; i < 256 && ok; i++) if (domTest(s.c, var, i)) { uint64_t off = t[i]; if (off > o->size - n) continue; // excluded by the path condition
        if (!o->sym.empty()) for (unsigned k = 0; k < n; k++) if (o->sym[off + k]) ok = false;
        if (ok) { uint64_t v = 0; memcpy(&v, &o->conc[off], n); groups[v & maskw(w)].push_back(i); } }
    if (ok && groups.size() <= 80) {
      ERef x = mkVar(gVars[var].name, 8, gVars[var].kind); ERef r = nullptr;
      // largest group last (default)
      std::vector<std::pair<uint64_t, std::vector<int>*>> gs; for (auto &g : groups) gs.push_back({g.first, &g.second});
      std::sort(gs.begin(), gs.end(), [](auto &a, auto &b) { return a.second->size() > b.second->size(); });
      for (auto &g : gs) { ERef val = mkConst(g.first, w); if (!r) { r = val; continue; }
        ERef cond = mkConst(0, 1); auto &v = *g.second; size_t i = 0;
        while (i < v.size()) { size_t j = i; while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++; cond = mkOr1(cond, v[i] == v[j] ? mkBin(K_EQ, x, mkConst(v[i], 8)) : mkAnd1(mkBin(K_ULE, mkConst(v[i], 8), x), mkBin(K_ULE, x, mkConst(v[j], 8)))); i = j + 1; }
        r = mkIte(cond, val, r); }
      return EV(r);
    }
  }
  uint64_t off = concretize(s, EV(l.symOff), 64); Obj *o = s.as.get(l.o->base);
  return readAt(s, o, off, n, w);
}
static void store(State &s, const Val &p, const Val &v, unsigned w) {
  unsigned n = (w + 7) / 8; Loc l = resolve(s, p, n, true, "write"); uint64_t base = l.o->base;
  uint64_t off = l.symOff ? concretize(s, EV(l.symOff), 64) : l.off;
  writeAt(s, s.as.getW(base), off, n, v, w);
}
static std::string cstr(State &s, uint64_t a) { std::string r; Obj *o = s.as.get(a); if (!o) return r; for (uint64_t i = a - o->base; i < o->size && o->conc[i]; i++) r += (char)o->conc[i]; return r; }

// ---------- compile ----------
static int leafOffset(Type *t, ArrayRef<unsigned> idx, Type **out) {
  int off = 0;
  for (unsigned i : idx) {
    if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) { std::vector<unsigned> l; leaves(st->getElementType(k), l); off += l.size(); } t = st->getElementType(i); }
    else { auto *at = cast<ArrayType>(t); std::vector<unsigned> l; leaves(at->getElementType(), l); off += i * l.size(); t = at->getElementType(); }
  }
  *out = t; return off;
}
static KFunc *kfunc(const Function *F) {
  auto it = kfs.find(F); if (it != kfs.end()) return it->second;
  KFunc *k = new KFunc; k->F = F; kfs[F] = k;
  auto give = [&](const Value *v) { std::vector<unsigned> l; if (!v->getType()->isVoidTy()) leaves(v->getType(), l); k->slots[v] = k->nslots; k->nslots += std::max<size_t>(1, l.size()); };
  for (auto &a : F->args()) give(&a);
  unsigned bi = 0; for (auto &b : *F) { k->bidx[&b] = bi++; for (auto &i : b) if (!i.getType()->isVoidTy()) give(&i); }
  auto mk = [&](const Value *v) { KOp o{0, 0, -1, 0}; if (v->getType()->isVoidTy() || v->getType()->isLabelTy() || v->getType()->isMetadataTy()) return o;
    o.w = widthOf(v->getType());
    if (isa<UndefValue>(v)) { o.kind = 2; return o; }
    if (auto *c = dyn_cast<Constant>(v)) { o.kind = 0; if (!v->getType()->isAggregateType() && !v->getType()->isVectorTy()) o.c = constVal(c); return o; }
    o.kind = 1; o.slot = k->slots.lookup(v); return o; };
  for (auto &b : *F) {
    KBlock kb; kb.bb = &b;
    for (auto &i : b) {
      KInst ki; ki.I = &i; ki.opc = i.getOpcode(); ki.dst = i.getType()->isVoidTy() ? -1 : k->slots[&i]; ki.w = i.getType()->isVoidTy() ? 0 : widthOf(i.getType()); ki.gepOff = 0; ki.callee = nullptr; ki.cname = nullptr; ki.handler = 0; ki.leafOff = ki.leafN = 0; ki.pred = 0;
      if (isa<DbgInfoIntrinsic>(i)) continue;
      if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
        ki.ops.push_back(mk(g->getPointerOperand()));
        for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
          Value *ix = gti.getOperand();
          if (StructType *st = gti.getStructTypeOrNull()) { ki.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          uint64_t sz = DL->getTypeAllocSize(gti.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(ix)) ki.gepOff += ci->getSExtValue() * sz;
          else { ki.gepIdx.push_back({(int)ki.ops.size(), sz}); ki.ops.push_back(mk(ix)); }
        }
      } else if (auto *cb = dyn_cast<CallBase>(&i)) {
        for (auto &a : cb->args()) ki.ops.push_back(mk(a.get()));
        const Function *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        ki.callee = cf;
        if (cf) {
          std::string n = cf->getName().str(); ki.cname = new std::string(n);
          if (cf->isIntrinsic()) {
            switch (cf->getIntrinsicID()) {
            case Intrinsic::memcpy: case Intrinsic::memmove: ki.handler = H_MEMCPY; break;
            case Intrinsic::memset: ki.handler = H_MEMSET; break;
            case Intrinsic::vastart: ki.handler = H_VASTART; break; case Intrinsic::vacopy: ki.handler = H_VACOPY; break;
            case Intrinsic::vaend: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: ki.handler = H_NOP; break;
            case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::sqrt: ki.handler = H_MATH1; { std::string q = n.substr(5); *ki.cname = q.substr(0, q.find('.')); } break;
            case Intrinsic::abs: ki.handler = H_ABS; break;
            case Intrinsic::fshl: ki.handler = H_FSHL; break; case Intrinsic::fshr: ki.handler = H_FSHR; break;
            case Intrinsic::trap: ki.handler = H_TRAP; break;
            default: ki.handler = -1; break;
            }
          } else { auto h = hmap.find(n); if (h != hmap.end()) ki.handler = h->second; }
        } else ki.ops.push_back(mk(cb->getCalledOperand()));
      } else if (isa<PHINode>(i)) {
      } else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
        Type *t; ki.leafOff = leafOffset(ev->getAggregateOperand()->getType(), ev->getIndices(), &t); leaves(t, ki.leafW); ki.ops.push_back(mk(ev->getAggregateOperand()));
      } else if (auto *iv = dyn_cast<InsertValueInst>(&i)) {
        Type *t; ki.leafOff = leafOffset(iv->getType(), iv->getIndices(), &t); leaves(iv->getType(), ki.leafW); std::vector<unsigned> l; leaves(t, l); ki.leafN = l.size(); ki.ops.push_back(mk(iv->getAggregateOperand())); ki.ops.push_back(mk(iv->getInsertedValueOperand()));
      } else {
        for (auto &o : i.operands()) ki.ops.push_back(mk(o.get()));
        if (auto *c = dyn_cast<CmpInst>(&i)) ki.pred = c->getPredicate();
        if (!i.getType()->isVoidTy() && i.getType()->isAggregateType()) leaves(i.getType(), ki.leafW);
        if (isa<StoreInst>(i)) leaves(i.getOperand(0)->getType(), ki.leafW);
        if (isa<ReturnInst>(i) && i.getNumOperands()) leaves(i.getOperand(0)->getType(), ki.leafW);
      }
      kb.insts.push_back(std::move(ki));
    }
    k->blocks.push_back(std::move(kb));
  }
  return k;
}
static inline Val opv(State &s, Frame &f, const KOp &o) { if (o.kind == 1) return f.s[o.slot]; if (o.kind == 0) return CV(o.c); return EV(freshUndef(s, o.w ? o.w : 8)); }

// store order of leaves for aggregate load/store: compute offsets
static void leafLayout(Type *t, uint64_t off, std::vector<std::pair<uint64_t,unsigned>> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leafLayout(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) leafLayout(at->getElementType(), off + i * es, out); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) leafLayout(vt->getElementType(), off + i * es, out); return; }
  out.push_back({off, widthOf(t)});
}

static void enter(State &s, Frame &f, unsigned target) { // evaluate phis of target coming from f.bb
  KBlock &tb = f.kf->blocks[target]; const BasicBlock *from = f.kf->blocks[f.bb].bb; std::vector<std::pair<int, Val>> upd;
  unsigned pc = 0;
  for (auto &ki : tb.insts) { if (ki.opc != Instruction::PHI) break; pc++;
    auto *ph = cast<PHINode>(ki.I); Value *v = ph->getIncomingValueForBlock(from); Val x;
    if (isa<UndefValue>(v)) x = EV(freshUndef(s, ki.w)); else if (auto *c = dyn_cast<Constant>(v)) x = CV(constVal(c)); else x = f.s[f.kf->slots.lookup(v)];
    upd.push_back({ki.dst, x}); }
  for (auto &u : upd) f.s[u.first] = u.second;
  f.prev = f.bb; f.bb = target; f.pc = pc; tb.visited = true;
}
static void uninitBranch(State &s, ERef c) {
  if (!optUninit) return;
  for (auto v : c->vars->v) if (gVars[v].kind == 1) { report(s, "uninit", "control flow depends on uninitialised memory", s.c.model, c); return; }
}
static double runMath1(const std::string &n, double a) {
#define MM(x) if (n == #x) return x(a)
  MM(fabs); MM(floor); MM(ceil); MM(trunc); MM(round); MM(sqrt); MM(sin); MM(cos); MM(tan); MM(asin); MM(acos); MM(atan); MM(sinh); MM(cosh); MM(tanh); MM(asinh); MM(acosh); MM(atanh); MM(exp); MM(exp2); MM(expm1); MM(log); MM(log2); MM(log10); MM(log1p); MM(logb); MM(cbrt); MM(erf); MM(erfc); MM(lgamma); MM(tgamma); MM(j0); MM(j1); MM(y0); MM(y1); MM(rint); MM(nearbyint);
  throw Unsupported{"math " + n};
}
static double runMath2(const std::string &n, double a, double b) {
#define M2(x) if (n == #x) return x(a, b)
  M2(pow); M2(fmod); M2(atan2); M2(hypot); M2(remainder); M2(nextafter); M2(fdim); M2(copysign); M2(fmax); M2(fmin);
  if (n == "vh_jn") return jn((int)a, b); if (n == "vh_yn") return yn((int)a, b);
  throw Unsupported{"math " + n};
}
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t frD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }

static void pushFrame(State &s, const Function *F, std::vector<Val> &args, const CallBase *cb, int retDst, const std::vector<unsigned> &argw) {
  if (s.st.size() > 400) { report(s, "hang", "call depth exceeds 400", s.c.model); endPath("call depth"); }
  KFunc *k = kfunc(F); k->entered = true; Frame f; f.kf = k; f.bb = 0; f.pc = 0; f.prev = 0; f.s.resize(k->nslots); f.retDst = retDst; k->blocks[0].visited = true;
  unsigned i = 0;
  for (auto &a : F->args()) { int sl = k->slots[&a]; if (i < args.size()) {
      if (cb && cb->isByValArgument(i)) { uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i)); uint64_t n = newObj(s.as, sz, 1, true); f.allocas.push_back(n >> SH);
        Loc l = resolve(s, args[i], sz, false, "byval read"); Obj *d = s.as.getW(n); Obj *o = s.as.get(l.o->base); for (uint64_t b = 0; b < sz; b++) { d->conc[b] = o->conc[l.off + b]; d->sym[b] = o->sym.empty() ? nullptr : o->sym[l.off + b]; } f.s[sl] = CV(n); }
      else f.s[sl] = args[i]; } i++; }
  for (; i < args.size(); i++) f.va.push_back({args[i], argw[i]});
  s.st.push_back(std::move(f));
}
static void doRet(State &s, const std::vector<Val> &rv) {
  Frame &f = s.st.back(); for (auto id : f.allocas) s.as.set(id, nullptr); int d = f.retDst; s.st.pop_back();
  if (s.st.empty()) endPath("exit", true);
  Frame &c = s.st.back(); if (d >= 0) for (size_t i = 0; i < rv.size(); i++) c.s[d + i] = rv[i];
  c.pc++;
}
static void copyBytes(State &s, uint64_t db, uint64_t doff, uint64_t sb, uint64_t soff, uint64_t n) {
  Obj *so = s.as.get(sb); std::vector<uint8_t> c(so->conc.begin() + soff, so->conc.begin() + soff + n); std::vector<ERef> y; if (!so->sym.empty()) y.assign(so->sym.begin() + soff, so->sym.begin() + soff + n);
  Obj *d = s.as.getW(db); std::copy(c.begin(), c.end(), d->conc.begin() + doff);
  if (y.empty()) { if (!d->sym.empty()) std::fill(d->sym.begin() + doff, d->sym.begin() + doff + n, nullptr); }
  else { if (d->sym.empty()) d->sym.assign(d->size, nullptr); std::copy(y.begin(), y.end(), d->sym.begin() + doff); }
}
// bounded length for memcpy/memset style calls
static uint64_t sizeArg(State &s, const Val &n, const Val &p, bool write, const char *what) {
  if (!n.e) return n.c;
  ERef e = substKnown(s.c, n.e); if (e->kind == K_CONST) return e->val;
  Val q = p; if (q.e) q = EV(substKnown(s.c, q.e));
  if (!q.e) { Obj *o = s.as.get(q.c); if (o && q.c >= o->base && q.c <= o->base + o->size) { uint64_t rem = o->base + o->size - q.c; ERef ok = mkBin(K_ULE, e, mkConst(rem, 64)); std::vector<uint64_t> m; Res r = mayBeTrue(s.c, mkNot(ok), m);
      if (r == R_UNKNOWN) incomplete("solver unknown (bounds)");
      if (r == R_SAT) { report(s, "memory", std::string(what) + ": length exceeds object", m, e); std::vector<uint64_t> m2; if (mayBeTrue(s.c, ok, m2) != R_SAT) endPath("memory error"); addTrue(s.c, ok, m2); } } }
  return concretize(s, EV(e), 64);
}
static void freeObj(State &s, uint64_t a) {
  Obj *o = s.as.get(a);
  if (!o || o->kind != 2 || o->base != a) { report(s, "memory", o && o->kind != 2 ? "free of non-heap pointer" : o ? "free of interior pointer" : "double or wild free", s.c.model); endPath("memory error"); }
  s.as.set(a >> SH, nullptr);
}
static std::vector<std::string> gPathSampleDummy;

static void step(State &s) {
  Frame &f = s.st.back(); KBlock &kb = f.kf->blocks[f.bb]; KInst &k = kb.insts[f.pc]; G.insts++;
  if (++s.steps > optMaxSteps) { report(s, "hang", "step limit exceeded (possible non-termination)", s.c.model); incomplete("step limit"); endPath("step limit"); }
  switch (k.opc) {
  case Instruction::Alloca: {
    auto *ai = cast<AllocaInst>(k.I); uint64_t es = DL->getTypeAllocSize(ai->getAllocatedType()); Val nv = opv(s, f, k.ops[0]); unsigned nw = k.ops[0].w;
    if (nv.e) { ERef e = substKnown(s.c, nv.e); if (e->kind != K_CONST) { ERef big = mkBin(K_ULT, mkConst(1 << 20, e->width), e); std::vector<uint64_t> m; if (mayBeTrue(s.c, big, m) == R_SAT) { report(s, "memory", "variable-length array of more than 1M elements (or negative size)", m, e); std::vector<uint64_t> m2; if (mayBeTrue(s.c, mkNot(big), m2) != R_SAT) endPath("memory error"); addTrue(s.c, mkNot(big), m2); } } nv = EV(e); }
    uint64_t n = concretize(s, nv, nw);
    if (n > (1u << 20) ) { report(s, "memory", "variable-length array of more than 1M elements (or negative size)", s.c.model); endPath("memory error"); }
    uint64_t a = newObj(s.as, es * n, 1, true); f.allocas.push_back(a >> SH); f.s[k.dst] = CV(a); break; }
  case Instruction::Load: {
    Val p = opv(s, f, k.ops[0]);
    if (k.leafW.empty() && k.w) f.s[k.dst] = load(s, p, k.w);
    else { std::vector<std::pair<uint64_t,unsigned>> l; leafLayout(k.I->getType(), 0, l); for (size_t i = 0; i < l.size(); i++) { Val q = p.e ? EV(mkBin(K_ADD, p.e, mkConst(l[i].first, 64))) : CV(p.c + l[i].first); Val v = load(s, q, l[i].second); s.st.back().s[k.dst + i] = v; } }
    break; }
  case Instruction::Store: {
    Val p = opv(s, f, k.ops[1]); Type *t = k.I->getOperand(0)->getType();
    if (widthOf(t)) { Val v = opv(s, f, k.ops[0]); store(s, p, v, widthOf(t)); }
    else { std::vector<std::pair<uint64_t,unsigned>> l; leafLayout(t, 0, l); for (size_t i = 0; i < l.size(); i++) { Val q = p.e ? EV(mkBin(K_ADD, p.e, mkConst(l[i].first, 64))) : CV(p.c + l[i].first); Val v = k.ops[0].kind == 1 ? f.s[k.ops[0].slot + i] : k.ops[0].kind == 2 ? EV(freshUndef(s, l[i].second)) : CV(0); store(s, q, v, l[i].second); } }
    break; }
  case Instruction::GetElementPtr: {
    Val b = opv(s, f, k.ops[0]); if (!b.e) { bool conc = true; uint64_t a = b.c + k.gepOff; for (auto &g : k.gepIdx) { Val ix = opv(s, f, k.ops[g.first]); if (ix.e) { conc = false; break; } a += (uint64_t)(sx(ix.c, k.ops[g.first].w) * (int64_t)g.second); } if (conc) { f.s[k.dst] = CV(a); break; } }
    ERef a = mkBin(K_ADD, X(b, 64), mkConst(k.gepOff, 64));
    for (auto &g : k.gepIdx) { Val ix = opv(s, f, k.ops[g.first]); ERef e = mkSext(X(ix, k.ops[g.first].w), 64); a = mkBin(K_ADD, a, mkBin(K_MUL, e, mkConst(g.second, 64))); }
    f.s[k.dst] = EV(a); break; }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
    static const std::map<unsigned, Kind> km = {{Instruction::Add, K_ADD}, {Instruction::Sub, K_SUB}, {Instruction::Mul, K_MUL}, {Instruction::UDiv, K_UDIV}, {Instruction::SDiv, K_SDIV}, {Instruction::URem, K_UREM}, {Instruction::SRem, K_SREM}, {Instruction::And, K_AND}, {Instruction::Or, K_OR}, {Instruction::Xor, K_XOR}, {Instruction::Shl, K_SHL}, {Instruction::LShr, K_LSHR}, {Instruction::AShr, K_ASHR}, {Instruction::FAdd, K_FADD}, {Instruction::FSub, K_FSUB}, {Instruction::FMul, K_FMUL}, {Instruction::FDiv, K_FDIV}};
    if (!k.w) throw Unsupported{"vector or wide arithmetic"};
    Kind kk = km.find(k.opc)->second; Val a = opv(s, f, k.ops[0]), b = opv(s, f, k.ops[1]); unsigned w = k.w;
    if (kk >= K_UDIV && kk <= K_SREM) {
      if (b.e) b = EV(substKnown(s.c, b.e));
      if (!b.e && b.c == 0) { report(s, "div0", "division by zero", s.c.model); endPath("division by zero"); }
      if (b.e) { ERef z = mkBin(K_EQ, b.e, mkConst(0, w)); std::vector<uint64_t> m; Res r = mayBeTrue(s.c, z, m); if (r == R_SAT) { report(s, "div0", "division by zero", m); std::vector<uint64_t> m2; if (mayBeTrue(s.c, mkNot(z), m2) != R_SAT) endPath("division by zero"); addTrue(s.c, mkNot(z), m2); } }
      if (kk == K_SDIV || kk == K_SREM) { ERef ov = mkAnd1(mkBin(K_EQ, X(a, w), mkConst(1ull << (w - 1), w)), mkBin(K_EQ, X(b, w), mkConst(maskw(w), w))); std::vector<uint64_t> m; if (w >= 32 && mayBeTrue(s.c, ov, m) == R_SAT) { report(s, "div0", "signed division overflow (traps)", m); std::vector<uint64_t> m2; if (mayBeTrue(s.c, mkNot(ov), m2) != R_SAT) endPath("division overflow"); addTrue(s.c, mkNot(ov), m2); } }
    }
    if (!a.e && !b.e) { switch (kk) { case K_ADD: f.s[k.dst] = CV((a.c + b.c) & maskw(w)); break; case K_SUB: f.s[k.dst] = CV((a.c - b.c) & maskw(w)); break; case K_AND: f.s[k.dst] = CV(a.c & b.c); break;
        default: { const Expr *o[3] = {mkConst(a.c, w), mkConst(b.c, w), nullptr}; uint64_t v[2] = {a.c, b.c}; f.s[k.dst] = CV(evalOp(kk, w, 0, o, v)); } } }
    else f.s[k.dst] = EV(mkBin(kk, X(a, w), X(b, w)));
    break; }
  case Instruction::FRem: { Val a = opv(s, f, k.ops[0]), b = opv(s, f, k.ops[1]); if (a.e || b.e) f.s[k.dst] = EV(mkVar("uf" + std::to_string(s.nUF++), k.w, 2)); else if (k.w == 64) f.s[k.dst] = CV(frD(fmod(asD(a.c), asD(b.c)))); else throw Unsupported{"frem float"}; break; }
  case Instruction::FNeg: { Val a = opv(s, f, k.ops[0]); f.s[k.dst] = EV(mkBin(K_XOR, X(a, k.w), mkConst(1ull << (k.w - 1), k.w))); break; }
  case Instruction::ICmp: {
    Val a = opv(s, f, k.ops[0]), b = opv(s, f, k.ops[1]); unsigned w = k.ops[0].w; if (!w) throw Unsupported{"icmp type"};
    if (!a.e && !b.e) { bool r; int64_t x = sx(a.c, w), y = sx(b.c, w); switch (k.pred) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_SGT: r = x > y; break; case CmpInst::ICMP_SGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = x < y; break; default: r = x <= y; } f.s[k.dst] = CV(r); break; }
    ERef x = X(a, w), y = X(b, w), r; switch (k.pred) { case CmpInst::ICMP_EQ: r = mkBin(K_EQ, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkBin(K_EQ, x, y)); break; case CmpInst::ICMP_UGT: r = mkBin(K_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(K_ULE, y, x); break; case CmpInst::ICMP_ULT: r = mkBin(K_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(K_ULE, x, y); break; case CmpInst::ICMP_SGT: r = mkBin(K_SLT, y, x); break; case CmpInst::ICMP_SGE: r = mkBin(K_SLE, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(K_SLT, x, y); break; default: r = mkBin(K_SLE, x, y); }
    f.s[k.dst] = EV(r); break; }
  case Instruction::FCmp: {
    unsigned w = k.ops[0].w; if (!w) throw Unsupported{"fcmp type"}; ERef x = X(opv(s, f, k.ops[0]), w), y = X(opv(s, f, k.ops[1]), w), r; ERef un = mkBin(K_FUNO, x, y);
    switch (k.pred) { case CmpInst::FCMP_FALSE: r = mkConst(0, 1); break; case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break; case CmpInst::FCMP_OEQ: r = mkBin(K_FEQ, x, y); break; case CmpInst::FCMP_OGT: r = mkBin(K_FLT, y, x); break; case CmpInst::FCMP_OGE: r = mkBin(K_FLE, y, x); break; case CmpInst::FCMP_OLT: r = mkBin(K_FLT, x, y); break; case CmpInst::FCMP_OLE: r = mkBin(K_FLE, x, y); break;
      case CmpInst::FCMP_ONE: r = mkAnd1(mkNot(un), mkNot(mkBin(K_FEQ, x, y))); break; case CmpInst::FCMP_ORD: r = mkNot(un); break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = mkOr1(un, mkBin(K_FEQ, x, y)); break; case CmpInst::FCMP_UGT: r = mkNot(mkBin(K_FLE, x, y)); break; case CmpInst::FCMP_UGE: r = mkNot(mkBin(K_FLT, x, y)); break; case CmpInst::FCMP_ULT: r = mkNot(mkBin(K_FLE, y, x)); break; case CmpInst::FCMP_ULE: r = mkNot(mkBin(K_FLT, y, x)); break; default: r = mkNot(mkBin(K_FEQ, x, y)); }
    f.s[k.dst] = EV(r); break; }
  case Instruction::Trunc: { Val a = opv(s, f, k.ops[0]); f.s[k.dst] = a.e ? EV(mkExtract(a.e, 0, k.w)) : CV(a.c & maskw(k.w)); break; }
  case Instruction::ZExt: { Val a = opv(s, f, k.ops[0]); f.s[k.dst] = a.e ? EV(mkZext(a.e, k.w)) : a; break; }
  case Instruction::SExt: { Val a = opv(s, f, k.ops[0]); f.s[k.dst] = a.e ? EV(mkSext(a.e, k.w)) : CV((uint64_t)sx(a.c, k.ops[0].w) & maskw(k.w)); break; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = opv(s, f, k.ops[0]); unsigned ow = k.ops[0].w; if (a.e) f.s[k.dst] = EV(k.w <= ow ? mkExtract(a.e, 0, k.w) : mkZext(a.e, k.w)); else f.s[k.dst] = CV(a.c & maskw(k.w)); break; }
  case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { if (!k.w || !k.ops[0].w) throw Unsupported{"bitcast"}; f.s[k.dst] = opv(s, f, k.ops[0]); break; }
  case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
    if (!k.w || !k.ops[0].w) throw Unsupported{"x87 float"};
    static const std::map<unsigned, Kind> km = {{Instruction::FPExt, K_FPEXT}, {Instruction::FPTrunc, K_FPTRUNC}, {Instruction::SIToFP, K_SITOFP}, {Instruction::UIToFP, K_UITOFP}, {Instruction::FPToSI, K_FPTOSI}, {Instruction::FPToUI, K_FPTOUI}};
    f.s[k.dst] = EV(mkFUn(km.find(k.opc)->second, X(opv(s, f, k.ops[0]), k.ops[0].w), k.w)); break; }
  case Instruction::Select: { Val c = opv(s, f, k.ops[0]); if (!k.w) throw Unsupported{"select type"}; if (!c.e) { f.s[k.dst] = opv(s, f, k.ops[c.c & 1 ? 1 : 2]); break; } Val a = opv(s, f, k.ops[1]), b = opv(s, f, k.ops[2]); f.s[k.dst] = EV(mkIte(c.e, X(a, k.w), X(b, k.w))); break; }
  case Instruction::ExtractValue: { if (k.ops[0].kind != 1) throw Unsupported{"extractvalue const"}; for (size_t i = 0; i < k.leafW.size(); i++) f.s[k.dst + i] = f.s[k.ops[0].slot + k.leafOff + i]; break; }
  case Instruction::InsertValue: { for (size_t i = 0; i < k.leafW.size(); i++) { Val v; if ((int)i >= k.leafOff && (int)i < k.leafOff + k.leafN) v = k.leafN == 1 && k.ops[1].kind != 1 ? opv(s, f, k.ops[1]) : f.s[k.ops[1].slot + i - k.leafOff]; else v = k.ops[0].kind == 1 ? f.s[k.ops[0].slot + i] : k.ops[0].kind == 2 ? EV(freshUndef(s, k.leafW[i])) : CV(0); f.s[k.dst + i] = v; } break; }
  case Instruction::Br: {
    auto *br = cast<BranchInst>(k.I);
    if (br->isUnconditional()) { enter(s, f, f.kf->bidx[br->getSuccessor(0)]); return; }
    Val c = opv(s, f, k.ops[0]); if (c.e) c = EV(substKnown(s.c, c.e));
    if (!c.e) { enter(s, f, f.kf->bidx[br->getSuccessor(c.c & 1 ? 0 : 1)]); return; }
    bool mv = evalExpr(c.e, s.c.model); ERef taken = mv ? c.e : mkNot(c.e), other = mkNot(taken); std::vector<uint64_t> m;
    Res r = mayBeTrue(s.c, other, m);
    if (r == R_UNKNOWN) incomplete("solver unknown (branch)");
    if (r == R_SAT) { uninitBranch(s, c.e); SP n = cloneState(s); addTrue(n->c, other, m); Frame &nf = n->st.back(); enter(*n, nf, nf.kf->bidx[br->getSuccessor(mv ? 1 : 0)]); work.push_back(std::move(n)); addTrue(s.c, taken, s.c.model); }
    enter(s, s.st.back(), f.kf->bidx[br->getSuccessor(mv ? 0 : 1)]); return; }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(k.I); Val c = opv(s, f, k.ops[0]); if (c.e) c = EV(substKnown(s.c, c.e)); unsigned w = k.ops[0].w;
    if (!c.e) { const BasicBlock *t = sw->getDefaultDest(); for (auto &cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { t = cs.getCaseSuccessor(); break; } enter(s, f, f.kf->bidx[t]); return; }
    std::map<const BasicBlock*, ERef> conds; std::vector<const BasicBlock*> order; ERef any = mkConst(0, 1);
    for (auto &cs : sw->cases()) { ERef eq = mkBin(K_EQ, c.e, mkConst(cs.getCaseValue()->getZExtValue(), w)); auto *t = cs.getCaseSuccessor(); any = mkOr1(any, eq); if (!conds.count(t)) { conds[t] = eq; order.push_back(t); } else conds[t] = mkOr1(conds[t], eq); }
    auto *dd = sw->getDefaultDest(); if (conds.count(dd)) conds[dd] = mkOr1(conds[dd], mkNot(any)); else { conds[dd] = mkNot(any); order.push_back(dd); }
    std::vector<std::pair<const BasicBlock*, std::vector<uint64_t>>> feas; for (auto *t : order) { std::vector<uint64_t> m; Res r = mayBeTrue(s.c, conds[t], m); if (r == R_UNKNOWN) incomplete("solver unknown (switch)"); if (r == R_SAT) feas.push_back({t, m}); }
    if (feas.empty()) { incomplete("switch without feasible successor"); endPath("switch"); }
    if (feas.size() > 1) uninitBranch(s, c.e);
    for (size_t i = 1; i < feas.size(); i++) { SP n = cloneState(s); addTrue(n->c, conds[feas[i].first], feas[i].second); Frame &nf = n->st.back(); enter(*n, nf, nf.kf->bidx[feas[i].first]); work.push_back(std::move(n)); }
    addTrue(s.c, conds[feas[0].first], feas[0].second); enter(s, s.st.back(), f.kf->bidx[feas[0].first]); return; }
  case Instruction::Ret: {
    std::vector<Val> rv; if (!k.ops.empty()) { if (k.leafW.size() == 1 && k.ops[0].kind != 1) rv.push_back(opv(s, f, k.ops[0])); else for (size_t i = 0; i < k.leafW.size(); i++) rv.push_back(k.ops[0].kind == 1 ? f.s[k.ops[0].slot + i] : k.ops[0].kind == 2 ? EV(freshUndef(s, k.leafW[i])) : CV(0)); }
    doRet(s, rv); return; }
  case Instruction::Unreachable: report(s, "unreachable", "reached unreachable code", s.c.model); endPath("unreachable");
  case Instruction::Call: {
    auto *cb = cast<CallBase>(k.I); std::vector<Val> a; std::vector<unsigned> aw; unsigned na = cb->arg_size();
    for (unsigned i = 0; i < na; i++) { if (k.ops[i].w == 0 && !cb->getArgOperand(i)->getType()->isMetadataTy()) throw Unsupported{"aggregate argument"}; a.push_back(opv(s, f, k.ops[i])); aw.push_back(k.ops[i].w); }
    int h = k.handler; const Function *cf = k.callee; const std::string *nm = k.cname;
    if (!cf) { Val p = opv(s, f, k.ops[na]); uint64_t ad = concretize(s, p, 64); auto it = faddr.find(ad); if (it == faddr.end()) { report(s, "memory", "call through invalid function pointer", s.c.model); endPath("memory error"); } cf = it->second; static std::map<const Function*, std::string*> names; auto &n2 = names[cf]; if (!n2) n2 = new std::string(cf->getName().str()); nm = n2; auto hi = hmap.find(*nm); h = hi == hmap.end() ? 0 : hi->second; }
    auto ret = [&](Val v) { if (k.dst >= 0) s.st.back().s[k.dst] = v; };
    switch (h) {
    case H_NONE:
      if (cf->isDeclaration()) throw Unsupported{"external function " + *nm};
      pushFrame(s, cf, a, cb, k.dst, aw); return;
    case H_IN: { unsigned w = k.w; ERef v = mkVar("in" + std::to_string(s.in.size()), w, 0); s.in.push_back({v, w}); ret(EV(v)); break; }
    case H_ASSUME: { Val c = a[0]; ERef e = c.e ? substKnown(s.c, mkNot(mkBin(K_EQ, c.e, mkConst(0, aw[0])))) : mkConst(c.c != 0, 1); if (e->kind == K_CONST) { if (!e->val) { G.infeasibleAssume++; endPath("assume"); } break; } std::vector<uint64_t> m; Res r = mayBeTrue(s.c, e, m); if (r == R_UNKNOWN) incomplete("solver unknown (assume)"); if (r != R_SAT) { G.infeasibleAssume++; endPath("assume"); } addTrue(s.c, e, m); break; }
    case H_CHECK: { s.checks++; G.checks++; Val c = a[0]; ERef e = c.e ? mkNot(mkBin(K_EQ, c.e, mkConst(0, aw[0]))) : mkConst(c.c != 0, 1); std::string lbl = cstr(s, a[1].c); G.checkLabels[lbl]++; ERef ne = mkNot(e); std::vector<uint64_t> m; uint64_t q0 = gStats.z3queries + gStats.domainDecided + gStats.cacheHits + gStats.knownDecided; Res r = mayBeTrue(s.c, ne, m);
      if (r == R_UNSAT) { if (gStats.z3queries + gStats.domainDecided + gStats.cacheHits + gStats.knownDecided > q0) G.checksProved++; else G.checksSyntactic++; }
      else if (r == R_UNKNOWN) { incomplete("solver unknown (check " + lbl + ")"); std::vector<uint64_t> m2; if (mayBeTrue(s.c, e, m2) == R_SAT) addTrue(s.c, e, m2); else endPath("unknown"); }
      else { report(s, "check", lbl, m, ne); std::vector<uint64_t> m2; if (mayBeTrue(s.c, e, m2) != R_SAT) endPath("check failed"); addTrue(s.c, e, m2); } break; }
    case H_REACH: { std::string l = cstr(s, a[0].c); s.reach.push_back(l); G.reach[l]++; break; }
    case H_MALLOC: case H_CALLOC: {
      Val n = a[0]; if (h == H_CALLOC) n = EV(mkBin(K_MUL, X(a[0], 64), X(a[1], 64)));
      if (n.e) { ERef e = substKnown(s.c, n.e); if (e->kind != K_CONST) { ERef big = mkBin(K_ULT, mkConst(1 << 20, 64), e); std::vector<uint64_t> m; Res r = mayBeTrue(s.c, big, m); if (r == R_SAT) { SP ns = cloneState(s); addTrue(ns->c, big, m); ns->st.back().s[k.dst] = CV(0); ns->st.back().pc++; incomplete("allocation above 1 MB modelled as failing"); work.push_back(std::move(ns)); std::vector<uint64_t> m2; if (mayBeTrue(s.c, mkNot(big), m2) != R_SAT) endPath("big"); addTrue(s.c, mkNot(big), m2); } } n = EV(e); }
      uint64_t sz = concretize(s, n, 64); if (sz > (1 << 28)) { ret(CV(0)); break; }
      uint64_t p = newObj(s.as, sz, 2, h == H_MALLOC); s.as.getW(p)->seq = ++s.heapSeq; ret(CV(p)); break; }
    case H_REALLOC: {
      uint64_t p = concretize(s, a[0], 64); Val n = a[1]; if (n.e) { ERef e = substKnown(s.c, n.e); if (e->kind != K_CONST) { ERef big = mkBin(K_ULT, mkConst(1 << 20, 64), e); std::vector<uint64_t> m; if (mayBeTrue(s.c, big, m) == R_SAT) { incomplete("allocation above 1 MB not explored"); std::vector<uint64_t> m2; if (mayBeTrue(s.c, mkNot(big), m2) != R_SAT) endPath("big"); addTrue(s.c, mkNot(big), m2); } } }
      uint64_t sz = concretize(s, n, 64); if (sz > (1 << 28)) { ret(CV(0)); break; }
      if (!p) { uint64_t q = newObj(s.as, sz, 2, true); s.as.getW(q)->seq = ++s.heapSeq; ret(CV(q)); break; }
      Obj *o = s.as.get(p); if (!o || o->kind != 2 || o->base != p) { report(s, "memory", "realloc of invalid pointer", s.c.model); endPath("memory error"); }
      if (sz == 0) { freeObj(s, p); ret(CV(0)); break; }
      uint64_t q = newObj(s.as, sz, 2, true); s.as.getW(q)->seq = ++s.heapSeq; copyBytes(s, q, 0, p, 0, std::min<uint64_t>(sz, s.as.get(p)->size)); freeObj(s, p); ret(CV(q)); break; }
    case H_FREE: { uint64_t p = concretize(s, a[0], 64); if (p) freeObj(s, p); break; }
    case H_MEMCPY: {
      uint64_t n = sizeArg(s, a[2], a[0], true, "memcpy destination"); n = sizeArg(s, CV(n), a[1], false, "memcpy source");
      if (n > 0) { Loc d = resolve(s, a[0], n, true, "memcpy write"); uint64_t db = d.o->base; uint64_t doff = d.symOff ? concretize(s, EV(d.symOff), 64) : d.off; Loc q = resolve(s, a[1], n, false, "memcpy read"); uint64_t sb = q.o->base; uint64_t soff = q.symOff ? concretize(s, EV(q.symOff), 64) : q.off;
        if (nm && *nm == "memcpy" && db == sb && doff != soff && doff < soff + n && soff < doff + n) { report(s, "memory", "memcpy with overlapping ranges", s.c.model); }
        copyBytes(s, db, doff, sb, soff, n); }
      ret(a[0]); break; }
    case H_MEMSET: {
      uint64_t n = sizeArg(s, a[2], a[0], true, "memset"); if (n > 0) { Loc d = resolve(s, a[0], n, true, "memset write"); uint64_t db = d.o->base; uint64_t doff = d.symOff ? concretize(s, EV(d.symOff), 64) : d.off; Obj *o = s.as.getW(db); Val b = a[1].e ? EV(mkExtract(a[1].e, 0, 8)) : CV(a[1].c & 255); for (uint64_t i = 0; i < n; i++) writeAt(s, o, doff + i, 1, b, 8); }
      ret(a[0]); break; }
    case H_VASTART: {
      uint64_t ap = concretize(s, a[0], 64); uint64_t n = f.va.size(); uint64_t ob = newObj(s.as, std::max<uint64_t>(1, n * 8), 1, false); f.allocas.push_back(ob >> SH); for (uint64_t i = 0; i < n; i++) { unsigned w = f.va[i].second; Val v = f.va[i].first; if (v.e) v = EV(mkZext(v.e, 64)); writeAt(s, s.as.getW(ob), i * 8, 8, v, 64); }
      store(s, CV(ap), CV(48), 32); store(s, CV(ap + 4), CV(176), 32); store(s, CV(ap + 8), CV(ob), 64); store(s, CV(ap + 16), CV(0), 64); break; }
    case H_VACOPY: { uint64_t d = concretize(s, a[0], 64), q = concretize(s, a[1], 64); Loc dl = resolve(s, CV(d), 24, true, "va_copy"), sl = resolve(s, CV(q), 24, false, "va_copy"); copyBytes(s, dl.o->base, dl.off, sl.o->base, sl.off, 24); break; }
    case H_NOP: if (k.dst >= 0) ret(CV(0)); break;
    case H_FSHL: case H_FSHR: { unsigned w = k.w; ERef x = X(a[0], w), y = X(a[1], w), n = mkBin(K_UREM, X(a[2], w), mkConst(w, w)), r = mkBin(K_SUB, mkConst(w, w), n);
      ret(EV(h == H_FSHL ? mkBin(K_OR, mkBin(K_SHL, x, n), mkBin(K_LSHR, y, r)) : mkBin(K_OR, mkBin(K_LSHR, y, n), mkBin(K_SHL, x, r)))); break; }
    case H_ABS: { ERef x = X(a[0], k.w); ret(EV(mkIte(mkBin(K_SLT, x, mkConst(0, k.w)), mkBin(K_SUB, mkConst(0, k.w), x), x))); break; }
    case H_MATH1: {
      std::string n = *nm; if (aw[0] == 32 && !n.empty() && n.back() == 'f' && n != "erf") n.pop_back();
      Val x = a[0]; if (x.e) x = EV(substKnown(s.c, x.e));
      if (n == "fabs") { ret(EV(mkBin(K_AND, X(x, k.w), mkConst(maskw(k.w - 1), k.w)))); break; }
      if (n == "floor" || n == "ceil" || n == "trunc" || n == "round") { ret(EV(mkFUn(K_FROUND, X(x, k.w), k.w, n == "floor" ? 0 : n == "ceil" ? 1 : n == "trunc" ? 2 : 3))); break; }
      if (n == "sqrt") { ret(EV(mkFUn(K_FSQRT, X(x, k.w), k.w))); break; }
      if (!x.e) { if (k.w == 64) ret(CV(frD(runMath1(n, asD(x.c))))); else { float fl; uint32_t u = x.c; memcpy(&fl, &u, 4); float r = n == "log2" ? log2f(fl) : (float)runMath1(n, fl); memcpy(&u, &r, 4); ret(CV(u)); } }
      else ret(EV(mkVar("uf_" + n + "_" + std::to_string(x.e->id), k.w, 2)));
      break; }
    case H_MATH2: { Val x = a[0], y = a[1]; if (x.e) x = EV(substKnown(s.c, x.e)); if (y.e) y = EV(substKnown(s.c, y.e)); if (!x.e && !y.e) ret(CV(frD(runMath2(*nm, asD(x.c), asD(y.c))))); else if (*nm == "fmod" && !y.e && asD(y.c) == 1.0) ret(EV(mkBin(K_FSUB, X(x, 64), mkFUn(K_FROUND, X(x, 64), 64, 2)))); else ret(EV(mkVar("uf_" + *nm + "_" + std::to_string(X(x, 64)->id) + "_" + std::to_string(X(y, 64)->id), k.w, 2))); break; }
    case H_EXIT: report(s, "exit", "library code calls " + *nm, s.c.model); endPath("exit");
    case H_TRAP: report(s, "exit", "trap", s.c.model); endPath("trap");
    case H_LIVE: { uint64_t n = 0; for (uint32_t i = 16; i < s.as.next; i++) { ObjP *p = s.as.slot(i); if (p && *p && (*p)->kind == 2) n++; } ret(CV(n)); break; }
    case H_ISSYM: { Val x = a[0]; if (x.e) x = EV(substKnown(s.c, x.e)); ret(CV(x.e != nullptr)); break; }
    case H_CONC: { uint64_t v = concretize(s, a[0], 64); ret(CV(v)); break; }
    case H_FMTD: { // vh_fmt_double(char *out, const char *fmt, double v)
      Val x = a[2]; if (x.e) x = EV(substKnown(s.c, x.e)); char buf[512];
      if (x.e) { ret(CV((uint64_t)-1 & maskw(k.w))); break; }
      std::string fm = cstr(s, a[1].c); int n = snprintf(buf, sizeof buf, fm.c_str(), asD(x.c)); Loc d = resolve(s, a[0], n + 1, true, "fmt"); Obj *o = s.as.getW(d.o->base); for (int i = 0; i <= n; i++) writeAt(s, o, d.off + i, 1, CV((uint8_t)buf[i]), 8); ret(CV(n)); break; }
    case H_STRTOD: { // double vh_strtod(const char *s, long *consumed): concrete bytes only
      std::string t; uint64_t p = concretize(s, a[0], 64); Obj *o = s.as.get(p); if (!o) throw Unsupported{"strtod pointer"};
      for (uint64_t i = p - o->base; i < o->size; i++) { Val b = readAt(s, o, i, 1, 8); o = s.as.get(p); if (b.e) { b = EV(substKnown(s.c, b.e)); if (b.e) { uint64_t v = concretize(s, b, 8); b = CV(v); } } if (!b.c) break; t += (char)b.c; }
      char *e; double r = strtod(t.c_str(), &e); store(s, a[1], CV((uint64_t)(e - t.c_str())), 64); ret(CV(frD(r))); break; }
    default: throw Unsupported{"intrinsic " + (nm ? *nm : "?")};
    }
    s.st.back().pc++; s.conc = 0; return; }
  default: throw Unsupported{std::string("instruction ") + k.I->getOpcodeName()};
  }
  s.st.back().pc++; s.conc = 0;
}

// ---------- parallel exploration ----------
static int fifoFd = -1; static std::vector<pid_t> kids; static bool isRoot = true; static int forkCount = 0;
static std::string jstr(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void writePart(const std::string &fn) {
  std::ofstream o(fn + ".tmp"); 
  auto ins = [&](const std::vector<std::pair<unsigned,uint64_t>> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::string("[") + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + "]"; return r + "]"; };
  auto strs = [&](const std::vector<std::string> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + jstr(v[i]); return r + "]"; };
  auto cnts = [&](const std::map<std::string,uint64_t> &m) { std::string r = "{"; bool f = true; for (auto &p : m) { r += (f ? "" : ",") + jstr(p.first) + ":" + std::to_string(p.second); f = false; } return r + "}"; };
  o << "{\"paths\":" << G.paths << ",\"forks\":" << G.forks << ",\"insts\":" << G.insts << ",\"checks\":" << G.checks << ",\"checks_proved\":" << G.checksProved << ",\"checks_syntactic\":" << G.checksSyntactic << ",\"assume_cut\":" << G.infeasibleAssume << ",\"left\":" << G.left << ",\"max_inputs\":" << G.maxInputs;
  o << ",\"z3_queries\":" << gStats.z3queries << ",\"z3_sat\":" << gStats.z3sat << ",\"z3_unsat\":" << gStats.z3unsat << ",\"z3_unknown\":" << gStats.z3unknown << ",\"z3_time\":" << gStats.z3time << ",\"domain_decided\":" << gStats.domainDecided << ",\"model_decided\":" << gStats.modelDecided << ",\"cache_hits\":" << gStats.cacheHits << ",\"known_decided\":" << gStats.knownDecided << ",\"model_mismatch\":" << gStats.modelMismatch;
  o << ",\"reach\":" << cnts(G.reach) << ",\"incomplete\":" << cnts(G.incomplete) << ",\"check_labels\":" << cnts(G.checkLabels);
  o << ",\"functions\":{"; bool first = true;
  for (auto &p : kfs) if (p.second->entered) { auto *sp = p.first->getSubprogram(); int vis = 0; for (auto &b : p.second->blocks) vis += b.visited; o << (first ? "" : ",") << jstr(p.first->getName().str()) << ":[" << jstr(sp ? sp->getFilename().str() : "") << "," << vis << "," << p.second->blocks.size() << "]"; first = false; }
  o << "},\"violations\":["; first = true;
  for (auto &p : G.viol) { auto &v = p.second; o << (first ? "" : ",") << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"func\":" << jstr(v.func) << ",\"loc\":" << jstr(v.loc) << ",\"stack\":" << strs(v.stack) << ",\"inputs\":" << ins(v.in) << ",\"reach\":" << strs(v.reach) << ",\"undef\":" << (v.undef ? "true" : "false") << ",\"count\":" << v.count << "}"; first = false; }
  o << "],\"samples\":["; first = true;
  for (auto &v : G.samples) { o << (first ? "" : ",") << "{\"inputs\":" << ins(v.in) << ",\"reach\":" << strs(v.reach) << "}"; first = false; }
  o << "]}"; o.close(); rename((fn + ".tmp").c_str(), fn.c_str());
}
static void finishPath(State &s) {
  G.paths++; G.maxInputs = std::max<uint64_t>(G.maxInputs, s.in.size());
  // reservoir sample of completed paths, replayed natively by the driver
  static uint64_t seen = 0; seen++; static uint64_t rng = 88172645463325252ull; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  if ((int)G.samples.size() < optSamples || (rng % seen) < (uint64_t)optSamples) {
    bool undef = false; Sample sm; modelInputs(s, s.c.model, sm.in); sm.reach = s.reach; (void)undef;
    if ((int)G.samples.size() < optSamples) G.samples.push_back(sm); else G.samples[rng % optSamples] = sm;
  }
}
static uint64_t rssMB() { std::ifstream f("/proc/self/statm"); uint64_t a, b; f >> a >> b; return b * 4096 / 1048576; }
static void maybeSplit() {
  if (fifoFd < 0 || work.size() < 2) return;
  char c; if (read(fifoFd, &c, 1) != 1) return;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { if (write(fifoFd, &c, 1) != 1) {} return; }
  std::deque<SP> a, b; bool t = false; for (auto &x : work) { (t ? a : b).push_back(std::move(x)); t = !t; }
  if (p == 0) { work = std::move(b); isRoot = false; kids.clear(); G = {}; gStats = Stats(); for (auto &k : kfs) { k.second->entered = false; for (auto &bl : k.second->blocks) bl.visited = false; } }
  else { work = std::move(a); kids.push_back(p); }
}
static void run() {
  uint64_t it = 0; double lastSplit = 0;
  while (!work.empty()) {
    SP s = std::move(work.back()); work.pop_back();
    bool stop = false;
    try {
      for (;;) { step(*s); if ((++it & 1023) == 0) { double t = now(); if (t > tDeadline) { stop = true; break; } if (t - lastSplit > 0.02) { lastSplit = t; maybeSplit(); } if ((it & 0xfffff) == 0 && rssMB() > optMemMB) { stop = true; incomplete("memory limit"); break; } } }
    } catch (PathEnd &e) { if (e.done) finishPath(*s); else G.paths++; }
    catch (Unsupported &u) { incomplete("unsupported: " + u.m); G.paths++; if (optVerbose) { std::vector<std::string> st; std::string a, b; trace(*s, st, a, b); fprintf(stderr, "unsupported %s at %s\n", u.m.c_str(), b.c_str()); } }
    if (stop) { G.left += 1 + work.size(); incomplete("time limit"); work.clear(); break; }
    if (optStopFirst && !G.viol.empty()) { G.left += work.size(); work.clear(); break; }
    double t = now(); if (t > tDeadline && !work.empty()) { G.left += work.size(); incomplete("time limit"); work.clear(); break; }
    if (t - lastSplit > 0.02) { lastSplit = t; maybeSplit(); }
  }
}
static int selftest(unsigned seed);
int main(int argc, char **argv) {
  std::string bc, entry = "main";
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--time") optTime = std::stod(nx()); else if (a == "--steps") optMaxSteps = std::stoull(nx()); else if (a == "--out") optOut = nx(); else if (a == "--fifo") optFifo = nx(); else if (a == "--entry") entry = nx(); else if (a == "--samples") optSamples = std::stoi(nx()); else if (a == "--no-uninit") optUninit = false; else if (a == "-v") optVerbose = 1; else if (a == "--mem") optMemMB = std::stoull(nx()); else if (a == "--conc") optMaxConc = std::stoi(nx()); else if (a == "--z3-timeout") gZ3TimeoutMs = std::stoi(nx()); else if (a == "--first") optStopFirst = true; else if (a == "--version") { puts("vsym 1"); return 0; } else if (a == "--selftest") return selftest(std::stoi(nx())); else bc = a; }
  for (auto **p = math1; *p; p++) hmap[*p] = H_MATH1; for (auto **p = math2; *p; p++) hmap[*p] = H_MATH2;
  tStart = now(); tDeadline = tStart + optTime;
  if (!optFifo.empty()) { fifoFd = open(optFifo.c_str(), O_RDWR | O_NONBLOCK); }
  LLVMContext C; SMDiagnostic err; M = parseIRFile(bc, err, C); if (!M) { err.print("vsym", errs()); return 3; }
  DL = &M->getDataLayout();
  // addresses
  uint64_t fa = (1ull << SH) + MID; for (auto &F : *M) { gaddr[&F] = fa; faddr[fa] = &F; fa += 16; }
  for (auto &g : M->globals()) { uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8; gaddr[&g] = newObj(baseAS, sz, 0, false); }
  for (auto &g : M->globals()) if (g.hasInitializer()) { Obj *o = baseAS.getW(gaddr[&g]); try { initGlobal(o, 0, g.getInitializer()); } catch (Unsupported &u) { fprintf(stderr, "global %s: %s\n", g.getName().str().c_str(), u.m.c_str()); } if (g.isConstant()) o->ro = 1; }
  Function *F = M->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  SP s(new State); s->as = baseAS; std::vector<Val> args(F->arg_size(), CV(0)); std::vector<unsigned> aw(F->arg_size(), 64);
  pushFrame(*s, F, args, nullptr, -1, aw); work.push_back(std::move(s));
  run();
  std::string part = optOut + ".part." + std::to_string(getpid()); writePart(part);
  if (fifoFd >= 0) { if (write(fifoFd, "x", 1) != 1) {} }
  int bad = 0; for (pid_t p : kids) { int st; if (waitpid(p, &st, 0) == p && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { bad++; FILE *ff = fopen((optOut + ".part.dead" + std::to_string(p)).c_str(), "w"); if (ff) { fprintf(ff, "{\"dead\":1}"); fclose(ff); }
      if (WIFSIGNALED(st) && fifoFd >= 0) { if (write(fifoFd, "x", 1) != 1) {} } } }
  _exit(0);
}
// randomised cross-check of the simplifier against direct evaluation
static int selftest(unsigned seed) {
  srand(seed); uint64_t n = 0, bad = 0; ERef vs[4] = {mkVar("a", 8, 0), mkVar("b", 8, 0), mkVar("c", 32, 0), mkVar("d", 64, 0)};
  for (int round = 0; round < 20000; round++) {
    std::vector<uint64_t> mod = {(uint64_t)rand() & 255, (uint64_t)rand() & 255, (uint64_t)(uint32_t)rand() * 2654435761u & 0xffffffff, ((uint64_t)rand() << 33) ^ rand()};
    if (rand() % 3 == 0) mod[0] = 0; if (rand() % 3 == 0) mod[2] = maskw(32); if (rand() % 4 == 0) mod[3] = ~0ull; if (rand() % 4 == 0) mod[1] = 255;
    std::vector<std::pair<ERef, uint64_t>> pool; for (int i = 0; i < 4; i++) pool.push_back({vs[i], mod[i]});
    for (int i = 0; i < 40; i++) {
      auto &p = pool[rand() % pool.size()]; ERef e = p.first; uint64_t v = p.second; unsigned w = e->width; ERef r = nullptr; uint64_t rv = 0;
      int op = rand() % 24;
      auto same = [&]() { std::vector<int> c; for (size_t j = 0; j < pool.size(); j++) if (pool[j].first->width == w) c.push_back(j); return pool[c[rand() % c.size()]]; };
      auto constw = [&]() { uint64_t c = rand() % 3 == 0 ? (uint64_t)(rand() % 4) : rand() % 2 ? maskw(rand() % (w + 1)) << (rand() % w) : ((uint64_t)rand() * 0x9E3779B97F4A7C15ull); return c & maskw(w); };
      if (op <= 17) { static Kind ks[] = {K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE}; Kind k = ks[op]; std::pair<ERef,uint64_t> q; if (rand() % 2) { uint64_t c = constw(); if (k >= K_SHL && k <= K_ASHR) c = rand() % (w + 2); q = {mkConst(c, w), c & maskw(w)}; } else q = same();
        if (k >= K_UDIV && k <= K_SREM && (q.second == 0 || w == 1)) continue; if (rand() % 2 && !(k >= K_UDIV && k <= K_ASHR)) std::swap(q.first, e), std::swap(q.second, v);
        const Expr *o[3] = {e, q.first, nullptr}; uint64_t vv[3] = {v, q.second, 0}; unsigned rw = k >= K_EQ && k <= K_SLE ? 1 : w; rv = evalOp(k, rw, 0, o, vv) & maskw(rw); r = mkBin(k, e, q.first); }
      else if (op == 18) { unsigned nw = 1 + rand() % w, lo = rand() % (w - nw + 1); r = mkExtract(e, lo, nw); rv = (v >> lo) & maskw(nw); }
      else if (op == 19 && w < 64) { unsigned nw = w + rand() % (64 - w + 1); r = mkZext(e, nw); rv = v; }
      else if (op == 20 && w < 64) { unsigned nw = w + rand() % (64 - w + 1); r = mkSext(e, nw); rv = (uint64_t)sx(v, w) & maskw(nw); }
      else if (op == 21) { auto &q = pool[rand() % pool.size()]; if (q.first->width + w <= 64) { r = mkConcat(e, q.first); rv = (v << q.first->width) | q.second; } }
      else if (op == 22) { auto q = same(); for (auto &c : pool) if (c.first->width == 1) { r = mkIte(c.first, e, q.first); rv = c.second ? v : q.second; break; } }
      else if (op == 23 && w == 1) { r = mkNot(e); rv = !v; }
      if (!r) continue; n++;
      if (evalExpr(r, mod) != rv) { bad++; if (bad < 10) fprintf(stderr, "selftest mismatch op %d w %d\n", op, w); }
      if (r->size < 200) pool.push_back({r, rv});
    }
  }
  printf("selftest %llu nodes %llu mismatches\n", (unsigned long long)n, (unsigned long long)bad); return bad != 0;
}
