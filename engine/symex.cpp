#include "symex.h"
using namespace llvm;
// ------------------------------------------------------------------------------------------------ configuration
static const u64 ARENA = 0x100000000000ull, ARENA_SZ = 12ull << 30;
static const u64 SHADOW = 0x200000000000ull, SYMB = 0x300000000000ull;
static const u64 GLOB0 = ARENA + 4096, STACK0 = ARENA + (256ull << 20), STACK_SZ = 1ull << 20;
static const u64 HEAP0 = ARENA + (1ull << 30), HEAP_SZ = 128ull << 20; static const int MAXT = 40;
static const u64 FUNC0 = 0x500000000000ull;
static const u64 PAT = 0xA5A5A5A5A5A5A5A5ull;

struct Opts {
  std::string entry = "harness_main", in, out, instrOut; int procs = 8; double timeout = 600; int delays = 1; u64 maxSteps = 60000000;
  std::set<std::string> known; bool trace = false, stopFirst = false, dedupe = true, earlyTimeout = false, spurious = false; int verbose = 0;
  bool clockAdvance = false, race = false, timerOrder = false, rrDown = false; u64 visTable = 1u << 24; int maxVis = 200000; std::string smtDump;
} opt;

// ------------------------------------------------------------------------------------------------ shared state
struct VioRec { std::atomic<int> used; char key[512]; char text[160000]; };
struct Shared {
  std::atomic<int> live, stop, nvio, timeouts, unsup, tokens;
  std::atomic<u64> paths, pruned, truncated, assumeCut, choice, queries, qsat, qunsat, qunknown, qtimeus, cachehit, steps, forks, schedPoints, asserts, assertsSym, unknowncut, preempt, visUsed, steplimit;
  VioRec vio[24]; VioRec smp[4]; std::atomic<int> nsmp; char unsupMsg[8][256]; std::atomic<int> nUnsup;
  char reach[256][64]; std::atomic<int> nReach; std::atomic<int> reachLock;
  std::atomic<u32> fexec[40000];
};
static Shared* SH; static std::atomic<u64>* VIS; // visited table: pairs (key, delays+1)

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double T0;
static inline u64 mix64(u64 x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static inline u64 mix2(u64 a, u64 b) { return mix64(a * 0x9E3779B97F4A7C15ull ^ mix64(b)); }
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sext(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w)) >> (64 - w)); }
struct Restart {};

// ------------------------------------------------------------------------------------------------ Z3 helpers
static Z3_context Z; static Z3_solver S;
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_sort bvs(unsigned w) { static std::map<unsigned, Z3_sort> m; auto& s = m[w]; if (!s) { s = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); } return s; }
static Z3_ast bvc(u64 v, unsigned w) { if (w <= 64) return keep(Z3_mk_unsigned_int64(Z, v & maskw(w), bvs(w))); return keep(Z3_mk_unsigned_int64(Z, v, bvs(w))); }
static unsigned bw(Z3_ast a) { return Z3_get_bv_sort_size(Z, Z3_get_sort(Z, a)); }
static Z3_ast ex(Val v, unsigned w) { return v.e ? v.e : bvc(v.c, w); }
static bool numeral(Z3_ast a, u64& v) { if (Z3_get_ast_kind(Z, a) != Z3_NUMERAL_AST) return false; return Z3_get_numeral_uint64(Z, a, (uint64_t*)&v); }
static Val mk(Z3_ast a) { a = keep(Z3_simplify(Z, a)); u64 v; if (bw(a) <= 64 && numeral(a, v)) return Val{v, nullptr}; return Val{0, a}; }
static Z3_ast ztrue, zfalse, bv1_1, bv1_0;
static Z3_ast b2v(Z3_ast b) { return keep(Z3_mk_ite(Z, b, bv1_1, bv1_0)); }
static Z3_ast v2b(Z3_ast v) {  // i1 -> Bool
  if (Z3_get_ast_kind(Z, v) == Z3_APP_AST) { Z3_app ap = Z3_to_app(Z, v); if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_ITE && Z3_get_app_arg(Z, ap, 1) == bv1_1 && Z3_get_app_arg(Z, ap, 2) == bv1_0) return Z3_get_app_arg(Z, ap, 0); }
  return keep(Z3_mk_eq(Z, v, bv1_1));
}
static Z3_ast znot(Z3_ast a) { return keep(Z3_mk_not(Z, a)); }
static std::unordered_map<Z3_ast, u64> hashMemo;
static u64 ahash(Z3_ast a) {
  auto it = hashMemo.find(a); if (it != hashMemo.end()) return it->second;
  u64 h = 1; auto k = Z3_get_ast_kind(Z, a);
  if (k == Z3_NUMERAL_AST) { const char* s = Z3_get_numeral_string(Z, a); for (; *s; ++s) h = mix2(h, *s); Z3_sort so = Z3_get_sort(Z, a); auto sk = Z3_get_sort_kind(Z, so); h = mix2(h, sk); if (sk == Z3_BV_SORT) h = mix2(h, bw(a)); else if (sk == Z3_FLOATING_POINT_SORT) h = mix2(h, Z3_fpa_get_sbits(Z, so)); }
  else if (k == Z3_APP_AST) {
    Z3_app ap = Z3_to_app(Z, a); Z3_func_decl d = Z3_get_app_decl(Z, ap); h = mix2(7, Z3_get_decl_kind(Z, d));
    unsigned np = Z3_get_decl_num_parameters(Z, d); for (unsigned i = 0; i < np; i++) if (Z3_get_decl_parameter_kind(Z, d, i) == Z3_PARAMETER_INT) h = mix2(h, Z3_get_decl_int_parameter(Z, d, i));
    { Z3_sort so = Z3_get_sort(Z, a); auto sk = Z3_get_sort_kind(Z, so); if (sk == Z3_FLOATING_POINT_SORT) h = mix2(h, Z3_fpa_get_sbits(Z, so)); }
    unsigned n = Z3_get_app_num_args(Z, ap); if (!n) { Z3_symbol sy = Z3_get_decl_name(Z, d); const char* s = Z3_get_symbol_kind(Z, sy) == Z3_STRING_SYMBOL ? Z3_get_symbol_string(Z, sy) : "?"; for (; *s; ++s) h = mix2(h, *s); }
    for (unsigned i = 0; i < n; i++) h = mix2(h, ahash(Z3_get_app_arg(Z, ap, i)));
  }
  keep(a); hashMemo[a] = h; return h;
}
static inline u64 vhash(const Val& v) { return v.e ? ahash(v.e) : v.c; }

// ------------------------------------------------------------------------------------------------ path state
enum TS : u8 { RUN, B_MUTEX, B_CV, B_FUTEX, B_JOIN, B_SLEEP, B_RD, B_WR, B_ONCE, DONE, SPINY };
struct FR { Frame* p; FR() : p(nullptr) {} explicit FR(Frame* q) : p(q) { if (p) p->rc++; } FR(const FR& o) : p(o.p) { if (p) p->rc++; } FR(FR&& o) : p(o.p) { o.p = nullptr; }
  FR& operator=(FR o) { std::swap(p, o.p); return *this; } ~FR(); };
static std::unordered_map<int, std::vector<Val*>> regPool;
static Val* regAlloc(int n) { auto& v = regPool[n]; if (!v.empty()) { Val* r = v.back(); v.pop_back(); return r; } return (Val*)malloc(sizeof(Val) * (n + 1)); }
FR::~FR() { if (p && --p->rc == 0) { regPool[p->nregs].push_back(p->regs); delete p; } }
struct VC { u16 c[MAXT]; VC() { memset(c, 0, sizeof c); } };
struct Thread {
  VC vc;
  std::vector<FR> st; u8 status = RUN; u8 phase = 0; bool schedDone = false, timed = false, fired = false, yielded = false; u64 wa = 0, wb = 0; i64 deadline = 0; u64 seq = 0;
  u64 sp = 0, excPtr = 0; u32 excSel = 0; u32 burst = 0; i64 oneshot = 0; bool hasOneshot = false; u64 vis = 0; u64 tlsBase = 0;
};
struct PS {  // everything that a choice point saves by copy
  std::vector<Thread> th; int cur = 0; int delays = 0; bool schedOn = false; u64 Hm = 0, Hpc = 0; u64 steps = 0; i64 clock = 1000000000; u64 seq = 0;
  u64 bump[MAXT]; size_t npc = 0, ninp = 0, nsched = 0, trail = 0, nonpath = 0; u64 schedIdx = 0, lastDev = 0; bool pathStepFlag = false; u64 liveObjs = 0; int nondef = 0; int lastDef = -1; int startIdx = 0; std::map<u64, std::shared_ptr<VC>> sync;
};
static PS P;
static std::vector<Z3_ast> pcv; struct Inp { std::string name; unsigned w; Z3_ast e; u64 c; }; static std::vector<Inp> inputs;
static std::vector<u8> schedTrace; struct OnP { u64 h; u64 idx; }; static std::vector<OnP> onpath; static std::unordered_map<u64, u64> onpathMap;
struct TE { u64 a, v; u8 k; }; enum { T_MEM, T_SYM, T_POISON, T_UNPOISON, T_OBJNEW, T_OBJFREE, T_FPUSH, T_FPOP, T_TLS };
static std::vector<TE> trail; static std::vector<std::pair<bool, struct SymB>> symTrail;
struct SymB { Z3_ast e; u16 idx; };
static std::unordered_map<u64, SymB> symmem; struct HObj { u64 size; u8 st; };
static std::map<u64, HObj> heap; static std::vector<LFunc*> framesLog;
static std::unordered_map<u64, u64> tlsMap;   // (tid<<32|gvidx) -> addr
struct Alt { Z3_ast c; int id; int cost; }; struct CP { PS ps; std::vector<Alt> alts; size_t next; };
static std::vector<CP*> cps; static int forced = -1; static bool logging = false; static bool inChild = false;
static u64 fillTo[MAXT + 1];

// ------------------------------------------------------------------------------------------------ memory
#define SHB(a) (*(u8*)(SHADOW + (((a) - ARENA) >> 3)))
#define SYB(a) (*(u8*)(SYMB + (((a) - ARENA) >> 3)))
#define W(a) (*(u64*)(a))
static const u64 RACE = 0x380000000000ull;
static u8* racyBits; static std::unordered_map<const Instruction*, u32> instId; static std::vector<const Instruction*> instOf;
#define RC(a, k) (*(u64*)(RACE + ((((a) - ARENA) >> 3) << 4) + (k) * 8))
static inline u64 mh(u64 a, u64 v) { return v == PAT ? 0 : mix64(a * 0x9E3779B97F4A7C15ull ^ v * 0xC2B2AE3D27D4EB4Full); }
static inline void logT(u64 a, u64 v, u8 k) { if (logging) trail.push_back({a, v, k}); }
static inline void setWord(u64 a, u64 v) { u64 o = W(a); if (o == v) return; logT(a, o, T_MEM); P.Hm ^= mh(a, o) ^ mh(a, v); W(a) = v; }
static void setSym(u64 a, bool has, SymB s) {   // one byte
  auto it = symmem.find(a); bool had = it != symmem.end();
  if (!had && !has) return;
  if (logging) { symTrail.push_back({had, had ? it->second : SymB{}}); trail.push_back({a, 0, T_SYM}); }
  if (had) P.Hm ^= mix2(a, ahash(it->second.e) + it->second.idx);
  if (has) { symmem[a] = s; P.Hm ^= mix2(a, ahash(s.e) + s.idx); SYB(a) |= 1 << (a & 7); } else { symmem.erase(a); SYB(a) &= ~(1 << (a & 7)); }
}
static void fillRegion(int idx, u64 upto) { if (upto <= fillTo[idx]) return; u64 n = ((upto - fillTo[idx]) + 65535) & ~65535ull; for (u64 a = fillTo[idx]; a < fillTo[idx] + n; a += 8) W(a) = PAT; memset((void*)(SHADOW + ((fillTo[idx] - ARENA) >> 3)), 0xFA, n >> 3); fillTo[idx] += n; }
static void shadowSet(u64 a, u64 n, u8 v) { for (u64 x = a & ~7ull; x < a + n; x += 8) SHB(x) = v; }
static void shadowOpen(u64 a, u64 n) { u64 x = a; for (; x + 8 <= a + n; x += 8) SHB(x) = 0; if (x < a + n) SHB(x) = (u8)(a + n - x); }
static void clearRange(u64 a, u64 n) { for (u64 x = a & ~7ull; x < a + n; x += 8) { if (SYB(x)) for (int i = 0; i < 8; i++) if (SYB(x) >> i & 1) setSym(x + i, false, SymB{}); setWord(x, PAT); } }
static const u8 SH_RED = 0xFA, SH_FREED = 0xFD, SH_STK = 0xF5;
static void openFrame(LFunc* f, u64 base) { for (auto& al : f->allocas) shadowOpen(base + al.off, al.size); }
static void closeFrame(LFunc* f, u64 base) { for (auto& al : f->allocas) shadowSet(base + al.off, al.size, SH_STK); }
static bool inArena(u64 a) { return a >= ARENA + 4096 && a < ARENA + ARENA_SZ; }
static inline bool okAccess(u64 a, u64 n) {
  if (!inArena(a)) return false;
  u64 x = a; u64 end = a + n; if (end < a || end > ARENA + ARENA_SZ) return false;
  while (x < end) { u8 s = SHB(x); u64 we = (x & ~7ull) + 8; u64 lim = end < we ? end : we; if (s) { if (s > 7) return false; if ((lim - (x & ~7ull)) > s) return false; } x = we; }
  return true;
}
static u64 heapAlloc(u64 size) {
  int t = P.cur; u64 a = P.bump[t]; u64 need = ((size ? size : 1) + 15) & ~15ull; u64 nb = a + need + 32;
  if (nb > HEAP0 + (t + 1) * HEAP_SZ) return 0;
  fillRegion(t, nb + 64); P.bump[t] = nb; shadowOpen(a, size); heap[a] = {size, 1}; logT(a, size, T_OBJNEW); P.liveObjs++; return a;
}

// ------------------------------------------------------------------------------------------------ program
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::vector<LFunc*> funcs; static std::unordered_map<const Function*, LFunc*> fmap; static std::unordered_map<const GlobalVariable*, u64> gaddr; static std::unordered_map<u64, LFunc*> byAddr;
static std::unordered_map<u64, std::string> gname; static u64 vtClass, vtSi, vtVmi, vtPtr; static std::vector<std::string> undefGlobals;
static std::unordered_map<const GlobalVariable*, int> tlsIdx; static std::vector<const GlobalVariable*> tlsVars;

[[noreturn]] static void endPath();
static void violation(const std::string& kind, const std::string& msg, Z3_ast extra = nullptr);
static void unsupported(const std::string& m);

static std::string locOf(const Instruction* I) {
  if (!I) return ""; if (auto* d = I->getDebugLoc().get()) { std::string f = d->getFilename().str(); auto p = f.find("/src/"); if (p != std::string::npos) f = f.substr(p + 1); else { p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); }
    return f + ":" + std::to_string(d->getLine()); }
  return "";
}
static bool inHarness(const Instruction* I) {   // the harness's own bookkeeping: nothing else shares it
  for (auto* d = I->getDebugLoc().get(); d; d = d->getInlinedAt()) { StringRef f = d->getFilename(); if (f.contains("/src/") && !f.contains("/usr/")) return false; if (f.contains("harness/")) return true; }
  if (auto* sp = I->getFunction()->getSubprogram()) if (sp->getFilename().contains("harness/")) return true; return false;
}
static std::string dem(const std::string& s) { return llvm::demangle(s); }

// ---- leaves of a type
static void leaves(Type* T, u64 off, std::vector<Leaf>& out) {
  if (T->isIntegerTy()) { out.push_back({off, (u8)std::min<unsigned>(T->getIntegerBitWidth(), 255)}); return; }
  if (T->isPointerTy()) { out.push_back({off, 64}); return; }
  if (T->isFloatTy()) { out.push_back({off, 32}); return; }
  if (T->isDoubleTy()) { out.push_back({off, 64}); return; }
  if (T->isX86_FP80Ty()) { out.push_back({off, 80}); return; }
  if (auto* ST = dyn_cast<StructType>(T)) { auto* SL = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) leaves(ST->getElementType(i), off + SL->getElementOffset(i), out); return; }
  if (auto* AT = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(AT->getElementType()); for (u64 i = 0; i < AT->getNumElements(); i++) leaves(AT->getElementType(), off + i * es, out); return; }
  if (auto* VT = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeStoreSize(VT->getElementType()); for (u64 i = 0; i < VT->getNumElements(); i++) leaves(VT->getElementType(), off + i * es, out); return; }
}
static std::unordered_map<Type*, std::vector<Leaf>> leafCache;
static const std::vector<Leaf>& leavesOf(Type* T) { auto it = leafCache.find(T); if (it == leafCache.end()) { std::vector<Leaf> v; leaves(T, 0, v); it = leafCache.emplace(T, v).first; } return it->second; }

// ---- constants
static u64 constU64(const Constant* C);
static LFunc* lf(const Function* F);
static Val d2v(double d) { u64 b; memcpy(&b, &d, 8); return {b, nullptr}; }
static double v2d(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static void constLeaves(const Constant* C, std::vector<Val>& out) {
  Type* T = C->getType();
  if (T->isIntegerTy()) { unsigned w = T->getIntegerBitWidth(); if (w > 64) { if (auto* ci = dyn_cast<ConstantInt>(C)) { SmallString<64> s; ci->getValue().toStringUnsigned(s); out.push_back({0, keep(Z3_mk_numeral(Z, s.c_str(), bvs(w)))}); } else out.push_back({0, bvc(0, w)}); return; } out.push_back({constU64(C) & maskw(w), nullptr}); return; }
  if (T->isPointerTy() || T->isFloatTy() || T->isDoubleTy() || T->isX86_FP80Ty()) { out.push_back({constU64(C), nullptr}); return; }
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) { for (auto& l : leavesOf(T)) { if (l.w > 64 && l.w != 80) out.push_back({0, bvc(0, l.w)}); else out.push_back({0, nullptr}); } return; }
  if (auto* CA = dyn_cast<ConstantAggregate>(C)) { for (unsigned i = 0; i < CA->getNumOperands(); i++) constLeaves(cast<Constant>(CA->getOperand(i)), out); return; }
  if (auto* CD = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < CD->getNumElements(); i++) constLeaves(CD->getElementAsConstant(i), out); return; }
  out.push_back({0, nullptr});
}
static u64 constU64(const Constant* C) {
  if (auto* ci = dyn_cast<ConstantInt>(C)) return ci->getValue().getLimitedValue() == UINT64_MAX && ci->getBitWidth() > 64 ? ci->getValue().trunc(64).getZExtValue() : ci->getValue().zextOrTrunc(64).getZExtValue();
  if (auto* cf = dyn_cast<ConstantFP>(C)) { if (C->getType()->isX86_FP80Ty()) { APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return f.bitcastToAPInt().getZExtValue(); } return cf->getValueAPF().bitcastToAPInt().getZExtValue(); }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
  if (auto* F = dyn_cast<Function>(C)) return lf(F)->addr;
  if (auto* A = dyn_cast<GlobalAlias>(C)) return constU64(A->getAliasee());
  if (auto* G = dyn_cast<GlobalVariable>(C)) { auto it = gaddr.find(G); return it == gaddr.end() ? 0 : it->second; }
  if (auto* CE = dyn_cast<ConstantExpr>(C)) {
    auto o = [&](int i) { return constU64(cast<Constant>(CE->getOperand(i))); };
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto* gep = cast<GEPOperator>(CE); if (!gep->accumulateConstantOffset(*DL, off)) return 0; return o(0) + off.getZExtValue(); }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: case Instruction::ZExt: case Instruction::Trunc: { u64 v = o(0); if (CE->getType()->isIntegerTy()) v &= maskw(CE->getType()->getIntegerBitWidth()); return v; }
      case Instruction::Add: return o(0) + o(1); case Instruction::Sub: return o(0) - o(1); case Instruction::And: return o(0) & o(1); case Instruction::Or: return o(0) | o(1); case Instruction::Xor: return o(0) ^ o(1);
      case Instruction::Mul: return o(0) * o(1); case Instruction::Shl: return o(0) << o(1); case Instruction::LShr: return o(0) >> o(1);
      case Instruction::ICmp: { u64 a = o(0), b = o(1); switch (CE->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: return 0; } }
      case Instruction::Select: return o(0) ? o(1) : o(2);
      default: break;
    }
  }
  if (auto* de = dyn_cast<DSOLocalEquivalent>(C)) return constU64(de->getGlobalValue());
  return 0;
}
static void writeConst(u64 a, const Constant* C) {
  Type* T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) { memset((void*)a, 0, DL->getTypeAllocSize(T)); return; }
  if (auto* CD = dyn_cast<ConstantDataSequential>(C)) { StringRef s = CD->getRawDataValues(); memcpy((void*)a, s.data(), s.size()); return; }
  if (auto* CS = dyn_cast<ConstantStruct>(C)) { auto* SL = DL->getStructLayout(CS->getType()); for (unsigned i = 0; i < CS->getNumOperands(); i++) writeConst(a + SL->getElementOffset(i), CS->getOperand(i)); return; }
  if (isa<ConstantArray>(C) || isa<ConstantVector>(C)) { auto* CA = cast<ConstantAggregate>(C); u64 es = DL->getTypeAllocSize(CA->getOperand(0)->getType()); for (unsigned i = 0; i < CA->getNumOperands(); i++) writeConst(a + i * es, cast<Constant>(CA->getOperand(i))); return; }
  u64 v = constU64(C); memcpy((void*)a, &v, std::min<u64>(8, DL->getTypeStoreSize(T)));
  if (T->isIntegerTy() && T->getIntegerBitWidth() > 64) { if (auto* ci = dyn_cast<ConstantInt>(C)) memcpy((void*)a, ci->getValue().getRawData(), DL->getTypeStoreSize(T)); }
}
// ---- builtins
enum BI : int {
  B_NONE = -1, B_IGNORE0 = 0, B_RETARG0, B_MALLOC, B_NEW, B_FREE, B_SYM_MAKE, B_SYM_RANGE, B_SYM_PICK, B_ASSUME, B_ASSERT, B_REACH, B_CONCRETE, B_SCHED, B_DELAYS,
  B_VISIBLE, B_TCREATE, B_TJOIN, B_SELF, B_LOCK, B_TRYLOCK, B_UNLOCK, B_CVWAIT, B_CVTIMED, B_CVSIGNAL, B_CVBCAST, B_FUTEXWAIT, B_FUTEXWAKE, B_YIELD, B_NANOSLEEP, B_NOW,
  B_RDLOCK, B_WRLOCK, B_TRYRD, B_TRYWR, B_RWUNLOCK, B_UNWIND, B_DYNCAST, B_TERMINATE, B_ABORT, B_MEMCMP, B_STRLEN, B_STRCMP, B_MATH1, B_MATH2, B_PRINTF, B_CALLOC, B_REALLOC, B_FAIL, B_ALLOCSIZE, B_LIVE, B_ISSYM,
  B_MEMCHR, B_PRINT, B_TID, B_OPTION, B_NTHREADS, B_BOUND, B_MEMCPY, B_MEMSET, B_STEPS, B_PURE, B_REALCLOCK, B_ISFREED
};
struct BDef { const char* n; int b; };
static const BDef bdefs[] = {
  {"malloc", B_MALLOC}, {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW}, {"_ZnwmSt11align_val_t", B_NEW}, {"free", B_FREE}, {"_ZdlPv", B_FREE}, {"_ZdaPv", B_FREE}, {"_ZdlPvm", B_FREE}, {"_ZdaPvm", B_FREE},
  {"_ZdlPvRKSt9nothrow_t", B_FREE}, {"_ZdaPvRKSt9nothrow_t", B_FREE}, {"_ZdlPvSt11align_val_t", B_FREE}, {"_ZdlPvmSt11align_val_t", B_FREE}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC},
  {"__sym_make", B_SYM_MAKE}, {"__sym_range", B_SYM_RANGE}, {"__sym_pick", B_SYM_PICK}, {"__sym_assume", B_ASSUME}, {"__sym_assert", B_ASSERT}, {"__sym_fail", B_FAIL}, {"__sym_reach", B_REACH}, {"__sym_concrete", B_CONCRETE},
  {"__sym_sched", B_SCHED}, {"__sym_delays", B_DELAYS}, {"__sym_visible", B_VISIBLE}, {"__sym_thread_create", B_TCREATE}, {"__sym_thread_join", B_TJOIN}, {"pthread_self", B_SELF}, {"__sym_print", B_PRINT}, {"__sym_tid", B_TID}, {"__sym_live", B_LIVE}, {"__sym_is_symbolic", B_ISSYM}, {"__sym_option", B_OPTION}, {"__sym_bound", B_BOUND}, {"__sym_is_freed", B_ISFREED},
  {"pthread_mutex_lock", B_LOCK}, {"pthread_mutex_trylock", B_TRYLOCK}, {"pthread_mutex_unlock", B_UNLOCK}, {"pthread_cond_wait", B_CVWAIT}, {"pthread_cond_clockwait", B_CVTIMED}, {"pthread_cond_timedwait", B_CVTIMED}, {"pthread_cond_signal", B_CVSIGNAL}, {"pthread_cond_broadcast", B_CVBCAST},
  {"__sym_futex_wait", B_FUTEXWAIT}, {"__sym_futex_wake", B_FUTEXWAKE}, {"sched_yield", B_YIELD}, {"nanosleep", B_NANOSLEEP}, {"__sym_now", B_NOW},
  {"pthread_rwlock_rdlock", B_RDLOCK}, {"pthread_rwlock_wrlock", B_WRLOCK}, {"pthread_rwlock_tryrdlock", B_TRYRD}, {"pthread_rwlock_trywrlock", B_TRYWR}, {"pthread_rwlock_unlock", B_RWUNLOCK},
  {"pthread_mutex_init", B_IGNORE0}, {"pthread_mutex_destroy", B_IGNORE0}, {"pthread_cond_init", B_IGNORE0}, {"pthread_cond_destroy", B_IGNORE0}, {"pthread_rwlock_init", B_IGNORE0}, {"pthread_rwlock_destroy", B_IGNORE0}, {"pthread_setaffinity_np", B_IGNORE0}, {"pthread_setschedparam", B_IGNORE0}, {"pthread_mutexattr_init", B_IGNORE0}, {"pthread_mutexattr_settype", B_IGNORE0}, {"pthread_mutexattr_destroy", B_IGNORE0},
  {"__sym_unwind", B_UNWIND}, {"__dynamic_cast", B_DYNCAST}, {"_ZSt9terminatev", B_TERMINATE}, {"abort", B_ABORT}, {"exit", B_ABORT}, {"_exit", B_ABORT}, {"__assert_fail", B_ABORT}, {"__cxa_pure_virtual", B_ABORT}, {"__cxa_bad_typeid", B_ABORT}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ABORT},
  {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"strcmp", B_STRCMP}, {"memchr", B_MEMCHR}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
  {"sqrt", B_MATH1}, {"sqrtf", B_MATH1}, {"log", B_MATH1}, {"logl", B_MATH1}, {"log2", B_MATH1}, {"floor", B_MATH1}, {"ceil", B_MATH1}, {"fabs", B_MATH1}, {"exp", B_MATH1}, {"sin", B_MATH1}, {"cos", B_MATH1}, {"fabsf", B_MATH1}, {"floorl", B_MATH1}, {"ceill", B_MATH1}, {"round", B_MATH1}, {"pow", B_MATH2}, {"fmod", B_MATH2}, {"nextafter", B_MATH2}, {"nextafterf", B_MATH2},
  {"printf", B_PRINTF}, {"vprintf", B_PRINTF}, {"vfprintf", B_PRINTF}, {"fprintf", B_PRINTF}, {"puts", B_PRINTF}, {"putchar", B_PRINTF}, {"fflush", B_PRINTF}, {"fputs", B_PRINTF}, {"fwrite", B_PRINTF}, {"fputc", B_PRINTF}, {"perror", B_PRINTF}, {"__cxa_atexit", B_IGNORE0}, {"_ZSt21ios_base_library_initv", B_IGNORE0}, {"localtime", B_IGNORE0}, {"_ZNSt8ios_base4InitC1Ev", B_IGNORE0}, {"_ZNSt8ios_base4InitD1Ev", B_IGNORE0}, {"_ZSt18uncaught_exceptionv", B_IGNORE0}, {"_ZSt19uncaught_exceptionsv", B_IGNORE0}, {"time", B_IGNORE0}, {"getpid", B_IGNORE0},
  {nullptr, 0}};
static const char* retarg0[] = {"_ZNSo", "_ZStlsISt11char_traitsIcEERSt13basic_ostream", "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostream", "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostream", "_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostream", "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostream", "_ZStlsIcSt11char_traitsIcEERSt13basic_ostream", "_ZStlsIfcSt11", "_ZNSt9basic_iosIcSt11char_traitsIcEE", "_ZNSt8ios_base", "_ZNSi", nullptr};
static std::unordered_map<std::string, int> btab;
static int builtinOf(const std::string& n) { auto it = btab.find(n); if (it != btab.end()) return it->second; for (int i = 0; retarg0[i]; i++) if (!n.compare(0, strlen(retarg0[i]), retarg0[i])) return B_RETARG0; return B_NONE; }
static bool forceBuiltin(const std::string& n) { for (int i = 0; retarg0[i]; i++) if (i < 8 && !n.compare(0, strlen(retarg0[i]), retarg0[i])) return true; return false; }

static LFunc* lf(const Function* F) {
  auto it = fmap.find(F); if (it != fmap.end()) return it->second;
  auto* f = new LFunc; f->F = F; f->id = funcs.size(); f->name = F->getName().str(); f->addr = FUNC0 + (u64)f->id * 16; funcs.push_back(f); fmap[F] = f; byAddr[f->addr] = f;
  f->builtin = btab.count(f->name) && (F->isDeclaration() || f->name.compare(0, 6, "__sym_") == 0) ? btab[f->name] : (F->isDeclaration() || (forceBuiltin(f->name) && !F->hasExternalLinkage())) ? builtinOf(f->name) : B_NONE; f->external = F->isDeclaration();
  if (f->builtin != B_NONE) f->external = true;
  return f;
}

// ------------------------------------------------------------------------------------------------ lowering
struct Lower {
  LFunc* L; const Function* F; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bstart; std::vector<std::pair<int, std::pair<const BasicBlock*, const BasicBlock*>>> fixE; std::map<u64, int> ccache;
  int cst(Val v) { if (!v.e) { auto it = ccache.find(v.c); if (it != ccache.end()) return it->second; } cv.push_back(v); int r = ~(int)(cv.size() - 1); if (!v.e) ccache[v.c] = r; return r; }
  std::vector<Val> cv;
  int opnd(const Value* v, int k = 0) {
    if (auto* C = dyn_cast<Constant>(v)) { std::vector<Val> o; constLeaves(C, o); if ((size_t)k >= o.size()) return cst({0, nullptr}); return cst(o[k]); }
    auto it = slot.find(v); if (it == slot.end()) return cst({0, nullptr}); return it->second + k;
  }
  static unsigned nslots(Type* T) { if (T->isVoidTy() || T->isMetadataTy() || T->isLabelTy()) return 0; return leavesOf(T).size(); }
  static unsigned wOf(Type* T) { auto& l = leavesOf(T); return l.empty() ? 0 : l[0].w; }
  int edge(const BasicBlock* from, const BasicBlock* to) {
    int id = L->edges.size(); L->edges.push_back({}); fixE.push_back({id, {from, to}});
    for (auto& phi : to->phis()) { const Value* in = phi.getIncomingValueForBlock(from); unsigned n = nslots(phi.getType()); for (unsigned k = 0; k < n; k++) { int s = opnd(in, k), d = slot[&phi] + k; if (s != d) L->edges[id].cp.push_back({d, s}); } }
    return id;
  }
  void emit(u8 op, const Instruction* I, int d = 0, int a = 0, int b = 0, int c = 0, u8 w = 0, u8 w2 = 0, u8 k = 0, u32 x = 0) { L->code.push_back({op, w, w2, k, d, a, b, c, x, I}); }
  void run(LFunc* l) {
    L = l; F = l->F; int n = 0;
    for (auto& A : F->args()) { slot[&A] = n; unsigned k = nslots(A.getType()); for (unsigned i = 0; i < k; i++) L->argSlots.push_back(n + i); n += k; }
    u64 off = 16;
    for (auto& BB : *F) for (auto& I : BB) { unsigned k = nslots(I.getType()); if (k) { slot[&I] = n; n += k; }
      if (auto* A = dyn_cast<AllocaInst>(&I)) if (A->isStaticAlloca()) { u64 sz = DL->getTypeAllocSize(A->getAllocatedType()) * constU64(cast<Constant>(A->getArraySize())); u64 al = std::max<u64>(16, A->getAlign().value()); off = (off + al - 1) & ~(al - 1); L->allocas.push_back({off, sz}); off += ((sz + 15) & ~15ull) + 16; } }
    L->frameSize = off; L->nregs = n; int ai = 0;
    if (!F->getReturnType()->isVoidTy()) for (auto& lv : leavesOf(F->getReturnType())) L->retw.push_back(lv.w);
    for (auto& BB : *F) {
      bstart[&BB] = L->code.size(); L->blockStart.push_back(L->code.size());
      for (auto& I : BB) {
        size_t before = L->code.size(); lower(&BB, &I, ai);
        (void)before;
      }
    }
    for (auto& fe : fixE) L->edges[fe.first].target = bstart[fe.second.second];
    L->consts.clear(); constVals = cv; L->lowered = true;
  }
  std::vector<Val> constVals;
  void lower(const BasicBlock* BB, const Instruction* I, int& ai) {
    int d = slot.count(I) ? slot[I] : -1; Type* T = I->getType();
    switch (I->getOpcode()) {
      case Instruction::PHI: return;
      case Instruction::Alloca: { auto* A = cast<AllocaInst>(I); if (A->isStaticAlloca()) emit(O_ALLOCA, I, d, 0, 0, 0, 0, 0, 0, ai++); else emit(O_DYNALLOCA, I, d, opnd(A->getArraySize()), 0, 0, 0, 0, 0, DL->getTypeAllocSize(A->getAllocatedType())); return; }
      case Instruction::Load: { auto* X = cast<LoadInst>(I); auto& lv = leavesOf(T); if (lv.size() == 1) emit(O_LOAD, I, d, opnd(X->getPointerOperand()), 0, 0, lv[0].w); else { L->leafs.push_back(lv); emit(O_LOADM, I, d, opnd(X->getPointerOperand()), 0, 0, 0, 0, 0, L->leafs.size() - 1); } return; }
      case Instruction::Store: { auto* X = cast<StoreInst>(I); auto& lv = leavesOf(X->getValueOperand()->getType()); if (lv.size() == 1) emit(O_STORE, I, 0, opnd(X->getPointerOperand()), opnd(X->getValueOperand()), 0, lv[0].w);
          else { for (size_t k = 0; k < lv.size(); k++) { GepInfo g; g.off = lv[k].off; (void)g; L->leafs.push_back({lv[k]}); emit(O_STOREM, I, 0, opnd(X->getPointerOperand()), opnd(X->getValueOperand(), k), 0, lv[k].w, 0, 0, lv[k].off); } } return; }
      case Instruction::GetElementPtr: {
        auto* G = cast<GetElementPtrInst>(I); GepInfo gi; gi.off = 0;
        if (T->isVectorTy()) { emit(O_UNSUP, I); return; }
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          Value* ix = it.getOperand();
          if (StructType* ST = it.getStructTypeOrNull()) gi.off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { i64 es = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) gi.off += ci->getSExtValue() * es; else gi.t.push_back({opnd(ix), es, (u8)ix->getType()->getIntegerBitWidth()}); }
        }
        L->geps.push_back(gi); emit(O_GEP, I, d, opnd(G->getPointerOperand()), 0, 0, 64, 0, 0, L->geps.size() - 1); return; }
      case Instruction::ICmp: { auto* X = cast<ICmpInst>(I); unsigned ns = nslots(X->getOperand(0)->getType()); for (unsigned k = 0; k < ns; k++) emit(O_ICMP, I, d + k, opnd(X->getOperand(0), k), opnd(X->getOperand(1), k), 0, wOf(X->getOperand(0)->getType()), 0, X->getPredicate()); return; }
      case Instruction::FCmp: { auto* X = cast<FCmpInst>(I); unsigned ns = nslots(X->getOperand(0)->getType()); for (unsigned k = 0; k < ns; k++) emit(O_FCMP, I, d + k, opnd(X->getOperand(0), k), opnd(X->getOperand(1), k), 0, wOf(X->getOperand(0)->getType()), 0, X->getPredicate()); return; }
      case Instruction::Select: { auto* X = cast<SelectInst>(I); auto& lv = leavesOf(T); bool vc = X->getCondition()->getType()->isVectorTy(); for (size_t k = 0; k < lv.size(); k++) emit(O_SELECT, I, d + k, opnd(X->getCondition(), vc ? k : 0), opnd(X->getTrueValue(), k), opnd(X->getFalseValue(), k), lv[k].w); return; }
      case Instruction::Br: { auto* X = cast<BranchInst>(I); if (X->isUnconditional()) emit(O_BR, I, 0, 0, 0, 0, 0, 0, 0, edge(BB, X->getSuccessor(0))); else { int e1 = edge(BB, X->getSuccessor(0)), e2 = edge(BB, X->getSuccessor(1)); emit(O_CONDBR, I, 0, opnd(X->getCondition()), e1, e2, 1); } return; }
      case Instruction::Switch: { auto* X = cast<SwitchInst>(I); SwInfo s; for (auto& c : X->cases()) s.cases.push_back({c.getCaseValue()->getZExtValue(), edge(BB, c.getCaseSuccessor())}); s.def = edge(BB, X->getDefaultDest()); L->sws.push_back(s); emit(O_SWITCH, I, 0, opnd(X->getCondition()), 0, 0, wOf(X->getCondition()->getType()), 0, 0, L->sws.size() - 1); return; }
      case Instruction::Ret: { auto* X = cast<ReturnInst>(I); unsigned n = X->getReturnValue() ? nslots(X->getReturnValue()->getType()) : 0; CallInfo ci; for (unsigned k = 0; k < n; k++) ci.args.push_back(opnd(X->getReturnValue(), k)); L->calls.push_back(ci); emit(O_RET, I, 0, 0, 0, 0, 0, 0, 0, L->calls.size() - 1); return; }
      case Instruction::Unreachable: emit(O_UNREACH, I); return;
      case Instruction::Fence: emit(O_NOP, I); return;
      case Instruction::Freeze: { unsigned n = nslots(T); for (unsigned k = 0; k < n; k++) emit(O_COPY, I, d + k, opnd(I->getOperand(0), k)); return; }
      case Instruction::FNeg: emit(O_FNEG, I, d, opnd(I->getOperand(0)), 0, 0, wOf(T)); return;
      case Instruction::ExtractValue: { auto* X = cast<ExtractValueInst>(I); Type* AT = X->getAggregateOperand()->getType(); unsigned o = 0; Type* cur = AT; for (unsigned ix : X->indices()) { if (auto* ST = dyn_cast<StructType>(cur)) { for (unsigned i = 0; i < ix; i++) o += nslots(ST->getElementType(i)); cur = ST->getElementType(ix); } else { auto* A2 = cast<ArrayType>(cur); o += ix * nslots(A2->getElementType()); cur = A2->getElementType(); } }
        unsigned n = nslots(T); for (unsigned k = 0; k < n; k++) emit(O_COPY, I, d + k, opnd(X->getAggregateOperand(), o + k)); return; }
      case Instruction::InsertValue: { auto* X = cast<InsertValueInst>(I); unsigned o = 0; Type* cur = T; for (unsigned ix : X->indices()) { if (auto* ST = dyn_cast<StructType>(cur)) { for (unsigned i = 0; i < ix; i++) o += nslots(ST->getElementType(i)); cur = ST->getElementType(ix); } else { auto* A2 = cast<ArrayType>(cur); o += ix * nslots(A2->getElementType()); cur = A2->getElementType(); } }
        unsigned n = nslots(T), m = nslots(X->getInsertedValueOperand()->getType()); for (unsigned k = 0; k < n; k++) if (k >= o && k < o + m) emit(O_COPY, I, d + k, opnd(X->getInsertedValueOperand(), k - o)); else emit(O_COPY, I, d + k, opnd(X->getAggregateOperand(), k)); return; }
      case Instruction::ExtractElement: { auto* X = cast<ExtractElementInst>(I); if (auto* ci = dyn_cast<ConstantInt>(X->getIndexOperand())) emit(O_COPY, I, d, opnd(X->getVectorOperand(), ci->getZExtValue())); else emit(O_UNSUP, I); return; }
      case Instruction::InsertElement: { unsigned n = nslots(T); auto* ci = dyn_cast<ConstantInt>(I->getOperand(2)); if (!ci) { emit(O_UNSUP, I); return; } for (unsigned k = 0; k < n; k++) emit(O_COPY, I, d + k, k == ci->getZExtValue() ? opnd(I->getOperand(1)) : opnd(I->getOperand(0), k)); return; }
      case Instruction::ShuffleVector: { auto* X = cast<ShuffleVectorInst>(I); unsigned n0 = nslots(X->getOperand(0)->getType()); auto mk = X->getShuffleMask(); for (unsigned k = 0; k < mk.size(); k++) { int m = mk[k]; emit(O_COPY, I, d + k, m < 0 ? cst({0, nullptr}) : m < (int)n0 ? opnd(X->getOperand(0), m) : opnd(X->getOperand(1), m - n0)); } return; }
      case Instruction::AtomicRMW: { auto* X = cast<AtomicRMWInst>(I); emit(O_RMW, I, d, opnd(X->getPointerOperand()), opnd(X->getValOperand()), 0, wOf(T), 0, X->getOperation()); return; }
      case Instruction::AtomicCmpXchg: { auto* X = cast<AtomicCmpXchgInst>(I); emit(O_CMPXCHG, I, d, opnd(X->getPointerOperand()), opnd(X->getCompareOperand()), opnd(X->getNewValOperand()), wOf(X->getNewValOperand()->getType())); return; }
      case Instruction::LandingPad: { auto* X = cast<LandingPadInst>(I); LpInfo li; li.cleanup = X->isCleanup(); for (unsigned i = 0; i < X->getNumClauses(); i++) { LpClause c; c.isCatch = X->isCatch(i); if (c.isCatch) c.ti.push_back(constU64(X->getClause(i))); else if (auto* ca = dyn_cast<ConstantArray>(X->getClause(i))) for (auto& o : ca->operands()) c.ti.push_back(constU64(cast<Constant>(o))); li.cl.push_back(c); } L->lps.push_back(li); emit(O_LPAD, I, d, 0, 0, 0, 0, 0, 0, L->lps.size() - 1); return; }
      case Instruction::Resume: emit(O_RESUME, I, 0, opnd(I->getOperand(0), 0), opnd(I->getOperand(0), 1)); return;
      case Instruction::Call: case Instruction::Invoke: { lowerCall(BB, cast<CallBase>(I), d); return; }
      default: break;
    }
    if (auto* X = dyn_cast<BinaryOperator>(I)) { auto& lv = leavesOf(T); bool fp = T->getScalarType()->isFloatingPointTy(); for (size_t k = 0; k < lv.size(); k++) emit(O_BIN, I, d + k, opnd(X->getOperand(0), k), opnd(X->getOperand(1), k), fp, lv[k].w, 0, X->getOpcode()); return; }
    if (auto* X = dyn_cast<CastInst>(I)) { auto& lv = leavesOf(T); auto& sv = leavesOf(X->getSrcTy()); if (lv.size() != sv.size()) { emit(O_UNSUP, I); return; } for (size_t k = 0; k < lv.size(); k++) emit(O_CAST, I, d + k, opnd(X->getOperand(0), k), 0, 0, lv[k].w, sv[k].w, X->getOpcode()); return; }
    emit(O_UNSUP, I);
  }
  void lowerCall(const BasicBlock* BB, const CallBase* X, int d) {
    const Function* CF = dyn_cast<Function>(X->getCalledOperand()->stripPointerCasts());
    if (CF && CF->isIntrinsic()) {
      auto id = CF->getIntrinsicID();
      switch (id) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::lifetime_start: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::dbg_assign:
          emit(O_NOP, X); return;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: if (id != Intrinsic::threadlocal_address) { emit(O_COPY, X, d, opnd(X->getArgOperand(0))); return; } break;
        default: break;
      }
      CallInfo ci; ci.name = CF->getName().str(); for (auto& A : X->args()) { if (A->getType()->isMetadataTy()) continue; unsigned n = nslots(A->getType()); for (unsigned k = 0; k < n; k++) { ci.args.push_back(opnd(A, k)); ci.argw.push_back(leavesOf(A->getType())[k].w); } }
      if (id == Intrinsic::threadlocal_address) { auto* GV = cast<GlobalVariable>(X->getArgOperand(0)); ci.nret = tlsIdx[GV]; }
      else ci.nret = nslots(X->getType());
      ci.builtin = id; ci.retw = X->getType()->isVoidTy() ? 0 : wOf(X->getType());
      L->calls.push_back(ci); emit(O_INTR, X, d, 0, 0, 0, ci.retw, 0, 0, L->calls.size() - 1); 
      if (auto* iv = dyn_cast<InvokeInst>(X)) emit(O_BR, X, 0, 0, 0, 0, 0, 0, 0, edge(BB, iv->getNormalDest()));
      return;
    }
    if (X->isInlineAsm()) { emit(O_NOP, X); return; }
    CallInfo ci; if (CF) { ci.target = lf(CF); ci.name = CF->getName().str(); } else ci.callee = opnd(X->getCalledOperand());
    unsigned ai = 0;
    for (auto& A : X->args()) { unsigned n = nslots(A->getType()); for (unsigned k = 0; k < n; k++) { ci.args.push_back(opnd(A, k)); ci.argw.push_back(leavesOf(A->getType())[k].w); ci.byval.push_back(X->isByValArgument(ai) ? DL->getTypeAllocSize(X->getParamByValType(ai)) : 0); } ai++; }
    ci.nret = nslots(X->getType()); ci.retw = ci.nret ? wOf(X->getType()) : 0;
    if (auto* iv = dyn_cast<InvokeInst>(X)) { ci.invoke = true; ci.normal = edge(BB, iv->getNormalDest()); ci.unwind = edge(BB, iv->getUnwindDest()); }
    L->calls.push_back(ci); emit(O_CALL, X, d, 0, 0, 0, 0, 0, 0, L->calls.size() - 1);
  }
};
static std::vector<std::vector<Val>> fconsts;  // per function id
static void ensureLowered(LFunc* f) {
  if (f->lowered) return; Lower l; l.run(f); if (fconsts.size() <= (size_t)f->id) fconsts.resize(f->id + 512); fconsts[f->id] = l.constVals;
}
// ------------------------------------------------------------------------------------------------ solver
static std::vector<Z3_ast> synced; static std::unordered_map<Z3_ast, int> pcSet; static std::vector<Z3_model> models;
static void addPc(Z3_ast c) { if (c == ztrue) return; pcv.push_back(c); pcSet[c]++; P.npc = pcv.size(); P.Hpc += mix64(ahash(c)); }
static void syncSolver() {
  size_t k = 0; while (k < synced.size() && k < pcv.size() && synced[k] == pcv[k]) k++;
  if (k < synced.size()) { Z3_solver_pop(Z, S, synced.size() - k); synced.resize(k); }
  for (; k < pcv.size(); k++) { Z3_solver_push(Z, S); Z3_solver_assert(Z, S, pcv[k]); synced.push_back(pcv[k]); }
}
static bool evalBool(Z3_model m, Z3_ast b) { Z3_ast r; if (!Z3_model_eval(Z, m, b, true, &r)) return false; return Z3_get_bool_value(Z, r) == Z3_L_TRUE; }
static int query(Z3_ast c, Z3_model* out = nullptr) {   // 1 sat 0 unsat -1 unknown of pc & c (c may be null)
  if (!out) for (size_t i = 0; i < models.size(); i++) { bool ok = !c || evalBool(models[i], c); for (size_t j = pcv.size(); ok && j-- > 0;) ok = evalBool(models[i], pcv[j]); if (ok) { SH->cachehit++; if (i) std::swap(models[i], models[0]); return 1; } }
  syncSolver(); double t = now(); SH->queries++;
  Z3_lbool r;
  if (c) { Z3_solver_push(Z, S); Z3_solver_assert(Z, S, c); r = Z3_solver_check(Z, S); } else r = Z3_solver_check(Z, S);
  if (r == Z3_L_TRUE) { Z3_model m = Z3_solver_get_model(Z, S); Z3_model_inc_ref(Z, m); models.insert(models.begin(), m); if (models.size() > 6) { Z3_model_dec_ref(Z, models.back()); models.pop_back(); } if (out) *out = m; }
  if (c) Z3_solver_pop(Z, S, 1);
  double dt = now() - t; SH->qtimeus += (u64)(dt * 1e6);
  if (r == Z3_L_TRUE) { SH->qsat++; return 1; } if (r == Z3_L_FALSE) { SH->qunsat++; return 0; } SH->qunknown++; return -1;
}
// ------------------------------------------------------------------------------------------------ choice points
static void restore(const PS& ps) {
  while (trail.size() > ps.trail) {
    TE e = trail.back(); trail.pop_back();
    switch (e.k) {
      case T_MEM: W(e.a) = e.v; break;
      case T_SYM: { auto s = symTrail.back(); symTrail.pop_back(); if (s.first) { symmem[e.a] = s.second; SYB(e.a) |= 1 << (e.a & 7); } else { symmem.erase(e.a); SYB(e.a) &= ~(1 << (e.a & 7)); } break; }
      case T_OBJNEW: heap.erase(e.a); shadowSet(e.a, e.v, SH_RED); break;
      case T_OBJFREE: shadowOpen(e.a, e.v); heap[e.a].st = 1; break;
      case T_FPUSH: closeFrame(funcs[e.v], e.a); break;
      case T_FPOP: openFrame(funcs[e.v], e.a); break;
      case T_TLS: tlsMap.erase(e.a); break;
    }
  }
  P = ps; while (pcv.size() > P.npc) { auto it = pcSet.find(pcv.back()); if (--it->second == 0) pcSet.erase(it); pcv.pop_back(); }
  inputs.resize(P.ninp); schedTrace.resize(P.nsched);
  while (onpath.size() > P.nonpath) { onpathMap.erase(onpath.back().h); onpath.pop_back(); }
}
static void takeAlt(CP* cp, size_t i) { restore(cp->ps); Alt& a = cp->alts[i]; if (a.c) addPc(a.c); forced = a.id; }
[[noreturn]] static void bye();
static void dieIfStopped() { if (SH->stop.load(std::memory_order_relaxed)) bye(); if (now() - T0 > opt.timeout) { int z = 0; if (SH->stop.compare_exchange_strong(z, 2)) SH->timeouts++; bye(); } }
static u64 nsteps = 0;
static void forkWork() {
  while (SH->tokens.load(std::memory_order_relaxed) > 0) {
    size_t i = 0; while (i < cps.size() && cps[i]->next >= cps[i]->alts.size()) i++;
    if (i == cps.size()) return;
    if (SH->tokens.fetch_sub(1) <= 0) { SH->tokens++; return; }
    SH->live++; pid_t pid = fork();
    if (pid < 0) { SH->live--; SH->tokens++; return; }
    if (pid == 0) { nsteps = 0; inChild = true; CP* cp = cps[i]; size_t a = cp->alts.size() - 1; SH->forks++; takeAlt(cp, a); cps.clear(); trail.clear(); symTrail.clear(); P.trail = 0; logging = false; throw Restart{}; }
    cps[i]->alts.pop_back();
  }
}
static int pushChoice(std::vector<Alt>&& alts) {  // takes alternative 0 now; returns its id
  SH->choice++; P.npc = pcv.size(); P.ninp = inputs.size(); P.nsched = schedTrace.size(); P.trail = trail.size(); P.nonpath = onpath.size();
  CP* cp = new CP{P, std::move(alts), 1}; cps.push_back(cp); logging = true;
  if (!cp->ps.th[P.cur].st.empty()) { FR& r = cp->ps.th[P.cur].st.back(); Frame* n = new Frame(*r.p); n->rc = 0; n->regs = regAlloc(n->nregs); memcpy(n->regs, r.p->regs, sizeof(Val) * n->nregs); r = FR(n); }
  Alt a0 = cp->alts[0]; if (SH->tokens.load(std::memory_order_relaxed) > 0) forkWork();
  if (a0.c) addPc(a0.c); return a0.id;
}
[[noreturn]] static void backtrack() {
  dieIfStopped();
  while (!cps.empty()) { CP* cp = cps.back(); if (cp->next < cp->alts.size()) { size_t i = cp->next++; takeAlt(cp, i); if (cp->next >= cp->alts.size()) { cps.pop_back(); delete cp; logging = !cps.empty(); if (cps.empty()) { trail.clear(); symTrail.clear(); P.trail = 0; } } if (SH->tokens.load(std::memory_order_relaxed) > 0) forkWork(); throw Restart{}; } cps.pop_back(); delete cp; }
  bye();
}
[[noreturn]] static void endPath() { backtrack(); }
[[noreturn]] static void bye() { SH->steps += nsteps; SH->tokens++; SH->live--; _exit(0); }

static int decide(Z3_ast c) {     // forks on a Bool
  c = keep(Z3_simplify(Z, c)); if (c == ztrue) return 1; if (c == zfalse) return 0;
  Z3_ast n = keep(Z3_simplify(Z, znot(c)));
  if (pcSet.count(c)) return 1; if (pcSet.count(n)) return 0;
  int st = query(c); if (st < 0) { SH->unknowncut++; endPath(); } if (st == 0) { addPc(n); return 0; }
  int sf = query(n); if (sf < 0) { SH->unknowncut++; endPath(); } if (sf == 0) { addPc(c); return 1; }
  std::vector<Alt> al{{c, -1, 0}, {n, -1, 0}}; pushChoice(std::move(al)); return 1;
}
static u64 conc(Val v, unsigned w) {
  if (!v.e) return v.c;
  Z3_model m = nullptr; int r = query(nullptr, &m); if (r <= 0) { SH->unknowncut++; endPath(); }
  Z3_ast o; Z3_model_eval(Z, m, v.e, true, &o); u64 x = 0; if (!numeral(o, x)) unsupported("conc");
  Z3_ast eq = keep(Z3_simplify(Z, keep(Z3_mk_eq(Z, v.e, bvc(x, w))))); if (eq == ztrue || pcSet.count(eq)) return x;
  Z3_ast ne = keep(Z3_simplify(Z, znot(eq))); int s = query(ne); if (s < 0) { SH->unknowncut++; endPath(); } if (s == 0) { addPc(eq); return x; }
  std::vector<Alt> al{{eq, -1, 0}, {ne, -1, 0}}; pushChoice(std::move(al)); return x;
}
// ------------------------------------------------------------------------------------------------ reporting
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8)c < 32) o += ' '; else o += c; } return o; }
static std::string cstr(u64 a, size_t max = 400) { std::string s; while (s.size() < max && okAccess(a, 1)) { char c = *(char*)a; if (!c) break; s += c; a++; } return s; }
static std::string stackOf(const Thread& t) { std::string s; int n = 0; for (size_t i = t.st.size(); i-- > 0 && n < 24; n++) { Frame* f = t.st[i].p; const Instruction* I = f->pc < (int)f->f->code.size() ? f->f->code[f->pc].I : nullptr; std::string l = locOf(I); if (!s.empty()) s += " < "; std::string dn = dem(f->f->name); if (dn.size() > 90) dn = dn.substr(0, 87) + "..."; s += dn + (l.empty() ? "" : "@" + l); } return s; }
static std::string histStr(Z3_model m) {
  std::string o = "\"inputs\":[";
  for (size_t k = 0; k < inputs.size(); k++) { u64 v = inputs[k].c; if (inputs[k].e && m) { Z3_ast x; Z3_model_eval(Z, m, inputs[k].e, true, &x); numeral(x, v); } o += std::string(k ? "," : "") + "[\"" + jesc(inputs[k].name) + "\"," + std::to_string(v) + "]"; if (o.size() > 60000) return o + "]"; }
  o += "],\"sched\":\"";
  for (size_t k = 0; k < schedTrace.size();) { size_t j = k; while (j < schedTrace.size() && schedTrace[j] == schedTrace[k]) j++; o += std::to_string((int)schedTrace[k]) + (j - k > 1 ? "x" + std::to_string(j - k) : "") + " "; k = j; }
  return o + "\"";
}
static void sample() {   // keep a few completed paths; the driver replays them natively to validate the models
  u64 n = SH->paths++; if (opt.race || !(n == 0 || n == 5 || n == 60 || n == 700)) return; int i = SH->nsmp.fetch_add(1); if (i >= 4) return;
  Z3_model m = nullptr; if (query(nullptr, &m) <= 0) return;
  std::string o = "{" + histStr(m) + "}"; if (o.size() >= sizeof(SH->smp[i].text) - 1) return; strcpy(SH->smp[i].text, o.c_str()); SH->smp[i].used = 2;
}
static void violation(const std::string& kind, const std::string& msg, Z3_ast extra) {
  std::string key = kind + ": " + msg;
  for (int i = 0; i < SH->nvio.load() && i < 24; i++) if (SH->vio[i].used.load() == 2 && key == SH->vio[i].key) return;
  Z3_model m = nullptr; int r = query(extra, &m); if (r <= 0) { SH->unknowncut++; return; }
  int i = SH->nvio.fetch_add(1); if (i >= 24) return;
  std::string o = "{\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(stackOf(P.th[P.cur])) + "\",\"threads\":[";
  for (size_t t = 0; t < P.th.size(); t++) { if (t) o += ","; o += "\"T" + std::to_string(t) + " status " + std::to_string(P.th[t].status) + " " + jesc(stackOf(P.th[t])) + "\""; if (o.size() > 40000) { break; } }
  o += "]," + histStr(m) + "}";
  if (o.size() >= sizeof(SH->vio[i].text)) o = o.substr(0, sizeof(SH->vio[i].text) - 4) + "\"}";
  snprintf(SH->vio[i].key, 512, "%s", key.c_str()); strcpy(SH->vio[i].text, o.c_str()); SH->vio[i].used = 2;
  bool known = false; for (auto& k : opt.known) if (key.find(k) != std::string::npos) known = true;
  if (!known) { SH->stop.exchange(1); }
}
static void unsupported(const std::string& m) {
  SH->unsup++; int i = SH->nUnsup.fetch_add(1); if (i < 8) { std::string s = m + " in " + (P.th.empty() ? "" : stackOf(P.th[P.cur])); snprintf(SH->unsupMsg[i], 256, "%s", s.c_str()); } endPath();
}
static void memViolation(const char* what, u64 a, u64 n) {
  std::string m; 
  if (a < 65536) m = "null pointer access"; else if (!inArena(a)) m = "wild pointer access"; else {
    auto it = heap.upper_bound(a); if (it != heap.begin()) { --it; if (a < it->first + it->second.size + 32) m = it->second.st == 2 ? "use after free" : "heap out-of-bounds access"; }
    if (m.empty()) m = a >= STACK0 && a < HEAP0 ? "stack out-of-bounds or dead frame access" : "out-of-bounds access"; }
  Thread& t = P.th[P.cur]; std::string fn; for (size_t i = t.st.size(); i-- > 0;) { Frame* f = t.st[i].p; std::string l = f->pc < (int)f->f->code.size() ? locOf(f->f->code[f->pc].I) : ""; if (l.compare(0, 4, "src/") == 0) { fn = l; break; } }
  violation("memory", m + " (" + what + ")" + (fn.empty() ? "" : " at " + fn)); endPath();
}
// ------------------------------------------------------------------------------------------------ symbolic memory
static Val loadVal(u64 a, unsigned w) {
  unsigned n = w == 80 ? 8 : (w + 7) / 8;
  if (w <= 64 || w == 80) { bool sym = SYB(a) || SYB(a + n - 1); if (sym) { sym = false; for (unsigned i = 0; i < n; i++) if (SYB(a + i) >> ((a + i) & 7) & 1) { sym = true; break; } } if (!sym) { u64 v = 0; memcpy(&v, (void*)a, n); return {w == 80 ? v : v & maskw(w), nullptr}; } }
  // symbolic (or wide)
  auto it0 = symmem.find(a);
  if (it0 != symmem.end() && it0->second.idx == 0 && bw(it0->second.e) == n * 8) { bool same = true; for (unsigned i = 1; i < n && same; i++) { auto it = symmem.find(a + i); same = it != symmem.end() && it->second.e == it0->second.e && it->second.idx == i; } if (same) { if (w == n * 8) return mk(it0->second.e); return mk(keep(Z3_mk_extract(Z, w - 1, 0, it0->second.e))); } }
  Z3_ast r = nullptr;
  for (unsigned i = 0; i < n; i++) { auto it = symmem.find(a + i); Z3_ast b = it != symmem.end() ? keep(Z3_mk_extract(Z, it->second.idx * 8 + 7, it->second.idx * 8, it->second.e)) : bvc(*(u8*)(a + i), 8); r = r ? keep(Z3_mk_concat(Z, b, r)) : b; }
  if (w != n * 8) r = keep(Z3_mk_extract(Z, w - 1, 0, r));
  if (w > 64) return {0, keep(Z3_simplify(Z, r))};
  return mk(r);
}
static void putBytes(u64 a, const u8* p, u64 n) {   // concrete bytes; clears symbolic
  u64 i = 0;
  while (i < n) { u64 wa = (a + i) & ~7ull; unsigned o = (a + i) & 7; unsigned k = std::min<u64>(8 - o, n - i); u8 sb = SYB(wa);
    if (sb) for (unsigned j = 0; j < k; j++) if (sb >> (o + j) & 1) setSym(wa + o + j, false, SymB{});
    u64 v = W(wa); memcpy((u8*)&v + o, p + i, k); setWord(wa, v); i += k; }
}
static void storeVal(u64 a, Val v, unsigned w) {
  unsigned n = w == 80 ? 8 : (w + 7) / 8;
  if (!v.e) { u64 c = w == 80 ? v.c : v.c & maskw(w); if ((a & 7) + n <= 8 && !SYB(a)) { u64 wa = a & ~7ull, x = W(wa); memcpy((u8*)&x + (a & 7), &c, n); setWord(wa, x); } else putBytes(a, (u8*)&c, n); return; }
  Z3_ast e = v.e; if (w % 8) e = keep(Z3_mk_zero_ext(Z, n * 8 - w, e));
  u8 zero = 0; for (unsigned i = 0; i < n; i++) { putBytes(a + i, &zero, 1); setSym(a + i, true, SymB{e, (u16)i}); }
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n || d == s) return; static std::vector<u8> buf; buf.resize(n); memcpy(buf.data(), (void*)s, n);
  std::vector<std::pair<u64, SymB>> sy; if (!symmem.empty()) for (u64 i = 0; i < n; i++) { if (((s + i) & 7) == 0 && !SYB(s + i) && i + 8 <= n) { i += 7; continue; } if (SYB(s + i) >> ((s + i) & 7) & 1) sy.push_back({i, symmem[s + i]}); }
  putBytes(d, buf.data(), n); for (auto& x : sy) setSym(d + x.first, true, x.second);
}
static Val byteAt(u64 a) { return loadVal(a, 8); }

// ------------------------------------------------------------------------------------------------ arithmetic
static Z3_sort fps(unsigned w) { static Z3_sort d = nullptr, f = nullptr; if (!d) { d = Z3_mk_fpa_sort_double(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, d)); f = Z3_mk_fpa_sort_single(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, f)); } return w == 32 ? f : d; }
static Z3_ast tofp(Z3_ast b, unsigned w) { return keep(Z3_mk_fpa_to_fp_bv(Z, b, fps(w))); }
static Z3_ast rne() { static Z3_ast r = nullptr; if (!r) r = keep(Z3_mk_fpa_rne(Z)); return r; }
static Val fromfp(Z3_ast f) { return mk(keep(Z3_mk_fpa_to_ieee_bv(Z, f))); }
static double getd(Val v, unsigned w) { if (w == 32) { float f; u32 b = v.c; memcpy(&f, &b, 4); return f; } return v2d(v.c); }
static Val putd(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 b; memcpy(&b, &f, 4); return {b, nullptr}; } return d2v(d); }
static Val binop(unsigned op, Val a, Val b, unsigned w, bool fp) {
  if (fp) {
    if (!a.e && !b.e) { if (w == 32) { float x = getd(a, 32), y = getd(b, 32), r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmodf(x, y); } return putd(r, 32); }
      double x = v2d(a.c), y = v2d(b.c), r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); } return d2v(r); }
    if (w == 80) unsupported("symbolic long double");
    Z3_ast x = tofp(ex(a, w), w), y = tofp(ex(b, w), w);
    switch (op) { case Instruction::FAdd: return fromfp(keep(Z3_mk_fpa_add(Z, rne(), x, y))); case Instruction::FSub: return fromfp(keep(Z3_mk_fpa_sub(Z, rne(), x, y))); case Instruction::FMul: return fromfp(keep(Z3_mk_fpa_mul(Z, rne(), x, y))); case Instruction::FDiv: return fromfp(keep(Z3_mk_fpa_div(Z, rne(), x, y))); default: unsupported("symbolic frem"); }
  }
  bool dv = op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem;
  if (dv) { if (!b.e) { if (!(b.c & maskw(w)) && w <= 64) { violation("arithmetic", "division by zero"); endPath(); } } else if (decide(keep(Z3_mk_eq(Z, b.e, bvc(0, w))))) { violation("arithmetic", "division by zero"); endPath(); } }
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c & maskw(w), y = b.c & maskw(w), r = 0;
    switch (op) {
      case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break; case Instruction::UDiv: r = x / y; break; case Instruction::URem: r = x % y; break;
      case Instruction::SDiv: { i64 p = sext(x, w), q = sext(y, w); r = q == -1 ? (u64)0 - (u64)p : (u64)(p / q); break; } case Instruction::SRem: { i64 p = sext(x, w), q = sext(y, w); r = q == -1 ? 0 : (u64)(p % q); break; }
      case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break; case Instruction::AShr: r = y >= w ? (u64)(sext(x, w) >> 63) : (u64)(sext(x, w) >> y); break;
      case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
    }
    return {r & maskw(w), nullptr};
  }
  Z3_ast x = ex(a, w), y = ex(b, w), r = nullptr;
  if (w == 1) { // boolean structure
    Z3_ast p = v2b(x), q = v2b(y); Z3_ast ar[2] = {p, q};
    if (op == Instruction::And) return mk(b2v(keep(Z3_mk_and(Z, 2, ar)))); if (op == Instruction::Or) return mk(b2v(keep(Z3_mk_or(Z, 2, ar)))); if (op == Instruction::Xor) { if (!b.e) return b.c & 1 ? mk(b2v(znot(p))) : a; return mk(b2v(keep(Z3_mk_xor(Z, p, q)))); }
  }
  switch (op) {
    case Instruction::Add: r = Z3_mk_bvadd(Z, x, y); break; case Instruction::Sub: r = Z3_mk_bvsub(Z, x, y); break; case Instruction::Mul: r = Z3_mk_bvmul(Z, x, y); break; case Instruction::UDiv: r = Z3_mk_bvudiv(Z, x, y); break; case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, x, y); break; case Instruction::URem: r = Z3_mk_bvurem(Z, x, y); break; case Instruction::SRem: r = Z3_mk_bvsrem(Z, x, y); break;
    case Instruction::Shl: r = Z3_mk_bvshl(Z, x, y); break; case Instruction::LShr: r = Z3_mk_bvlshr(Z, x, y); break; case Instruction::AShr: r = Z3_mk_bvashr(Z, x, y); break; case Instruction::And: r = Z3_mk_bvand(Z, x, y); break; case Instruction::Or: r = Z3_mk_bvor(Z, x, y); break; case Instruction::Xor: r = Z3_mk_bvxor(Z, x, y); break;
    default: unsupported("binop");
  }
  if (w > 64) return {0, keep(Z3_simplify(Z, keep(r)))};
  return mk(keep(r));
}
static Val icmp(unsigned p, Val a, Val b, unsigned w) {
  if (!a.e && !b.e && w <= 64) { u64 x = a.c & maskw(w), y = b.c & maskw(w); i64 s = sext(x, w), t = sext(y, w); bool r = false; switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break; case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break; } return {(u64)r, nullptr}; }
  Z3_ast x = ex(a, w), y = ex(b, w), r = nullptr;
  switch (p) { case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break; case CmpInst::ICMP_NE: r = znot(keep(Z3_mk_eq(Z, x, y))); break; case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x, y); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x, y); break; case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break; case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x, y); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x, y); break; case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x, y); break; }
  r = keep(Z3_simplify(Z, keep(r))); if (r == ztrue) return {1, nullptr}; if (r == zfalse) return {0, nullptr}; return {0, b2v(r)};
}
static Val fcmp(unsigned p, Val a, Val b, unsigned w) {
  if (!a.e && !b.e) { double x = getd(a, w), y = getd(b, w); bool un = std::isnan(x) || std::isnan(y), r = false; switch (p) { case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; } return {(u64)r, nullptr}; }
  Z3_ast x = tofp(ex(a, w), w), y = tofp(ex(b, w), w), r = nullptr; Z3_ast nn[2] = {keep(Z3_mk_fpa_is_nan(Z, x)), keep(Z3_mk_fpa_is_nan(Z, y))}; Z3_ast un = keep(Z3_mk_or(Z, 2, nn));
  bool uno = false; unsigned q = p; if (p >= CmpInst::FCMP_UEQ && p <= CmpInst::FCMP_UNE) uno = true;
  switch (q) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = Z3_mk_fpa_eq(Z, x, y); break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = Z3_mk_fpa_gt(Z, x, y); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = Z3_mk_fpa_geq(Z, x, y); break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = Z3_mk_fpa_lt(Z, x, y); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = Z3_mk_fpa_leq(Z, x, y); break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = znot(keep(Z3_mk_fpa_eq(Z, x, y))); break; case CmpInst::FCMP_ORD: return mk(b2v(znot(un))); case CmpInst::FCMP_UNO: return mk(b2v(un)); default: unsupported("fcmp"); }
  r = keep(r); Z3_ast ar[2]; if (uno) { ar[0] = un; ar[1] = r; r = keep(Z3_mk_or(Z, 2, ar)); } else { ar[0] = znot(un); ar[1] = r; r = keep(Z3_mk_and(Z, 2, ar)); } return mk(b2v(r));
}
static Val cast_(unsigned op, Val a, unsigned w, unsigned sw) {
  switch (op) {
    case Instruction::Trunc: if (!a.e) return {a.c & maskw(w), nullptr}; if (w == sw) return a; { Z3_ast r = keep(Z3_mk_extract(Z, w - 1, 0, a.e)); if (w > 64) return {0, keep(Z3_simplify(Z, r))}; return mk(r); }
    case Instruction::ZExt: if (w > 64) return {0, keep(Z3_simplify(Z, keep(Z3_mk_zero_ext(Z, w - sw, ex(a, sw)))))}; if (!a.e) return {a.c & maskw(sw), nullptr}; return mk(keep(Z3_mk_zero_ext(Z, w - sw, a.e)));
    case Instruction::SExt: if (w > 64) return {0, keep(Z3_simplify(Z, keep(Z3_mk_sign_ext(Z, w - sw, ex(a, sw)))))}; if (!a.e) return {(u64)sext(a.c, sw) & maskw(w), nullptr}; return mk(keep(Z3_mk_sign_ext(Z, w - sw, a.e)));
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: if (w < sw) return cast_(Instruction::Trunc, a, w, sw); if (w > sw) return cast_(Instruction::ZExt, a, w, sw); return a;
    case Instruction::FPTrunc: case Instruction::FPExt: if (!a.e) return putd(getd(a, sw), w); if (w == 80 || sw == 80) unsupported("fp80"); return fromfp(keep(Z3_mk_fpa_to_fp_float(Z, rne(), tofp(a.e, sw), fps(w))));
    case Instruction::UIToFP: if (!a.e) return putd((double)(a.c & maskw(sw)), w); return fromfp(keep(Z3_mk_fpa_to_fp_unsigned(Z, rne(), a.e, fps(w))));
    case Instruction::SIToFP: if (!a.e) { if (w == 32) { float f = (float)sext(a.c, sw); return putd(f, 32); } return putd((double)sext(a.c, sw), w); } return fromfp(keep(Z3_mk_fpa_to_fp_signed(Z, rne(), a.e, fps(w))));
    case Instruction::FPToSI: if (!a.e) return {(u64)(i64)getd(a, sw) & maskw(w), nullptr}; return mk(keep(Z3_mk_fpa_to_sbv(Z, keep(Z3_mk_fpa_rtz(Z)), tofp(a.e, sw), w)));
    case Instruction::FPToUI: if (!a.e) return {(u64)getd(a, sw) & maskw(w), nullptr}; return mk(keep(Z3_mk_fpa_to_ubv(Z, keep(Z3_mk_fpa_rtz(Z)), tofp(a.e, sw), w)));
  }
  unsupported("cast"); return {0, nullptr};
}
// ------------------------------------------------------------------------------------------------ liveness (for state hashing)
static void usesOf(LFunc* f, const LI& I, std::function<void(int)> u, std::function<void(int)> def) {
  auto U = [&](int o) { if (o >= 0) u(o); };
  switch (I.op) {
    case O_BIN: case O_ICMP: case O_FCMP: U(I.a); U(I.b); def(I.d); break;
    case O_CAST: case O_COPY: case O_FNEG: case O_LOAD: U(I.a); def(I.d); break;
    case O_LOADM: U(I.a); for (size_t k = 0; k < f->leafs[I.x].size(); k++) def(I.d + k); break;
    case O_GEP: U(I.a); for (auto& t : f->geps[I.x].t) U(t.op); def(I.d); break;
    case O_STORE: case O_STOREM: U(I.a); U(I.b); break;
    case O_SELECT: U(I.a); U(I.b); U(I.c); def(I.d); break;
    case O_CONDBR: case O_SWITCH: U(I.a); break;
    case O_RET: for (int o : f->calls[I.x].args) U(o); break;
    case O_CALL: case O_INTR: { auto& c = f->calls[I.x]; for (int o : c.args) U(o); if (I.op == O_CALL && !c.target) U(c.callee); if (I.d >= 0) for (int k = 0; k < c.nret; k++) def(I.d + k); break; }
    case O_RESUME: U(I.a); U(I.b); break;
    case O_LPAD: def(I.d); def(I.d + 1); break;
    case O_RMW: U(I.a); U(I.b); def(I.d); break;
    case O_CMPXCHG: U(I.a); U(I.b); U(I.c); def(I.d); def(I.d + 1); break;
    case O_ALLOCA: def(I.d); break; case O_DYNALLOCA: U(I.a); def(I.d); break;
    default: break;
  }
}
static std::vector<int> edgesOf(LFunc* f, const LI& I) { std::vector<int> r; if (I.op == O_BR) r.push_back(I.x); else if (I.op == O_CONDBR) { r.push_back(I.b); r.push_back(I.c); } else if (I.op == O_SWITCH) { auto& s = f->sws[I.x]; for (auto& c : s.cases) r.push_back(c.second); r.push_back(s.def); } else if (I.op == O_CALL && f->calls[I.x].invoke) { r.push_back(f->calls[I.x].normal); r.push_back(f->calls[I.x].unwind); } return r; }
static void stepBack(LFunc* f, int pc, std::vector<bool>& live, const std::vector<std::vector<bool>>& bl, bool skipUses = false) {
  const LI& I = f->code[pc]; auto ed = edgesOf(f, I);
  if (!ed.empty()) { if (I.op != O_CALL || true) { std::vector<bool> nl(f->nregs, false); for (int e : ed) { auto tl = bl[f->pcBlock[f->edges[e].target]]; for (auto& c : f->edges[e].cp) tl[c.first] = false; for (auto& c : f->edges[e].cp) if (c.second >= 0) tl[c.second] = true; for (int i = 0; i < f->nregs; i++) if (tl[i]) nl[i] = true; } live = nl; } }
  usesOf(f, I, [](int) {}, [&](int d) { if (d >= 0) live[d] = false; });
  if (!skipUses) usesOf(f, I, [&](int u) { live[u] = true; }, [](int) {});
}
static void liveness(LFunc* f) {
  int nb = f->blockStart.size(), n = f->code.size(); f->pcBlock.assign(n, 0); for (int b = 0; b < nb; b++) { int e = b + 1 < nb ? f->blockStart[b + 1] : n; for (int p = f->blockStart[b]; p < e; p++) f->pcBlock[p] = b; }
  f->liveIn.assign(nb, std::vector<bool>(f->nregs, false)); bool ch = true;
  while (ch) { ch = false; for (int b = nb - 1; b >= 0; b--) { int e = b + 1 < nb ? f->blockStart[b + 1] : n; std::vector<bool> l(f->nregs, false); for (int p = e - 1; p >= f->blockStart[b]; p--) stepBack(f, p, l, f->liveIn); if (l != f->liveIn[b]) { f->liveIn[b] = l; ch = true; } } }
  f->liveDone = true;
}
static const std::vector<int>& liveAt(LFunc* f, int pc, bool after) {
  int key = pc * 2 + after; auto it = f->liveAt.find(key); if (it != f->liveAt.end()) return it->second;
  if (!f->liveDone) liveness(f); int b = f->pcBlock[pc], n = f->code.size(), e = b + 1 < (int)f->blockStart.size() ? f->blockStart[b + 1] : n; std::vector<bool> l(f->nregs, false);
  for (int p = e - 1; p > pc; p--) stepBack(f, p, l, f->liveIn); stepBack(f, pc, l, f->liveIn, after);
  std::vector<int> v; for (int i = 0; i < f->nregs; i++) if (l[i]) v.push_back(i); return f->liveAt[key] = v;
}
static u64 stateHash() {
  u64 h = P.Hm ^ mix64(P.Hpc + 17); h = mix2(h, P.cur);
  for (size_t i = 0; i < P.th.size(); i++) { Thread& t = P.th[i]; u64 x = mix2(i + 1, t.status | (t.phase << 8) | (t.timed << 16) | (t.fired << 17) | (t.schedDone << 18) | (t.hasOneshot << 19));
    if (t.status != DONE) { x = mix2(x, t.wa); x = mix2(x, t.wb); if (t.timed && t.status != RUN) x = mix2(x, (u64)(t.deadline - P.clock)); if (t.status == B_CV || t.status == B_FUTEX) { u64 rank = 0; for (auto& o : P.th) if (o.status == t.status && o.wa == t.wa && o.seq < t.seq) rank++; x = mix2(x, rank); }
      x = mix2(x, t.excPtr); x = mix2(x, t.excSel);
      for (size_t k = 0; k < t.st.size(); k++) { Frame* f = t.st[k].p; x = mix2(x, ((u64)f->f->id << 32) | (u32)f->pc); x = mix2(x, f->base); for (int r : liveAt(f->f, f->pc, k + 1 < t.st.size())) x = mix2(x, vhash(f->regs[r]) + r * 0x100000001B3ull); } }
    h = mix2(h, x); }
  if (opt.clockAdvance) h = mix2(h, P.clock);
  return h ? h : 1;
}
static bool visitedCheck(u64 h, int delays) {   // true: already explored with at least this many delays left
  u64 mask = opt.visTable - 1, i = h & mask;
  for (int n = 0; n < 64; n++, i = (i + 1) & mask) {
    u64 k = VIS[i * 2].load(std::memory_order_relaxed);
    if (k == 0) { u64 z = 0; if (VIS[i * 2].compare_exchange_strong(z, h)) { SH->visUsed++; VIS[i * 2 + 1].store(delays + 1); return false; } k = z; }
    if (k == h) { u64 d = VIS[i * 2 + 1].load(); while (true) { if (d >= (u64)delays + 1) return true; if (VIS[i * 2 + 1].compare_exchange_weak(d, delays + 1)) return false; } }
  }
  return false;
}
// ------------------------------------------------------------------------------------------------ scheduler
enum { W_NONE = 0, W_VIS, W_YIELD, W_BLOCK };
static int needSched = 0;   // saved in P.nondef
static u32 rd32(u64 a) { return *(u32*)a; }
static void wr32(u64 a, u32 v) { storeVal(a, {v, nullptr}, 32); }
static bool enabled(int i) { Thread& t = P.th[i]; switch (t.status) { case RUN: return true; case B_MUTEX: return rd32(t.wa) == 0; case B_JOIN: return P.th[t.wa].status == DONE; case B_RD: return rd32(t.wa) == 0; case B_WR: return rd32(t.wa) == 0 && rd32(t.wa + 4) == 0; default: return false; } }
static int aliveCount() { int n = 0; for (auto& t : P.th) if (t.status != DONE) n++; return n; }
static bool fireable(int i) { Thread& t = P.th[i]; return (t.status == B_SLEEP) || ((t.status == B_CV || t.status == B_FUTEX) && t.timed); }
static void fire(int i) { Thread& t = P.th[i]; t.fired = true; if (t.deadline > P.clock) P.clock = t.deadline; if (t.status == B_CV) { t.status = B_MUTEX; t.wa = t.wb; } else t.status = RUN; }
static int nxt(int cur, int k, int n) { return opt.rrDown ? (cur + n - k % n) % n : (cur + k) % n; }   // the order of the default schedule
static void deadlock(const char* why) { violation("hang", why); endPath(); }
static void doSchedule(int why) {
  SH->schedPoints++;
  for (;;) {
    int n = P.th.size(), cur = P.cur, chosen = -1;
    if (forced >= 0) { chosen = forced; forced = -1; }
    else {
      std::vector<int> en; int def = -1;
      if (why == W_VIS && P.th[cur].burst > 400) why = W_YIELD;
      if (why == W_VIS) { def = cur; }
      else for (int k = 1; k <= n; k++) { int i = nxt(cur, k, n); if (i == cur && why == W_YIELD && false) continue; if (enabled(i)) { def = i; break; } }
      if (def < 0) { i64 best = 0; for (int k = 1; k <= n; k++) { int i = nxt(cur, k, n); if (fireable(i) && (def < 0 || P.th[i].deadline < best)) { best = P.th[i].deadline; def = i | 128; } } }
      if (def < 0) { bool all = true; for (auto& t : P.th) if (t.status != DONE) all = false; if (all) endPath(); deadlock("deadlock: every thread is blocked forever"); }
      std::vector<Alt> al{{nullptr, def, 0}};
      if (P.schedOn && P.delays > 0) {
        for (int k = 1; k <= n; k++) { int i = nxt(cur, k, n); if (i != (def & 127) && enabled(i)) al.push_back({nullptr, i, 1}); }
        if (opt.earlyTimeout || (def & 128)) for (int k = 1; k <= n; k++) { int i = nxt(cur, k, n); if (i != (def & 127) && fireable(i) && (!opt.timerOrder || P.th[i].deadline == P.th[def & 127].deadline)) al.push_back({nullptr, i | 128, 1}); }
      }
      bool cyc = why == W_YIELD || (def & 128);
      if (cyc) {
        u64 h = mix2(mix2(stateHash(), 3), P.lastDev); auto it = onpathMap.find(h);
        if (it != onpathMap.end()) {
          int f = -1; i64 best = 0; if (!(def & 128)) for (int k = 1; k <= n; k++) { int i = nxt(cur, k, n); if (fireable(i) && (f < 0 || P.th[i].deadline < best)) { best = P.th[i].deadline; f = i | 128; } }
          if (f < 0) deadlock("livelock: the threads repeat the same states forever and the caller never returns");
          def = f; al[0].id = f;
          h = mix2(h, 5); it = onpathMap.find(h); if (it != onpathMap.end()) deadlock("livelock: the threads repeat the same states forever and the caller never returns");
        }
        if (it == onpathMap.end()) { onpathMap[h] = P.schedIdx + 1; onpath.push_back({h, P.schedIdx + 1}); P.nonpath = onpath.size(); }
      }
      if (al.size() > 1 && opt.dedupe) { u64 h = mix2(stateHash(), why == W_VIS ? 1 : 2); if (visitedCheck(h, P.delays)) { SH->pruned++; endPath(); } }
      P.lastDef = def;
      if (al.size() > 1) { P.nondef = why; chosen = pushChoice(std::move(al)); } else chosen = def;
    }
    P.schedIdx++;
    if (chosen != P.lastDef) { P.delays--; P.lastDev = P.schedIdx; SH->preempt++; }
    schedTrace.push_back((u8)chosen); P.nsched = schedTrace.size();
    int u = chosen & 127;
    if (chosen & 128) { fire(u); if (!enabled(u)) { why = W_BLOCK; continue; } }
    if (u != P.cur) P.th[u].burst = 0; else P.th[u].burst++;
    if (P.th[u].status != RUN) { P.th[u].status = RUN; }
    P.cur = u; return;
  }
}
// ------------------------------------------------------------------------------------------------ frames
static u64 stkFill[MAXT];
static void pushFrame(LFunc* f, const std::vector<Val>& args) {
  ensureLowered(f); SH->fexec[f->id]++;
  Thread& t = P.th[P.cur]; Frame* fr = new Frame; fr->f = f; fr->nregs = f->nregs; fr->regs = regAlloc(f->nregs); memset(fr->regs, 0, sizeof(Val) * f->nregs); fr->base = t.sp;
  for (size_t i = 0; i < f->argSlots.size() && i < args.size(); i++) fr->regs[f->argSlots[i]] = args[i];
  t.sp += f->frameSize; u64 lo = STACK0 + (u64)P.cur * STACK_SZ;
  if (t.sp > lo + STACK_SZ - 65536 || t.st.size() > 3000) { delete fr; violation("memory", "stack overflow: unbounded recursion"); endPath(); }
  while (stkFill[P.cur] < t.sp + 64) { for (u64 a = stkFill[P.cur]; a < stkFill[P.cur] + 16384; a += 8) W(a) = PAT; stkFill[P.cur] += 16384; }
  if (!f->allocas.empty()) { openFrame(f, fr->base); logT(fr->base, f->id, T_FPUSH); }
  t.st.emplace_back(fr);
}
static void heapFree(u64 a, const char* what) {
  if (!a) return; auto it = heap.find(a);
  if (it == heap.end()) { violation("memory", "invalid free"); endPath(); }
  if (it->second.st == 2) { violation("memory", "double free"); endPath(); }
  clearRange(a, it->second.size); shadowSet(a, it->second.size ? it->second.size : 1, SH_FREED); it->second.st = 2; logT(a, it->second.size, T_OBJFREE); P.liveObjs--;
}
static void popFrame() {
  Thread& t = P.th[P.cur]; Frame* fr = t.st.back().p; LFunc* f = fr->f;
  for (u64 a : fr->dyn) heapFree(a, "alloca");
  if (!f->allocas.empty()) { for (auto& al : f->allocas) clearRange(fr->base + al.off, al.size); closeFrame(f, fr->base); logT(fr->base, f->id, T_FPOP); }
  t.sp = fr->base; t.st.pop_back();
}
static Frame* uniq() {
  FR& r = P.th[P.cur].st.back(); if (r.p->rc > 1) { Frame* n = new Frame(*r.p); n->rc = 0; n->regs = regAlloc(n->nregs); memcpy(n->regs, r.p->regs, sizeof(Val) * n->nregs); r = FR(n); } return r.p;
}
static void takeEdge(Frame* fr, int e) {
  Edge& E = fr->f->edges[e]; Val* R = fr->regs; const Val* K = fconsts[fr->f->id].data(); size_t n = E.cp.size();
  if (n == 1) { int s = E.cp[0].second; R[E.cp[0].first] = s >= 0 ? R[s] : K[~s]; }
  else if (n) { Val tmp[64]; std::vector<Val> big; Val* T = tmp; if (n > 64) { big.resize(n); T = big.data(); } for (size_t i = 0; i < n; i++) { int s = E.cp[i].second; T[i] = s >= 0 ? R[s] : K[~s]; } for (size_t i = 0; i < n; i++) R[E.cp[i].first] = T[i]; }
  fr->pc = E.target;
}
// ------------------------------------------------------------------------------------------------ RTTI / unwinding
static int tiKind(u64 ti) { u64 v = W(ti); if (v == vtSi + 16) return 1; if (v == vtVmi + 16) return 2; if (v == vtClass + 16) return 0; if (v == vtPtr + 16) return 3; return -1; }
static void bases(u64 ti, u64 addr, std::vector<std::pair<u64, u64>>& out, int depth = 0) {
  if (depth > 30) return; out.push_back({ti, addr}); int k = tiKind(ti);
  if (k == 1) bases(W(ti + 16), addr, out, depth + 1);
  else if (k == 2) { u32 n = rd32(ti + 20); for (u32 i = 0; i < n; i++) { u64 b = W(ti + 24 + i * 16); i64 fl = (i64)W(ti + 32 + i * 16); i64 off = fl >> 8; if (fl & 1) { if (!addr) { bases(b, addr, out, depth + 1); continue; } u64 vp = W(addr); off = (i64)W(vp + off); } bases(b, addr ? addr + off : 0, out, depth + 1); } }
}
static bool catches(u64 cti, u64 tti, u64 obj, u64& adj) {
  int k = tiKind(tti); adj = k == 3 ? W(obj) : obj; if (!cti || cti == tti) return true;
  if (k == 3 && tiKind(cti) == 3) { if (W(cti + 24) == W(tti + 24)) return true; std::vector<std::pair<u64, u64>> b; u64 p = W(tti + 24); if (tiKind(p) >= 0 && tiKind(p) <= 2) { bases(p, W(obj), b); for (auto& x : b) if (x.first == W(cti + 24)) { adj = x.second; return true; } } return false; }
  if (k < 0 || k > 2 || tiKind(cti) < 0) return false;
  std::vector<std::pair<u64, u64>> b; bases(tti, obj, b); for (auto& x : b) if (x.first == cti) { adj = x.second; return true; } return false;
}
static u32 selFor(u64 ti) { return ti ? (u32)((ti - ARENA) / 8 + 2) : 1; }
static LpInfo* lpOf(Frame* f) { LI& I = f->f->code[f->pc]; if (I.op != O_CALL) return nullptr; auto& ci = f->f->calls[I.x]; if (!ci.invoke) return nullptr; int t = f->f->edges[ci.unwind].target; LI& L = f->f->code[t]; if (L.op != O_LPAD) return nullptr; return &f->f->lps[L.x]; }
static int lpMatch(LpInfo* lp, u64 tti, u64 obj, u64& adj, u64& ti) { // 0 none 1 cleanup 2 catch 3 filter hit
  for (auto& c : lp->cl) { if (c.isCatch) { if (catches(c.ti[0], tti, obj, adj)) { ti = c.ti[0]; return 2; } } else { bool in = false; u64 a; for (u64 x : c.ti) if (catches(x, tti, obj, a)) in = true; if (!in) return 3; } }
  return lp->cleanup ? 1 : 0;
}
static std::string tiName(u64 ti) { return dem("_Z" + std::string("TI") + cstr(W(ti + 8))); }
static void unwindFrom(u64 obj, bool popCur) {   // current frame is the throwing/resuming one
  u64 tti = W(obj - 128), adj = 0, ti = 0; Thread& t = P.th[P.cur]; bool handled = false;
  for (size_t i = t.st.size() - 1; i-- > 0;) { LpInfo* lp = lpOf(t.st[i].p); if (!lp) continue; int m = lpMatch(lp, tti, obj, adj, ti); if (m >= 2) { handled = m == 2; break; } }
  if (!handled) { violation("terminate", "uncaught exception: " + tiName(tti) + " leaves its thread and std::terminate is called"); endPath(); }
  popFrame();
  while (true) { Frame* f = uniq(); LpInfo* lp = lpOf(f); if (lp) { int m = lpMatch(lp, tti, obj, adj, ti); if (m == 1 || m == 2) { Thread& t2 = P.th[P.cur]; t2.excPtr = obj; t2.excSel = m == 2 ? selFor(ti) : 0; if (m == 2) storeVal(obj - 128 + 32, {adj, nullptr}, 64); takeEdge(f, f->f->calls[f->f->code[f->pc].x].unwind); return; } } popFrame(); }
}
static u64 dynCast(u64 sub, u64 dst) {
  if (!okAccess(sub, 8)) memViolation("dynamic_cast", sub, 8);
  u64 vp = W(sub); if (!okAccess(vp - 16, 16)) memViolation("dynamic_cast", vp, 16);
  u64 whole = sub + (i64)W(vp - 16), ti = W(vp - 8); std::vector<std::pair<u64, u64>> b; bases(ti, whole, b); std::set<u64> r; for (auto& x : b) if (x.first == dst) r.insert(x.second);
  if (r.size() == 1) return *r.begin(); if (r.empty()) return 0; std::vector<std::pair<u64, u64>> c; for (u64 a : r) { c.clear(); bases(dst, a, c); for (auto& x : c) if (x.second == sub) return a; } return 0;
}
static u64 tlsAddr(int idx) {
  u64 key = ((u64)P.cur << 32) | (u32)idx; auto it = tlsMap.find(key); if (it != tlsMap.end()) return it->second;
  const GlobalVariable* G = tlsVars[idx]; u64 sz = DL->getTypeAllocSize(G->getValueType()); u64 a = heapAlloc(sz); P.liveObjs--; std::vector<u8> z(sz, 0); putBytes(a, z.data(), sz);
  if (G->hasInitializer() && !G->getInitializer()->isNullValue()) { std::vector<u8> tmp(sz + 16, 0); writeConst((u64)tmp.data(), G->getInitializer()); putBytes(a, tmp.data(), sz); }
  tlsMap[key] = a; logT(key, 0, T_TLS); return a;
}
// ------------------------------------------------------------------------------------------------ happens-before races (they only add scheduling points)
static void setRaw(u64 a, u64 v) { u64 o = W(a); if (o == v) return; logT(a, o, T_MEM); W(a) = v; }
static bool inUser(const Function* F) { return F->hasFnAttribute("sym-user"); }
static u32 raceSite(const Instruction* I) {
  Thread& t = P.th[P.cur]; if (inUser(I->getFunction())) { auto it = instId.find(I); return it == instId.end() ? 0 : it->second; }
  for (size_t k = t.st.size(); k-- > 0;) { Frame* f = t.st[k].p; if (inUser(f->f->F)) { auto it = instId.find(f->f->code[f->pc].I); return it == instId.end() ? 0 : it->second; } } return 0;
}
static void raceAccess(u64 a, u64 n, bool write, bool atomic, const Instruction* I) {
  if (P.th.size() < 2 || !n) return; Thread& t = P.th[P.cur]; u32 site = 0; u64 end = a + n;
  for (u64 x = a & ~7ull; x < end; x += 8) {
    unsigned lo = x < a ? a - x : 0, hi = x + 8 > end ? end - x : 8; u64 mask = (0xFFull >> (8 - (hi - lo))) << lo;
    for (int k = 0; k < (write ? 2 : 1); k++) { u64 c = RC(x, k); if (!c) continue; unsigned tid = (c >> 56) - 1; if (tid == (unsigned)P.cur || !((c >> 48) & mask & 0xFF)) continue; if (((c >> 32) & 0xFFFF) <= t.vc.c[tid]) continue;
      u32 os = (u32)c & 0x7fffffff; bool oat = (u32)c >> 31; if (atomic && oat) continue; if (!site) site = raceSite(I); if (!atomic) racyBits[site] = 1; if (!oat) racyBits[os] = 1; }
    if (!site) site = raceSite(I);
    setRaw((u64)&RC(x, write ? 0 : 1), ((u64)(P.cur + 1) << 56) | (mask << 48) | ((u64)t.vc.c[P.cur] << 32) | (u64)(site | (atomic ? 0x80000000u : 0)));
  }
}
static void hbAcquire(u64 o) { if (!opt.race) return; auto it = P.sync.find(o); if (it == P.sync.end()) return; VC& v = P.th[P.cur].vc; for (int i = 0; i < MAXT; i++) if (it->second->c[i] > v.c[i]) v.c[i] = it->second->c[i]; }
static void hbRelease(u64 o) { if (!opt.race) return; VC& v = P.th[P.cur].vc; auto& s = P.sync[o]; auto n = std::make_shared<VC>(s ? *s : VC()); for (int i = 0; i < MAXT; i++) if (v.c[i] > n->c[i]) n->c[i] = v.c[i]; s = n; if (v.c[P.cur] < 65000) v.c[P.cur]++; }
static void hbAtomic(u64 a, const Instruction* I) {
  AtomicOrdering o = AtomicOrdering::SequentiallyConsistent; bool rd = true, wr = true;
  if (auto* L = dyn_cast<LoadInst>(I)) { o = L->getOrdering(); wr = false; } else if (auto* S2 = dyn_cast<StoreInst>(I)) { o = S2->getOrdering(); rd = false; } else if (auto* R = dyn_cast<AtomicRMWInst>(I)) o = R->getOrdering(); else if (auto* X = dyn_cast<AtomicCmpXchgInst>(I)) o = X->getSuccessOrdering();
  if (rd && isAcquireOrStronger(o)) hbAcquire(a); if (wr && isReleaseOrStronger(o)) hbRelease(a);
}
static void raceMem(u64 a, u64 n, bool write, const Instruction* I) { bool at = I->isAtomic(); raceAccess(a, n, write, at, I); if (at) hbAtomic(a, I); }
// ------------------------------------------------------------------------------------------------ interpreter
static std::vector<LFunc*> startFns; static std::map<std::string, u64> options; static std::string progName;
static std::unordered_set<std::string> racySet;
static void addReach(const std::string& s) {
  int n = SH->nReach.load(); for (int i = 0; i < n && i < 256; i++) if (s == SH->reach[i]) return;
  while (SH->reachLock.exchange(1)) usleep(1); n = SH->nReach.load(); bool dup = false; for (int i = 0; i < n; i++) if (s == SH->reach[i]) dup = true;
  if (!dup && n < 256) { snprintf(SH->reach[n], 64, "%s", s.c_str()); SH->nReach = n + 1; } SH->reachLock = 0;
}
static double mathf1(const std::string& n, double x) {
  if (n == "sqrt" || n == "sqrtf") return sqrt(x); if (n == "log" || n == "logl") return log(x); if (n == "log2") return log2(x); if (n == "floor" || n == "floorl") return floor(x); if (n == "ceil" || n == "ceill") return ceil(x);
  if (n == "fabs" || n == "fabsf") return fabs(x); if (n == "exp") return exp(x); if (n == "sin") return sin(x); if (n == "cos") return cos(x); if (n == "round") return round(x); return x;
}
enum { R_NEXT, R_RELOAD };
static const i64 TBASE = 1000000000000000ll;   // the constant value of every clock (ns)
static i64 clockNow(Thread& t) { if (opt.clockAdvance) return TBASE + P.clock - 1000000000; if (t.hasOneshot) { t.hasOneshot = false; return t.oneshot; } return TBASE; }
static i64 relDeadline(i64 absNs) { if (opt.clockAdvance) return absNs - TBASE + 1000000000; return P.clock + (absNs - TBASE); }
static bool visGate() {   // true: caller must return R_RELOAD (a scheduling point comes first)
  Thread& t = P.th[P.cur]; if (t.schedDone) { t.schedDone = false; return false; }
  if (aliveCount() <= 1) return false; t.schedDone = true; P.nondef = W_VIS; return true;
}
static void block(u8 st, u64 wa) { Thread& t = P.th[P.cur]; t.status = st; t.wa = wa; t.schedDone = true; P.nondef = W_BLOCK; t.seq = ++P.seq; }
static void chk(u64 a, u64 n, const char* what) { if (!okAccess(a, n)) memViolation(what, a, n); }
static int doIntrinsic(Frame* fr, const LI& I, CallInfo& ci);

// executes builtin b; result in *ret.  returns R_NEXT (advance) or R_RELOAD (re-dispatch, the builtin set its own continuation)
static int doBuiltin(int b, CallInfo& ci, LFunc* target, std::vector<Val>& A, Val* ret) {
  Thread* tp = &P.th[P.cur];
  auto C = [&](size_t i) -> u64 { if (i >= A.size()) return 0; if (A[i].e) A[i] = {conc(A[i], ci.argw[i]), nullptr}; return A[i].c; };
  *ret = {0, nullptr};
  switch (b) {
    case B_IGNORE0: case B_PRINTF: return R_NEXT;
    case B_RETARG0: *ret = A.empty() ? Val{0, nullptr} : A[0]; return R_NEXT;
    case B_MALLOC: case B_NEW: { u64 n = C(0); if (n > HEAP_SZ / 2) { unsupported("allocation of " + std::to_string(n) + " bytes"); } u64 a = heapAlloc(n); if (!a) unsupported("heap exhausted"); *ret = {a, nullptr}; return R_NEXT; }
    case B_CALLOC: { u64 n = C(0) * C(1); u64 a = heapAlloc(n); if (!a) unsupported("heap exhausted"); std::vector<u8> z(n, 0); putBytes(a, z.data(), n); *ret = {a, nullptr}; return R_NEXT; }
    case B_REALLOC: { u64 o = C(0), n = C(1); u64 a = heapAlloc(n); if (o) { auto it = heap.find(o); if (it == heap.end() || it->second.st == 2) { violation("memory", "invalid realloc"); endPath(); } copyMem(a, o, std::min(n, it->second.size)); heapFree(o, "realloc"); } *ret = {a, nullptr}; return R_NEXT; }
    case B_FREE: { u64 a = C(0); if (opt.race && a) { auto it = heap.find(a); if (it != heap.end()) { Frame* f = tp->st.back().p; raceAccess(a, it->second.size, true, false, f->f->code[f->pc].I); } } heapFree(a, "free"); return R_NEXT; }
    case B_SYM_MAKE: case B_SYM_RANGE: {
      std::string n = cstr(C(0)); unsigned w = b == B_SYM_MAKE ? C(1) : 64; u64 lo = 0, hi = 0; if (b == B_SYM_RANGE) { lo = C(1); hi = C(2); }
      std::string full = n + "#" + std::to_string(inputs.size());
      Z3_ast v = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, full.c_str()), bvs(w))); inputs.push_back({full, w, v, 0}); P.ninp = inputs.size();
      if (b == B_SYM_RANGE) { if (lo == hi) { addPc(keep(Z3_mk_eq(Z, v, bvc(lo, 64)))); *ret = {lo, nullptr}; return R_NEXT; } addPc(keep(Z3_simplify(Z, keep(Z3_mk_bvsge(Z, v, bvc(lo, 64)))))); addPc(keep(Z3_simplify(Z, keep(Z3_mk_bvsle(Z, v, bvc(hi, 64)))))); }
      *ret = w == 64 ? Val{0, v} : mk(keep(Z3_mk_zero_ext(Z, 64 - w, v))); return R_NEXT; }
    case B_CONCRETE: *ret = {C(0), nullptr}; return R_NEXT;
    case B_ISSYM: *ret = {A[0].e ? 1u : 0u, nullptr}; return R_NEXT;
    case B_ASSUME: {
      if (!A[0].e) { if (!(A[0].c & maskw(ci.argw[0]))) { SH->assumeCut++; endPath(); } return R_NEXT; }
      Z3_ast c = znot(keep(Z3_mk_eq(Z, A[0].e, bvc(0, ci.argw[0])))); c = keep(Z3_simplify(Z, c)); int r = query(c); if (r < 0) { SH->unknowncut++; endPath(); } if (!r) { SH->assumeCut++; endPath(); } if (!pcSet.count(c)) addPc(c); return R_NEXT; }
    case B_ASSERT: {
      SH->asserts++; std::string msg = cstr(C(1));
      if (!A[0].e) { if (!(A[0].c & maskw(ci.argw[0]))) { violation("assert", msg); endPath(); } return R_NEXT; }
      SH->assertsSym++; Z3_ast bad = keep(Z3_simplify(Z, keep(Z3_mk_eq(Z, A[0].e, bvc(0, ci.argw[0]))))); Z3_ast good = keep(Z3_simplify(Z, znot(bad)));
      if (good == ztrue || pcSet.count(good)) return R_NEXT; int r = query(bad); if (r < 0) { SH->unknowncut++; endPath(); }
      if (r == 0) { addPc(good); return R_NEXT; } violation("assert", msg, bad); if (query(good) <= 0) endPath(); addPc(good); return R_NEXT; }
    case B_FAIL: violation("assert", cstr(C(0))); endPath();
    case B_REACH: addReach(cstr(C(0))); return R_NEXT;
    case B_BOUND: addReach("bound:" + cstr(C(0)) + "=" + std::to_string(C(1))); return R_NEXT;
    case B_OPTION: { auto it = options.find(cstr(C(0))); *ret = {it == options.end() ? C(1) : it->second, nullptr}; return R_NEXT; }
    case B_SCHED: P.schedOn = C(0) != 0; return R_NEXT;
    case B_DELAYS: P.delays = (int)C(0); return R_NEXT;
    case B_LIVE: *ret = {P.liveObjs, nullptr}; return R_NEXT;
    case B_ISFREED: { auto it = heap.find(C(0)); *ret = {it != heap.end() && it->second.st == 2 ? 1u : 0u, nullptr}; return R_NEXT; }
    case B_PRINT: if (opt.verbose) fprintf(stderr, "[T%d] %s %llu\n", P.cur, cstr(C(0)).c_str(), (unsigned long long)C(1)); return R_NEXT;
    case B_TID: *ret = {(u64)P.cur, nullptr}; return R_NEXT;
    case B_SELF: *ret = {(u64)P.cur + 1, nullptr}; return R_NEXT;
    case B_VISIBLE: if (visGate()) return R_RELOAD; return R_NEXT;
    case B_TCREATE: {
      if (visGate()) return R_RELOAD;
      u64 fn = C(0), arg = C(1); auto it = byAddr.find(fn); if (it == byAddr.end()) { violation("memory", "thread started on a wild function"); endPath(); }
      int id = P.th.size(); if (id >= MAXT) unsupported("too many threads"); P.th.emplace_back(); Thread& n = P.th.back(); n.sp = STACK0 + (u64)id * STACK_SZ + 64; int save = P.cur; P.cur = id; pushFrame(it->second, {Val{arg, nullptr}}); P.cur = save; if (opt.race) { P.th[id].vc = P.th[P.cur].vc; P.th[id].vc.c[id] = 1; P.th[P.cur].vc.c[P.cur]++; } *ret = {(u64)id, nullptr}; return R_NEXT; }
    case B_TJOIN: { if (visGate()) return R_RELOAD; u64 id = C(0); if (id >= P.th.size()) { violation("memory", "join of a non-thread"); endPath(); } if (P.th[id].status != DONE) { block(B_JOIN, id); return R_RELOAD; } if (opt.race) for (int i = 0; i < MAXT; i++) P.th[P.cur].vc.c[i] = std::max(P.th[P.cur].vc.c[i], P.th[id].vc.c[i]); return R_NEXT; }
    case B_LOCK: {
      u64 m = C(0); chk(m, 40, "mutex lock"); if (visGate()) return R_RELOAD; tp = &P.th[P.cur];
      u32 w = rd32(m); if (!w) { hbAcquire(m); wr32(m, P.cur + 1); return R_NEXT; }
      if (w == (u32)P.cur + 1 && (rd32(m + 16) & 3) == 1) { wr32(m + 4, rd32(m + 4) + 1); return R_NEXT; }
      block(B_MUTEX, m); return R_RELOAD; }
    case B_TRYLOCK: { u64 m = C(0); chk(m, 40, "mutex trylock"); if (visGate()) return R_RELOAD; u32 w = rd32(m); if (!w) { hbAcquire(m); wr32(m, P.cur + 1); return R_NEXT; } if (w == (u32)P.cur + 1 && (rd32(m + 16) & 3) == 1) { wr32(m + 4, rd32(m + 4) + 1); return R_NEXT; } *ret = {16, nullptr}; return R_NEXT; }
    case B_UNLOCK: { u64 m = C(0); chk(m, 40, "mutex unlock"); if (rd32(m) != (u32)P.cur + 1) { violation("memory", "unlock of a mutex that the thread does not hold"); endPath(); } if ((rd32(m + 16) & 3) == 1 && rd32(m + 4)) { wr32(m + 4, rd32(m + 4) - 1); return R_NEXT; } hbRelease(m); wr32(m, 0); return R_NEXT; }
    case B_RDLOCK: case B_WRLOCK: case B_TRYRD: case B_TRYWR: {
      u64 m = C(0); chk(m, 56, "rwlock"); if (visGate()) return R_RELOAD; u32 w = rd32(m), r = rd32(m + 4); bool wr = b == B_WRLOCK || b == B_TRYWR; bool ok = !w && (!wr || !r);
      if (w == (u32)P.cur + 1 && (b == B_RDLOCK || b == B_WRLOCK)) { *ret = {35, nullptr}; return R_NEXT; }
      if (ok) { hbAcquire(m); if (wr) wr32(m, P.cur + 1); else wr32(m + 4, r + 1); return R_NEXT; }
      if (b == B_TRYRD || b == B_TRYWR) { *ret = {16, nullptr}; return R_NEXT; } block(wr ? B_WR : B_RD, m); return R_RELOAD; }
    case B_RWUNLOCK: { u64 m = C(0); chk(m, 56, "rwlock unlock"); hbRelease(m); if (rd32(m)) { if (rd32(m) != (u32)P.cur + 1) { violation("memory", "unlock of a rwlock that the thread does not hold"); endPath(); } wr32(m, 0); } else if (rd32(m + 4)) wr32(m + 4, rd32(m + 4) - 1); else { violation("memory", "unlock of a rwlock that is not held"); endPath(); } return R_NEXT; }
    case B_CVWAIT: case B_CVTIMED: {
      u64 cv = C(0), m = C(1); chk(cv, 48, "condition wait");
      if (tp->phase == 0) {
        chk(m, 40, "condition wait mutex"); if (rd32(m) != (u32)P.cur + 1) { violation("memory", "condition wait without holding the mutex"); endPath(); }
        if (visGate()) return R_RELOAD; tp = &P.th[P.cur];   // the window between testing the condition and waiting
        if (b == B_CVTIMED) { u64 ts = C(ci.argw.size() - 1); chk(ts, 16, "timespec"); tp->timed = true; i64 d = (i64)W(ts) * 1000000000ll + (i64)W(ts + 8); tp->deadline = relDeadline(d); tp->oneshot = d; } else tp->timed = false;
        hbRelease(m); wr32(m, 0); tp->fired = false; tp->phase = 1; tp->wb = m; block(B_CV, cv); return R_RELOAD;
      }
      tp->schedDone = false; u32 w = rd32(m); if (w) { block(B_MUTEX, m); return R_RELOAD; } hbAcquire(m); wr32(m, P.cur + 1); tp->phase = 0; if (tp->fired) { tp->hasOneshot = true; *ret = {110, nullptr}; } tp->timed = tp->fired = false; tp->wb = 0; return R_NEXT; }
    case B_CVSIGNAL: case B_CVBCAST: {
      u64 cv = C(0); chk(cv, 48, "condition notify"); if (visGate()) return R_RELOAD;
      std::vector<int> ws; for (size_t i = 0; i < P.th.size(); i++) if (P.th[i].status == B_CV && P.th[i].wa == cv) ws.push_back(i);
      if (ws.empty()) return R_NEXT; std::sort(ws.begin(), ws.end(), [](int x, int y) { return P.th[x].seq < P.th[y].seq; });
      if (b == B_CVSIGNAL) { int pick = ws[0]; if (forced >= 0) { pick = forced; forced = -1; if (pick != ws[0]) P.delays--; schedTrace.push_back(0x40 | pick); } else if (ws.size() > 1) { if (P.schedOn && P.delays > 0) { std::vector<Alt> al; for (int w : ws) al.push_back({nullptr, w, w == pick ? 0 : 1}); P.th[P.cur].schedDone = true; pick = pushChoice(std::move(al)); P.th[P.cur].schedDone = false; } schedTrace.push_back(0x40 | pick); } P.nsched = schedTrace.size(); ws = {pick}; P.th[P.cur].schedDone = false; }
      for (int i : ws) { Thread& t = P.th[i]; t.status = B_MUTEX; t.wa = t.wb; t.timed = false; } return R_NEXT; }
    case B_FUTEXWAIT: {
      u64 a = C(0); u64 v = C(1); bool timed = C(2) != 0; i64 d = (i64)C(3);
      if (tp->phase == 0) { chk(a, 4, "futex wait"); if (visGate()) return R_RELOAD; tp = &P.th[P.cur]; if ((u32)conc(loadVal(a, 32), 32) != (u32)v) { *ret = {1, nullptr}; return R_NEXT; } tp->timed = timed; tp->fired = false; if (timed) { tp->deadline = relDeadline(d); tp->oneshot = d; } tp->phase = 1; block(B_FUTEX, a); return R_RELOAD; }
      tp->phase = 0; tp->schedDone = false; *ret = {tp->fired ? 0u : 1u, nullptr}; if (tp->fired) tp->hasOneshot = true; tp->fired = tp->timed = false; return R_NEXT; }
    case B_FUTEXWAKE: { u64 a = C(0); if (visGate()) return R_RELOAD; for (auto& t : P.th) if (t.status == B_FUTEX && t.wa == a) { t.status = RUN; t.timed = false; } return R_NEXT; }
    case B_YIELD: if (tp->phase == 0) { tp->phase = 1; P.nondef = W_YIELD; return R_RELOAD; } tp->phase = 0; return R_NEXT;
    case B_NANOSLEEP: {
      if (tp->phase == 0) { u64 ts = C(0); chk(ts, 16, "nanosleep"); i64 d = (i64)W(ts) * 1000000000ll + (i64)W(ts + 8); tp->deadline = P.clock + d; tp->timed = true; tp->fired = false; tp->phase = 1; block(B_SLEEP, 0); return R_RELOAD; }
      tp->phase = 0; tp->schedDone = false; tp->timed = tp->fired = false; return R_NEXT; }
    case B_NOW: *ret = {(u64)clockNow(*tp), nullptr}; return R_NEXT;
    case B_UNWIND: { u64 o = C(0); unwindFrom(o, true); return R_RELOAD; }
    case B_DYNCAST: { u64 s = C(0); *ret = {s ? dynCast(s, C(2)) : 0, nullptr}; return R_NEXT; }
    case B_TERMINATE: violation("terminate", "std::terminate called"); endPath();
    case B_ABORT: violation("terminate", target->name + " called"); endPath();
    case B_MEMCMP: { u64 a = C(0), c = C(1), n = C(2); chk(a, n, "memcmp"); chk(c, n, "memcmp"); for (u64 i = 0; i < n; i++) { Val x = byteAt(a + i), y = byteAt(c + i); if (!x.e && !y.e) { if (x.c != y.c) { *ret = {(u64)(i64)(x.c < y.c ? -1 : 1) & 0xffffffff, nullptr}; return R_NEXT; } continue; } if (decide(keep(Z3_mk_eq(Z, ex(x, 8), ex(y, 8))))) continue; *ret = {decide(keep(Z3_mk_bvult(Z, ex(x, 8), ex(y, 8)))) ? 0xffffffffull : 1, nullptr}; return R_NEXT; } return R_NEXT; }
    case B_MEMCHR: { u64 a = C(0), c = C(1) & 255, n = C(2); for (u64 i = 0; i < n; i++) { chk(a + i, 1, "memchr"); Val x = byteAt(a + i); bool eq = x.e ? decide(keep(Z3_mk_eq(Z, x.e, bvc(c, 8)))) : x.c == c; if (eq) { *ret = {a + i, nullptr}; return R_NEXT; } } return R_NEXT; }
    case B_STRLEN: { u64 a = C(0), n = 0; for (;; n++) { chk(a + n, 1, "strlen"); Val x = byteAt(a + n); bool z = x.e ? decide(keep(Z3_mk_eq(Z, x.e, bvc(0, 8)))) : x.c == 0; if (z) break; } *ret = {n, nullptr}; return R_NEXT; }
    case B_STRCMP: { u64 a = C(0), c = C(1); for (u64 i = 0;; i++) { chk(a + i, 1, "strcmp"); chk(c + i, 1, "strcmp"); u64 x = conc(byteAt(a + i), 8), y = conc(byteAt(c + i), 8); if (x != y) { *ret = {x < y ? 0xffffffffull : 1, nullptr}; return R_NEXT; } if (!x) return R_NEXT; } }
    case B_MEMCPY: { u64 d = C(0), s = C(1), n = C(2); if (n) { chk(d, n, "memcpy"); chk(s, n, "memcpy"); copyMem(d, s, n); } *ret = {d, nullptr}; return R_NEXT; }
    case B_MEMSET: { u64 d = C(0), v = C(1), n = C(2); if (n) { chk(d, n, "memset"); std::vector<u8> z(n, (u8)v); putBytes(d, z.data(), n); } *ret = {d, nullptr}; return R_NEXT; }
    case B_MATH1: { unsigned w = ci.argw[0]; if (A[0].e) { if (target->name == "sqrt" || target->name == "sqrtf") { *ret = fromfp(keep(Z3_mk_fpa_sqrt(Z, rne(), tofp(A[0].e, w)))); return R_NEXT; } if (target->name == "fabs" || target->name == "fabsf") { *ret = fromfp(keep(Z3_mk_fpa_abs(Z, tofp(A[0].e, w)))); return R_NEXT; } unsupported("symbolic " + target->name); } *ret = putd(mathf1(target->name, getd(A[0], w)), w); return R_NEXT; }
    case B_MATH2: { unsigned w = ci.argw[0]; if (A[0].e || A[1].e) unsupported("symbolic " + target->name); double x = getd(A[0], w), y = getd(A[1], w); *ret = putd(target->name == "pow" ? pow(x, y) : target->name == "fmod" ? fmod(x, y) : nextafter(x, y), w); return R_NEXT; }
    case B_ALLOCSIZE: { auto it = heap.find(C(0)); *ret = {it == heap.end() ? 0 : it->second.size, nullptr}; return R_NEXT; }
  }
  unsupported("builtin " + target->name); return R_NEXT;
}
static void doIntr(Frame* fr, const LI& I, CallInfo& ci, Val* R, const Val* K) {
  auto g = [&](size_t i) -> Val { int o = ci.args[i]; return o >= 0 ? R[o] : K[~o]; };
  auto C = [&](size_t i) -> u64 { Val v = g(i); return v.e ? conc(v, ci.argw[i]) : v.c; };
  unsigned w = ci.argw.empty() ? 0 : ci.argw[0]; Val r{0, nullptr};
  switch ((Intrinsic::ID)ci.builtin) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 d = C(0), s = C(1), n = C(2); if (n) { if (!okAccess(d, n)) memViolation("memcpy destination", d, n); if (!okAccess(s, n)) memViolation("memcpy source", s, n); if (opt.race) { raceAccess(s, n, false, false, I.I); raceAccess(d, n, true, false, I.I); } copyMem(d, s, n); } break; }
    case Intrinsic::memset: { u64 d = C(0), n = C(2); Val v = g(1); if (n) { if (!okAccess(d, n)) memViolation("memset", d, n); if (opt.race) raceAccess(d, n, true, false, I.I); if (v.e) { for (u64 i = 0; i < n; i++) storeVal(d + i, v, 8); } else { std::vector<u8> z(n, (u8)v.c); putBytes(d, z.data(), n); } } break; }
    case Intrinsic::lifetime_end: { i64 n = (i64)C(0); u64 p = C(1); if (n > 0 && okAccess(p, n)) clearRange(p, n); break; }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
      Val a = g(0), b = g(1); unsigned p = ci.builtin == Intrinsic::umin ? CmpInst::ICMP_ULT : ci.builtin == Intrinsic::umax ? CmpInst::ICMP_UGT : ci.builtin == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
      Val c = icmp(p, a, b, w); if (!c.e) r = c.c ? a : b; else r = mk(keep(Z3_mk_ite(Z, v2b(c.e), ex(a, w), ex(b, w)))); break; }
    case Intrinsic::abs: { Val a = g(0); Val c = icmp(CmpInst::ICMP_SLT, a, {0, nullptr}, w); Val n = binop(Instruction::Sub, {0, nullptr}, a, w, false); if (!c.e) r = c.c ? n : a; else r = mk(keep(Z3_mk_ite(Z, v2b(c.e), ex(n, w), ex(a, w)))); break; }
    case Intrinsic::ctlz: { u64 v = C(0) & maskw(w); r.c = v ? __builtin_clzll(v) - (64 - w) : w; break; }
    case Intrinsic::cttz: { u64 v = C(0) & maskw(w); r.c = v ? __builtin_ctzll(v) : w; break; }
    case Intrinsic::ctpop: r.c = __builtin_popcountll(C(0) & maskw(w)); break;
    case Intrinsic::bswap: { u64 v = C(0); r.c = __builtin_bswap64(v) >> (64 - w); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: { u64 n = C(2) % w; bool l = ci.builtin == Intrinsic::fshl; if (!n) { r = l ? g(0) : g(1); break; } u64 sl = l ? n : w - n; Val x = binop(Instruction::Shl, g(0), {sl, nullptr}, w, false), y = binop(Instruction::LShr, g(1), {w - sl, nullptr}, w, false); r = binop(Instruction::Or, x, y, w, false); break; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      Val a = g(0), b = g(1); int id = ci.builtin; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
      r = binop(op, a, b, w, false); Val ov{0, nullptr};
      if (!a.e && !b.e) { if (sg) { __int128 x = sext(a.c & maskw(w), w), y = sext(b.c & maskw(w), w), z = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y; ov.c = z != (__int128)sext(r.c, w); } else { unsigned __int128 x = a.c & maskw(w), y = b.c & maskw(w), z = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y; ov.c = z != (unsigned __int128)r.c; } }
      else { unsigned ww = 2 * w; Z3_ast x = keep(sg ? Z3_mk_sign_ext(Z, w, ex(a, w)) : Z3_mk_zero_ext(Z, w, ex(a, w))), y = keep(sg ? Z3_mk_sign_ext(Z, w, ex(b, w)) : Z3_mk_zero_ext(Z, w, ex(b, w))); Z3_ast z = keep(op == Instruction::Add ? Z3_mk_bvadd(Z, x, y) : op == Instruction::Sub ? Z3_mk_bvsub(Z, x, y) : Z3_mk_bvmul(Z, x, y)); Z3_ast rr = ex(r, w); Z3_ast e = keep(sg ? Z3_mk_sign_ext(Z, w, rr) : Z3_mk_zero_ext(Z, w, rr)); (void)ww; ov = mk(b2v(znot(keep(Z3_mk_eq(Z, z, e))))); }
      R[I.d] = r; R[I.d + 1] = ov; fr->pc++; return; }
    case Intrinsic::usub_sat: { Val a = g(0), b = g(1); Val c = icmp(CmpInst::ICMP_ULT, a, b, w), d = binop(Instruction::Sub, a, b, w, false); if (!c.e) { r = c.c ? Val{0, nullptr} : d; } else r = mk(keep(Z3_mk_ite(Z, v2b(c.e), bvc(0, w), ex(d, w)))); break; }
    case Intrinsic::uadd_sat: { Val a = g(0), b = g(1); Val d = binop(Instruction::Add, a, b, w, false); Val c = icmp(CmpInst::ICMP_ULT, d, a, w); if (!c.e) { r = c.c ? Val{maskw(w), nullptr} : d; } else r = mk(keep(Z3_mk_ite(Z, v2b(c.e), bvc(maskw(w), w), ex(d, w)))); break; }
    case Intrinsic::threadlocal_address: r.c = tlsAddr(ci.nret); break;
    case Intrinsic::stacksave: break;
    case Intrinsic::objectsize: r.c = ~0ull; break;
    case Intrinsic::is_constant: break;
    case Intrinsic::sqrt: { Val a = g(0); r = a.e ? fromfp(keep(Z3_mk_fpa_sqrt(Z, rne(), tofp(a.e, w)))) : w == 32 ? putd(sqrtf((float)getd(a, 32)), 32) : putd(sqrt(getd(a, w)), w); break; }
    case Intrinsic::fabs: { Val a = g(0); r = a.e ? fromfp(keep(Z3_mk_fpa_abs(Z, tofp(a.e, w)))) : putd(fabs(getd(a, w)), w); break; }
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: { Val a = g(0); if (a.e) unsupported("symbolic rounding"); double x = getd(a, w); r = putd(ci.builtin == Intrinsic::floor ? floor(x) : ci.builtin == Intrinsic::ceil ? ceil(x) : ci.builtin == Intrinsic::round ? round(x) : ci.builtin == Intrinsic::trunc ? trunc(x) : rint(x), w); break; }
    case Intrinsic::fma: case Intrinsic::fmuladd: { Val a = g(0), b = g(1), c = g(2); r = binop(Instruction::FAdd, binop(Instruction::FMul, a, b, w, true), c, w, true); break; }
    case Intrinsic::log: case Intrinsic::log2: case Intrinsic::exp: case Intrinsic::pow: { if (g(0).e) unsupported("symbolic libm"); double x = getd(g(0), w); r = putd(ci.builtin == Intrinsic::log ? log(x) : ci.builtin == Intrinsic::log2 ? log2(x) : ci.builtin == Intrinsic::exp ? exp(x) : pow(x, getd(g(1), w)), w); break; }
    case Intrinsic::copysign: { Val a = g(0), b = g(1); r = putd(copysign(getd(a, w), getd(b, w)), w); if (a.e || b.e) unsupported("copysign"); break; }
    case Intrinsic::is_fpclass: { if (g(0).e) unsupported("is_fpclass"); double x = getd(g(0), w); unsigned m = C(1); r.c = ((m & 3) && std::isnan(x)) || ((m & 0x204) && std::isinf(x)); break; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation("terminate", "trap"); endPath();
    case Intrinsic::eh_typeid_for: r.c = selFor(C(0)); break;
    case Intrinsic::vector_reduce_add: { r = g(0); for (size_t i = 1; i < ci.args.size(); i++) r = binop(Instruction::Add, r, g(i), w, false); break; }
    default: unsupported("intrinsic " + ci.name);
  }
  if (I.d >= 0 && ci.retw) R[I.d] = r; fr->pc++;
}
static void interpret() {
  for (;;) {
    if (P.nondef) { int w = P.nondef; doSchedule(w); P.nondef = 0; }
    if (P.th[P.cur].st.empty()) {
      if (P.cur == 0) { if (P.startIdx < (int)startFns.size()) { LFunc* f = startFns[P.startIdx++]; pushFrame(f, {}); continue; } sample(); endPath(); }
      P.th[P.cur].status = DONE; P.nondef = W_BLOCK; continue;
    }
    Frame* fr = uniq(); LFunc* F = fr->f; Val* R = fr->regs; const Val* K = fconsts[F->id].data(); const LI* code = F->code.data();
#define G(o) ((o) >= 0 ? R[o] : K[~(o)])
    bool reload = false;
    while (!reload) {
      const LI& I = code[fr->pc]; nsteps++; P.steps++;
      switch (I.op) {
        case O_NOP: fr->pc++; break;
        case O_COPY: R[I.d] = G(I.a); fr->pc++; break;
        case O_BIN: R[I.d] = binop(I.x ? I.x : I.k, G(I.a), G(I.b), I.w, I.c); fr->pc++; break;
        case O_ICMP: R[I.d] = icmp(I.k ? I.k : I.x, G(I.a), G(I.b), I.w); fr->pc++; break;
        case O_FCMP: R[I.d] = fcmp(I.k ? I.k : I.x, G(I.a), G(I.b), I.w); fr->pc++; break;
        case O_CAST: R[I.d] = cast_(I.x ? I.x : I.k, G(I.a), I.w, I.w2); fr->pc++; break;
        case O_FNEG: { Val a = G(I.a); if (a.e) R[I.d] = fromfp(keep(Z3_mk_fpa_neg(Z, tofp(a.e, I.w)))); else R[I.d] = putd(-getd(a, I.w), I.w); fr->pc++; break; }
        case O_GEP: {
          GepInfo& g = F->geps[I.x]; Val b = G(I.a); u64 c = b.c + g.off; Z3_ast e = b.e ? (g.off ? keep(Z3_mk_bvadd(Z, b.e, bvc(g.off, 64))) : b.e) : nullptr;
          for (auto& t : g.t) { Val v = G(t.op); if (!v.e && !e) { c += (u64)(sext(v.c, t.w) * t.scale); continue; } if (!e) e = bvc(c, 64); Z3_ast x = v.e ? (t.w < 64 ? keep(Z3_mk_sign_ext(Z, 64 - t.w, v.e)) : v.e) : bvc((u64)sext(v.c, t.w), 64); e = keep(Z3_mk_bvadd(Z, e, t.scale == 1 ? x : keep(Z3_mk_bvmul(Z, x, bvc((u64)t.scale, 64))))); }
          R[I.d] = e ? mk(e) : Val{c, nullptr}; fr->pc++; break; }
        case O_LOAD: {
          Val p = G(I.a); u64 a = p.e ? conc(p, 64) : p.c; unsigned n = I.w == 80 ? 10 : (I.w + 7) / 8;
          if (!okAccess(a, n)) memViolation("read", a, n);
          if (opt.race) raceMem(a, n, false, I.I);
          R[I.d] = loadVal(a, I.w); fr->pc++; break; }
        case O_LOADM: { Val p = G(I.a); u64 a = p.e ? conc(p, 64) : p.c; auto& lv = F->leafs[I.x]; for (size_t k = 0; k < lv.size(); k++) { if (!okAccess(a + lv[k].off, (lv[k].w + 7) / 8)) memViolation("read", a, 8); } if (opt.race) for (auto& l : lv) raceMem(a + l.off, (l.w + 7) / 8, false, I.I); for (size_t k = 0; k < lv.size(); k++) R[I.d + k] = loadVal(a + lv[k].off, lv[k].w); fr->pc++; break; }
        case O_STORE: {
          Val p = G(I.a); u64 a = p.e ? conc(p, 64) : p.c; unsigned n = I.w == 80 ? 10 : (I.w + 7) / 8;
          if (!okAccess(a, n)) memViolation("write", a, n);
          if (opt.race) raceMem(a, n, true, I.I);
          storeVal(a, G(I.b), I.w); fr->pc++; break; }
        case O_STOREM: { Val p = G(I.a); u64 a = (p.e ? conc(p, 64) : p.c) + I.x; unsigned n = (I.w + 7) / 8; if (!okAccess(a, n)) memViolation("write", a, n); if (opt.race) raceMem(a, n, true, I.I); storeVal(a, G(I.b), I.w); fr->pc++; break; }
        case O_SELECT: { Val c = G(I.a); if (!c.e) R[I.d] = c.c & 1 ? G(I.b) : G(I.c); else { Val x = G(I.b), y = G(I.c); if (I.w > 64) R[I.d] = {0, keep(Z3_simplify(Z, keep(Z3_mk_ite(Z, v2b(c.e), ex(x, I.w), ex(y, I.w)))))}; else if (I.w == 1) { Z3_ast p = v2b(ex(x, 1)), q = v2b(ex(y, 1)); Z3_ast rr = keep(Z3_simplify(Z, keep(Z3_mk_ite(Z, v2b(c.e), p, q)))); R[I.d] = mk(b2v(rr)); } else R[I.d] = mk(keep(Z3_mk_ite(Z, v2b(c.e), ex(x, I.w), ex(y, I.w)))); } fr->pc++; break; }
        case O_BR: takeEdge(fr, I.x); if ((nsteps & 0xFFFFF) == 0) dieIfStopped(); if (P.steps > opt.maxSteps) { SH->steplimit++; violation("hang", "nontermination: step bound exceeded"); endPath(); } break;
        case O_CONDBR: { Val c = G(I.a); bool b = c.e ? decide(v2b(c.e)) : c.c & 1; takeEdge(fr, b ? I.b : I.c); if ((nsteps & 0xFFF) == 0) { dieIfStopped(); if (P.steps > opt.maxSteps) { SH->steplimit++; violation("hang", "nontermination: step bound exceeded"); endPath(); } } break; }
        case O_SWITCH: { Val v = G(I.a); auto& s = F->sws[I.x]; int e = s.def; if (!v.e) { for (auto& c : s.cases) if ((c.first & maskw(I.w)) == (v.c & maskw(I.w))) { e = c.second; break; } } else for (auto& c : s.cases) if (decide(keep(Z3_mk_eq(Z, v.e, bvc(c.first, I.w))))) { e = c.second; break; } takeEdge(fr, e); break; }
        case O_UNREACH: violation("ub", "unreachable code executed"); endPath(); break;
        case O_UNSUP: { std::string s; raw_string_ostream os(s); I.I->print(os); unsupported("instruction " + s); break; }
        case O_ALLOCA: R[I.d] = {fr->base + F->allocas[I.x].off, nullptr}; fr->pc++; break;
        case O_DYNALLOCA: { Val n = G(I.a); u64 c = n.e ? conc(n, 64) : n.c; u64 a = heapAlloc(c * I.x); fr->dyn.push_back(a); R[I.d] = {a, nullptr}; fr->pc++; break; }
        case O_RMW: {
          Val p = G(I.a); u64 a = p.e ? conc(p, 64) : p.c; unsigned w = I.w; if (!okAccess(a, (w + 7) / 8)) memViolation("atomic", a, w / 8); if (opt.race) raceMem(a, w / 8, true, I.I);
          Val o = loadVal(a, w), v = G(I.b), r = v;
          switch (I.k) { case AtomicRMWInst::Xchg: break; case AtomicRMWInst::Add: r = binop(Instruction::Add, o, v, w, false); break; case AtomicRMWInst::Sub: r = binop(Instruction::Sub, o, v, w, false); break; case AtomicRMWInst::And: r = binop(Instruction::And, o, v, w, false); break; case AtomicRMWInst::Or: r = binop(Instruction::Or, o, v, w, false); break; case AtomicRMWInst::Xor: r = binop(Instruction::Xor, o, v, w, false); break;
            case AtomicRMWInst::Max: case AtomicRMWInst::Min: case AtomicRMWInst::UMax: case AtomicRMWInst::UMin: { unsigned pr = I.k == AtomicRMWInst::Max ? CmpInst::ICMP_SGT : I.k == AtomicRMWInst::Min ? CmpInst::ICMP_SLT : I.k == AtomicRMWInst::UMax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT; Val c = icmp(pr, o, v, w); r = !c.e ? (c.c ? o : v) : mk(keep(Z3_mk_ite(Z, v2b(c.e), ex(o, w), ex(v, w)))); break; }
            default: unsupported("atomicrmw"); }
          storeVal(a, r, w); R[I.d] = o; fr->pc++; break; }
        case O_CMPXCHG: { Val p = G(I.a); u64 a = p.e ? conc(p, 64) : p.c; unsigned w = I.w; if (!okAccess(a, (w + 7) / 8)) memViolation("atomic", a, w / 8); if (opt.race) raceMem(a, w / 8, true, I.I); Val o = loadVal(a, w); Val c = icmp(CmpInst::ICMP_EQ, o, G(I.b), w); bool eq = c.e ? decide(v2b(c.e)) : c.c; if (eq) storeVal(a, G(I.c), w); R[I.d] = o; R[I.d + 1] = {eq, nullptr}; fr->pc++; break; }
        case O_LPAD: { Thread& t = P.th[P.cur]; R[I.d] = {t.excPtr, nullptr}; R[I.d + 1] = {t.excSel, nullptr}; fr->pc++; break; }
        case O_RESUME: { Val o = G(I.a); unwindFrom(o.c, true); reload = true; break; }
        case O_INTR: doIntr(fr, I, F->calls[I.x], R, K); break;
        case O_RET: {
          CallInfo& ci = F->calls[I.x]; Val rv[64]; size_t n = ci.args.size(); for (size_t k = 0; k < n && k < 64; k++) rv[k] = G(ci.args[k]);
          popFrame(); reload = true; Thread& t = P.th[P.cur]; if (t.st.empty()) break;
          Frame* c = uniq(); const LI& X = c->f->code[c->pc]; CallInfo& cc = c->f->calls[X.x]; if (X.d >= 0) for (size_t k = 0; k < n && (int)k < cc.nret; k++) c->regs[X.d + k] = rv[k];
          if (cc.invoke) takeEdge(c, cc.normal); else c->pc++; break; }
        case O_CALL: {
          CallInfo& ci = F->calls[I.x]; LFunc* T = ci.target;
          if (!T) { Val v = G(ci.callee); u64 a = v.e ? conc(v, 64) : v.c; auto it = byAddr.find(a); if (it == byAddr.end()) { if (a < 65536) memViolation("call", a, 1); violation("memory", "call through a wild function pointer"); endPath(); } T = it->second; }
          std::vector<Val> A(ci.args.size()); for (size_t k = 0; k < A.size(); k++) A[k] = G(ci.args[k]);
          if (T->external) {
            if (T->builtin == B_NONE) unsupported("external function " + T->name);
            Val ret; int r = doBuiltin(T->builtin, ci, T, A, &ret); if (r == R_RELOAD) { reload = true; break; }
            if (I.d >= 0 && ci.nret) R[I.d] = ret; for (int k = 1; k < ci.nret; k++) R[I.d + k] = {0, nullptr};
            if (ci.invoke) takeEdge(fr, ci.normal); else fr->pc++; break;
          }
          std::vector<u64> dyn; for (size_t k = 0; k < ci.byval.size(); k++) if (ci.byval[k]) { u64 n = ci.byval[k]; u64 a = heapAlloc(n); if (!okAccess(A[k].c, n)) memViolation("byval", A[k].c, n); copyMem(a, A[k].c, n); A[k] = {a, nullptr}; dyn.push_back(a); }
          if (A.size() > (T->F->arg_size() ? (T->lowered ? T->argSlots.size() : A.size()) : 0) && T->F->isVarArg()) unsupported("variadic function " + T->name);
          pushFrame(T, A); if (!dyn.empty()) P.th[P.cur].st.back().p->dyn = dyn; reload = true; break; }
        default: unsupported("op"); 
      }
    }
  }
}
static void worker() {
  for (;;) { try { interpret(); } catch (Restart&) {} }
}
// ------------------------------------------------------------------------------------------------ instrumentation
static bool inlinedFrom(const Instruction* I, const char* s) { for (const DILocation* d = I->getDebugLoc().get(); d; d = d->getInlinedAt()) { auto* sp = d->getScope()->getSubprogram(); if (sp) { if (sp->getLinkageName().contains(s) || sp->getName().contains(s)) return true; if (auto* f = sp->getFile()) if (f->getFilename().contains("shared_ptr")) return true; } } return false; }
static int instrument(const std::string& out, bool asan) {
  std::set<std::pair<std::string, int>> racy; for (auto& s : racySet) { auto p = s.rfind(':'); racy.insert({s.substr(0, p), atoi(s.c_str() + p + 1)}); }
  FunctionCallee V = M->getOrInsertFunction("__sym_visible", Type::getVoidTy(LC)); cast<Function>(V.getCallee())->setDoesNotThrow();
  int n = 0;
  for (auto& F : *M) {
    if (F.isDeclaration()) continue; F.addFnAttr("sym-user"); bool model = F.getName().startswith("__sym_") || F.getName().startswith("__model_"); if (asan) F.addFnAttr(Attribute::SanitizeAddress); if (model) continue;
    std::vector<Instruction*> at; int idx = 0;
    for (auto& BB : F) for (auto& I : BB) { idx++; bool a = I.isAtomic() && !isa<FenceInst>(I); if (a && (F.getName().contains("_Sp_counted") || F.getName().contains("shared_count") || inlinedFrom(&I, "_Sp_counted"))) a = false;
      if (a) { Value* p = isa<LoadInst>(I) ? cast<LoadInst>(I).getPointerOperand() : isa<StoreInst>(I) ? cast<StoreInst>(I).getPointerOperand() : I.getOperand(0); if (auto* g = dyn_cast<GlobalVariable>(p->stripPointerCasts())) if (g->getName().startswith("_ZGV")) a = false; }
      if (a || racy.count({F.getName().str(), idx})) at.push_back(&I); }
    for (auto* I : at) { auto* c = CallInst::Create(V, {}, "", I); c->setDebugLoc(I->getDebugLoc()); n++; if (F.getSubprogram() && !c->getDebugLoc()) c->setDebugLoc(DILocation::get(LC, 0, 0, F.getSubprogram())); }
  }
  // calls that the native replay takes over
  static const char* ren[] = {"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_clockwait", "pthread_cond_timedwait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_unlock", "sched_yield", "nanosleep", "pthread_self", "pthread_once", "pthread_setschedparam", "pthread_setaffinity_np", nullptr};
  if (asan || options.count("rename")) for (int i = 0; ren[i]; i++) if (auto* F = M->getFunction(ren[i])) F->setName(std::string("__rp_") + ren[i]);
  std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*M, os); os.close(); fprintf(stderr, "instrumented %d points\n", n); return 0;
}
// ------------------------------------------------------------------------------------------------ main
static void* mapAt(u64 a, u64 n, bool shared) { void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_NORESERVE | (shared ? MAP_SHARED : MAP_PRIVATE) | (a ? MAP_FIXED_NOREPLACE : 0), -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; }
static std::string jlist(const std::vector<std::string>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) o += std::string(i ? "," : "") + "\"" + jesc(v[i]) + "\""; return o + "]"; }
static bool sp_has(const std::string& f) { return f.find("/src/") != std::string::npos && f.find("/verif") == std::string::npos; }
int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&]() -> std::string { return argv[++i]; };
    if (a == "--entry") opt.entry = val(); else if (a == "--procs") opt.procs = atoi(val().c_str()); else if (a == "--timeout") opt.timeout = atof(val().c_str()); else if (a == "--delays") opt.delays = atoi(val().c_str()); else if (a == "--max-steps") opt.maxSteps = atoll(val().c_str());
    else if (a == "--known") opt.known.insert(val()); else if (a == "--no-dedupe") opt.dedupe = false; else if (a == "--early-timeout") opt.earlyTimeout = true; else if (a == "--clock-advance") opt.clockAdvance = true; else if (a == "--timer-order") opt.timerOrder = true; else if (a == "--rr-down") opt.rrDown = true; else if (a == "--race") opt.race = true; else if (a == "--racy-file") { FILE* f = fopen(val().c_str(), "r"); char b[4096]; while (f && fgets(b, 4096, f)) { std::string x(b); while (!x.empty() && x.back() == '\n') x.pop_back(); if (!x.empty()) racySet.insert(x); } if (f) fclose(f); } else if (a == "-v") opt.verbose++;
    else if (a == "--opt") { std::string s = val(); auto p = s.find('='); options[s.substr(0, p)] = strtoull(s.c_str() + p + 1, nullptr, 0); }
    else if (a == "--instrument") opt.instrOut = val(); else if (a == "--racy") racySet.insert(val()); else if (a == "--out") opt.out = val(); else opt.in = a;
  }
  SMDiagnostic err; M = parseIRFile(opt.in, err, LC); if (!M) { err.print("symex", errs()); return 3; }
  if (!opt.instrOut.empty()) return instrument(opt.instrOut, options.count("asan"));
  for (int i = 0; bdefs[i].n; i++) btab[bdefs[i].n] = bdefs[i].b;
  DL = &M->getDataLayout();
  mapAt(ARENA, ARENA_SZ, false); mapAt(SHADOW, ARENA_SZ >> 3, false); mapAt(SYMB, ARENA_SZ >> 3, false);
  // the zero shadow means "accessible"; regions are closed lazily, so close everything we can reach: stacks, heaps, globals
  SH = (Shared*)mapAt(0, sizeof(Shared), true); VIS = (std::atomic<u64>*)mapAt(0, opt.visTable * 16, true);
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); Z = Z3_mk_context_rc(cfg); S = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, S);
  { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 120000); Z3_solver_set_params(Z, S, p); }
  ztrue = keep(Z3_mk_true(Z)); zfalse = keep(Z3_mk_false(Z)); bv1_1 = bvc(1, 1); bv1_0 = bvc(0, 1);
  for (auto& F : *M) lf(&F);
  // globals
  u64 ga = GLOB0; auto place = [&](u64 size, u64 al) { al = std::max<u64>(al, 16); ga = (ga + al - 1) & ~(al - 1); u64 a = ga; ga += ((size + 15) & ~15ull) + 32; return a; };
  std::vector<std::pair<u64, u64>> gl;
  for (auto& G : M->globals()) {
    if (G.isThreadLocal()) { tlsIdx[&G] = tlsVars.size(); tlsVars.push_back(&G); continue; }
    u64 sz = G.isDeclaration() ? 512 : DL->getTypeAllocSize(G.getValueType()); u64 a = place(sz, G.getAlign() ? G.getAlign()->value() : 16); gaddr[&G] = a; gname[a] = G.getName().str(); gl.push_back({a, sz});
    std::string n = G.getName().str(); if (n == "_ZTVN10__cxxabiv117__class_type_infoE") vtClass = a; if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") vtSi = a; if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vtVmi = a; if (n == "_ZTVN10__cxxabiv119__pointer_type_infoE") vtPtr = a;
    if (G.isDeclaration()) undefGlobals.push_back(n);
  }
  if (ga > STACK0) { fprintf(stderr, "globals too large\n"); return 3; }
  memset((void*)(SHADOW + ((ARENA - ARENA) >> 3)), SH_RED, (ga + 65536 - ARENA) >> 3);
  for (auto& g : gl) shadowOpen(g.first, g.second);
  for (auto& G : M->globals()) if (!G.isThreadLocal() && G.hasInitializer()) writeConst(gaddr[&G], G.getInitializer());
  for (int t = 0; t < MAXT; t++) { P.bump[t] = HEAP0 + t * HEAP_SZ + 64; fillTo[t] = HEAP0 + t * HEAP_SZ; stkFill[t] = STACK0 + t * STACK_SZ; memset((void*)(SHADOW + ((STACK0 + t * STACK_SZ - ARENA) >> 3)), SH_STK, STACK_SZ >> 3); }
  P.th.reserve(8);
  if (opt.race) { mapAt(RACE, ARENA_SZ * 2, false); instOf.push_back(nullptr); for (auto& F : *M) for (auto& BB : F) for (auto& I : BB) { instId[&I] = instOf.size(); instOf.push_back(&I); } racyBits = (u8*)mapAt(0, (instOf.size() + 4096) & ~4095ull, true); }
  // constructors
  if (auto* GC = M->getGlobalVariable("llvm.global_ctors")) if (auto* CA = dyn_cast<ConstantArray>(GC->getInitializer())) { std::vector<std::pair<u64, LFunc*>> v; for (auto& o : CA->operands()) { auto* CS = cast<ConstantStruct>(o); v.push_back({constU64(CS->getOperand(0)), lf(cast<Function>(CS->getOperand(1)))}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& x : v) startFns.push_back(x.second); }
  { Function* E = M->getFunction(opt.entry); if (!E) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; } startFns.push_back(lf(E)); }
  P.th.emplace_back(); P.th[0].sp = STACK0 + 64; P.delays = opt.delays; P.schedOn = false;
  T0 = now(); SH->tokens = opt.procs - 1; SH->live = 1;
  prctl(PR_SET_CHILD_SUBREAPER, 1); fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) { signal(SIGCHLD, SIG_IGN); worker(); bye(); }
  int abnormal = 0; for (;;) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == ECHILD) break; continue; } if (!WIFEXITED(st) || WEXITSTATUS(st)) { abnormal++; } }
  if (SH->live.load() != 0) abnormal++;
  std::vector<std::string> fn, un, rc, vio; int nsrc = 0;
  for (auto* f : funcs) if (SH->fexec[f->id]) { std::string file; if (auto* sp = f->F->getSubprogram()) file = sp->getFilename().str() ; if (sp_has(file)) { nsrc++; fn.push_back(dem(f->name)); } }
  for (int i = 0; i < std::min(SH->nUnsup.load(), 8); i++) un.push_back(SH->unsupMsg[i]);
  for (int i = 0; i < SH->nReach.load(); i++) rc.push_back(SH->reach[i]);
  bool complete = !abnormal && !SH->timeouts.load() && !SH->unsup.load() && !SH->unknowncut.load() && !SH->steplimit.load() && SH->stop.load() != 1;
  std::string o = "{\"complete\":" + std::string(complete ? "true" : "false") + ",\"abnormal\":" + std::to_string(abnormal);
  auto num = [&](const char* k, u64 v) { o += std::string(",\"") + k + "\":" + std::to_string(v); };
  num("timeouts", SH->timeouts); num("unsupported", SH->unsup); num("unknown", SH->unknowncut); num("steplimit", SH->steplimit); num("paths", SH->paths); num("pruned", SH->pruned); num("assume_cut", SH->assumeCut); num("choices", SH->choice); num("queries", SH->queries); num("sat", SH->qsat); num("unsat", SH->qunsat); num("cache", SH->cachehit); num("steps", SH->steps); num("sched_points", SH->schedPoints); num("delays_used", SH->preempt); num("asserts", SH->asserts); num("asserts_symbolic", SH->assertsSym); num("states", SH->visUsed); num("forks", SH->forks); num("src_functions", nsrc);
  char b[100]; snprintf(b, 100, ",\"solver_s\":%.3f,\"wall_s\":%.2f", SH->qtimeus / 1e6, now() - T0); o += b;
  if (opt.race) { std::vector<std::string> rv, rl; std::set<const Function*> fs; for (size_t i = 1; i < instOf.size(); i++) if (racyBits[i] && inHarness(instOf[i])) racyBits[i] = 0;
    for (size_t i = 1; i < instOf.size(); i++) if (racyBits[i]) fs.insert(instOf[i]->getFunction());
    for (auto* F : fs) { int idx = 0; for (auto& BB : *F) for (auto& I : BB) { if (auto* c = dyn_cast<CallInst>(&I)) if (c->getCalledFunction() && c->getCalledFunction()->getName() == "__sym_visible") continue; idx++; if (racyBits[instId[&I]]) { rv.push_back(F->getName().str() + ":" + std::to_string(idx)); rl.push_back(locOf(&I)); } } }
    o += ",\"racy\":" + jlist(rv) + ",\"racy_at\":" + jlist(rl); }
  o += ",\"functions\":" + jlist(fn) + ",\"unsupported_msgs\":" + jlist(un) + ",\"reach\":" + jlist(rc) + ",\"violations\":[";
  bool first = true; for (int i = 0; i < std::min(SH->nvio.load(), 24); i++) if (SH->vio[i].used == 2) { o += std::string(first ? "" : ",") + SH->vio[i].text; first = false; }
  o += "],\"samples\":["; first = true; for (int i = 0; i < 4; i++) if (SH->smp[i].used == 2) { o += std::string(first ? "" : ",") + SH->smp[i].text; first = false; }
  o += "]}\n";
  if (opt.out.empty()) fputs(o.c_str(), stdout); else { FILE* f = fopen(opt.out.c_str(), "w"); fputs(o.c_str(), f); fclose(f); }
  _exit(0);
}
