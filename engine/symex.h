// symex - a symbolic executor for LLVM IR (libLLVM 18 + Z3), with a model of POSIX threads whose scheduling
// decisions are symbolic choices under a delay bound.  See DESIGN.md.
#pragma once
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

struct Val { u64 c; Z3_ast e; };

enum Op : u8 {
  O_NOP, O_BIN, O_ICMP, O_FCMP, O_CAST, O_GEP, O_LOAD, O_STORE, O_SELECT, O_BR, O_CONDBR, O_SWITCH, O_RET, O_UNREACH,
  O_CALL, O_RESUME, O_LPAD, O_COPY, O_RMW, O_CMPXCHG, O_ALLOCA, O_DYNALLOCA, O_FNEG, O_UNSUP, O_LOADM, O_STOREM, O_INTR
};
struct LI { u8 op; u8 w; u8 w2; u8 k; int32_t d, a, b, c; u32 x; const llvm::Instruction* I; };
struct GepTerm { int op; i64 scale; u8 w; };
struct GepInfo { i64 off; std::vector<GepTerm> t; };
struct Leaf { u64 off; u8 w; };                       // one scalar piece of an aggregate in memory
struct Edge { int target; std::vector<std::pair<int,int>> cp; };
struct SwInfo { std::vector<std::pair<u64,int>> cases; int def; };   // -> edge index
struct LFunc;
struct LpClause { bool isCatch; std::vector<u64> ti; };  // filter: list
struct CallInfo {
  LFunc* target = nullptr; int callee = 0; int builtin = -1; std::vector<int> args; std::vector<u64> byval; int nret = 0;
  bool invoke = false; int normal = -1, unwind = -1; std::vector<u8> argw; u8 retw = 0; std::string name;
};
struct LpInfo { bool cleanup; std::vector<LpClause> cl; };
struct AllocaInfo { u64 off, size; };
struct LFunc {
  const llvm::Function* F = nullptr; int id = 0; std::string name; u64 addr = 0; bool lowered = false, external = false; int builtin = -1;
  std::vector<LI> code; std::vector<u64> consts; std::vector<Edge> edges; std::vector<GepInfo> geps; std::vector<SwInfo> sws;
  std::vector<CallInfo> calls; std::vector<LpInfo> lps; std::vector<std::vector<Leaf>> leafs; std::vector<int> lpOfPc;
  int nregs = 0; std::vector<int> argSlots; std::vector<AllocaInfo> allocas; u64 frameSize = 0; std::vector<u8> retw;
  std::vector<int> blockStart; std::vector<int> pcBlock; std::vector<std::vector<bool>> liveIn; bool liveDone = false;
  std::unordered_map<int, std::vector<int>> liveAt;
  bool isModel = false;
};
struct Frame {
  int rc = 0; LFunc* f = nullptr; int pc = 0; u64 base = 0; int nregs = 0; Val* regs = nullptr; std::vector<u64> dyn;
  u64 varargs = 0;
};
