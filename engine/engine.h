// xsym: symbolic executor for LLVM bitcode. State, memory and thread model.
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <set>
#include <deque>

static const int NT = 6; // max threads

struct Val { uint64_t c; Expr* e; };

struct SymB { Expr* v; uint8_t idx, n; };
extern Expr* const UNDEFB;

struct Shadow { uint32_t wclk; uint32_t r[NT]; uint8_t wtid; uint8_t watom; uint8_t ratom; };

struct ObjData {
  int rc = 0;
  std::vector<uint8_t> c;
  std::vector<SymB> s;      // empty: fully concrete
  std::vector<Shadow> sh;   // empty: never accessed while multi-threaded
};
struct DRef {
  ObjData* p = nullptr;
  DRef() {}
  explicit DRef(ObjData* q) : p(q) { if (p) p->rc++; }
  DRef(const DRef& o) : p(o.p) { if (p) p->rc++; }
  DRef(DRef&& o) noexcept : p(o.p) { o.p = nullptr; }
  DRef& operator=(const DRef& o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
  DRef& operator=(DRef&& o) noexcept { std::swap(p, o.p); return *this; }
  ~DRef() { drop(); }
  void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
  ObjData* w() { if (p->rc > 1) { ObjData* n = new ObjData(*p); n->rc = 1; p->rc--; p = n; } return p; }
  ObjData* operator->() const { return p; }
};
struct Obj {
  uint64_t base = 0, size = 0;
  uint8_t kind = 0; // 0 global 1 heap 2 stack 3 vm
  bool alive = true, ro = false;
  uint8_t tag = 0;  // allocation family (malloc/new/new[])
  const char* what = "";
  DRef d;
};
struct VMA { uint64_t len; int obj; uint64_t off; };

struct VC { uint32_t t[NT] = {}; void join(const VC& o) { for (int i = 0; i < NT; i++) if (o.t[i] > t[i]) t[i] = o.t[i]; } };

// decoded code ---------------------------------------------------------------
struct Leaf { uint16_t w; uint32_t off; uint8_t bytes; };
struct TyInfo { std::vector<Leaf> leaves; uint64_t size; uint64_t align; bool ok; };
struct Opd { int slot = -1; Val v{0, nullptr}; const std::vector<Val>* agg = nullptr; uint16_t n = 1; uint16_t w = 64; };
enum IOp : uint8_t {
  I_NOP, I_RET, I_BR, I_CBR, I_SWITCH, I_UNREACH, I_BIN, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_CAST, I_ALLOCA, I_LOAD, I_STORE,
  I_GEP, I_SELECT, I_CALL, I_EXTRACTV, I_INSERTV, I_LANDING, I_RESUME, I_ARMW, I_CMPXCHG, I_FENCE,
  I_EXTRACTE, I_INSERTE, I_SHUFFLE, I_FREEZE, I_UNSUP, I_BUILTIN, I_ASM
};
struct FnInfo;
struct GepTerm { Opd o; uint64_t scale; };
struct Inst {
  IOp op = I_NOP; uint8_t sub = 0; // sub opcode / predicate / ordering
  int dst = -1; uint16_t n = 1, w = 64, w2 = 64;
  bool atomic = false, isInvoke = false, vol = false; uint8_t ord = 0, nsw = 0;
  std::vector<Opd> ops;
  int t0 = -1, t1 = -1; // target blocks
  uint64_t imm = 0;
  std::vector<GepTerm> gep;
  std::vector<std::pair<u128, int>> cases;
  TyInfo* ty = nullptr;
  int builtin = -1;
  llvm::Function* callee = nullptr;
  llvm::Instruction* I = nullptr;
  std::vector<int> mask;
};
struct Edge { std::vector<std::pair<int, Opd>> moves; };
struct BBInfo { int first; std::map<int, Edge> in; };
struct FnInfo {
  llvm::Function* F = nullptr;
  std::vector<Inst> code;
  std::vector<BBInfo> bbs;
  int nslots = 0;
  std::vector<int> argSlot; std::vector<uint16_t> argN;
  bool nounwind = false;
};

struct Frame {
  FnInfo* fn = nullptr;
  std::vector<Val> regs;
  int pc = 0, bb = 0;
  size_t stackMark = 0;         // stack object count on entry
  uint64_t spMark = 0;
  std::vector<Val> varargs; std::vector<uint16_t> vaW;
  int nforkHere = 0;
  bool initCall = false;
};

enum TStat : uint8_t { T_RUN, T_MUTEX, T_CV, T_JOIN, T_SPIN, T_QUIESCE, T_DONE };
struct Caught { uint64_t exn; int handlers; };
struct Thread {
  std::vector<Frame> stack;
  TStat st = T_RUN; uint64_t waitAddr = 0, waitAddr2 = 0; bool schedOk = false; bool cvWoken = false;
  VC vc, fenceRel, fenceAcqPend;
  uint64_t spinSeq = ~0ull; unsigned spin = 0; unsigned nowait = 0;
  uint64_t sp = 0;
  std::vector<Obj> stk;
  std::vector<Caught> caught; unsigned uncaught = 0;
  std::map<llvm::GlobalVariable*, uint64_t> tls;
  int atomicDepth = 0;
  VC endVC;
};
struct ExnInfo { uint64_t ti, dtor; int handlers = 0; };
struct InputRec { std::string name; Expr* e; uint64_t c; };
struct Mutex { int owner = -1; int depth = 0; VC vc; };

struct State {
  uint64_t id = 0;
  std::vector<Obj> globals, heap, vmobjs;
  std::map<uint64_t, VMA> vmas;
  uint64_t heapTop = 0x100000000ull, vmTop = 0x200000000000ull;
  std::vector<Thread> th; int cur = 0; bool mt = false;
  std::vector<Expr*> pc;
  std::vector<uint64_t> as;     // satisfying assignment for pc
  Expr* memoCond = nullptr; bool memoVal = false;
  std::map<std::string, unsigned> nameCnt;
  std::vector<InputRec> inputs;
  std::map<uint64_t, Mutex> mutexes;
  std::map<uint64_t, VC> locVC;
  std::map<uint64_t, ExnInfo> exns;
  uint64_t gseq = 0; uint64_t stallSeq = 0, stallAt = 0; int stallCur = 0; int preempt = 0; int spurious = 0; unsigned spinLimit = 12;
  uint64_t instrs = 0; unsigned forks = 0; unsigned depth = 0;
  std::vector<llvm::Function*> initq; size_t initPos = 0;
  std::vector<std::string> log;
  uint64_t atomHook = 0; bool inHook = false;
  std::map<uint64_t, uint64_t> kv; std::map<uint64_t, Expr*> kvE;   // harness scratch
  bool expectAbort = false; uint64_t abortFn = 0;
  size_t replayPos = 0; unsigned undefCnt = 0;
};

struct PathEnd { };          // thrown internally: state terminated
struct Retry { };            // thrown internally: re-execute the instruction / switched thread

struct Violation { std::string kind, msg, stack; std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<std::string> log; };
