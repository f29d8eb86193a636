// xsym: a symbolic executor for LLVM bitcode (see DESIGN.md).
#include "decode.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <csignal>

static Expr undefDummy;
Expr* const UNDEFB = &undefDummy;

static const uint64_t FN_BASE = 0x400000, GM_BASE = 0x10000000ull, GC_BASE = 0x80000000ull, HEAP_BASE = 0x100000000ull,
                      VM_BASE = 0x200000000000ull, VM_END = 0x300000000000ull, STK_BASE = 0x700000000000ull, STK_SZ = 0x10000000ull;

enum BI {
  B_U64, B_U32, B_U16, B_U8, B_BYTES, B_RANGE, B_CHOOSE, B_CONCRETIZE, B_ASSUME, B_ASSERT, B_FAIL, B_REACH, B_END,
  B_SPAWN, B_JOIN, B_SELF, B_YIELD, B_MLOCK, B_MTRYLOCK, B_MUNLOCK, B_CVWAIT, B_CVNOTIFY, B_QUIESCE, B_SETPREEMPT, B_SETSPURIOUS, B_SETSPIN, B_NOWAIT,
  B_ATOMBEGIN, B_ATOMEND, B_PROGRESS, B_MALLOC, B_FREE, B_VALID, B_MSIZE, B_HEAPMARK, B_HEAPLIVE,
  B_VMOBJ, B_VMRESERVE, B_VMMAP, B_VMUNMAP, B_VMQUERY, B_VMLIVE, B_HAVOC, B_LOG, B_LOGU64, B_PARAM, B_ISSYM, B_HOOK, B_KVGET, B_KVSET, B_NTHREADS, B_ITE, B_IMPLIED, B_STACKINFO, B_STKBASE, B_HOLDS, B_TLOCKS,
  B_CXA_THROW, B_CXA_RETHROW, B_CXA_BEGIN, B_CXA_END, B_CXA_ALLOC, B_CXA_FREE, B_CXA_GETPTR, B_GUARD_ACQ, B_GUARD_REL, B_ATEXIT, B_TERMINATE, B_PUREV,
  B_MEMCPY, B_MEMMOVE, B_MEMSET, B_STRLEN, B_MEMCMP, B_MEMCHR,
  B_I_MEMCPY, B_I_MEMMOVE, B_I_MEMSET, B_I_EXPECT, B_I_UMAX, B_I_UMIN, B_I_SMAX, B_I_SMIN, B_I_CTLZ, B_I_CTTZ, B_I_CTPOP, B_I_BSWAP, B_I_FSHL, B_I_FSHR,
  B_I_UADDS, B_I_USUBS, B_I_UADDO, B_I_USUBO, B_I_UMULO, B_I_SADDO, B_I_SSUBO, B_I_SMULO, B_I_ABS, B_I_FABS, B_I_TRAP, B_I_TYPEID, B_I_STACKSAVE,
  B_I_VASTART, B_I_VACOPY, B_I_TLS, B_I_ISCONST, B_I_OBJSIZE, B_I_PAUSE, B_I_RDTSC, B_I_IDENT, B_I_FMULADD, B_I_FLOOR, B_I_CEIL, B_I_TRUNCF, B_I_ROUND,
  B_THREADRET
};
static std::unordered_map<std::string, int> BT = {
  {"xsym_u64", B_U64}, {"xsym_u32", B_U32}, {"xsym_u16", B_U16}, {"xsym_u8", B_U8}, {"xsym_bytes", B_BYTES}, {"xsym_range", B_RANGE}, {"xsym_choose", B_CHOOSE},
  {"xsym_concretize", B_CONCRETIZE}, {"xsym_assume", B_ASSUME}, {"xsym_assert_", B_ASSERT}, {"xsym_fail_", B_FAIL}, {"xsym_reach", B_REACH}, {"xsym_end", B_END},
  {"xsym_spawn", B_SPAWN}, {"xsym_join", B_JOIN}, {"xsym_self", B_SELF}, {"xsym_yield", B_YIELD}, {"xsym_mutex_lock", B_MLOCK}, {"xsym_mutex_trylock", B_MTRYLOCK}, {"xsym_mutex_unlock", B_MUNLOCK},
  {"xsym_cv_wait", B_CVWAIT}, {"xsym_cv_notify", B_CVNOTIFY}, {"xsym_quiesce", B_QUIESCE}, {"xsym_set_preempt", B_SETPREEMPT}, {"xsym_set_spurious", B_SETSPURIOUS}, {"xsym_set_spin", B_SETSPIN}, {"xsym_nowait", B_NOWAIT},
  {"xsym_atomic_begin", B_ATOMBEGIN}, {"xsym_atomic_end", B_ATOMEND}, {"xsym_progress", B_PROGRESS}, {"xsym_malloc", B_MALLOC}, {"xsym_free", B_FREE}, {"xsym_valid", B_VALID}, {"xsym_msize", B_MSIZE},
  {"xsym_heap_mark", B_HEAPMARK}, {"xsym_heap_live", B_HEAPLIVE}, {"xsym_vm_obj", B_VMOBJ}, {"xsym_vm_reserve", B_VMRESERVE}, {"xsym_vm_map", B_VMMAP}, {"xsym_vm_unmap", B_VMUNMAP}, {"xsym_vm_query", B_VMQUERY}, {"xsym_vm_live", B_VMLIVE},
  {"xsym_havoc", B_HAVOC}, {"xsym_log", B_LOG}, {"xsym_log_u64", B_LOGU64}, {"xsym_param", B_PARAM}, {"xsym_is_symbolic", B_ISSYM}, {"xsym_atomic_hook", B_HOOK}, {"xsym_kv_get", B_KVGET}, {"xsym_kv_set", B_KVSET}, {"xsym_nthreads", B_NTHREADS}, {"xsym_ite", B_ITE}, {"xsym_implied", B_IMPLIED}, {"xsym_on_stack", B_STACKINFO}, {"xsym_mutex_owner", B_HOLDS},
  {"__cxa_throw", B_CXA_THROW}, {"__cxa_rethrow", B_CXA_RETHROW}, {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END}, {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_get_exception_ptr", B_CXA_GETPTR},
  {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_atexit", B_ATEXIT}, {"atexit", B_ATEXIT}, {"__cxa_thread_atexit", B_ATEXIT}, {"_ZSt9terminatev", B_TERMINATE}, {"__cxa_pure_virtual", B_PUREV},
  {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"strlen", B_STRLEN}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"memchr", B_MEMCHR},
  {"llvm.memcpy", B_I_MEMCPY}, {"llvm.memmove", B_I_MEMMOVE}, {"llvm.memset", B_I_MEMSET}, {"llvm.memcpy.inline", B_I_MEMCPY}, {"llvm.expect", B_I_EXPECT}, {"llvm.umax", B_I_UMAX}, {"llvm.umin", B_I_UMIN}, {"llvm.smax", B_I_SMAX}, {"llvm.smin", B_I_SMIN},
  {"llvm.ctlz", B_I_CTLZ}, {"llvm.cttz", B_I_CTTZ}, {"llvm.ctpop", B_I_CTPOP}, {"llvm.bswap", B_I_BSWAP}, {"llvm.fshl", B_I_FSHL}, {"llvm.fshr", B_I_FSHR}, {"llvm.uadd.sat", B_I_UADDS}, {"llvm.usub.sat", B_I_USUBS},
  {"llvm.uadd.with.overflow", B_I_UADDO}, {"llvm.usub.with.overflow", B_I_USUBO}, {"llvm.umul.with.overflow", B_I_UMULO}, {"llvm.sadd.with.overflow", B_I_SADDO}, {"llvm.ssub.with.overflow", B_I_SSUBO}, {"llvm.smul.with.overflow", B_I_SMULO},
  {"llvm.abs", B_I_ABS}, {"llvm.fabs", B_I_FABS}, {"llvm.trap", B_I_TRAP}, {"llvm.eh.typeid.for", B_I_TYPEID}, {"llvm.stacksave", B_I_STACKSAVE}, {"llvm.va_start", B_I_VASTART}, {"llvm.va_copy", B_I_VACOPY}, {"llvm.threadlocal.address", B_I_TLS},
  {"llvm.is.constant", B_I_ISCONST}, {"llvm.objectsize", B_I_OBJSIZE}, {"llvm.x86.sse2.pause", B_I_PAUSE}, {"llvm.x86.rdtsc", B_I_RDTSC}, {"llvm.readcyclecounter", B_I_RDTSC}, {"llvm.launder.invariant.group", B_I_IDENT}, {"llvm.strip.invariant.group", B_I_IDENT}, {"llvm.ptr.annotation", B_I_IDENT}, {"llvm.fmuladd", B_I_FMULADD}, {"llvm.floor", B_I_FLOOR}, {"llvm.ceil", B_I_CEIL}, {"llvm.trunc", B_I_TRUNCF}, {"llvm.round", B_I_ROUND},
};

struct Engine {
  Module& M; const DataLayout& DL; ExprCtx X; Solver SV; Decoder D;
  std::vector<Obj> consts; // constant globals: shared, immutable
  std::vector<std::unique_ptr<State>> work;
  State* S = nullptr; // current
  // options
  std::map<std::string, uint64_t> params; double maxTime = 600; uint64_t maxInstr = 50000000; int defPreempt = 2; int maxViol = 1;
  bool replay = false; std::vector<std::pair<std::string, uint64_t>> replayVals; bool verbose = false; size_t maxConc = 4096;
  bool uninitBranch = false;
  // results
  std::vector<Violation> viols; std::map<std::string, uint64_t> reached; uint64_t paths = 0, totalInstr = 0, forks = 0, assertsChecked = 0, assertsSym = 0, pathsCut = 0; std::string incon;
  std::set<Function*> executed; std::vector<std::string> samples;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  unsigned maxThreads = 1; uint64_t ctxSwitches = 0, raceChecks = 0; uint64_t nextId = 1;
  unsigned maxPreUsed = 0;

  Engine(Module& m) : M(m), DL(m.getDataLayout()), SV(X), D(m, X) { D.builtins = &BT; }
  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  // ------------------------------------------------------------------ utils
  Thread& T() { return S->th[S->cur]; }
  Frame& fr() { return T().stack.back(); }
  Expr* ex(const Val& v, unsigned w) { return v.e ? v.e : X.cst(v.c, w); }
  Val mk(Expr* e) { if (e->op == E_CONST && e->w <= 64) return Val{(uint64_t)e->val, nullptr}; return Val{0, e}; }
  Val cv(uint64_t v) { return Val{v, nullptr}; }
  const Val& get(const Opd& o, unsigned i = 0) { if (o.slot >= 0) return fr().regs[o.slot + i]; return o.agg ? (*o.agg)[i] : o.v; }
  void setr(const Inst& in, Val v) { if (in.dst >= 0) fr().regs[in.dst] = v; }

  std::string where(const Frame& f) {
    std::string r = demangle(f.fn->F->getName().str());
    if (r.size() > 160) r = r.substr(0, 160) + "...";
    if ((size_t)f.pc < f.fn->code.size()) {
      auto& dl = f.fn->code[f.pc].I->getDebugLoc();
      if (dl) { r += " ["; r += cast<DIScope>(dl.getScope())->getFilename().str(); r += ":" + std::to_string(dl.getLine());
        for (auto* ia = dl.getInlinedAt(); ia; ia = ia->getInlinedAt()) r += " < " + ia->getFilename().str() + ":" + std::to_string(ia->getLine());
        r += "]"; }
    }
    return r;
  }
  std::string stackTrace() {
    std::string r;
    for (size_t t = 0; t < S->th.size(); t++) {
      auto& th = S->th[t];
      r += "thread " + std::to_string(t) + (t == (size_t)S->cur ? " (current)" : "") + " status " + std::to_string(th.st) + "\n";
      int n = 0;
      for (auto it = th.stack.rbegin(); it != th.stack.rend() && n < 25; ++it, ++n) r += "  " + where(*it) + "\n";
    }
    return r;
  }
  [[noreturn]] void inconclusive(const std::string& why) {
    if (incon.empty()) { incon = why + "\n" + (S && !S->th.empty() && !T().stack.empty() ? stackTrace() : ""); }
    throw PathEnd();
  }
  void addViol(const std::string& kind, const std::string& msg) {
    Violation v; v.kind = kind; v.msg = msg; v.stack = stackTrace(); v.log = S->log;
    X.evalBegin();
    for (auto& i : S->inputs) v.inputs.push_back({i.name, i.e ? (uint64_t)X.evalRec(i.e, S->as) : i.c});
    viols.push_back(v);
    fprintf(stderr, "VIOL %s: %s\n%s", kind.c_str(), msg.c_str(), v.stack.c_str());
  }
  [[noreturn]] void violation(const std::string& kind, const std::string& msg) { addViol(kind, msg); throw PathEnd(); }

  bool profile = false; std::map<std::string, uint64_t> forkSites;
  std::unique_ptr<State> clone() { if (profile) forkSites[stackTrace()]++; auto n = std::make_unique<State>(*S); n->id = nextId++; n->depth++; S->depth++; forks++; return n; }

  bool branch(Expr* c) {
    if (c->op == E_CONST) return c->val != 0;
    if (S->memoCond == c) { return S->memoVal; }
    bool v = X.eval(c, S->as) != 0;
    Expr* other = v ? X.bnot(c) : c;
    std::vector<uint64_t> as2 = S->as;
    int r = SV.check(S->pc, other, as2);
    if (r < 0) inconclusive("solver returned unknown");
    if (r == 0) return v;
    auto n = clone();
    n->pc.push_back(other); n->as = std::move(as2); n->memoCond = c; n->memoVal = !v;
    work.push_back(std::move(n));
    S->pc.push_back(v ? c : X.bnot(c));
    return v;
  }
  uint64_t concretize(Val v, unsigned w) {
    if (!v.e) return v.c;
    for (;;) {
      if (v.e->op == E_CONST) return (uint64_t)v.e->val;
      uint64_t k = (uint64_t)X.eval(v.e, S->as);
      Expr* c = X.bin(E_EQ, v.e, X.cst(k, v.e->w));
      if (S->memoCond == c && !S->memoVal) { // shouldn't happen: model satisfies pc
        inconclusive("concretize memo"); }
      if (fr().nforkHere > (int)maxConc) inconclusive("too many values for a symbolic pointer/size");
      fr().nforkHere++;
      if (branch(c)) return k;
    }
  }
  Expr* freshVar(const std::string& name, unsigned w, bool bounded = false, uint64_t lo = 0, uint64_t hi = 0) {
    unsigned k = S->nameCnt[name]++;
    std::string full = k ? name + "#" + std::to_string(k) : name;
    return X.var(full, w, bounded, lo, hi);
  }
  Val freshInput(const std::string& name, unsigned w, bool bounded = false, uint64_t lo = 0, uint64_t hi = 0) {
    if (replay) { uint64_t v = nextReplay(name); S->inputs.push_back({name, nullptr, v}); return cv(v & (uint64_t)maskw(w)); }
    Expr* e = freshVar(name, w, bounded, lo, hi);
    S->inputs.push_back({name, e, 0});
    return Val{0, e};
  }
  uint64_t nextReplay(const std::string& name) {
    if (S->replayPos >= replayVals.size()) return 0;
    auto& r = replayVals[S->replayPos++];
    if (r.first != name) { inconclusive("replay mismatch: expected " + r.first + " got " + name); }
    return r.second;
  }
  void assume(Expr* c) {
    if (c->op == E_CONST) { if (!c->val) throw PathEnd(); return; }
    if (X.eval(c, S->as)) { S->pc.push_back(c); return; }
    int r = SV.check(S->pc, c, S->as);
    if (r < 0) inconclusive("solver returned unknown");
    if (r == 0) throw PathEnd();
    S->pc.push_back(c);
  }
  void checkAssert(Expr* c, const std::string& kind, const std::string& msg) {
    assertsChecked++;
    if (c->op == E_CONST) { if (!c->val) violation(kind, msg); return; }
    assertsSym++;
    Expr* nc = X.bnot(c);
    std::vector<uint64_t> as2 = S->as;
    int r = X.eval(nc, S->as) ? 1 : SV.check(S->pc, nc, as2);
    if (r < 0) inconclusive("solver returned unknown");
    if (r == 1) {
      auto keep = S->as; S->as = as2;
      addViol(kind, msg);
      S->as = keep;
      throw PathEnd();
    }
  }

  // ------------------------------------------------------------------ memory
  Obj* bs(std::vector<Obj>& v, uint64_t a) {
    size_t lo = 0, hi = v.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].base <= a) lo = m + 1; else hi = m; }
    if (!lo) return nullptr;
    Obj& o = v[lo - 1];
    if (a < o.base + o.size || (o.size == 0 && a == o.base)) return &o;
    return nullptr;
  }
  // finds the object containing a; off: offset in object; avail: contiguous bytes
  Obj* find(uint64_t a, uint64_t& off, uint64_t& avail) {
    Obj* o = nullptr;
    if (a >= VM_BASE && a < VM_END) {
      auto it = S->vmas.upper_bound(a);
      if (it == S->vmas.begin()) return nullptr;
      --it;
      if (a >= it->first + it->second.len) return nullptr;
      if (it->second.obj < 0) return nullptr;
      o = &S->vmobjs[it->second.obj];
      off = it->second.off + (a - it->first);
      if (off >= o->size) return nullptr; // beyond backing object (SIGBUS)
      avail = std::min(it->first + it->second.len - a, o->size - off);
      return o;
    }
    if (a >= STK_BASE) { uint64_t t = (a - STK_BASE) / STK_SZ; if (t < S->th.size()) o = bs(S->th[t].stk, a); }
    else if (a >= HEAP_BASE) o = bs(S->heap, a);
    else if (a >= GC_BASE) o = bs(consts, a);
    else if (a >= GM_BASE) o = bs(S->globals, a);
    if (!o || !o->alive) return nullptr;
    off = a - o->base; avail = o->size - off;
    return o;
  }
  std::string hex(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
  [[noreturn]] void badAccess(uint64_t a, uint64_t n, bool w) {
    std::string d;
    if (a < 4096) d = "null pointer dereference";
    else if (a >= HEAP_BASE && a < VM_BASE) {
      Obj* best = nullptr; for (auto& o : S->heap) if (o.base <= a) best = &o;
      if (best && a < best->base + best->size + 64) d = best->alive ? "heap buffer overflow (object of size " + std::to_string(best->size) + ")" : "use after free";
      else d = "wild heap pointer";
    } else if (a >= STK_BASE) d = "stack out-of-bounds or use-after-return";
    else if (a >= VM_BASE && a < VM_END) d = "access to unmapped memory";
    else d = "out-of-bounds global or wild pointer";
    violation("memory", "invalid " + std::string(w ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + hex(a) + ": " + d);
  }
  // race detection
  void recordAccess(Obj& o, uint64_t off, uint64_t n, bool w, bool atomic) {
    if (!S->mt || T().atomicDepth) return;
    ObjData* d = o.d.w();
    if (d->sh.empty()) d->sh.resize(o.size);
    int t = S->cur; Thread& th = T();
    raceChecks++;
    for (uint64_t i = off; i < off + n; i++) {
      Shadow& s = d->sh[i];
      if (s.wclk && s.wtid != t && th.vc.t[s.wtid] < s.wclk && !(atomic && s.watom))
        violation("race", std::string("data race: ") + (w ? "write" : "read") + (atomic ? " (atomic)" : "") + " by thread " + std::to_string(t) + " conflicts with unordered " + (s.watom ? "atomic " : "") + "write by thread " + std::to_string(s.wtid));
      if (w) {
        for (int u = 0; u < NT; u++) if (u != t && s.r[u] && th.vc.t[u] < s.r[u] && !(atomic && (s.ratom >> u & 1)))
          violation("race", "data race: write by thread " + std::to_string(t) + " conflicts with unordered read by thread " + std::to_string(u));
        s.wclk = th.vc.t[t]; s.wtid = t; s.watom = atomic;
      } else {
        s.r[t] = th.vc.t[t];
        if (atomic) s.ratom |= 1 << t; else s.ratom &= ~(1 << t);
      }
    }
  }
  void checkFreeRace(Obj& o) {
    if (!S->mt || o.d->sh.empty() || T().atomicDepth) return;
    int t = S->cur; Thread& th = T();
    for (auto& s : o.d->sh) {
      if (s.wclk && s.wtid != t && th.vc.t[s.wtid] < s.wclk) violation("race", "memory released by thread " + std::to_string(t) + " while thread " + std::to_string(s.wtid) + "'s write to it is not ordered before the release");
      for (int u = 0; u < NT; u++) if (u != t && s.r[u] && th.vc.t[u] < s.r[u]) violation("race", "memory released by thread " + std::to_string(t) + " while thread " + std::to_string(u) + "'s read of it is not ordered before the release");
    }
  }
  struct Buf { std::vector<uint8_t> c; std::vector<SymB> s; }; // s empty: concrete
  void readBytes(uint64_t a, uint64_t n, Buf& b, bool atomic = false) {
    b.c.resize(n); b.s.clear();
    uint64_t p = 0;
    while (p < n) {
      uint64_t off, av; Obj* o = find(a + p, off, av);
      if (!o) badAccess(a + p, n - p, false);
      uint64_t k = std::min(av, n - p);
      if (k < n - p && !(a >= VM_BASE && a < VM_END)) badAccess(a, n, false);
      if (!o->ro || o->kind) recordAccess(*o, off, k, false, atomic);
      memcpy(b.c.data() + p, o->d->c.data() + off, k);
      if (!o->d->s.empty()) {
        bool any = false;
        for (uint64_t i = 0; i < k; i++) if (o->d->s[off + i].v) { any = true; break; }
        if (any) { if (b.s.empty()) b.s.resize(n, SymB{nullptr, 0, 0}); std::copy(o->d->s.begin() + off, o->d->s.begin() + off + k, b.s.begin() + p); }
      }
      p += k;
    }
  }
  void writeBytes(uint64_t a, const Buf& b, bool atomic = false) {
    uint64_t n = b.c.size(), p = 0;
    while (p < n) {
      uint64_t off, av; Obj* o = find(a + p, off, av);
      if (!o) badAccess(a + p, n - p, true);
      uint64_t k = std::min(av, n - p);
      if (k < n - p && !(a >= VM_BASE && a < VM_END)) badAccess(a, n, true);
      if (o->ro) violation("memory", "write to read-only memory at " + hex(a));
      recordAccess(*o, off, k, true, atomic);
      ObjData* d = o->d.w();
      memcpy(d->c.data() + off, b.c.data() + p, k);
      bool sym = !b.s.empty();
      if (sym) { sym = false; for (uint64_t i = 0; i < k; i++) if (b.s[p + i].v) { sym = true; break; } }
      if (sym) { if (d->s.empty()) d->s.resize(o->size, SymB{nullptr, 0, 0}); std::copy(b.s.begin() + p, b.s.begin() + p + k, d->s.begin() + off); }
      else if (!d->s.empty()) std::fill(d->s.begin() + off, d->s.begin() + off + k, SymB{nullptr, 0, 0});
      p += k;
    }
  }
  Expr* byteExpr(const Buf& b, size_t i) {
    if (!b.s.empty() && b.s[i].v) { auto& s = b.s[i]; return X.extract(s.v, s.idx * 8 + 7, s.idx * 8); }
    return X.cst(b.c[i], 8);
  }
  void fixUndef(uint64_t a, Buf& b) {
    // replace runs of undefined bytes by fresh symbolic values, written back
    size_t n = b.c.size(), i = 0;
    while (i < n) {
      if (b.s[i].v != UNDEFB) { i++; continue; }
      size_t j = i; while (j < n && b.s[j].v == UNDEFB && j - i < 8) j++;
      unsigned k = j - i;
      Expr* v = nullptr; uint64_t rv = 0;       // part of the inputs, so that a replay uses the same value
      if (replay) { rv = nextReplay("undef"); S->inputs.push_back({"undef", nullptr, rv}); }
      else { v = X.var("undef!" + std::to_string(S->undefCnt++), k * 8); S->inputs.push_back({"undef", v, 0}); }
      for (unsigned q = 0; q < k; q++) {
        uint64_t off, av; Obj* o = find(a + i + q, off, av);
        if (replay) { b.s[i + q] = SymB{nullptr, 0, 0}; b.c[i + q] = (uint8_t)(rv >> (8 * q)); } else b.s[i + q] = SymB{v, (uint8_t)q, (uint8_t)k};
        if (o && !o->ro) { auto* d = o->d.w(); d->s[off] = b.s[i + q]; d->c[off] = b.c[i + q]; }
      }
      i = j;
    }
  }
  Val combine(const Buf& b, size_t p, unsigned bytes, unsigned w) {
    bool sym = false;
    if (!b.s.empty()) for (unsigned i = 0; i < bytes; i++) if (b.s[p + i].v) { sym = true; break; }
    if (!sym) {
      u128 v = 0; for (unsigned i = 0; i < bytes; i++) v |= (u128)b.c[p + i] << (8 * i);
      v &= maskw(w);
      if (w <= 64) return cv((uint64_t)v);
      return Val{0, X.cst(v, w)};
    }
    Expr* e = nullptr;
    for (int i = (int)bytes - 1; i >= 0;) {
      SymB t = b.s[p + i]; int j = i; Expr* g;
      if (t.v) { // longest run of bytes of the same stored value
        while (j > 0 && b.s[p + j - 1].v == t.v && b.s[p + j - 1].idx + (i - j + 1) == t.idx) j--;
        g = X.extract(t.v, t.idx * 8 + 7, (t.idx - (i - j)) * 8);
      } else g = X.cst(b.c[p + i], 8);
      e = e ? X.concat(e, g) : g;
      i = j - 1;
    }
    if (w < bytes * 8) e = X.extract(e, w - 1, 0);
    return mk(e);
  }
  Val loadScalar(uint64_t a, unsigned bytes, unsigned w, bool atomic = false) {
    // fast path
    uint64_t off, av; Obj* o = find(a, off, av);
    if (o && av >= bytes && bytes <= 8 && o->d->s.empty()) {
      if (!o->ro || o->kind) recordAccess(*o, off, bytes, false, atomic);
      uint64_t v = 0; memcpy(&v, o->d->c.data() + off, bytes);
      return cv(w >= 64 ? v : v & (uint64_t)maskw(w));
    }
    Buf b; readBytes(a, bytes, b, atomic);
    if (!b.s.empty()) fixUndef(a, b);
    return combine(b, 0, bytes, w);
  }
  void storeScalar(uint64_t a, unsigned bytes, unsigned w, Val v, bool atomic = false) {
    uint64_t off, av;
    if (!v.e && bytes <= 8) {
      Obj* o = find(a, off, av);
      if (o && av >= bytes && !o->ro) {
        recordAccess(*o, off, bytes, true, atomic);
        ObjData* d = o->d.w();
        memcpy(d->c.data() + off, &v.c, bytes);
        if (!d->s.empty()) for (unsigned i = 0; i < bytes; i++) d->s[off + i].v = nullptr;
        return;
      }
    }
    Buf b; b.c.resize(bytes);
    Expr* e = ex(v, w);
    if (w < bytes * 8) e = X.zext(e, bytes * 8);
    if (e->op == E_CONST) for (unsigned i = 0; i < bytes; i++) b.c[i] = (uint8_t)(e->val >> (8 * i));
    else {
      b.s.resize(bytes);
      for (unsigned i = 0; i < bytes; i++) {
        Expr* by = X.extract(e, i * 8 + 7, i * 8);
        if (by->op == E_CONST) { b.s[i] = SymB{nullptr, 0, 0}; b.c[i] = (uint8_t)by->val; }
        else b.s[i] = SymB{e, (uint8_t)i, (uint8_t)bytes};
      }
    }
    writeBytes(a, b, atomic);
  }
  uint64_t addrOf(Val p) { return p.e ? concretize(p, 64) : p.c; }

  // symbolic-address load: if-then-else over the object's contents
  // a value outside the range its type can hold (a bool that is neither 0 nor 1)
  void rangeCheck(const Inst& in) {
    if (!in.imm) return;
    Val v = fr().regs[in.dst]; unsigned w = in.ty->leaves[0].w;
    if (v.e) checkAssert(X.bin(E_ULT, ex(v, w), X.cst(in.imm, w)), "undefined", "load of a value its type cannot hold"); else if (v.c >= in.imm) violation("undefined", "load of a value its type cannot hold");
  }
  bool symLoad(const Inst& in, Val p) {
    uint64_t a0 = (uint64_t)X.eval(p.e, S->as);
    uint64_t off, av; Obj* o = find(a0, off, av);
    uint64_t n = in.ty->size;
    if (!o || o->kind == 3 || o->size > 2048 || in.ty->leaves.size() != 1 || in.ty->leaves[0].bytes > 8 || o->size < n) return false;
    if (in.atomic) return false;
    Expr* offE = X.bin(E_SUB, p.e, X.cst(o->base, 64));
    Expr* inb = X.bin(E_ULE, offE, X.cst(o->size - n, 64));
    if (!branch(inb)) throw Retry(); // other objects
    uint64_t sz = o->size, base = o->base;
    unsigned step = 1, start = 0;
    for (unsigned k = 3; k >= 1; k--) { Expr* lb = X.extract(offE, k - 1, 0); if (lb->op == E_CONST) { step = 1 << k; start = (unsigned)lb->val; break; } }
    Buf b;
    if (S->mt && !o->ro) recordAccess(*o, 0, sz, false, false);
    b.c = o->d->c; b.s = o->d->s;
    if (!b.s.empty()) for (auto& s : b.s) if (s.v == UNDEFB) { fixUndef(base, b); break; }
    auto& L = in.ty->leaves[0];
    // run-length compressed decision list from high offsets to low
    std::vector<std::pair<uint64_t, Val>> items;
    for (uint64_t q = start; q + n <= sz; q += step) {
      Val v = combine(b, q, L.bytes, L.w);
      if (!items.empty() && items.back().second.e == v.e && items.back().second.c == v.c) continue;
      items.push_back({q, v});
    }
    if (items.empty()) return false;
    Expr* r = ex(items.back().second, L.w);
    for (int i = (int)items.size() - 2; i >= 0; i--)
      r = X.ite(X.bin(E_ULT, offE, X.cst(items[i + 1].first, 64)), ex(items[i].second, L.w), r);
    setr(in, mk(r));
    return true;
  }
  Obj* newObj(std::vector<Obj>& v, uint64_t base, uint64_t size, uint8_t kind, bool undef) {
    v.emplace_back();
    Obj& o = v.back();
    o.base = base; o.size = size; o.kind = kind;
    auto* d = new ObjData(); d->c.resize(size, undef ? 0xAB : 0);
    if (undef) d->s.resize(size, SymB{UNDEFB, 0, 0});
    o.d = DRef(d);
    return &o;
  }
  uint64_t heapAlloc(uint64_t size, uint64_t align, uint8_t tag) {
    if (align < 16) align = 16;
    uint64_t b = (S->heapTop + align - 1) & ~(align - 1);
    S->heapTop = b + size + 64; if (size > (1u << 27)) inconclusive("huge allocation");
    Obj* o = newObj(S->heap, b, size, 1, size <= (1u << 24));   // uninitialised bytes are not tracked in very large objects
    o->tag = tag;
    return b;
  }
  uint64_t stackAlloc(uint64_t size, uint64_t align) {
    Thread& t = T();
    uint64_t b = (t.sp + align - 1) & ~(align - 1);
    t.sp = b + size + 32;
    if (t.sp > STK_BASE + (S->cur + 1) * STK_SZ - 4096) violation("memory", "stack overflow");
    newObj(t.stk, b, size, 2, true);
    return b;
  }
  void popStackTo(size_t mark, uint64_t sp) {
    Thread& t = T();
    while (t.stk.size() > mark) { checkFreeRace(t.stk.back()); t.stk.pop_back(); }
    t.sp = sp;
  }
  std::string cstr(uint64_t a) {
    std::string s;
    for (;; a++) { Val v; { T().atomicDepth++; v = loadScalar(a, 1, 8); T().atomicDepth--; } if (v.e) { uint8_t q = (uint8_t)X.eval(v.e, S->as); s += q >= 32 && q < 127 ? (char)q : '?'; if (s.size() > 4096) return s; continue; } if (!v.c) return s; s += (char)v.c; if (s.size() > 4096) return s; }
  }

  // ------------------------------------------------------------------ threads
  bool enabled(State& s, int t) {
    Thread& h = s.th[t];
    switch (h.st) {
      case T_RUN: return true;
      case T_SPIN: return s.gseq != h.spinSeq;
      case T_MUTEX: { auto it = s.mutexes.find(h.waitAddr); return it == s.mutexes.end() || it->second.owner < 0; }
      case T_CV: if (!h.cvWoken) return false; { auto it = s.mutexes.find(h.waitAddr2); return it == s.mutexes.end() || it->second.owner < 0; }
      case T_JOIN: return s.th[h.waitAddr].st == T_DONE;
      default: return false;
    }
  }
  void recSched(State& s, int t) { s.inputs.push_back({"sched", nullptr, (uint64_t)t}); }
  void wake(State& s, int t) {
    s.cur = t; Thread& h = s.th[t];
    if (h.st == T_SPIN) { h.spin = 0; h.spinSeq = s.gseq; h.schedOk = true; }
    if (h.st == T_SPIN || h.st == T_MUTEX || h.st == T_CV || h.st == T_JOIN) h.st = T_RUN;
    ctxSwitches++;
  }
  // Voluntary/involuntary scheduling point before a visible operation.
  void schedPoint() {
    if (!S->mt) return;
    Thread& h = T();
    if (h.atomicDepth) return;
    if (h.schedOk) { h.schedOk = false; return; }
    bool any = false;
    for (int t = 0; t < (int)S->th.size(); t++) if (t != S->cur && enabled(*S, t)) any = true;
    if (!any && S->spurious <= 0) return;
    schedIndex++;
    S->kv[0xfffffff0]++;
    uint64_t idx = S->kv[0xfffffff0];
    if (replay) {
      if (S->replayPos + 1 < replayVals.size() && replayVals[S->replayPos].first == "pre" && replayVals[S->replayPos].second == idx) {
        S->replayPos++;
        int t = (int)nextReplay("sched");
        S->inputs.push_back({"pre", nullptr, idx}); recSched(*S, t);
        T().schedOk = true; S->preempt--;
        if (S->th[t].st == T_CV && !S->th[t].cvWoken) { S->spurious--; S->th[t].cvWoken = true; }
        wake(*S, t);
        throw Retry();
      }
      return;
    }
    if (S->preempt <= 0) return;
    for (int t = 0; t < (int)S->th.size(); t++) {
      if (t == S->cur) continue;
      bool sp = false;
      if (!enabled(*S, t)) {
        if (S->spurious > 0 && S->th[t].st == T_CV && !S->th[t].cvWoken && (S->mutexes.find(S->th[t].waitAddr2) == S->mutexes.end() || S->mutexes[S->th[t].waitAddr2].owner < 0)) sp = true; else continue;
      }
      auto n = clone();
      n->th[S->cur].schedOk = true; n->preempt--;
      if (sp) { n->spurious--; n->th[t].cvWoken = true; }
      n->inputs.push_back({"pre", nullptr, idx}); recSched(*n, t);
      wake(*n, t);
      work.push_back(std::move(n));
    }
  }
  uint64_t schedIndex = 0;
  // current thread cannot continue: switch to another one (free choice)
  [[noreturn]] void blockAndSwitch() {
    if (T().nowait) violation("wait", "a call that must not wait blocks");
    std::vector<int> en;
    for (int t = 0; t < (int)S->th.size(); t++) if (enabled(*S, t)) en.push_back(t);
    std::vector<int> spur;
    if (S->spurious > 0)
      for (int t = 0; t < (int)S->th.size(); t++) if (S->th[t].st == T_CV && !S->th[t].cvWoken && S->mutexes[S->th[t].waitAddr2].owner < 0) spur.push_back(t);
    if (en.empty()) {
      for (int t = 0; t < (int)S->th.size(); t++) if (S->th[t].st == T_QUIESCE) { S->th[t].st = T_RUN; S->th[t].cvWoken = true; S->cur = t; throw Retry(); }
      bool allDone = true; for (auto& h : S->th) if (h.st != T_DONE) allDone = false;
      if (allDone) throw PathEnd();
      std::string d = "no thread can make progress:";
      const char* nm[] = {"running", "waiting for a mutex", "waiting on a condition variable", "waiting to join a thread", "spinning on memory no thread will write", "quiesce", "finished"};
      for (size_t t = 0; t < S->th.size(); t++) d += " thread " + std::to_string(t) + " " + nm[S->th[t].st] + ";";
      violation("deadlock", d);
    }
    if (replay && (en.size() > 1 || !spur.empty())) {
      int t = (int)nextReplay("sched"); recSched(*S, t);
      if (S->th[t].st == T_CV && !S->th[t].cvWoken) { S->spurious--; S->th[t].cvWoken = true; }
      wake(*S, t); throw Retry();
    }
    if (en.size() > 1 || !spur.empty()) {
      for (size_t i = 1; i < en.size(); i++) { auto n = clone(); recSched(*n, en[i]); wake(*n, en[i]); work.push_back(std::move(n)); }
      for (int t : spur) { auto n = clone(); recSched(*n, t); n->spurious--; n->th[t].cvWoken = true; wake(*n, t); work.push_back(std::move(n)); }
      recSched(*S, en[0]);
    }
    wake(*S, en[0]);
    throw Retry();
  }
  void bump() { S->gseq++; }
  void spinCheck() { // called on visible loads
    if (!S->mt) return;
    Thread& h = T();
    if (h.nowait && ++h.nowait > S->spinLimit + 1) violation("wait", "a call that must not wait polls memory until another thread changes it");
    if (h.atomicDepth) return;
    if (h.spinSeq == S->gseq) h.spin++; else { h.spinSeq = S->gseq; h.spin = 0; }
    if (h.spin > S->spinLimit) { h.spin = 0; h.st = T_SPIN; blockAndSwitch(); }
  }
  void acqFrom(uint64_t a, uint8_t ord) {
    if (!S->mt) return;
    auto it = S->locVC.find(a); if (it == S->locVC.end()) return;
    auto o = (AtomicOrdering)ord;
    if (o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent) T().vc.join(it->second);
    else T().fenceAcqPend.join(it->second);
  }
  void relTo(uint64_t a, uint8_t ord, bool rmw) {
    if (!S->mt && S->th.size() < 2) { return; }
    auto o = (AtomicOrdering)ord; Thread& h = T();
    VC nv;
    if (o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent) { nv = h.vc; h.vc.t[S->cur]++; }
    else nv = h.fenceRel;
    if (rmw) { auto it = S->locVC.find(a); if (it != S->locVC.end()) nv.join(it->second); }
    S->locVC[a] = nv;
  }

  // ------------------------------------------------------------------ calls
  void pushFrame(Function* F, const std::vector<Val>& args, const std::vector<uint16_t>* widths, const Inst* cs) {
    if (F->isDeclaration()) inconclusive("call to unmodelled function " + demangle(F->getName().str()));
    FnInfo* fi = D.get(F);
    executed.insert(F);
    Frame f; f.fn = fi; f.regs.assign(fi->nslots, Val{0, nullptr});
    f.stackMark = T().stk.size(); f.spMark = T().sp; f.pc = 0; f.bb = 0;
    size_t na = 0; for (auto k : fi->argN) na += k;
    for (size_t i = 0; i < na && i < args.size(); i++) f.regs[i] = args[i];
    if (F->isVarArg()) for (size_t i = na; i < args.size(); i++) { f.varargs.push_back(args[i]); f.vaW.push_back(widths ? (*widths)[i] : 64); }
    if (T().stack.size() > 2000) violation("memory", "call stack overflow");
    // byval arguments: copy
    if (cs) {
      auto* C = cast<CallBase>(cs->I);
      bool any = false;
      for (unsigned i = 0; i < C->arg_size() && i < F->arg_size(); i++) if (C->paramHasAttr(i, Attribute::ByVal)) any = true;
      if (any) {
        for (unsigned i = 0; i < C->arg_size() && i < F->arg_size(); i++) if (C->paramHasAttr(i, Attribute::ByVal)) {
          Type* bt = C->getParamByValType(i);
          uint64_t sz = DL.getTypeAllocSize(bt), al = C->getParamAlign(i).valueOrOne().value();
          uint64_t src = addrOf(f.regs[fi->argSlot[i]]);
          Buf b; readBytes(src, sz, b);
          uint64_t dst = stackAlloc(sz, std::max<uint64_t>(al, 16));
          writeBytes(dst, b);
          f.regs[fi->argSlot[i]] = cv(dst);
        }
      }
    }
    T().stack.push_back(std::move(f));
  }
  void jump(int b) {
    Frame& f = fr();
    auto& B = f.fn->bbs[b];
    auto it = B.in.find(f.bb);
    if (it != B.in.end()) {
      auto& mv = it->second.moves;
      static thread_local std::vector<Val> tmp; tmp.clear();
      for (auto& m : mv) for (unsigned i = 0; i < m.second.n; i++) tmp.push_back(get(m.second, i));
      size_t k = 0;
      for (auto& m : mv) for (unsigned i = 0; i < m.second.n; i++) f.regs[m.first + i] = tmp[k++];
    }
    f.bb = b; f.pc = B.first;
  }
  void nextAfterCall() { // caller frame: continue after call/invoke
    Frame& f = fr();
    Inst& in = f.fn->code[f.pc];
    if (in.isInvoke) jump(in.t0); else f.pc++;
    f.nforkHere = 0;
  }
  void doReturn(const Inst* ret) {
    Frame& f = fr();
    std::vector<Val> rv;
    if (ret && !ret->ops.empty()) for (unsigned i = 0; i < ret->ops[0].n; i++) rv.push_back(get(ret->ops[0], i));
    popStackTo(f.stackMark, f.spMark);
    T().stack.pop_back();
    if (T().stack.empty()) { threadReturn(); return; }
    if (S->inHook && T().stack.size() == hookDepth()) { S->inHook = false; return; }
    Frame& c = fr();
    Inst& in = c.fn->code[c.pc];
    if (in.op == I_BUILTIN) { // a builtin that called back (exception destructor): no result
      nextAfterCall(); return; }
    for (size_t i = 0; i < rv.size() && in.dst >= 0 && i < in.n; i++) c.regs[in.dst + i] = rv[i];
    nextAfterCall();
  }
  size_t hookDepth() { return (size_t)S->kv[0xfffffff1]; }
  void threadReturn() {
    if (S->cur == 0) {
      if (S->initPos < S->initq.size()) { pushFrame(S->initq[S->initPos++], {}, nullptr, nullptr); return; }
      reached["#end"]++;
      throw PathEnd();
    }
    Thread& h = T();
    h.st = T_DONE; h.endVC = h.vc; bump();
    blockAndSwitch();
  }
  void callAddr(uint64_t a, std::vector<Val>& args, std::vector<uint16_t>& ws, const Inst* in) {
    auto it = D.addrFn.find(a);
    if (it == D.addrFn.end()) violation("memory", "call through invalid function pointer " + hex(a));
    Function* F = it->second;
    auto b = BT.find(F->getName().str());
    if (b != BT.end()) { builtin(b->second, *in, args, ws); return; }
    pushFrame(F, args, &ws, in);
  }

  // ------------------------------------------------------------------ exceptions
  Function* fnAt(uint64_t a) { auto it = D.addrFn.find(a); return it == D.addrFn.end() ? nullptr : it->second; }
  std::unordered_map<uint64_t, GlobalVariable*> gvByAddr;
  // does thrown type `ti` match catch type `ct`?  adjusts off
  bool tiMatch(uint64_t ti, uint64_t ct, int64_t& off) {
    if (ti == ct) return true;
    auto it = gvByAddr.find(ti); if (it == gvByAddr.end()) return false;
    auto ct_it = gvByAddr.find(ct);
    if (ct_it != gvByAddr.end() && ct_it->second->getName() == it->second->getName()) return true;
    GlobalVariable* G = it->second;
    if (!G->hasInitializer()) return false;
    auto* CS = dyn_cast<ConstantStruct>(G->getInitializer()); if (!CS) return false;
    unsigned n = CS->getNumOperands();
    if (n == 3 && CS->getOperand(2)->getType()->isPointerTy()) return tiMatch(D.constAddr(CS->getOperand(2)), ct, off);
    if (n >= 5) {
      for (unsigned i = 4; i + 1 < n; i += 2) {
        int64_t fl = cast<ConstantInt>(CS->getOperand(i + 1))->getSExtValue();
        int64_t o2 = off + (fl >> 8);
        if (tiMatch(D.constAddr(CS->getOperand(i)), ct, o2)) { off = o2; return true; }
      }
    }
    return false;
  }
  std::map<uint64_t, int> typeIds;
  int typeId(uint64_t ti) { auto& r = typeIds[ti]; if (!r) r = (int)typeIds.size(); return r; }
  LandingPadInst* lpad(Frame& f) {
    auto* inv = dyn_cast<InvokeInst>(f.fn->code[f.pc].I);
    return inv ? inv->getLandingPadInst() : nullptr;
  }
  // 0 no match, >0 selector
  int lpMatch(LandingPadInst* L, uint64_t ti, uint64_t& adj) {
    for (unsigned i = 0; i < L->getNumClauses(); i++) {
      if (L->isFilter(i)) {
        auto* A = dyn_cast<ConstantArray>(L->getClause(i)); bool allowed = false; int64_t o = 0;
        if (A) for (auto& q : A->operands()) { if (tiMatch(ti, D.constAddr(cast<Constant>(q)), o)) allowed = true; }
        if (!allowed) return -1;
        continue;
      }
      uint64_t ct = D.constAddr(L->getClause(i));
      if (ct == 0) return typeId(0);
      int64_t off = 0;
      if (tiMatch(ti, ct, off)) { adj = off; return typeId(ct); }
    }
    return 0;
  }
  std::string tiName(uint64_t ti) { auto it = gvByAddr.find(ti); return it == gvByAddr.end() ? hex(ti) : demangle(it->second->getName().str()); }
  [[noreturn]] void terminate_(const std::string& why) { violation("terminate", "std::terminate: " + why); }
  void unwind(uint64_t exn) {
    auto& ei = S->exns.at(exn);
    Thread& h = T();
    // phase 1
    bool found = false;
    for (int i = (int)h.stack.size() - 1; i >= 0; i--) {
      Frame& f = h.stack[i];
      if (auto* L = lpad(f)) { uint64_t adj = 0; if (lpMatch(L, ei.ti, adj)) { found = true; break; } }
      if (f.fn->nounwind) break;
    }
    if (!found) terminate_("uncaught exception " + tiName(ei.ti));
    for (;;) {
      Frame& f = fr();
      if (auto* L = lpad(f)) {
        uint64_t adj = 0; int sel = lpMatch(L, ei.ti, adj);
        if (sel || L->isCleanup()) {
          Inst& in = f.fn->code[f.pc];
          jump(in.t1);
          // find the landingpad instruction's slot
          Frame& g = fr();
          Inst& lp = g.fn->code[g.pc];
          if (lp.op != I_LANDING) inconclusive("landingpad not first");
          g.regs[lp.dst] = cv(exn); g.regs[lp.dst + 1] = cv((uint64_t)(uint32_t)sel);
          S->kv[exn ^ 0x5555000000000000ull] = adj;
          g.pc++;
          return;
        }
      }
      popStackTo(f.stackMark, f.spMark);
      h.stack.pop_back();
      if (h.stack.empty()) terminate_("exception left thread function");
    }
  }
  void freeExn(uint64_t exn) {
    for (auto& o : S->heap) if (o.base == exn) { o.alive = false; o.d = DRef(new ObjData()); }
    S->exns.erase(exn);
  }

#include "builtins.h"

  // ------------------------------------------------------------------ step
  void step() {
    Frame& f = fr();
    const Inst& in = f.fn->code[f.pc];
    S->instrs++; totalInstr++;
    switch (in.op) {
      case I_NOP: break;
      case I_RET: doReturn(&in); return;
      case I_BR: jump(in.t0); return;
      case I_CBR: {
        const Val& c = get(in.ops[0]);
        bool b = c.e ? branch(c.e) : (c.c & 1);
        jump(b ? in.t0 : in.t1); fr().nforkHere = 0; S->memoCond = nullptr; return;
      }
      case I_SWITCH: {
        const Val v = get(in.ops[0]);
        if (!v.e) { for (auto& c : in.cases) if ((uint64_t)c.first == v.c) { jump(c.second); return; } jump(in.t0); return; }
        // symbolic: pick by current model, fork the rest
        u128 k = X.eval(v.e, S->as);
        for (auto& c : in.cases) if (c.first == k) {
          // group cases with the same target
          Expr* g = X.F(); for (auto& d : in.cases) if (d.second == c.second) g = X.bin(E_OR, g, X.bin(E_EQ, v.e, X.cst(d.first, in.ops[0].w)));
          if (branch(g)) { jump(c.second); S->memoCond = nullptr; return; }
          throw Retry();
        }
        Expr* none = X.T(); for (auto& d : in.cases) none = X.bin(E_AND, none, X.bnot(X.bin(E_EQ, v.e, X.cst(d.first, in.ops[0].w))));
        if (branch(none)) { jump(in.t0); S->memoCond = nullptr; return; }
        throw Retry();
      }
      case I_UNREACH: violation("unreachable", "execution reached an unreachable statement (undefined behaviour)");
      case I_BIN: {
        for (unsigned i = 0; i < in.n; i++) {
          const Val a = get(in.ops[0], i), b = get(in.ops[1], i);
          if (in.sub >= E_UDIV && in.sub <= E_SREM) {
            Expr* z = X.bin(E_EQ, ex(b, in.w), X.cst(0, in.w));
            if (z->op == E_CONST ? z->val != 0 : branch(z)) violation("arithmetic", "division by zero");
          }
          Val r;
          if (!a.e && !b.e && in.w <= 64) {
            uint64_t m = in.w == 64 ? ~0ull : (1ull << in.w) - 1;
            switch (in.sub) {
              case E_ADD: r = cv((a.c + b.c) & m); break; case E_SUB: r = cv((a.c - b.c) & m); break; case E_AND: r = cv(a.c & b.c); break;
              case E_OR: r = cv(a.c | b.c); break; case E_XOR: r = cv(a.c ^ b.c); break; case E_MUL: r = cv((a.c * b.c) & m); break;
              default: r = cv((uint64_t)ExprCtx::fold((Op)in.sub, in.w, in.w, a.c, b.c));
            }
          } else r = mk(X.bin((Op)in.sub, ex(a, in.w), ex(b, in.w)));
          f.regs[in.dst + i] = r;
        }
        break;
      }
      case I_FBIN: for (unsigned i = 0; i < in.n; i++) f.regs[in.dst + i] = mk(X.bin((Op)in.sub, ex(get(in.ops[0], i), in.w), ex(get(in.ops[1], i), in.w))); break;
      case I_FNEG: for (unsigned i = 0; i < in.n; i++) f.regs[in.dst + i] = mk(X.bin(E_XOR, ex(get(in.ops[0], i), in.w), X.cst((u128)1 << (in.w - 1), in.w))); break;
      case I_ICMP: for (unsigned i = 0; i < in.n; i++) f.regs[in.dst + i] = icmp(in.sub, get(in.ops[0], i), get(in.ops[1], i), in.ops[0].w); break;
      case I_FCMP: for (unsigned i = 0; i < in.n; i++) f.regs[in.dst + i] = fcmp(in.sub, get(in.ops[0], i), get(in.ops[1], i), in.ops[0].w); break;
      case I_CAST: cast_(in); break;
      case I_ALLOCA: {
        uint64_t cnt = concretize(get(in.ops[0]), 64);
        setr(in, cv(stackAlloc(in.imm * cnt, std::max<uint64_t>(in.t0, 1)))); break;
      }
      case I_LOAD: {
        if (in.atomic) { atomHook(in, get(in.ops[0]), 0); schedPoint(); }
        Val p = get(in.ops[0]);
        if (p.e && p.e->op != E_CONST && !in.sub && symLoad(in, p)) { rangeCheck(in); break; } // a symbolic pointer would only be forked on later
        uint64_t a = addrOf(p);
        Frame& g = fr();
        if (in.t0 > 1 && (a & (in.t0 - 1))) violation("memory", "misaligned read at " + hex(a) + " (alignment " + std::to_string(in.t0) + ")");
        if (in.atomic) { acqFrom(a, in.ord); spinCheck(); }
        if (in.ty->leaves.size() == 1) { auto& L = in.ty->leaves[0]; g.regs[in.dst] = loadScalar(a, L.bytes, L.w, in.atomic); rangeCheck(in); }
        else for (size_t i = 0; i < in.ty->leaves.size(); i++) { auto& L = in.ty->leaves[i]; g.regs[in.dst + i] = loadScalar(a + L.off, L.bytes, L.w, in.atomic); }
        break;
      }
      case I_STORE: {
        if (in.atomic) { atomHook(in, get(in.ops[1]), 1); schedPoint(); }
        uint64_t a = addrOf(get(in.ops[1]));
        if (in.t0 > 1 && (a & (in.t0 - 1))) violation("memory", "misaligned write at " + hex(a) + " (alignment " + std::to_string(in.t0) + ")");
        for (size_t i = 0; i < in.ty->leaves.size(); i++) { auto& L = in.ty->leaves[i]; storeScalar(a + L.off, L.bytes, L.w, get(in.ops[0], i), in.atomic); }
        if (in.atomic) { relTo(a, in.ord, false); bump(); }
        break;
      }
      case I_GEP: {
        const Val& b = get(in.ops[0]);
        bool sym = b.e != nullptr;
        for (auto& g : in.gep) if (get(g.o).e) sym = true;
        if (!sym) {
          uint64_t a = b.c + in.imm;
          for (auto& g : in.gep) { uint64_t v = get(g.o).c; if (g.o.w < 64) v = (uint64_t)sextw(v, g.o.w); a += v * g.scale; }
          f.regs[in.dst] = cv(a);
        } else {
          Expr* e = ex(b, 64);
          for (auto& g : in.gep) { Expr* i = X.sext(ex(get(g.o), g.o.w), 64); e = X.bin(E_ADD, e, X.bin(E_MUL, i, X.cst(g.scale, 64))); }
          e = X.bin(E_ADD, e, X.cst(in.imm, 64));
          f.regs[in.dst] = mk(e);
        }
        break;
      }
      case I_SELECT: {
        for (unsigned i = 0; i < in.n; i++) {
          const Val c = get(in.ops[0], in.ops[0].n == 1 ? 0 : i);
          if (!c.e) f.regs[in.dst + i] = get(in.ops[(c.c & 1) ? 1 : 2], i);
          else f.regs[in.dst + i] = mk(X.ite(c.e, ex(get(in.ops[1], i), in.ty->leaves[i].w), ex(get(in.ops[2], i), in.ty->leaves[i].w)));
        }
        break;
      }
      case I_EXTRACTV: for (unsigned i = 0; i < in.n; i++) f.regs[in.dst + i] = get(in.ops[0], in.imm + i); break;
      case I_INSERTV: {
        std::vector<Val> t; for (unsigned i = 0; i < in.n; i++) t.push_back(get(in.ops[0], i));
        for (unsigned i = 0; i < in.ops[1].n; i++) t[in.imm + i] = get(in.ops[1], i);
        for (unsigned i = 0; i < in.n; i++) f.regs[in.dst + i] = t[i];
        break;
      }
      case I_EXTRACTE: { uint64_t k = concretize(get(in.ops[1]), 64); fr().regs[in.dst] = get(in.ops[0], k); break; }
      case I_INSERTE: { uint64_t k = concretize(get(in.ops[2]), 64); std::vector<Val> t; for (unsigned i = 0; i < in.n; i++) t.push_back(get(in.ops[0], i)); t[k] = get(in.ops[1]); for (unsigned i = 0; i < in.n; i++) fr().regs[in.dst + i] = t[i]; break; }
      case I_SHUFFLE: { std::vector<Val> t; int n0 = in.ops[0].n; for (int m : in.mask) t.push_back(m < 0 ? cv(0) : m < n0 ? get(in.ops[0], m) : get(in.ops[1], m - n0)); for (unsigned i = 0; i < in.n; i++) f.regs[in.dst + i] = t[i]; break; }
      case I_FREEZE: for (unsigned i = 0; i < in.n && in.dst >= 0; i++) f.regs[in.dst + i] = get(in.ops[0], i); break;
      case I_LANDING: inconclusive("landingpad executed directly");
      case I_RESUME: unwind2(get(in.ops[0], 0).c); return;
      case I_FENCE: {
        auto o = (AtomicOrdering)in.ord; schedPoint();
        if (o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent) T().vc.join(T().fenceAcqPend);
        if (o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent) { T().fenceRel = T().vc; T().vc.t[S->cur]++; }
        break;
      }
      case I_ARMW: {
        atomHook(in, get(in.ops[0]), 2); schedPoint();
        uint64_t a = addrOf(get(in.ops[0])); auto& L = in.ty->leaves[0];
        acqFrom(a, in.ord);
        Val old = loadScalar(a, L.bytes, L.w, true), v = get(in.ops[1]);
        Expr *x = ex(old, L.w), *y = ex(v, L.w), *r = nullptr;
        switch ((AtomicRMWInst::BinOp)in.sub) {
          case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = X.bin(E_ADD, x, y); break; case AtomicRMWInst::Sub: r = X.bin(E_SUB, x, y); break;
          case AtomicRMWInst::And: r = X.bin(E_AND, x, y); break; case AtomicRMWInst::Or: r = X.bin(E_OR, x, y); break; case AtomicRMWInst::Xor: r = X.bin(E_XOR, x, y); break;
          case AtomicRMWInst::Max: r = X.ite(X.bin(E_SLT, x, y), y, x); break; case AtomicRMWInst::Min: r = X.ite(X.bin(E_SLT, x, y), x, y); break;
          case AtomicRMWInst::UMax: r = X.ite(X.bin(E_ULT, x, y), y, x); break; case AtomicRMWInst::UMin: r = X.ite(X.bin(E_ULT, x, y), x, y); break;
          default: inconclusive("atomicrmw op");
        }
        storeScalar(a, L.bytes, L.w, mk(r), true);
        relTo(a, in.ord, true);
        // an exchange that leaves the value unchanged is not progress for others
        if (!(r == x)) bump(); else spinCheck();
        setr(in, old);
        break;
      }
      case I_CMPXCHG: {
        atomHook(in, get(in.ops[0]), 2); schedPoint();
        uint64_t a = addrOf(get(in.ops[0])); auto& L = in.ty->leaves[0];
        Val old = loadScalar(a, L.bytes, L.w, true);
        Val eq = icmp(CmpInst::ICMP_EQ, old, get(in.ops[1]), L.w);
        bool b = eq.e ? branch(eq.e) : eq.c;
        acqFrom(a, in.ord);
        if (b) { storeScalar(a, L.bytes, L.w, get(in.ops[2]), true); relTo(a, in.ord, true); bump(); }
        else spinCheck();
        Frame& g = fr();
        g.regs[in.dst] = old; g.regs[in.dst + 1] = cv(b);
        break;
      }
      case I_ASM: inlineAsm(in); break;
      case I_UNSUP: { std::string s; raw_string_ostream os(s); in.I->print(os); inconclusive("unsupported instruction:" + os.str()); }
      case I_CALL: {
        std::vector<Val> args; std::vector<uint16_t> ws;
        size_t na = in.ops.size() - (in.callee ? 0 : 1);
        for (size_t i = 0; i < na; i++) for (unsigned k = 0; k < in.ops[i].n; k++) { args.push_back(get(in.ops[i], k)); ws.push_back(in.ops[i].w); }
        if (in.callee) pushFrame(in.callee, args, &ws, &in);
        else { uint64_t a = addrOf(get(in.ops.back())); callAddr(a, args, ws, &in); }
        return;
      }
      case I_BUILTIN: {
        std::vector<Val> args; std::vector<uint16_t> ws;
        for (auto& o : in.ops) { for (unsigned k = 0; k < o.n; k++) args.push_back(get(o, k)); ws.push_back(o.w); }
        builtin(in.builtin, in, args, ws);
        return;
      }
    }
    Frame& g = fr();
    g.pc++; g.nforkHere = 0; S->memoCond = nullptr;
  }
  void unwind2(uint64_t exn) { popResume(); unwind(exn); }
  void popResume() { // resume: leave the current frame, continue in the caller
    Frame& f = fr();
    popStackTo(f.stackMark, f.spMark);
    T().stack.pop_back();
    if (T().stack.empty()) terminate_("exception left thread function");
  }
  void atomHook(const Inst& in, const Val& p, int kind) {
    if (!S->atomHook || S->inHook || T().atomicDepth) return;
    if (S->kv[0xfffffff2] == 1) { S->kv[0xfffffff2] = 0; return; } // hook already ran for this instruction
    S->kv[0xfffffff2] = 1; S->kv[0xfffffff1] = T().stack.size(); S->inHook = true;
    uint64_t a = addrOf(p);
    pushFrame(fnAt(S->atomHook), {cv(a), cv(kind)}, nullptr, nullptr);
    throw Retry();
  }
  Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
      int64_t sa = (int64_t)sextw(a.c, w), sb = (int64_t)sextw(b.c, w);
      switch (pred) {
        case CmpInst::ICMP_EQ: return cv(a.c == b.c); case CmpInst::ICMP_NE: return cv(a.c != b.c);
        case CmpInst::ICMP_UGT: return cv(a.c > b.c); case CmpInst::ICMP_UGE: return cv(a.c >= b.c); case CmpInst::ICMP_ULT: return cv(a.c < b.c); case CmpInst::ICMP_ULE: return cv(a.c <= b.c);
        case CmpInst::ICMP_SGT: return cv(sa > sb); case CmpInst::ICMP_SGE: return cv(sa >= sb); case CmpInst::ICMP_SLT: return cv(sa < sb); default: return cv(sa <= sb);
      }
    }
    Expr *x = ex(a, w), *y = ex(b, w);
    switch (pred) {
      case CmpInst::ICMP_EQ: return mk(X.bin(E_EQ, x, y)); case CmpInst::ICMP_NE: return mk(X.bnot(X.bin(E_EQ, x, y)));
      case CmpInst::ICMP_UGT: return mk(X.bin(E_ULT, y, x)); case CmpInst::ICMP_UGE: return mk(X.bin(E_ULE, y, x)); case CmpInst::ICMP_ULT: return mk(X.bin(E_ULT, x, y)); case CmpInst::ICMP_ULE: return mk(X.bin(E_ULE, x, y));
      case CmpInst::ICMP_SGT: return mk(X.bin(E_SLT, y, x)); case CmpInst::ICMP_SGE: return mk(X.bin(E_SLE, y, x)); case CmpInst::ICMP_SLT: return mk(X.bin(E_SLT, x, y)); default: return mk(X.bin(E_SLE, x, y));
    }
  }
  Val fcmp(unsigned p, const Val& a, const Val& b, unsigned w) {
    Expr *x = ex(a, w), *y = ex(b, w), *un = X.bin(E_FUNO, x, y), *r = X.F();
    if (p == CmpInst::FCMP_TRUE) return cv(1);
    if (p == CmpInst::FCMP_FALSE) return cv(0);
    if (p == CmpInst::FCMP_ORD) return mk(X.bnot(un));
    if (p == CmpInst::FCMP_UNO) return mk(un);
    unsigned q = p & 7; // bits: 1 eq, 2 gt, 4 lt
    if (q & 1) r = X.bin(E_OR, r, X.bin(E_FOEQ, x, y));
    if (q & 2) r = X.bin(E_OR, r, X.bin(E_FOLT, y, x));
    if (q & 4) r = X.bin(E_OR, r, X.bin(E_FOLT, x, y));
    if (p & 8) r = X.bin(E_OR, r, un);
    return mk(r);
  }
  void cast_(const Inst& in) {
    Frame& f = fr();
    if (in.sub == 4) { // bitcast vector <-> scalar through bytes
      std::vector<uint8_t> dummy; Expr* all = nullptr;
      for (unsigned i = 0; i < in.ops[0].n; i++) { Expr* e = ex(get(in.ops[0], i), in.w2); all = all ? X.concat(e, all) : e; if (all->w > 128) inconclusive("wide bitcast"); }
      unsigned lo = 0;
      for (unsigned i = 0; i < in.n; i++) { unsigned w = in.ty->leaves[i].w; f.regs[in.dst + i] = mk(X.extract(all, lo + w - 1, lo)); lo += w; }
      return;
    }
    for (unsigned i = 0; i < in.n; i++) {
      const Val a = get(in.ops[0], i);
      Val r;
      if (!a.e && in.w <= 64 && in.w2 <= 64 && in.sub < 10) {
        switch (in.sub) { case 0: r = cv(in.w == 64 ? a.c : a.c & ((1ull << in.w) - 1)); break; case 1: case 3: r = a; break; default: r = cv((uint64_t)(((u128)sextw(a.c, in.w2)) & maskw(in.w))); }
      } else {
        Expr* e = ex(a, in.w2);
        switch (in.sub) {
          case 0: r = mk(X.extract(e, in.w - 1, 0)); break; case 1: r = mk(X.zext(e, in.w)); break; case 2: r = mk(X.sext(e, in.w)); break; case 3: r = a; break;
          case 10: r = mk(X.un(E_FPTOUI, e, in.w)); break; case 11: r = mk(X.un(E_FPTOSI, e, in.w)); break; case 12: r = mk(X.un(E_UITOFP, e, in.w)); break;
          case 13: r = mk(X.un(E_SITOFP, e, in.w)); break; case 14: r = mk(X.un(E_FPTRUNC, e, in.w)); break; default: r = mk(X.un(E_FPEXT, e, in.w));
        }
      }
      f.regs[in.dst + i] = r;
    }
  }
  void inlineAsm(const Inst& in) {
    auto* A = cast<InlineAsm>(cast<CallBase>(in.I)->getCalledOperand());
    std::string s = A->getAsmString();
    if (s.find("cpuid") != std::string::npos) {
      uint64_t leaf = in.ops.empty() ? 0 : concretize(get(in.ops[0]), 32);
      Frame& f = fr();
      for (unsigned i = 0; i < in.n; i++) {
        Val v = kvVal(0xc0000000ull + (leaf & 0xffff) * 16 + (leaf >> 28) * 0x100000 + i);
        f.regs[in.dst + i] = v.e ? mk(X.extract(v.e, 31, 0)) : cv((uint32_t)v.c);
      }
      return;
    }
    if (s.find("rdtsc") != std::string::npos) {
      Frame& f = fr();
      Val v = kvVal(0xfffffe00);
      if (in.n == 1) f.regs[in.dst] = v;
      else { Expr* e = ex(v, 64); f.regs[in.dst] = mk(X.extract(e, 31, 0)); f.regs[in.dst + 1] = mk(X.extract(e, 63, 32)); if (in.n > 2) f.regs[in.dst + 2] = cv(0);
        if (in.w == 64) { f.regs[in.dst] = mk(X.zext(X.extract(e, 31, 0), 64)); f.regs[in.dst + 1] = mk(X.zext(X.extract(e, 63, 32), 64)); } }
      return;
    }
    if (s.empty() || s == "pause" || s == "nop" || s == "mfence" || s == "lfence") return;
    inconclusive("inline asm: " + s);
  }
  Val kvVal(uint64_t k) { auto j = S->kvE.find(k); if (j != S->kvE.end()) return Val{0, j->second}; auto q = S->kv.find(k); return cv(q == S->kv.end() ? 0 : q->second); }

  // ------------------------------------------------------------------ run
  void setupGlobals(State& st) {
    uint64_t fa = FN_BASE;
    for (auto& F : M) { D.fnAddr[&F] = fa; D.addrFn[fa] = &F; fa += 16; }
    uint64_t gm = GM_BASE, gc = GC_BASE;
    std::vector<std::pair<GlobalVariable*, Obj*>> todo;
    std::vector<GlobalVariable*> ms, cs;
    for (auto& G : M.globals()) {
      if (G.getName().starts_with("llvm.")) { D.gvAddr[&G] = 0x1000; continue; }
      uint64_t sz = DL.getTypeAllocSize(G.getValueType());
      uint64_t al = std::max<uint64_t>(16, G.getAlign().valueOrOne().value());
      bool c = G.isConstant() && G.hasInitializer() && !G.isThreadLocal();
      uint64_t& p = c ? gc : gm;
      p = (p + al - 1) & ~(al - 1);
      D.gvAddr[&G] = p; gvByAddr[p] = &G;
      p += sz + 32;
      (c ? cs : ms).push_back(&G);
    }
    for (auto* G : cs) { Obj* o = newObj(consts, D.gvAddr[G], DL.getTypeAllocSize(G->getValueType()), 0, false); o->ro = true; initGlobal(G, o); }
    for (auto* G : ms) { Obj* o = newObj(st.globals, D.gvAddr[G], DL.getTypeAllocSize(G->getValueType()), 0, false); if (G->hasInitializer()) initGlobal(G, o); }
  }
  void initConst(Constant* C, uint8_t* p) {
    Type* T = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) { return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { memcpy(p, cd->getRawDataValues().data(), cd->getRawDataValues().size()); return; }
    if (auto* A = dyn_cast<ConstantArray>(C)) { uint64_t es = DL.getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initConst(A->getOperand(i), p + i * es); return; }
    if (auto* A = dyn_cast<ConstantStruct>(C)) { auto* L = DL.getStructLayout(A->getType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initConst(A->getOperand(i), p + L->getElementOffset(i)); return; }
    std::vector<Val> v;
    try { D.constVal(C, v); } catch (Unsup& u) { fprintf(stderr, "warning: unsupported global initializer (%s)\n", u.why.c_str()); return; }
    auto* t = D.ty(T);
    for (size_t i = 0; i < v.size(); i++) { u128 x = v[i].e ? v[i].e->val : v[i].c; memcpy(p + t->leaves[i].off, &x, t->leaves[i].bytes); }
  }
  void initGlobal(GlobalVariable* G, Obj* o) { initConst(G->getInitializer(), o->d.p->c.data()); }

  bool run(const std::string& entry) {
    Function* E = M.getFunction(entry);
    if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return false; }
    auto st = std::make_unique<State>();
    setupGlobals(*st);
    st->preempt = defPreempt;
    st->th.resize(1); st->th[0].sp = STK_BASE + 4096; st->th[0].vc.t[0] = 1;
    if (auto* GC = M.getGlobalVariable("llvm.global_ctors")) if (GC->hasInitializer()) if (auto* A = dyn_cast<ConstantArray>(GC->getInitializer())) {
      std::vector<std::pair<uint64_t, Function*>> v;
      for (auto& o : A->operands()) { auto* cs = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& p : v) st->initq.push_back(p.second);
    }
    st->initq.push_back(E);
    S = st.get();
    pushFrame(st->initq[st->initPos++], {}, nullptr, nullptr);
    work.push_back(std::move(st));
    uint64_t tick = 0;
    while (!work.empty()) {
      auto cur = std::move(work.back()); work.pop_back();
      S = cur.get();
      try {
        for (;;) {
          try { for (;;) {
              step();
              if ((++tick & 0xfff) == 0) {
                if (elapsed() > maxTime) { incon = "time limit of " + std::to_string((int)maxTime) + " s reached\n" + stackTrace(); throw PathEnd(); }
                if (S->gseq != S->stallSeq || S->cur != S->stallCur) { S->stallSeq = S->gseq; S->stallCur = S->cur; S->stallAt = S->instrs; }
                if (S->instrs - S->stallAt > 50000000) violation("nontermination", "a thread executed 50000000 instructions without communicating");
                if (S->instrs > maxInstr) violation("nontermination", "path exceeded " + std::to_string(maxInstr) + " instructions");
              }
            } } catch (Retry&) { if (elapsed() > maxTime) { incon = "time limit reached"; throw PathEnd(); } }
        }
      } catch (PathEnd&) { paths++; }
      if ((int)viols.size() >= maxViol || !incon.empty()) break;
    }
    return true;
  }
};

static std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r;
}

int main(int argc, char** argv) {
  std::string file, entry = "xsym_main", out, rep, dump; std::map<std::string, uint64_t> params; double maxTime = 600; int preempt = 2, maxViol = 1; bool verbose = false, prof = false; uint64_t maxInstr = 50000000; unsigned dumpMax = 0; unsigned smtTimeout = 120000;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string { if (i + 1 >= argc) exit(3); return argv[++i]; };
    if (a == "-entry") entry = nx();
    else if (a == "-o") out = nx();
    else if (a == "-p") { auto s = nx(); auto k = s.find('='); params[s.substr(0, k)] = strtoull(s.c_str() + k + 1, nullptr, 0); }
    else if (a == "-time") maxTime = atof(nx().c_str());
    else if (a == "-preempt") preempt = atoi(nx().c_str());
    else if (a == "-viol") maxViol = atoi(nx().c_str());
    else if (a == "-replay") rep = nx();
    else if (a == "-instr") maxInstr = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "-smt-timeout") smtTimeout = atoi(nx().c_str());
    else if (a == "-dump") { dump = nx(); dumpMax = 200; }
    else if (a == "-v") verbose = true;
    else if (a == "-forks") prof = true;
    else file = a;
  }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(file, err, ctx);
  if (!M) { err.print("xsym", errs()); return 3; }
  Engine E(*M);
  E.params = params; E.maxTime = maxTime; E.defPreempt = preempt; E.maxViol = maxViol; E.verbose = verbose; E.profile = prof; E.maxInstr = maxInstr; E.SV.timeoutMs = smtTimeout;
  E.SV.dumpDir = dump; E.SV.dumpMax = dumpMax;
  if (!rep.empty()) {
    E.replay = true; std::ifstream f(rep); std::string l;
    while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; auto k = l.rfind(' '); E.replayVals.push_back({l.substr(0, k), strtoull(l.c_str() + k + 1, nullptr, 0)}); }
  }
  if (!E.run(entry)) return 3;
  if (prof) { std::vector<std::pair<uint64_t, std::string>> v; for (auto& f : E.forkSites) v.push_back({f.second, f.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 12; i++) errs() << "== " << v[i].first << " forks\n" << v[i].second << "\n"; }
  std::ostringstream o;
  o << "{\"entry\":\"" << entry << "\",\"paths\":" << E.paths << ",\"instructions\":" << E.totalInstr << ",\"forks\":" << E.forks
    << ",\"queries\":" << E.SV.st.queries << ",\"sat\":" << E.SV.st.sat << ",\"unsat\":" << E.SV.st.unsat << ",\"unknown\":" << E.SV.st.unknown << ",\"query_cache_hits\":" << E.SV.st.cacheHits
    << ",\"solver_time_s\":" << E.SV.st.time << ",\"max_query_s\":" << E.SV.st.maxTime << ",\"assertions_checked\":" << E.assertsChecked << ",\"assertions_symbolic\":" << E.assertsSym
    << ",\"max_threads\":" << E.maxThreads << ",\"context_switches\":" << E.ctxSwitches << ",\"race_checks\":" << E.raceChecks << ",\"time_s\":" << E.elapsed()
    << ",\"symbolic_vars\":" << E.X.vars.size() << ",\"expr_nodes\":" << E.X.all.size() << ",\"exhausted\":" << (E.work.empty() && E.incon.empty() ? "true" : "false");
  o << ",\"inconclusive\":\"" << jesc(E.incon) << "\",\"reached\":{";
  bool first = true; for (auto& r : E.reached) { o << (first ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second; first = false; }
  o << "},\"functions\":["; first = true;
  for (auto* F : E.executed) { std::string n = demangle(F->getName().str()); if (n.find("xtr::") == std::string::npos) continue; if (n.size() > 140) n = n.substr(0, 140) + "..."; o << (first ? "" : ",") << "\"" << jesc(n) << "\""; first = false; }
  o << "],\"functions_total\":" << E.executed.size() << ",\"samples\":["; first = true;
  for (auto& s : E.samples) { o << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
  o << "],\"violations\":["; first = true;
  for (auto& v : E.viols) {
    o << (first ? "" : ",") << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"stack\":\"" << jesc(v.stack) << "\",\"inputs\":["; first = false;
    bool f2 = true; for (auto& i : v.inputs) { o << (f2 ? "" : ",") << "[\"" << jesc(i.first) << "\"," << i.second << "]"; f2 = false; }
    o << "],\"log\":["; f2 = true; for (auto& l : v.log) { o << (f2 ? "" : ",") << "\"" << jesc(l) << "\""; f2 = false; }
    o << "]}";
  }
  o << "]}\n";
  if (!out.empty()) { std::ofstream f(out); f << o.str(); } else std::cout << o.str();
  if (!E.viols.empty()) return 1;
  if (!E.incon.empty()) { fprintf(stderr, "INCONCLUSIVE: %s\n", E.incon.c_str()); return 2; }
  return 0;
}
