  // (included inside struct Engine) built-in functions: harness API, C++ runtime, llvm intrinsics
  void fin() { S->memoCond = nullptr; nextAfterCall(); }
  void memCopy(uint64_t d, uint64_t s, uint64_t n) { if (!n) return; if (n > (1u << 24)) badAccess(s, n, false); Buf b; readBytes(s, n, b); writeBytes(d, b); }
  void memSet(uint64_t d, Val v, uint64_t n) {
    if (!n) return;
    if (n > (1u << 24)) badAccess(d, n, true);
    Buf b; b.c.resize(n, (uint8_t)v.c);
    if (v.e) { Expr* e = X.extract(v.e, 7, 0); if (e->op == E_CONST) std::fill(b.c.begin(), b.c.end(), (uint8_t)e->val); else b.s.resize(n, SymB{e, 0, 1}); }
    writeBytes(d, b);
  }
  void touchSync(uint64_t a) { uint64_t off, av; Obj* o = find(a, off, av); if (!o) badAccess(a, 1, false); recordAccess(*o, off, 1, false, true); }
  void builtin(int id, const Inst& in, std::vector<Val>& A, std::vector<uint16_t>& W) {
    auto u = [&](size_t i) { return concretize(A[i], 64); };
    auto e1 = [&](size_t i) { return ex(A[i], W[i]); };
    switch (id) {
      case B_U64: setr(in, freshInput(cstr(A[0].c), 64)); break;
      case B_U32: setr(in, freshInput(cstr(A[0].c), 32)); break;
      case B_U16: setr(in, freshInput(cstr(A[0].c), 16)); break;
      case B_U8: setr(in, freshInput(cstr(A[0].c), 8)); break;
      case B_BYTES: { // (ptr, n, name)
        uint64_t p = u(0), n = u(1); std::string nm = cstr(A[2].c);
        for (uint64_t i = 0; i < n; i++) storeScalar(p + i, 1, 8, freshInput(nm, 8));
        break; }
      case B_RANGE: { uint64_t lo = u(1), hi = u(2); Val v = freshInput(cstr(A[0].c), 64, true, lo, hi);
        // as written: the simplifier would use the bounds declared with the variable
        if (v.e) assume(X.raw(E_AND, 1, X.raw(E_ULE, 1, X.cst(lo, 64), v.e, 0, 0), X.raw(E_ULE, 1, v.e, X.cst(hi, 64), 0, 0), 0, 0));
        setr(in, v); break; }
      case B_CHOOSE: { // (name, n): fork over 0..n-1
        std::string nm = cstr(A[0].c); uint64_t n = u(1);
        if (replay) { uint64_t v = nextReplay(nm); S->inputs.push_back({nm, nullptr, v}); setr(in, cv(v)); break; }
        for (uint64_t i = n; i-- > 1;) {
          auto k = clone();
          k->inputs.push_back({nm, nullptr, i});
          State* keep = S; S = k.get(); setr(in, cv(i)); fin(); S = keep;
          work.push_back(std::move(k));
        }
        S->inputs.push_back({nm, nullptr, 0}); setr(in, cv(0)); break; }
      case B_CONCRETIZE: setr(in, cv(concretize(A[0], 64))); break;
      case B_ASSUME: if (A[0].e) assume(X.bnot(X.bin(E_EQ, A[0].e, X.cst(0, A[0].e->w)))); else if (!A[0].c) throw PathEnd(); break;
      case B_ASSERT: { std::string m = cstr(A[1].c); if (A[0].e) checkAssert(X.bnot(X.bin(E_EQ, A[0].e, X.cst(0, A[0].e->w))), "assert", m); else { assertsChecked++; if (!A[0].c) violation("assert", m); } break; }
      case B_FAIL: violation("assert", cstr(A[0].c));
      case B_REACH: { auto l = cstr(A[0].c); if (!reached[l]++ && samples.size() < 12) { std::string s = l + ":"; X.evalBegin(); size_t n = 0; for (auto& i : S->inputs) { if (n++ > 24) { s += " ..."; break; } s += " " + i.name + "=" + std::to_string(i.e ? (uint64_t)X.evalRec(i.e, S->as) : i.c); } samples.push_back(s); } break; }
      case B_END: reached["#end"]++; throw PathEnd();
      case B_SPAWN: {
        if (S->th.size() >= NT) inconclusive("too many threads");
        uint64_t fp = u(0); Function* F = fnAt(fp); if (!F) inconclusive("bad thread function");
        Val arg = A[1];
        int me = S->cur, nt = S->th.size();
        S->th.emplace_back(); Thread& h = S->th.back();
        h.sp = STK_BASE + nt * STK_SZ + 4096; h.vc = S->th[me].vc; h.vc.t[nt] = 1; S->th[me].vc.t[me]++;
        S->mt = true; maxThreads = std::max<unsigned>(maxThreads, nt + 1);
        S->cur = nt; pushFrame(F, {arg}, nullptr, nullptr); S->cur = me;
        bump(); setr(in, cv(nt)); break; }
      case B_JOIN: { uint64_t t = u(0); if (t >= S->th.size()) inconclusive("join"); if (S->th[t].st != T_DONE) { T().st = T_JOIN; T().waitAddr = t; blockAndSwitch(); } T().vc.join(S->th[t].endVC); break; }
      case B_SELF: setr(in, cv(S->cur)); break;
      case B_NTHREADS: { uint64_t n = 0; for (auto& h : S->th) if (h.st != T_DONE) n++; setr(in, cv(n)); break; }
      case B_YIELD: schedPoint(); break;
      case B_MLOCK: case B_MTRYLOCK: {
        schedPoint(); uint64_t a = u(0); touchSync(a);
        auto& m = S->mutexes[a];
        if (m.owner >= 0) {
          if (id == B_MTRYLOCK) { setr(in, cv(0)); break; }
          if (m.owner == S->cur) violation("deadlock", "mutex locked again by the thread that owns it");
          T().st = T_MUTEX; T().waitAddr = a; T().schedOk = true; blockAndSwitch();
        }
        m.owner = S->cur; T().vc.join(m.vc); if (id == B_MTRYLOCK) setr(in, cv(1)); break; }
      case B_MUNLOCK: { uint64_t a = u(0); touchSync(a); auto& m = S->mutexes[a]; if (m.owner != S->cur) violation("assert", "mutex unlocked by a thread that does not own it");
        m.owner = -1; m.vc = T().vc; T().vc.t[S->cur]++; bump(); break; }
      case B_HOLDS: { auto it = S->mutexes.find(u(0)); setr(in, cv(it == S->mutexes.end() || it->second.owner < 0 ? 0 : it->second.owner + 1)); break; }
      case B_CVWAIT: { uint64_t c = u(0), a = u(1); Thread& h = T();
        if (h.cvWoken) { h.cvWoken = false; auto& m = S->mutexes[a]; if (m.owner >= 0) inconclusive("cv relock"); m.owner = S->cur; h.vc.join(m.vc); break; }
        touchSync(c); auto& m = S->mutexes[a]; if (m.owner != S->cur) violation("assert", "condition wait without holding the mutex");
        m.owner = -1; m.vc = h.vc; h.vc.t[S->cur]++; bump(); h.st = T_CV; h.waitAddr = c; h.waitAddr2 = a; blockAndSwitch(); }
      case B_CVNOTIFY: { schedPoint(); uint64_t c = u(0), all = u(1); touchSync(c);
        for (auto& h : S->th) if (h.st == T_CV && h.waitAddr == c && !h.cvWoken) { h.cvWoken = true; if (!all) break; }
        bump(); break; }
      case B_QUIESCE: { Thread& h = T(); if (!S->mt) break; if (h.cvWoken) { h.cvWoken = false; h.schedOk = false; for (auto& o : S->th) h.vc.join(o.vc); break; } h.st = T_QUIESCE; blockAndSwitch(); }
      case B_SETPREEMPT: S->preempt = (int)u(0); break;
      case B_SETSPURIOUS: S->spurious = (int)u(0); break;
      case B_SETSPIN: S->spinLimit = (unsigned)u(0); break;
      case B_NOWAIT: T().nowait = (unsigned)u(0); break;
      case B_ATOMBEGIN: T().atomicDepth++; break;
      case B_ATOMEND: T().atomicDepth--; break;
      case B_PROGRESS: bump(); break;
      case B_MALLOC: setr(in, cv(heapAlloc(u(0), u(1), (uint8_t)u(2)))); break;
      case B_MSIZE: { Obj* o = bs(S->heap, u(0)); setr(in, cv(o ? o->size : 0)); break; }
      case B_FREE: {
        uint64_t p = u(0), tag = u(1); if (!p) break;
        Obj* o = p >= HEAP_BASE && p < VM_BASE ? bs(S->heap, p) : nullptr;
        if (!o || o->base != p) violation("memory", "free of a pointer that is not the start of a heap block: " + hex(p));
        if (!o->alive) violation("memory", "double free");
        if (o->tag != tag) violation("memory", "mismatched allocation and deallocation functions");
        checkFreeRace(*o);
        o->alive = false; o->d = DRef(new ObjData()); break; }
      case B_VALID: { uint64_t p = u(0), n = u(1), q = 0; bool ok = true; while (q < n) { uint64_t off, av; Obj* o = find(p + q, off, av); if (!o) { ok = false; break; } q += std::max<uint64_t>(1, av); } setr(in, cv(ok)); break; }
      case B_STACKINFO: { uint64_t p = u(0); setr(in, cv(p >= STK_BASE ? 1 + (p - STK_BASE) / STK_SZ : 0)); break; }
      case B_HEAPMARK: setr(in, cv(S->heap.size())); break;
      case B_HEAPLIVE: { uint64_t m = u(0), n = 0; for (size_t i = m; i < S->heap.size(); i++) if (S->heap[i].alive) n++; setr(in, cv(n)); break; }
      case B_VMOBJ: { uint64_t sz = u(0); Obj* o = newObj(S->vmobjs, 0, sz, 3, false); (void)o; setr(in, cv(S->vmobjs.size() - 1)); break; }
      case B_VMRESERVE: { uint64_t n = u(0); uint64_t a = S->vmTop; S->vmTop += n + 0x10000; S->vmTop = (S->vmTop + 0xffff) & ~0xffffull; setr(in, cv(a)); break; }
      case B_VMMAP: { uint64_t a = u(0), n = u(1), o = u(2), off = u(3); vmUnmap(a, n); S->vmas[a] = VMA{n, (int)(int64_t)o, off}; break; }
      case B_VMUNMAP: vmUnmap(u(0), u(1)); break;
      case B_VMQUERY: { uint64_t a = u(0); auto it = S->vmas.upper_bound(a); uint64_t r = 0; if (it != S->vmas.begin()) { --it; if (a < it->first + it->second.len) r = it->second.obj < 0 ? 1 : (((uint64_t)it->second.obj + 1) << 32) + it->second.off + (a - it->first) + 1; } setr(in, cv(r)); break; }
      case B_VMLIVE: { uint64_t n = 0; for (auto& v : S->vmas) n += v.second.len; setr(in, cv(n)); break; }
      case B_HAVOC: { uint64_t p = u(0), n = u(1); Buf b; b.c.resize(n); b.s.resize(n, SymB{UNDEFB, 0, 0}); writeBytes(p, b); break; }
      case B_LOG: S->log.push_back(cstr(A[0].c)); if (verbose) fprintf(stderr, "[%d] %s\n", S->cur, S->log.back().c_str()); break;
      case B_LOGU64: { std::string s = cstr(A[0].c) + "=" + (A[1].e ? X.str(A[1].e) : std::to_string(A[1].c)); if (s.size() > 400) s.resize(400); S->log.push_back(s); if (verbose) fprintf(stderr, "[%d] %s\n", S->cur, s.c_str()); break; }
      case B_PARAM: { auto it = params.find(cstr(A[0].c)); setr(in, it == params.end() ? A[1] : cv(it->second)); break; }
      case B_ISSYM: setr(in, cv(A[0].e != nullptr)); break;
      case B_HOOK: S->atomHook = u(0); break;
      case B_KVGET: setr(in, kvVal(u(0))); break;
      case B_KVSET: { uint64_t k = u(0); if (A[1].e) S->kvE[k] = A[1].e; else { S->kvE.erase(k); S->kv[k] = A[1].c; } break; }
      case B_ITE: { if (!A[0].e) setr(in, A[0].c ? A[1] : A[2]); else setr(in, mk(X.ite(X.bnot(X.bin(E_EQ, A[0].e, X.cst(0, A[0].e->w))), ex(A[1], 64), ex(A[2], 64)))); break; }
      case B_IMPLIED: { if (!A[0].e) { setr(in, cv(A[0].c != 0)); break; } Expr* c = X.bin(E_EQ, A[0].e, X.cst(0, A[0].e->w)); auto as = S->as; int r = SV.check(S->pc, c, as); if (r < 0) inconclusive("unknown"); setr(in, cv(r == 0)); break; }
      // ---- C++ runtime
      case B_CXA_ALLOC: { uint64_t p = heapAlloc(u(0), 16, 77); setr(in, cv(p)); break; }
      case B_CXA_FREE: freeExn(u(0)); break;
      case B_CXA_THROW: { uint64_t p = u(0); S->exns[p] = ExnInfo{u(1), u(2), 0}; if (verbose) fprintf(stderr, "throw %s\n%s", tiName(A[1].c).c_str(), stackTrace().c_str()); S->memoCond = nullptr; unwind(p); return; }
      case B_CXA_RETHROW: { Thread& h = T(); if (h.caught.empty()) terminate_("rethrow without exception"); uint64_t p = h.caught.back().exn; S->exns[p].handlers = -1; S->memoCond = nullptr; unwind(p); return; }
      case B_CXA_GETPTR: { uint64_t p = u(0); setr(in, cv(p + S->kv[p ^ 0x5555000000000000ull])); break; }
      case B_CXA_BEGIN: { uint64_t p = u(0); auto it = S->exns.find(p); if (it == S->exns.end()) inconclusive("begin_catch"); it->second.handlers = 1; T().caught.push_back({p, 1}); setr(in, cv(p + S->kv[p ^ 0x5555000000000000ull])); break; }
      case B_CXA_END: {
        Thread& h = T(); if (h.caught.empty()) inconclusive("end_catch"); uint64_t p = h.caught.back().exn; h.caught.pop_back();
        auto it = S->exns.find(p); if (it == S->exns.end()) break;
        if (it->second.handlers == -1) break;
        bool more = false; for (auto& c : h.caught) if (c.exn == p) more = true;
        if (more) break;
        uint64_t d = it->second.dtor;
        S->exns.erase(it);
        if (d && fnAt(d)) { S->memoCond = nullptr; pushFrame(fnAt(d), {cv(p)}, nullptr, nullptr); return; } // exception memory itself is left allocated (tag 77)
        break; }
      case B_GUARD_ACQ: { schedPoint(); uint64_t a = u(0); Val v = loadScalar(a, 1, 8, true); if (!v.e && (v.c & 1)) { acqFrom(a, (uint8_t)AtomicOrdering::Acquire); setr(in, cv(0)); break; }
        auto& m = S->mutexes[a]; if (m.owner >= 0) { if (m.owner == S->cur) violation("deadlock", "recursive static initialisation"); T().st = T_MUTEX; T().waitAddr = a; T().schedOk = true; blockAndSwitch(); }
        m.owner = S->cur; T().vc.join(m.vc); setr(in, cv(1)); break; }
      case B_GUARD_REL: { uint64_t a = u(0); storeScalar(a, 1, 8, cv(1), true); relTo(a, (uint8_t)AtomicOrdering::Release, false); auto& m = S->mutexes[a]; m.owner = -1; m.vc = T().vc; T().vc.t[S->cur]++; bump(); break; }
      case B_ATEXIT: setr(in, cv(0)); break;
      case B_TERMINATE: terminate_("called");
      case B_PUREV: violation("memory", "pure virtual function called");
      // ---- memory
      case B_MEMCPY: case B_MEMMOVE: case B_I_MEMCPY: case B_I_MEMMOVE: { uint64_t n = u(2); if (n) { uint64_t d = u(0), s = u(1); memCopy(d, s, n); } if (in.dst >= 0) setr(in, A[0]); break; }
      case B_MEMSET: case B_I_MEMSET: { uint64_t n = u(2); if (n) memSet(u(0), A[1], n); if (in.dst >= 0) setr(in, A[0]); break; }
      case B_STRLEN: { uint64_t p = u(0), n = 0; for (;; n++) { Val v = loadScalar(p + n, 1, 8); bool z = v.e ? branch(X.bin(E_EQ, v.e, X.cst(0, 8))) : v.c == 0; if (z) break; } setr(in, cv(n)); break; }
      case B_MEMCMP: {
        uint64_t n = u(2), r0 = 0; if (!n) { setr(in, cv(0)); break; }
        uint64_t p = u(0), q = u(1); Buf a, b; readBytes(p, n, a); readBytes(q, n, b);
        if (!a.s.empty()) fixUndef(p, a); if (!b.s.empty()) fixUndef(q, b);
        if (a.s.empty() && b.s.empty()) { int r = memcmp(a.c.data(), b.c.data(), n); r0 = (uint32_t)(r < 0 ? -1 : r > 0 ? 1 : 0); setr(in, cv(r0)); break; }
        Expr* r = X.cst(0, 32);
        for (uint64_t i = n; i-- > 0;) { Expr *x = byteExpr(a, i), *y = byteExpr(b, i); r = X.ite(X.bin(E_EQ, x, y), r, X.ite(X.bin(E_ULT, x, y), X.cst(0xffffffff, 32), X.cst(1, 32))); }
        setr(in, mk(r)); break; }
      case B_MEMCHR: { uint64_t p = u(0), n = u(2), r = 0; Expr* c = X.extract(ex(A[1], 32), 7, 0); for (uint64_t i = 0; i < n; i++) { Val v = loadScalar(p + i, 1, 8); Expr* q = X.bin(E_EQ, ex(v, 8), c); if (branch(q)) { r = p + i; break; } } setr(in, cv(r)); break; }
      // ---- intrinsics
      case B_I_EXPECT: case B_I_IDENT: setr(in, A[0]); break;
      case B_I_UMAX: setr(in, mk(X.ite(X.bin(E_ULT, e1(0), e1(1)), e1(1), e1(0)))); break;
      case B_I_UMIN: setr(in, mk(X.ite(X.bin(E_ULT, e1(0), e1(1)), e1(0), e1(1)))); break;
      case B_I_SMAX: setr(in, mk(X.ite(X.bin(E_SLT, e1(0), e1(1)), e1(1), e1(0)))); break;
      case B_I_SMIN: setr(in, mk(X.ite(X.bin(E_SLT, e1(0), e1(1)), e1(0), e1(1)))); break;
      case B_I_ABS: setr(in, mk(X.ite(X.bin(E_SLT, e1(0), X.cst(0, in.w)), X.bin(E_SUB, X.cst(0, in.w), e1(0)), e1(0)))); break;
      case B_I_CTLZ: {
        Expr* x = e1(0); unsigned w = in.w;
        if (w <= 64 && x->bd && X.range(x) && x->ulo) {           // known to be within a few powers of two: case by case
          unsigned hi = 0, lo = 0; while (hi + 1 < w && (x->uhi >> (hi + 1))) hi++; while (lo + 1 < w && (x->ulo >> (lo + 1))) lo++;
          Expr *y = x->op == E_OR && X.isC(x->b) && x->b->val == 1 ? x->a : x, *r = X.cst(w - 1 - lo, w);
          for (unsigned i = lo + 1; i <= hi; i++) r = X.ite(X.bin(E_ULT, y, X.cst((u128)1 << i, w)), r, X.cst(w - 1 - i, w));
          setr(in, cv(concretize(mk(r), w))); break;
        }
        Expr* r = X.cst(w, w); for (unsigned i = 0; i < w; i++) r = X.ite(X.extract(x, i, i), X.cst(w - 1 - i, w), r); setr(in, mk(r)); break; }
      case B_I_CTTZ: { Expr* x = e1(0); unsigned w = in.w; Expr* r = X.cst(w, w); for (int i = w - 1; i >= 0; i--) r = X.ite(X.extract(x, i, i), X.cst(i, w), r); setr(in, mk(r)); break; }
      case B_I_CTPOP: { Expr* x = e1(0); unsigned w = in.w; Expr* r = X.cst(0, w); for (unsigned i = 0; i < w; i++) r = X.bin(E_ADD, r, X.zext(X.extract(x, i, i), w)); setr(in, mk(r)); break; }
      case B_I_BSWAP: { Expr* x = e1(0); Expr* r = X.extract(x, 7, 0); for (unsigned i = 1; i < in.w / 8u; i++) r = X.concat(r, X.extract(x, i * 8 + 7, i * 8)); setr(in, mk(r)); break; }
      case B_I_FSHL: case B_I_FSHR: { unsigned w = in.w; if (w > 64) inconclusive("fsh"); Expr* cc = X.concat(e1(0), e1(1)); Expr* s = X.zext(X.bin(E_UREM, e1(2), X.cst(w, w)), 2 * w);
        Expr* r = id == B_I_FSHL ? X.extract(X.bin(E_SHL, cc, s), 2 * w - 1, w) : X.extract(X.bin(E_LSHR, cc, s), w - 1, 0); setr(in, mk(r)); break; }
      case B_I_UADDS: { Expr* r = X.bin(E_ADD, e1(0), e1(1)); setr(in, mk(X.ite(X.bin(E_ULT, r, e1(0)), X.cst(~(u128)0, in.w), r))); break; }
      case B_I_USUBS: setr(in, mk(X.ite(X.bin(E_ULT, e1(0), e1(1)), X.cst(0, in.w), X.bin(E_SUB, e1(0), e1(1))))); break;
      case B_I_UADDO: { Expr* r = X.bin(E_ADD, e1(0), e1(1)); set2(in, r, X.bin(E_ULT, r, e1(0))); break; }
      case B_I_USUBO: { Expr* r = X.bin(E_SUB, e1(0), e1(1)); set2(in, r, X.bin(E_ULT, e1(0), e1(1))); break; }
      case B_I_UMULO: { unsigned w = in.w; if (w > 64) inconclusive("mulo"); Expr* p = X.bin(E_MUL, X.zext(e1(0), 2 * w), X.zext(e1(1), 2 * w)); set2(in, X.extract(p, w - 1, 0), X.bnot(X.bin(E_EQ, X.extract(p, 2 * w - 1, w), X.cst(0, w)))); break; }
      case B_I_SADDO: case B_I_SSUBO: case B_I_SMULO: { unsigned w = in.w; if (w > 64) inconclusive("sovf"); Expr *a = X.sext(e1(0), 2 * w), *b = X.sext(e1(1), 2 * w); Expr* p = X.bin(id == B_I_SADDO ? E_ADD : id == B_I_SSUBO ? E_SUB : E_MUL, a, b); Expr* r = X.extract(p, w - 1, 0); set2(in, r, X.bnot(X.bin(E_EQ, X.sext(r, 2 * w), p))); break; }
      case B_I_FABS: setr(in, mk(X.bin(E_AND, e1(0), X.cst(maskw(in.w - 1), in.w)))); break;
      case B_I_FMULADD: setr(in, mk(X.bin(E_FADD, X.bin(E_FMUL, e1(0), e1(1)), e1(2)))); break;
      case B_I_FLOOR: case B_I_CEIL: case B_I_TRUNCF: case B_I_ROUND: { if (A[0].e) inconclusive("symbolic rounding"); double d = bits2d(A[0].c, in.w); d = id == B_I_FLOOR ? floor(d) : id == B_I_CEIL ? ceil(d) : id == B_I_TRUNCF ? trunc(d) : round(d); setr(in, cv((uint64_t)d2bits(d, in.w))); break; }
      case B_I_TRAP: violation("trap", "trap instruction reached");
      case B_I_TYPEID: setr(in, cv(typeId(A[0].c))); break;
      case B_I_STACKSAVE: setr(in, cv(0)); break;
      case B_I_VASTART: {
        Frame& f = fr(); uint64_t ap = u(0); size_t n = f.varargs.size();
        uint64_t area = stackAlloc(std::max<size_t>(8, n * 8), 16);
        for (size_t i = 0; i < n; i++) storeScalar(area + 8 * i, 8, 64, f.varargs[i].e ? mk(X.zext(f.varargs[i].e, 64)) : f.varargs[i]);
        storeScalar(ap, 4, 32, cv(48)); storeScalar(ap + 4, 4, 32, cv(176)); storeScalar(ap + 8, 8, 64, cv(area)); storeScalar(ap + 16, 8, 64, cv(0));
        break; }
      case B_I_VACOPY: memCopy(u(0), u(1), 24); break;
      case B_I_TLS: { uint64_t g = A[0].c; auto it = gvByAddr.find(g); if (it == gvByAddr.end()) inconclusive("tls"); auto* G = it->second;
        auto& m = T().tls; auto q = m.find(G); if (q == m.end()) { uint64_t sz = DL.getTypeAllocSize(G->getValueType()); uint64_t a = heapAlloc(sz, std::max<uint64_t>(16, G->getAlign().valueOrOne().value()), 88); Obj& o = S->heap.back(); o.d->s.clear(); std::fill(o.d->c.begin(), o.d->c.end(), 0); if (G->hasInitializer()) initConst(G->getInitializer(), o.d->c.data()); q = m.emplace(G, a).first; }
        setr(in, cv(q->second)); break; }
      case B_I_ISCONST: setr(in, cv(0)); break;
      case B_I_OBJSIZE: setr(in, cv(A[1].c ? 0 : ~0ull)); break;
      case B_I_PAUSE: break;
      case B_I_RDTSC: setr(in, kvVal(0xfffffe00)); break;
      default: inconclusive("builtin");
    }
    fin();
  }
  void set2(const Inst& in, Expr* a, Expr* b) { fr().regs[in.dst] = mk(a); fr().regs[in.dst + 1] = mk(b); }
  void vmUnmap(uint64_t a, uint64_t n) {
    uint64_t e = a + n;
    std::vector<std::pair<uint64_t, VMA>> add; std::vector<uint64_t> del;
    for (auto& kv : S->vmas) {
      uint64_t s = kv.first, t = s + kv.second.len;
      if (t <= a || s >= e) continue;
      if (kv.second.obj >= 0) checkVmRace(kv.second, std::max(s, a) - s + kv.second.off, std::min(t, e) - std::max(s, a));
      del.push_back(s);
      if (s < a) add.push_back({s, VMA{a - s, kv.second.obj, kv.second.off}});
      if (t > e) add.push_back({e, VMA{t - e, kv.second.obj, kv.second.off + (e - s)}});
    }
    for (auto d : del) S->vmas.erase(d);
    for (auto& p : add) S->vmas[p.first] = p.second;
  }
  void checkVmRace(const VMA& v, uint64_t, uint64_t) { checkFreeRace(S->vmobjs[v.obj]); }
