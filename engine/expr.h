// xsym expression layer: hash-consed bit-vector DAG, simplifying builder,
// concrete evaluator, and a solver front end (constraint slicing, caching, Z3).
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR,
  E_XOR, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_CONCAT,
  E_EXTRACT, E_ZEXT, E_SEXT,
  // floating point on IEEE bit patterns
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FOLT, E_FOLE, E_FOEQ, E_FUNO,
  E_FPTOUI, E_FPTOSI, E_UITOFP, E_SITOFP, E_FPTRUNC, E_FPEXT
};

struct Expr {
  Op op; uint16_t w; uint32_t id;
  Expr *a, *b, *c;
  u128 val;                       // constant value / extract low bit / var index
  const std::vector<uint32_t>* vars;
  Z3_ast z; bool fp;
  // evaluation memo
  uint32_t stamp; u128 ev;
  // value range (see ExprCtx::range); bd: mentions a variable with declared bounds
  uint8_t rk; bool bd; i128 slo, shi; u128 ulo, uhi;
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}
static inline double bits2d(u128 v, unsigned w) {
  if (w == 32) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; }
  double d; uint64_t x = (uint64_t)v; memcpy(&d, &x, 8); return d;
}
static inline u128 d2bits(double d, unsigned w) {
  if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
  uint64_t x; memcpy(&x, &d, 8); return x;
}

struct VarInfo { std::string name; unsigned w; Expr* e; bool bounded; uint64_t lo, hi; };

struct ExprCtx {
  struct Key { Op op; uint16_t w; Expr *a, *b, *c; u128 v;
    bool operator==(const Key& o) const { return op==o.op&&w==o.w&&a==o.a&&b==o.b&&c==o.c&&v==o.v; } };
  struct KH { size_t operator()(const Key& k) const {
    size_t h = k.op * 1000003u + k.w;
    auto mix = [&](size_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
    mix((size_t)k.a); mix((size_t)k.b); mix((size_t)k.c); mix((size_t)k.v); mix((size_t)(k.v >> 64));
    return h; } };
  std::unordered_map<Key, Expr*, KH> tab;
  std::vector<VarInfo> vars;
  std::unordered_map<std::string, Expr*> varByName;
  std::vector<uint32_t> emptySet;
  std::vector<Expr*> all;
  uint32_t gen = 1;

  Expr* raw(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u128 v) {
    Key k{op, (uint16_t)w, a, b, c, v};
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    Expr* e = new Expr();
    e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->val = v; e->id = all.size();
    e->z = nullptr; e->stamp = 0; e->ev = 0;
    e->rk = 0; e->bd = op == E_VAR ? vars[(size_t)v].bounded : (a && a->bd) || (b && b->bd) || (c && c->bd);
    e->fp = op >= E_FADD || (a && a->fp) || (b && b->fp) || (c && c->fp);
    if (op == E_VAR) e->vars = new std::vector<uint32_t>{(uint32_t)v};
    else {
      const std::vector<uint32_t>* s = a ? a->vars : &emptySet;
      auto merge = [&](Expr* x) {
        if (!x || x->vars == s || x->vars->empty()) return;
        if (s->empty()) { s = x->vars; return; }
        if (std::includes(s->begin(), s->end(), x->vars->begin(), x->vars->end())) return;
        auto* r = new std::vector<uint32_t>();
        std::set_union(s->begin(), s->end(), x->vars->begin(), x->vars->end(), std::back_inserter(*r));
        s = r;
      };
      merge(b); merge(c);
      e->vars = s;
    }
    all.push_back(e);
    tab.emplace(k, e);
    return e;
  }
  Expr* cst(u128 v, unsigned w) { return raw(E_CONST, w, 0, 0, 0, v & maskw(w)); }
  // A variable; with bounds, every path that uses it also carries the constraint (see xsym_range)
  Expr* var(const std::string& name, unsigned w, bool bounded = false, uint64_t lo = 0, uint64_t hi = 0) {
    auto key = name + ":" + std::to_string(w);
    if (bounded) key += ":" + std::to_string(lo) + ":" + std::to_string(hi);
    auto it = varByName.find(key);
    if (it != varByName.end()) return it->second;
    vars.push_back({name, w, nullptr, bounded, lo, hi});
    Expr* e = raw(E_VAR, w, 0, 0, 0, vars.size() - 1);
    vars.back().e = e;
    varByName[key] = e;
    return e;
  }
  static bool isC(Expr* e) { return e->op == E_CONST; }
  Expr* T() { return cst(1, 1); }
  Expr* F() { return cst(0, 1); }

  static u128 fold(Op op, unsigned w, unsigned aw, u128 x, u128 y) {
    u128 m = maskw(w);
    switch (op) {
      case E_ADD: return (x + y) & m;
      case E_SUB: return (x - y) & m;
      case E_MUL: return (x * y) & m;
      case E_UDIV: return y == 0 ? m : (x / y) & m;
      case E_UREM: return y == 0 ? x : (x % y) & m;
      case E_SDIV: { i128 a = sextw(x, aw), b = sextw(y, aw);
        if (b == 0) return (a < 0 ? 1 : m); if (b == -1) return ((u128)0 - (u128)a) & m; return ((u128)(a / b)) & m; }
      case E_SREM: { i128 a = sextw(x, aw), b = sextw(y, aw);
        if (b == 0) return x; if (b == -1) return 0; return ((u128)(a % b)) & m; }
      case E_AND: return x & y; case E_OR: return x | y; case E_XOR: return x ^ y;
      case E_SHL: return y >= w ? 0 : (x << (unsigned)y) & m;
      case E_LSHR: return y >= w ? 0 : (x >> (unsigned)y);
      case E_ASHR: { i128 a = sextw(x, aw); unsigned s = y >= w ? w - 1 : (unsigned)y; return ((u128)(a >> s)) & m; }
      case E_EQ: return x == y; case E_ULT: return x < y; case E_ULE: return x <= y;
      case E_SLT: return sextw(x, aw) < sextw(y, aw); case E_SLE: return sextw(x, aw) <= sextw(y, aw);
      case E_FADD: return fpop(op, aw, x, y); case E_FSUB: return fpop(op, aw, x, y);
      case E_FMUL: return fpop(op, aw, x, y); case E_FDIV: return fpop(op, aw, x, y);
      case E_FOLT: return bits2d(x, aw) < bits2d(y, aw); case E_FOLE: return bits2d(x, aw) <= bits2d(y, aw);
      case E_FOEQ: return bits2d(x, aw) == bits2d(y, aw);
      case E_FUNO: return std::isnan(bits2d(x, aw)) || std::isnan(bits2d(y, aw));
      default: abort();
    }
  }
  static u128 fpop(Op op, unsigned w, u128 x, u128 y) {
    if (w == 32) {
      float a = (float)bits2d(x, 32), b = (float)bits2d(y, 32), r = 0;
      switch (op) { case E_FADD: r = a + b; break; case E_FSUB: r = a - b; break; case E_FMUL: r = a * b; break; default: r = a / b; }
      return d2bits(r, 32);
    }
    double a = bits2d(x, 64), b = bits2d(y, 64), r = 0;
    switch (op) { case E_FADD: r = a + b; break; case E_FSUB: r = a - b; break; case E_FMUL: r = a * b; break; default: r = a / b; }
    return d2bits(r, 64);
  }
  static u128 fold1(Op op, unsigned w, unsigned aw, u128 x, u128 lo) {
    switch (op) {
      case E_EXTRACT: return (x >> (unsigned)lo) & maskw(w);
      case E_ZEXT: return x;
      case E_SEXT: return ((u128)sextw(x, aw)) & maskw(w);
      case E_FPTOUI: { double d = bits2d(x, aw); if (!(d > -1.0 && d < 18446744073709551616.0)) return 0; return (u128)(uint64_t)d & maskw(w); }
      case E_FPTOSI: { double d = bits2d(x, aw); if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0; return (u128)(i128)(int64_t)d & maskw(w); }
      case E_UITOFP: return w == 32 ? d2bits((float)(uint64_t)x, 32) : d2bits((double)(uint64_t)x, 64);
      case E_SITOFP: return w == 32 ? d2bits((float)(int64_t)sextw(x, aw), 32) : d2bits((double)(int64_t)sextw(x, aw), 64);
      case E_FPTRUNC: case E_FPEXT: return d2bits(bits2d(x, aw), w);
      default: abort();
    }
  }

  // ---- linear normal form: sum of coefficient*term + constant, modulo 2^w
  typedef std::vector<std::pair<Expr*, u128>> Lin;
  void linCollect(Expr* e, u128 k, Lin& t, u128& c, int depth = 0) {
    if (isC(e)) { c += k * e->val; return; }
    if (depth < 40) {
      if (e->op == E_ADD) { linCollect(e->a, k, t, c, depth + 1); linCollect(e->b, k, t, c, depth + 1); return; }
      if (e->op == E_SUB) { linCollect(e->a, k, t, c, depth + 1); linCollect(e->b, (u128)0 - k, t, c, depth + 1); return; }
      if (e->op == E_MUL && isC(e->b)) { linCollect(e->a, k * e->b->val, t, c, depth + 1); return; }
    }
    t.push_back({e, k});
  }
  void linNorm(Lin& t, u128& c, unsigned w) {
    u128 M = maskw(w);
    std::sort(t.begin(), t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
    size_t o = 0;
    for (size_t i = 0; i < t.size();) {
      size_t j = i; u128 k = 0;
      while (j < t.size() && t[j].first == t[i].first) k += t[j++].second;
      k &= M;
      if (k) t[o++] = {t[i].first, k};
      i = j;
    }
    t.resize(o); c &= M;
  }
  static bool linNeg(u128 k, unsigned w) { return w > 1 && (k >> (w - 1)) & 1; }
  Expr* linBuild(const Lin& t, u128 c, unsigned w) {
    Expr* r = nullptr;
    for (int pass = 0; pass < 2; pass++)
      for (auto& x : t) if (linNeg(x.second, w) == (pass == 1)) {
        u128 k = pass ? ((u128)0 - x.second) & maskw(w) : x.second;
        Expr* m = k == 1 ? x.first : raw(E_MUL, w, x.first, cst(k, w), 0, 0);
        if (!pass) r = r ? raw(E_ADD, w, r, m, 0, 0) : m;
        else if (r) r = raw(E_SUB, w, r, m, 0, 0);
        else { r = raw(E_SUB, w, cst(c, w), m, 0, 0); c = 0; }
      }
    if (!r) return cst(c, w);
    if (c & maskw(w)) r = raw(E_ADD, w, r, cst(c, w), 0, 0);
    return r;
  }
  static bool isLin(Expr* e) { return e->op == E_ADD || e->op == E_SUB || (e->op == E_MUL && isC(e->b)); }
  Expr* linSum(Expr* a, Expr* b, bool sub) {
    Lin t; u128 c = 0; unsigned w = a->w;
    linCollect(a, 1, t, c); linCollect(b, sub ? (u128)0 - 1 : 1, t, c);
    linNorm(t, c, w);
    return linBuild(t, c, w);
  }

  // ---- value ranges: e as a signed number is in [slo, shi], as an unsigned one in [ulo, uhi]; widths to 64
  static i128 smin(unsigned w) { return -((i128)1 << (w - 1)); }
  static i128 smax(unsigned w) { return ((i128)1 << (w - 1)) - 1; }
  static bool fitsS(i128 lo, i128 hi, unsigned w) { return lo >= smin(w) && hi <= smax(w); }
  static u128 bitsMask(u128 v) { u128 m = 0; while (m < v) m = m * 2 + 1; return m; }
  bool range(Expr* e) {
    if (e->rk) return e->rk == 1;
    unsigned w = e->w;
    if (w > 64) { e->rk = 2; return false; }
    i128 sl = smin(w), sh = smax(w); u128 ul = 0, uh = maskw(w);
    auto setS = [&](i128 l, i128 h) { if (fitsS(l, h, w)) { sl = l; sh = h; } };
    auto setU = [&](u128 l, u128 h) { if (h <= maskw(w)) { ul = l; uh = h; } };
    Expr *a = e->a, *b = e->b, *c = e->c;
    bool ra = a && range(a), rb = b && range(b);
    switch (e->op) {
      case E_CONST: sl = sh = sextw(e->val, w); ul = uh = e->val; break;
      case E_VAR: { auto& v = vars[(size_t)e->val]; if (v.bounded) setU(v.lo, v.hi); break; }
      case E_ADD: if (ra && rb) { setS(a->slo + b->slo, a->shi + b->shi); setU(a->ulo + b->ulo, a->uhi + b->uhi); } break;
      case E_SUB: if (ra && rb) { setS(a->slo - b->shi, a->shi - b->slo); if (a->ulo >= b->uhi) setU(a->ulo - b->uhi, a->uhi - b->ulo); } break;
      case E_MUL: if (ra && rb) {
        i128 p[4] = {a->slo * b->slo, a->slo * b->shi, a->shi * b->slo, a->shi * b->shi};
        setS(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); setU(a->ulo * b->ulo, a->uhi * b->uhi); } break;
      case E_UDIV: if (ra && rb && b->ulo) setU(a->ulo / b->uhi, a->uhi / b->ulo); break;
      case E_UREM: if (ra && rb && b->ulo) setU(0, std::min(a->uhi, b->uhi - 1)); break;
      case E_SDIV: if (ra && isC(b) && b->slo > 0) setS(a->slo / b->slo, a->shi / b->slo); break;
      case E_SREM: if (ra && isC(b) && b->slo > 0) setS(a->slo >= 0 ? 0 : std::max(a->slo, 1 - b->slo), a->shi <= 0 ? 0 : std::min(a->shi, b->slo - 1)); break;
      case E_AND: if (ra && rb) setU(0, std::min(a->uhi, b->uhi)); break;
      case E_OR: if (ra && rb) setU(std::max(a->ulo, b->ulo), bitsMask(std::max(a->uhi, b->uhi))); break;
      case E_XOR: if (ra && rb) setU(0, bitsMask(std::max(a->uhi, b->uhi))); break;
      case E_ASHR: if (ra && isC(b) && b->val < w) setS(a->slo >> (unsigned)b->val, a->shi >> (unsigned)b->val); break;
      case E_ITE: { bool rc = range(c); if (rb && rc) { setS(std::min(b->slo, c->slo), std::max(b->shi, c->shi)); setU(std::min(b->ulo, c->ulo), std::max(b->uhi, c->uhi)); } break; }
      case E_CONCAT: if (ra && rb) { setU((a->ulo << b->w) + b->ulo, (a->uhi << b->w) + b->uhi); setS((a->slo << b->w) + (i128)b->ulo, (a->shi << b->w) + (i128)b->uhi); } break;
      case E_EXTRACT: if (ra) { unsigned k = (unsigned)e->val; if ((a->uhi >> k) <= maskw(w)) setU(a->ulo >> k, a->uhi >> k); if (k == 0) setS(a->slo, a->shi); } break;
      case E_ZEXT: if (ra) setU(a->ulo, a->uhi); break;
      case E_SEXT: if (ra) setS(a->slo, a->shi); break;
      default: break;
    }
    // each reading bounds the other
    if (sl >= 0) { ul = std::max(ul, (u128)sl); uh = std::min(uh, (u128)sh); }
    if (uh <= (u128)smax(w)) { sl = std::max(sl, (i128)ul); sh = std::min(sh, (i128)uh); }
    if (sl > sh || ul > uh) { sl = smin(w); sh = smax(w); ul = 0; uh = maskw(w); }   // only on infeasible paths
    e->slo = sl; e->shi = sh; e->ulo = ul; e->uhi = uh; e->rk = 1;
    return true;
  }
  // e's signed value as an integer linear form (no wrap-around): sum of coefficient * signed value of term, plus constant
  typedef std::vector<std::pair<Expr*, i128>> ILin;
  bool ilin(Expr* e, i128 k, ILin& t, i128& c, int depth = 0) {
    const i128 LIM = (i128)1 << 56;
    if (!range(e)) return false;
    if (k > LIM || k < -LIM) return false;
    if (isC(e)) { c += k * e->slo; return true; }
    Expr *a = e->a, *b = e->b;
    if (depth < 60) switch (e->op) {
      case E_ADD: if (fitsS(a->slo + b->slo, a->shi + b->shi, e->w)) return ilin(a, k, t, c, depth + 1) && ilin(b, k, t, c, depth + 1); break;
      case E_SUB: if (fitsS(a->slo - b->shi, a->shi - b->slo, e->w)) return ilin(a, k, t, c, depth + 1) && ilin(b, -k, t, c, depth + 1); break;
      case E_MUL: if (isC(b) && fitsS(std::min(a->slo * b->slo, a->shi * b->slo), std::max(a->slo * b->slo, a->shi * b->slo), e->w) && b->slo < LIM && b->slo > -LIM && k < LIM / ((b->slo < 0 ? -b->slo : b->slo) + 1) && -k < LIM / ((b->slo < 0 ? -b->slo : b->slo) + 1)) return ilin(a, k * b->slo, t, c, depth + 1); break;
      case E_ZEXT: if (range(a) && a->slo >= 0) return ilin(a, k, t, c, depth + 1); break;
      case E_SEXT: return ilin(a, k, t, c, depth + 1);
      case E_EXTRACT: if (e->val == 0 && range(a) && fitsS(a->slo, a->shi, e->w)) return ilin(a, k, t, c, depth + 1); break;
      case E_CONCAT: if (isC(b) && b->w < 56 && k < (LIM >> b->w) && -k < (LIM >> b->w)) { c += k * (i128)b->val; return ilin(a, k << b->w, t, c, depth + 1); } break;
      default: break;
    }
    t.push_back({e, k});
    return t.size() < 64;
  }
  void ilinNorm(ILin& t) {
    std::sort(t.begin(), t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
    size_t o = 0;
    for (size_t i = 0; i < t.size();) { size_t j = i; i128 k = 0; while (j < t.size() && t[j].first == t[i].first) k += t[j++].second; if (k) t[o++] = {t[i].first, k}; i = j; }
    t.resize(o);
  }
  void ilinRange(const ILin& t, i128 c, i128& lo, i128& hi) {   // |terms| < 2^64, at most 64 coefficients < 2^56: no overflow
    lo = hi = c;
    for (auto& x : t) { i128 p = x.second * x.first->slo, q = x.second * x.first->shi; lo += std::min(p, q); hi += std::max(p, q); }
  }
  Expr* toW(Expr* t, unsigned w) {
    if (t->w == w) return t;
    if (t->w > w) return extract(t, w - 1, 0);
    return t->slo >= 0 ? zext(t, w) : sext(t, w);
  }
  Expr* ilinBuild(const ILin& t, i128 c, unsigned w) {
    Expr* r = cst((u128)c, w);
    for (auto& x : t) r = bin(E_ADD, bin(E_MUL, toW(x.first, w), cst((u128)x.second, w)), r);
    return r;
  }
  // division by a positive constant, using ranges: exact on the multiples of the divisor, else at the width needed
  Expr* rangeDiv(Op op, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (!isC(b) || w < 2 || w > 64 || !range(a) || !range(b) || b->slo <= 0) return nullptr;
    const i128 D = b->slo; const bool uns = op == E_UDIV || op == E_UREM, rem = op == E_UREM || op == E_SREM;
    if (uns && a->uhi < (u128)D) return rem ? a : cst(0, w);
    if (!uns && a->slo > -D && a->shi < D) return rem ? a : cst(0, w);
    if (uns && a->slo < 0) return nullptr;
    if (a->bd) {
      ILin t, q, r; i128 c = 0;
      if (ilin(a, 1, t, c)) {
        ilinNorm(t);
        for (auto& x : t) if (x.second % D == 0) q.push_back({x.first, x.second / D}); else r.push_back(x);
        i128 lo, hi; ilinRange(r, c, lo, hi);
        i128 q0 = lo / D; if (lo % D < 0) q0--;
        if (hi - q0 * D < D) {
          Expr *Q = ilinBuild(q, q0, w), *R = ilinBuild(r, c - q0 * D, w);
          if (a->slo >= 0) return rem ? R : Q;
          Expr* up = bin(E_AND, bin(E_SLT, Q, cst(0, w)), bnot(bin(E_EQ, R, cst(0, w))));
          return rem ? ite(up, bin(E_SUB, R, b), R) : ite(up, bin(E_ADD, Q, cst(1, w)), Q);
        }
      }
    }
    if (a->slo >= 0) {
      unsigned n = 1; while (n < w && (a->uhi >> n)) n++;
      if (n < w && (u128)D <= maskw(n)) return zext(bin(rem ? E_UREM : E_UDIV, extract(a, n - 1, 0), cst((u128)D, n)), w);
      if (!uns) return bin(rem ? E_UREM : E_UDIV, a, b);
    }
    return nullptr;
  }
  // comparisons decided by ranges: 1 true, 0 false, -1 unknown
  int rangeCmp(Op op, Expr* a, Expr* b) {
    if (a->w < 2 || a->w > 64 || !range(a) || !range(b)) return -1;
    switch (op) {
      case E_EQ: if (a->uhi < b->ulo || b->uhi < a->ulo || a->shi < b->slo || b->shi < a->slo) return 0; break;
      case E_ULT: if (a->uhi < b->ulo) return 1; if (a->ulo >= b->uhi) return 0; break;
      case E_ULE: if (a->uhi <= b->ulo) return 1; if (a->ulo > b->uhi) return 0; break;
      case E_SLT: if (a->shi < b->slo) return 1; if (a->slo >= b->shi) return 0; break;
      case E_SLE: if (a->shi <= b->slo) return 1; if (a->slo > b->shi) return 0; break;
      default: return -1;
    }
    if (!a->bd || !b->bd) return -1;
    if ((op == E_ULT || op == E_ULE) && (a->slo < 0 || b->slo < 0)) return -1;
    ILin t; i128 c = 0, lo, hi;
    if (!ilin(a, 1, t, c) || !ilin(b, -1, t, c)) return -1;
    ilinNorm(t); ilinRange(t, c, lo, hi);                        // a - b
    switch (op) {
      case E_EQ: return lo == 0 && hi == 0 ? 1 : lo > 0 || hi < 0 ? 0 : -1;
      case E_ULT: case E_SLT: return hi < 0 ? 1 : lo >= 0 ? 0 : -1;
      default: return hi <= 0 ? 1 : lo > 0 ? 0 : -1;
    }
  }

  Expr* bnot(Expr* e) { // boolean / bitwise not
    return bin(E_XOR, e, cst(~(u128)0, e->w));
  }
  Expr* bin(Op op, Expr* a, Expr* b) {
    bool cmp = (op >= E_EQ && op <= E_SLE) || (op >= E_FOLT && op <= E_FUNO);
    unsigned w = cmp ? 1 : a->w;
    if (isC(a) && isC(b)) return cst(fold(op, w, a->w, a->val, b->val), w);
    if (op >= E_FADD) return raw(op, w, a, b, 0, 0);
    // canonical: constant on the right for commutative ops
    if ((op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ)) {
      if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    }
    u128 M = maskw(a->w);
    if (op >= E_EQ && op <= E_SLE && (a->bd || b->bd)) { int r = rangeCmp(op, a, b); if (r >= 0) return r ? T() : F(); }
    switch (op) {
      case E_SDIV: case E_SREM:
        if (Expr* n = rangeDiv(op, a, b)) return n;
        break;
      case E_SUB:
        if (a == b) return cst(0, w);
        if (isC(b)) return bin(E_ADD, a, cst((u128)0 - b->val, w));
        if (w > 1) return linSum(a, b, true);
        break;
      case E_ADD:
        if (isC(b)) {
          if (b->val == 0) return a;
          if (a->op == E_ITE && isC(a->b) && isC(a->c)) return ite(a->a, cst(a->b->val + b->val, w), cst(a->c->val + b->val, w));
        }
        if (w > 1 && (isLin(a) || isLin(b) || a == b)) return linSum(a, b, false);
        break;
      case E_MUL:
        if (isC(b)) { if (b->val == 0) return b; if (b->val == 1) return a;
          for (unsigned i = 1; i < w; i++) if (b->val == ((u128)1 << i)) return bin(E_SHL, a, cst(i, w)); }
        break;
      case E_UDIV:
        if (Expr* n = rangeDiv(op, a, b)) return n;
        if (Expr* n = narrowDiv(op, a, b)) return n;
        if (isC(b)) { if (b->val == 1) return a; for (unsigned i = 1; i < w; i++) if (b->val == ((u128)1 << i)) return bin(E_LSHR, a, cst(i, w)); }
        break;
      case E_UREM:
        if (Expr* n = rangeDiv(op, a, b)) return n;
        if (Expr* n = narrowDiv(op, a, b)) return n;
        if (isC(b)) { if (b->val == 1) return cst(0, w); for (unsigned i = 1; i < w; i++) if (b->val == ((u128)1 << i)) return bin(E_AND, a, cst(b->val - 1, w)); }
        break;
      case E_AND:
        if (a == b) return a;
        if (isC(b)) {
          if (b->val == 0) return b; if (b->val == M) return a;
          if (w > 1) for (unsigned i = 1; i < w; i++) if (b->val == maskw(i)) return zext(extract(a, i - 1, 0), w);
          if (a->op == E_AND && isC(a->b)) return bin(E_AND, a->a, cst(a->b->val & b->val, w));
          if (a->op == E_ZEXT) { // and within the narrow width
            u128 nm = maskw(a->a->w);
            if ((b->val & nm) == nm) return a;
            return zext(bin(E_AND, a->a, cst(b->val & nm, a->a->w)), w);
          }
          if (a->op == E_ITE && isC(a->b) && isC(a->c)) return ite(a->a, cst(a->b->val & b->val, w), cst(a->c->val & b->val, w));
        }
        break;
      case E_OR:
        if (a == b) return a;
        if (isC(b)) { if (b->val == 0) return a; if (b->val == M) return b; }
        for (int sw = 0; sw < 2; sw++) {                           // halves put together
          Expr *h = sw ? b : a, *l = sw ? a : b;
          if (l->op == E_ZEXT && h->op == E_ZEXT && l->a->w < h->a->w && h->a->op == E_CONCAT) { unsigned n = h->a->w; return zext(bin(E_OR, h->a, zext(l->a, n)), w); }
          if (h->op == E_CONCAT && isC(h->b) && h->b->val == 0 && l->op == E_ZEXT && l->a->w <= h->b->w) return concat(h->a, zext(l->a, h->b->w));
        }
        break;
      case E_XOR:
        if (a == b) return cst(0, w);
        if (isC(b)) {
          if (b->val == 0) return a;
          if (a->op == E_XOR && isC(a->b)) return bin(E_XOR, a->a, cst(a->b->val ^ b->val, w));
          if (w == 1) { // not: push through comparisons
            switch (a->op) {
              case E_ULT: return bin(E_ULE, a->b, a->a);
              case E_ULE: return bin(E_ULT, a->b, a->a);
              case E_SLT: return bin(E_SLE, a->b, a->a);
              case E_SLE: return bin(E_SLT, a->b, a->a);
              default: break;
            }
          }
        }
        break;
      case E_SHL: case E_LSHR: case E_ASHR:
        if (isC(b)) { if (b->val == 0) return a;
          if (b->val >= w && op != E_ASHR) return cst(0, w);
          unsigned k = (unsigned)b->val;
          if (op == E_LSHR && k < w) return zext(extract(a, w - 1, k), w);
          if (op == E_SHL && k < w) return concat(extract(a, w - 1 - k, 0), cst(0, k));
        }
        if (isC(a) && a->val == 0) return a;
        break;
      case E_EQ:
        if (a == b) return T();
        if (isC(b)) {
          if (a->w == 1) return b->val ? a : bnot(a);
          if (a->op == E_ZEXT) { if (b->val & ~maskw(a->a->w)) return F(); return bin(E_EQ, a->a, cst(b->val, a->a->w)); }
          if (a->op == E_SEXT) { u128 lo = b->val & maskw(a->a->w); if ((((u128)sextw(lo, a->a->w)) & M) != b->val) return F(); return bin(E_EQ, a->a, cst(lo, a->a->w)); }
          if (a->op == E_XOR && isC(a->b)) return bin(E_EQ, a->a, cst(b->val ^ a->b->val, a->w));
          if (a->op == E_ITE && (isC(a->b) || isC(a->c))) {
            Expr* t = isC(a->b) ? (a->b->val == b->val ? T() : F()) : nullptr;
            Expr* f = isC(a->c) ? (a->c->val == b->val ? T() : F()) : nullptr;
            if (t && f) return ite(a->a, t, f);
            if (t && !t->val) return bin(E_AND, bnot(a->a), bin(E_EQ, a->c, b));
            if (f && !f->val) return bin(E_AND, a->a, bin(E_EQ, a->b, b));
          }
          if (a->op == E_CONCAT) {
            unsigned lw = a->b->w;
            return bin(E_AND, bin(E_EQ, a->a, cst(b->val >> lw, a->a->w)), bin(E_EQ, a->b, cst(b->val, lw)));
          }
        } else {
          if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_EQ, a->a, b->a);
        }
        if (a->w > 1 && (isLin(a) || isLin(b))) { // move terms so that both sides have positive coefficients
          unsigned aw = a->w; Lin t, p, n; u128 c = 0;
          linCollect(a, 1, t, c); linCollect(b, (u128)0 - 1, t, c); linNorm(t, c, aw);
          if (t.empty()) return c ? F() : T();
          for (auto& x : t) if (linNeg(x.second, aw)) n.push_back({x.first, (u128)0 - x.second & maskw(aw)}); else p.push_back(x);
          Expr *l = linBuild(p, 0, aw), *r = linBuild(n, (u128)0 - c, aw);
          if (isC(l)) { l = linBuild(n, 0, aw); r = cst(c, aw); }
          if (!isC(r) && l->id > r->id) std::swap(l, r);
          if (isC(r) && !isLin(l)) return bin(E_EQ, l, r);
          return raw(E_EQ, 1, l, r, 0, 0);
        }
        break;
      case E_ULT:
        if (a == b) return F();
        if (isC(b) && b->val == 0) return F();
        if (isC(b) && b->val == 1) return bin(E_EQ, a, cst(0, a->w));
        if (isC(a) && a->val == M) return F();
        if (isC(b) && a->op == E_ZEXT) { if (b->val > maskw(a->a->w)) return T(); return bin(E_ULT, a->a, cst(b->val, a->a->w)); }
        if (isC(a) && b->op == E_ZEXT) { if (a->val >= maskw(b->a->w)) return F(); return bin(E_ULT, cst(a->val, b->a->w), b->a); }
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_ULT, a->a, b->a);
        break;
      case E_ULE:
        if (a == b) return T();
        if (isC(a) && a->val == 0) return T();
        if (isC(b) && b->val == M) return T();
        if (isC(b)) return bin(E_ULT, a, cst(b->val + 1, a->w));
        if (isC(a)) return bin(E_ULT, cst(a->val - 1, a->w), b);
        break;
      case E_SLT: if (a == b) return F();
        if (isC(b) && a->op == E_ZEXT && a->a->w < a->w) { if (sextw(b->val, a->w) <= 0) return F(); return bin(E_ULT, a, b); }
        if (isC(a) && b->op == E_ZEXT && b->a->w < b->w) { if (sextw(a->val, a->w) < 0) return T(); return bin(E_ULT, a, b); }
        break;
      case E_SLE: if (a == b) return T();
        if (isC(b) && a->op == E_ZEXT && a->a->w < a->w) { if (sextw(b->val, a->w) < 0) return F(); return bin(E_ULE, a, b); }
        if (isC(a) && b->op == E_ZEXT && b->a->w < b->w) { if (sextw(a->val, a->w) <= 0) return T(); return bin(E_ULE, a, b); }
        break;
      default: break;
    }
    return raw(op, w, a, b, 0, 0);
  }
  Expr* ite(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    if (a->w == 1 && isC(a) && isC(b)) return a->val ? c : bnot(c);
    if (a->w == 1 && isC(a)) return a->val ? bin(E_OR, c, b) : bin(E_AND, bnot(c), b);
    if (a->w == 1 && isC(b)) return b->val ? bin(E_OR, bnot(c), a) : bin(E_AND, c, a);
    if (c->op == E_XOR && c->w == 1 && isC(c->b) && c->b->val) return ite(c->a, b, a);
    return raw(E_ITE, a->w, c, a, b, 0);
  }
  // unsigned division of zero-extended operands, at the narrow width
  Expr* narrowDiv(Op op, Expr* a, Expr* b) {
    if (a->op != E_ZEXT) return nullptr;
    unsigned n = a->a->w; Expr* y;
    if (isC(b)) { if (b->val == 0) return nullptr; if (b->val > maskw(n)) return op == E_UDIV ? cst(0, a->w) : a; y = cst(b->val, n); }
    else return nullptr;
    return zext(bin(op, a->a, y), a->w);
  }
  Expr* zext(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return cst(a->val, w);
    if (a->op == E_ZEXT) return zext(a->a, w);
    return raw(E_ZEXT, w, a, 0, 0, 0);
  }
  Expr* sext(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return cst((u128)sextw(a->val, a->w), w);
    if (a->op == E_ZEXT) return zext(a->a, w);
    return raw(E_SEXT, w, a, 0, 0, 0);
  }
  Expr* extract(Expr* a, unsigned hi, unsigned lo) {
    unsigned w = hi - lo + 1;
    if (w == a->w) return a;
    if (isC(a)) return cst(a->val >> lo, w);
    switch (a->op) {
      case E_EXTRACT: return extract(a->a, hi + (unsigned)a->val, lo + (unsigned)a->val);
      case E_CONCAT: {
        unsigned lw = a->b->w;
        if (lo >= lw) return extract(a->a, hi - lw, lo - lw);
        if (hi < lw) return extract(a->b, hi, lo);
        return concat(extract(a->a, hi - lw, 0), extract(a->b, lw - 1, lo));
      }
      case E_ZEXT: {
        unsigned n = a->a->w;
        if (hi < n) return extract(a->a, hi, lo);
        if (lo >= n) return cst(0, w);
        return zext(extract(a->a, n - 1, lo), w);
      }
      case E_SEXT: if (hi < a->a->w) return extract(a->a, hi, lo); break;
      case E_AND: case E_OR: case E_XOR:
        return bin(a->op, extract(a->a, hi, lo), extract(a->b, hi, lo));
      case E_ADD: case E_SUB: case E_MUL:
        if (lo == 0) { Expr *x = extract(a->a, hi, 0), *y = extract(a->b, hi, 0); return bin(a->op, x, y); }
        break;
      case E_ITE: if (isC(a->b) || isC(a->c)) return ite(a->a, extract(a->b, hi, lo), extract(a->c, hi, lo)); break;
      default: break;
    }
    return raw(E_EXTRACT, w, a, 0, 0, lo);
  }
  Expr* concat(Expr* a, Expr* b) {
    unsigned w = a->w + b->w;
    if (isC(a) && isC(b)) return cst((a->val << b->w) | b->val, w);
    if (isC(a) && a->val == 0) return zext(b, w);
    if (a->op == E_EXTRACT && b->op == E_EXTRACT && a->a == b->a && (unsigned)a->val == (unsigned)b->val + b->w)
      return extract(a->a, (unsigned)a->val + a->w - 1, (unsigned)b->val);
    if (a->op == E_EXTRACT && a->a == b && (unsigned)a->val == b->w) return extract(b, w - 1, 0);
    if (a->op == E_EXTRACT && a->val >= b->w && extract(a->a, (unsigned)a->val - 1, (unsigned)a->val - b->w) == b)   // b: those bits, simplified
      return extract(a->a, (unsigned)a->val + a->w - 1, (unsigned)a->val - b->w);
    if (a->op == E_EXTRACT && b->op == E_CONCAT && a->val >= b->a->w && extract(a->a, (unsigned)a->val - 1, (unsigned)a->val - b->a->w) == b->a)
      return concat(extract(a->a, (unsigned)a->val + a->w - 1, (unsigned)a->val - b->a->w), b->b);
    return raw(E_CONCAT, w, a, b, 0, 0);
  }
  Expr* un(Op op, Expr* a, unsigned w) { // fp conversions
    if (isC(a)) return cst(fold1(op, w, a->w, a->val, 0), w);
    if (op == E_FPTOSI && a->w == 64 && w <= 64) { // an integer, exact as a double, times a power of two
      Expr* x = a; int ex = 0; bool ok = true;
      if (x->op == E_FMUL && (isC(x->a) || isC(x->b))) { double d = bits2d(isC(x->a) ? x->a->val : x->b->val, 64); ok = d > 0 && std::isfinite(d) && std::frexp(d, &ex) == 0.5; ex--; x = isC(x->a) ? x->b : x->a; }
      if (ok && (x->op == E_SITOFP || x->op == E_UITOFP) && ex > -40 && ex < 40) {
        Expr* i = x->a; bool sg = x->op == E_SITOFP;
        if (i->w <= 64 && range(i) && (sg || i->slo >= 0)) {
          const i128 L = (i128)1 << 53;
          if (i->slo >= -L && i->shi <= L) {
            i128 lo = ex >= 0 ? i->slo << ex : i->slo, hi = ex >= 0 ? i->shi << ex : i->shi;
            if (fitsS(lo, hi, w) && fitsS(i->slo, i->shi, w)) {
              Expr* n = toW(i, w);
              if (ex == 0) return n;
              if (ex > 0) return bin(E_MUL, n, cst((u128)1 << ex, w));
              if (-ex < (int)w - 1) return bin(E_SDIV, n, cst((u128)1 << -ex, w));
            }
          }
        }
      }
    }
    return raw(op, w, a, 0, 0, 0);
  }

  // ---- evaluation under an assignment
  u128 evalRec(Expr* e, const std::vector<uint64_t>& as) {
    if (e->op == E_CONST) return e->val;
    if (e->stamp == gen) return e->ev;
    u128 r;
    switch (e->op) {
      case E_VAR: { uint32_t i = (uint32_t)e->val; r = i < as.size() ? as[i] : 0; r &= maskw(e->w); break; }
      case E_ITE: r = evalRec(e->a, as) ? evalRec(e->b, as) : evalRec(e->c, as); break;
      case E_CONCAT: r = (evalRec(e->a, as) << e->b->w) | evalRec(e->b, as); break;
      case E_EXTRACT: case E_ZEXT: case E_SEXT: case E_FPTOUI: case E_FPTOSI: case E_UITOFP: case E_SITOFP: case E_FPTRUNC: case E_FPEXT:
        r = fold1(e->op, e->w, e->a->w, evalRec(e->a, as), e->val); break;
      default: r = fold(e->op, e->w, e->a->w, evalRec(e->a, as), evalRec(e->b, as));
    }
    e->stamp = gen; e->ev = r;
    return r;
  }
  u128 eval(Expr* e, const std::vector<uint64_t>& as) { gen++; return evalRec(e, as); }
  void evalBegin() { gen++; }

  std::string str(Expr* e, int depth = 0) {
    static const char* names[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","=","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","folt","fole","foeq","funo","fptoui","fptosi","uitofp","sitofp","fptrunc","fpext"};
    if (e->op == E_CONST) { char b[64]; snprintf(b, 64, "%llu", (unsigned long long)e->val); return b; }
    if (e->op == E_VAR) return vars[(uint32_t)e->val].name;
    if (depth > 6) return "...";
    std::string s = std::string("(") + names[e->op];
    if (e->op == E_EXTRACT) s += "@" + std::to_string((unsigned)e->val) + "+" + std::to_string(e->w);
    if (e->a) s += " " + str(e->a, depth + 1);
    if (e->b) s += " " + str(e->b, depth + 1);
    if (e->c) s += " " + str(e->c, depth + 1);
    return s + ")";
  }
};

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double time = 0, maxTime = 0; };

struct Solver {
  ExprCtx& X; Z3_context z; SolverStats st; unsigned timeoutMs = 120000;
  std::string dumpDir; unsigned dumpMax = 0, dumped = 0;
  struct Res { int r; std::vector<std::pair<uint32_t, uint64_t>> model; };
  std::unordered_map<std::string, Res> cache;
  Solver(ExprCtx& x) : X(x) {
    Z3_config c = Z3_mk_config();
    z = Z3_mk_context(c);
    Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); });
  }
  Z3_ast toBool(Expr* e) { return Z3_mk_eq(z, tr(e), Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1))); }
  Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(z, b, Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1)), Z3_mk_unsigned_int64(z, 0, Z3_mk_bv_sort(z, 1))); }
  Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(z) : Z3_mk_fpa_sort_64(z); }
  Z3_ast fp(Expr* e) { return Z3_mk_fpa_to_fp_bv(z, tr(e), fps(e->w)); }
  Z3_ast tr(Expr* e) {
    if (e->z) return e->z;
    Z3_ast r;
    auto num = [&](u128 v, unsigned w) -> Z3_ast {
      Z3_sort s = Z3_mk_bv_sort(z, w);
      if (w <= 64) return Z3_mk_unsigned_int64(z, (uint64_t)v, s);
      Z3_ast hi = Z3_mk_unsigned_int64(z, (uint64_t)(v >> 64), Z3_mk_bv_sort(z, w - 64));
      Z3_ast lo = Z3_mk_unsigned_int64(z, (uint64_t)v, Z3_mk_bv_sort(z, 64));
      return Z3_mk_concat(z, hi, lo);
    };
    switch (e->op) {
      case E_CONST: r = num(e->val, e->w); break;
      case E_VAR: r = Z3_mk_const(z, Z3_mk_string_symbol(z, ("v" + std::to_string((uint32_t)e->val)).c_str()), Z3_mk_bv_sort(z, e->w)); break;
      case E_ADD: r = Z3_mk_bvadd(z, tr(e->a), tr(e->b)); break;
      case E_SUB: r = Z3_mk_bvsub(z, tr(e->a), tr(e->b)); break;
      case E_MUL: r = Z3_mk_bvmul(z, tr(e->a), tr(e->b)); break;
      case E_UDIV: r = Z3_mk_bvudiv(z, tr(e->a), tr(e->b)); break;
      case E_SDIV: r = Z3_mk_bvsdiv(z, tr(e->a), tr(e->b)); break;
      case E_UREM: r = Z3_mk_bvurem(z, tr(e->a), tr(e->b)); break;
      case E_SREM: r = Z3_mk_bvsrem(z, tr(e->a), tr(e->b)); break;
      case E_AND: r = Z3_mk_bvand(z, tr(e->a), tr(e->b)); break;
      case E_OR: r = Z3_mk_bvor(z, tr(e->a), tr(e->b)); break;
      case E_XOR: r = Z3_mk_bvxor(z, tr(e->a), tr(e->b)); break;
      case E_SHL: r = Z3_mk_bvshl(z, tr(e->a), tr(e->b)); break;
      case E_LSHR: r = Z3_mk_bvlshr(z, tr(e->a), tr(e->b)); break;
      case E_ASHR: r = Z3_mk_bvashr(z, tr(e->a), tr(e->b)); break;
      case E_EQ: r = b2bv(Z3_mk_eq(z, tr(e->a), tr(e->b))); break;
      case E_ULT: r = b2bv(Z3_mk_bvult(z, tr(e->a), tr(e->b))); break;
      case E_ULE: r = b2bv(Z3_mk_bvule(z, tr(e->a), tr(e->b))); break;
      case E_SLT: r = b2bv(Z3_mk_bvslt(z, tr(e->a), tr(e->b))); break;
      case E_SLE: r = b2bv(Z3_mk_bvsle(z, tr(e->a), tr(e->b))); break;
      case E_ITE: r = Z3_mk_ite(z, toBool(e->a), tr(e->b), tr(e->c)); break;
      case E_CONCAT: r = Z3_mk_concat(z, tr(e->a), tr(e->b)); break;
      case E_EXTRACT: r = Z3_mk_extract(z, (unsigned)e->val + e->w - 1, (unsigned)e->val, tr(e->a)); break;
      case E_ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a->w, tr(e->a)); break;
      case E_SEXT: r = Z3_mk_sign_ext(z, e->w - e->a->w, tr(e->a)); break;
      case E_FADD: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_add(z, Z3_mk_fpa_rne(z), fp(e->a), fp(e->b))); break;
      case E_FSUB: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_sub(z, Z3_mk_fpa_rne(z), fp(e->a), fp(e->b))); break;
      case E_FMUL: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_mul(z, Z3_mk_fpa_rne(z), fp(e->a), fp(e->b))); break;
      case E_FDIV: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_div(z, Z3_mk_fpa_rne(z), fp(e->a), fp(e->b))); break;
      case E_FOLT: r = b2bv(Z3_mk_fpa_lt(z, fp(e->a), fp(e->b))); break;
      case E_FOLE: r = b2bv(Z3_mk_fpa_leq(z, fp(e->a), fp(e->b))); break;
      case E_FOEQ: r = b2bv(Z3_mk_fpa_eq(z, fp(e->a), fp(e->b))); break;
      case E_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(z, fp(e->a)), Z3_mk_fpa_is_nan(z, fp(e->b))}; r = b2bv(Z3_mk_or(z, 2, x)); break; }
      case E_FPTOUI: r = Z3_mk_fpa_to_ubv(z, Z3_mk_fpa_rtz(z), fp(e->a), e->w); break;
      case E_FPTOSI: r = Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_rtz(z), fp(e->a), e->w); break;
      case E_UITOFP: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_unsigned(z, Z3_mk_fpa_rne(z), tr(e->a), fps(e->w))); break;
      case E_SITOFP: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_signed(z, Z3_mk_fpa_rne(z), tr(e->a), fps(e->w))); break;
      case E_FPTRUNC: case E_FPEXT: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_float(z, Z3_mk_fpa_rne(z), fp(e->a), fps(e->w))); break;
      default: abort();
    }
    e->z = r;
    return r;
  }

  // slice: constraints of pc transitively sharing variables with seed
  void slice(const std::vector<Expr*>& pc, Expr* seed, std::vector<Expr*>& out) {
    std::unordered_set<uint32_t> vs(seed->vars->begin(), seed->vars->end());
    std::vector<char> in(pc.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) if (!in[i]) {
        bool hit = false;
        for (uint32_t v : *pc[i]->vars) if (vs.count(v)) { hit = true; break; }
        if (hit) { in[i] = 1; ch = true; for (uint32_t v : *pc[i]->vars) vs.insert(v); }
      }
    }
    for (size_t i = 0; i < pc.size(); i++) if (in[i]) out.push_back(pc[i]);
  }
  // is pc & cond satisfiable?  On sat: fills `as` overrides.
  // returns 1 sat, 0 unsat, -1 unknown
  int check(const std::vector<Expr*>& pc, Expr* cond, std::vector<uint64_t>& as) {
    if (cond->op == E_CONST) return cond->val ? 1 : 0;
    std::vector<Expr*> cs;
    slice(pc, cond, cs);
    cs.push_back(cond);
    std::vector<uint32_t> ids; for (auto* e : cs) ids.push_back(e->id);
    std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    std::string key((const char*)ids.data(), ids.size() * 4);
    auto it = cache.find(key);
    if (it != cache.end()) { st.cacheHits++; apply(it->second, as); return it->second.r; }
    auto t0 = std::chrono::steady_clock::now();
    bool fpq = false; for (auto* e : cs) fpq |= e->fp;
    Z3_solver s = fpq ? Z3_mk_solver(z) : Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
    Z3_solver_inc_ref(z, s);
    Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), timeoutMs);
    Z3_solver_set_params(z, s, p);
    for (auto* e : cs) Z3_solver_assert(z, s, toBool(e));
    Z3_lbool r = Z3_solver_check(z, s);
    Res res; res.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (dumped < dumpMax) {
      std::string fn = dumpDir + "/q" + std::to_string(dumped++) + (res.r == 1 ? ".sat" : res.r == 0 ? ".unsat" : ".unknown") + ".smt2";
      FILE* f = fopen(fn.c_str(), "w");
      if (f) { fprintf(f, "(set-logic %s)\n%s(check-sat)\n", fpq ? "ALL" : "QF_BV", Z3_solver_to_string(z, s)); fclose(f); }
    }
    if (res.r == 1) {
      Z3_model m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m);
      std::unordered_set<uint32_t> vs; for (auto* e : cs) for (uint32_t v : *e->vars) vs.insert(v);
      for (uint32_t v : vs) {
        Z3_ast o = nullptr;
        uint64_t val = 0;
        if (Z3_model_eval(z, m, tr(X.vars[v].e), true, &o) && o) Z3_get_numeral_uint64(z, o, &val);
        res.model.push_back({v, val});
      }
      Z3_model_dec_ref(z, m);
    }
    Z3_solver_dec_ref(z, s); Z3_params_dec_ref(z, p);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    st.time += dt; if (dt > st.maxTime) st.maxTime = dt;
    st.queries++; if (res.r == 1) st.sat++; else if (res.r == 0) st.unsat++; else st.unknown++;
    apply(res, as);
    auto r2 = res.r;
    if (r2 >= 0) cache.emplace(std::move(key), std::move(res));
    return r2;
  }
  void apply(const Res& r, std::vector<uint64_t>& as) {
    if (r.r != 1) return;
    for (auto& kv : r.model) { if (as.size() <= kv.first) as.resize(kv.first + 1, 0); as[kv.first] = kv.second; }
  }
};
