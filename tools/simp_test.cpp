// Differential test of the expression simplifier: random expressions built through the simplifying constructors and, in
// parallel, unsimplified; both must evaluate alike for every assignment within the declared bounds.
// clang++ -O1 -std=c++20 -I../engine simp_test.cpp -lz3 && ./a.out [iterations]
#include "expr.h"
#include <random>
int main(int argc, char** argv)
{
    const long N = argc > 1 ? atol(argv[1]) : 20000; std::mt19937_64 R(argc > 2 ? atol(argv[2]) : 1); long nsimp = 0;
    auto pick = [&](unsigned n) { return (unsigned)(R() % n); };
    for (long it = 0; it < N; it++) {
        ExprCtx X; struct P { Expr *s, *r; }; std::vector<P> pool; std::vector<P> vars;
        for (int i = 0; i < 4; i++) {
            uint64_t lo = 0, hi = ~0ull; bool bd = pick(4) != 0;
            if (bd) { switch (pick(4)) { case 0: hi = 9; break; case 1: lo = pick(1000); hi = lo + pick(100000); break; case 2: lo = R() >> pick(64); hi = lo + (R() >> (1 + pick(60))); if (hi < lo) hi = lo; break; case 3: lo = 0 - (uint64_t)pick(100000); hi = lo + pick(50000); if (hi < lo) hi = ~0ull; break; } }
            unsigned w = bd ? 64 : (unsigned[]){8, 16, 32, 64}[pick(4)];
            Expr* v = X.var("v" + std::to_string(i), w, bd, lo, hi); pool.push_back({v, v}); vars.push_back({v, v});
        }
        auto konst = [&](unsigned w) -> P { static const uint64_t ks[] = {0, 1, 2, 3, 7, 10, 60, 100, 1000, 3600, 86400, 1000000, 1000000000, ~0ull, 0x80, 0x8000, 0x80000000ull, 0x8000000000000000ull, ~0ull - 9};
            uint64_t k = pick(4) ? ks[pick(sizeof ks / 8)] : R() >> pick(64); Expr* c = X.cst(k, w); return {c, c}; };
        auto get = [&](unsigned w) -> P {
            if (pick(4) == 0) return konst(w);
            P p = pool[pick(pool.size())];
            if (p.s->w == w) return p;
            if (p.s->w > w) { unsigned lo = pick(3) ? 0 : pick(p.s->w - w + 1); return {X.extract(p.s, lo + w - 1, lo), X.raw(E_EXTRACT, w, p.r, 0, 0, lo)}; }
            if (pick(2)) return {X.zext(p.s, w), X.raw(E_ZEXT, w, p.r, 0, 0, 0)};
            return {X.sext(p.s, w), X.raw(E_SEXT, w, p.r, 0, 0, 0)}; };
        for (int k = 0; k < 14; k++) {
            static const unsigned ws[] = {64, 64, 64, 32, 32, 16, 8, 1, 20}; unsigned w = ws[pick(9)]; P n;
            switch (pick(13)) {
                case 12: { P x = pool[pick(pool.size())]; unsigned W = x.s->w; if (W < 3) { n = x; break; } unsigned i = 1 + pick(W - 1), j = pick(i);        // slices of one value, put together again
                    auto sl = [&](unsigned hi, unsigned lo) -> P { return {X.extract(x.s, hi, lo), X.raw(E_EXTRACT, hi - lo + 1, x.r, 0, 0, lo)}; }; auto cat = [&](P a, P b) -> P { return {X.concat(a.s, b.s), X.raw(E_CONCAT, a.s->w + b.s->w, a.r, b.r, 0, 0)}; };
                    auto zx = [&](P a, unsigned w) -> P { return {X.zext(a.s, w), X.raw(E_ZEXT, w, a.r, 0, 0, 0)}; };
                    P h = sl(W - 1, i), l = sl(i - 1, j);
                    switch (pick(3)) { case 0: n = cat(h, l); break; case 1: n = j ? cat(h, cat(l, sl(j - 1, pick(2) ? 0 : pick(j)))) : cat(cat(h, l), l); break;
                      default: { Expr* z = X.cst(0, i); P hh = cat(h, {z, z}), ll = zx(l, W); if (pick(2)) { hh = zx(hh, W + 3); ll = zx(ll, W + 3); } if (hh.s->w > 64) { n = hh; break; } bool sw = pick(2); n = {X.bin(E_OR, sw ? ll.s : hh.s, sw ? hh.s : ll.s), X.raw(E_OR, hh.s->w, hh.r, ll.r, 0, 0)}; } }
                    break; }
                case 0: case 1: case 2: case 3: case 4: case 5: { static const Op ops[] = {E_ADD, E_ADD, E_ADD, E_SUB, E_SUB, E_MUL, E_MUL, E_AND, E_OR, E_XOR}; Op op = ops[pick(10)]; P a = get(w), b = op == E_MUL && pick(4) ? konst(w) : get(w); n = {X.bin(op, a.s, b.s), X.raw(op, w, a.r, b.r, 0, 0)}; break; }
                case 6: case 7: case 8: { static const Op ops[] = {E_UDIV, E_SDIV, E_UREM, E_SREM}; Op op = ops[pick(4)]; if (w == 1) w = 64; P a = get(w), b = pick(5) ? konst(w) : get(w); n = {X.bin(op, a.s, b.s), X.raw(op, w, a.r, b.r, 0, 0)}; break; }
                case 9: { static const Op ops[] = {E_SHL, E_LSHR, E_ASHR}; Op op = ops[pick(3)]; P a = get(w); Expr* c = X.cst(pick(w), w); n = {X.bin(op, a.s, c), X.raw(op, w, a.r, c, 0, 0)}; break; }
                case 10: { static const Op ops[] = {E_EQ, E_ULT, E_ULE, E_SLT, E_SLE}; Op op = ops[pick(5)]; P a = get(w), b = get(w); n = {X.bin(op, a.s, b.s), X.raw(op, 1, a.r, b.r, 0, 0)}; break; }
                case 11: { P c = get(1), a = get(w), b = get(w); if (pick(3) == 0 && w <= 32) n = {X.concat(a.s, b.s), X.raw(E_CONCAT, 2 * w, a.r, b.r, 0, 0)}; else if (pick(4) == 0) { P i = get(64); double d = std::ldexp(1.0, (int)pick(12) - 6); Expr* kc = X.cst(d2bits(d, 64), 64);
                        n = {X.un(E_FPTOSI, X.bin(E_FMUL, X.un(E_SITOFP, i.s, 64), kc), 64), X.raw(E_FPTOSI, 64, X.raw(E_FMUL, 64, X.raw(E_SITOFP, 64, i.r, 0, 0, 0), kc, 0, 0), 0, 0, 0)}; }
                    else n = {X.ite(c.s, a.s, b.s), X.raw(E_ITE, w, c.r, a.r, b.r, 0)}; break; }
            }
            if (n.s->w > 64) continue;
            nsimp += n.s != n.r; pool.push_back(n);
        }
        for (int t = 0; t < 12; t++) {
            std::vector<uint64_t> as;
            for (auto& v : X.vars) { uint64_t x; if (v.bounded) { u128 span = (u128)(v.hi - v.lo) + 1; x = t == 0 ? v.lo : t == 1 ? v.hi : v.lo + (uint64_t)((u128)R() % span); } else x = (t & 1 ? R() : (uint64_t)0 - pick(3)) & (uint64_t)maskw(v.w); as.push_back(x); }
            for (auto& p : pool) {
                u128 a = X.eval(p.s, as), b = X.eval(p.r, as);
                if (a != b) { printf("MISMATCH it %ld: %s\n  raw %s\n  %llx vs %llx\n", it, X.str(p.s).c_str(), X.str(p.r).c_str(), (unsigned long long)a, (unsigned long long)b); for (size_t i = 0; i < as.size(); i++) printf("  %s = %llu\n", X.vars[i].name.c_str(), (unsigned long long)as[i]); return 1; }
                for (Expr* e : {p.s, p.r}) if (X.range(e)) { i128 sv = sextw(b, e->w); if (sv < e->slo || sv > e->shi || b < e->ulo || b > e->uhi) { printf("RANGE it %ld %s\n", it, X.str(e).c_str()); return 1; } }
            }
        }
        for (auto* e : X.all) delete e;
    }
    printf("ok, %ld simplified\n", nsimp);
}
