// Differential test of the expression simplifier: a shadow tree is evaluated without simplification and compared with the
// simplified expression on random and corner inputs.
#include "expr.hpp"
#include <random>
using namespace fsx;
struct T { int op; unsigned w; uint64_t v; T *a = nullptr, *b = nullptr, *c = nullptr; E e = nullptr; }; // op: Kind
static std::mt19937_64 rng;
static uint64_t R() { return rng(); }
static uint64_t konst(unsigned w) { static const uint64_t s[] = {0, 1, 2, 3, 10, 127, 128, 255, 256, 1000, 1000000, 1000000000, 0x7fffffff, 0x80000000, 0xffffffff, 1000000000000ull, ~0ull, 0ull - 1000000000, 0x8000000000000000ull}; return (R() % 4 ? s[R() % 19] : R()) & maskw(w); }
static T *leaf(unsigned w) { T *t = new T; t->w = w; if (R() % 3 == 0) { t->op = K_CONST; t->v = konst(w); t->e = mkC(t->v, w); return t; } t->op = K_VAR; t->v = R() % 6; if (w == 8) { t->e = mkVar(t->v); return t; } T *x = new T; x->op = K_VAR; x->w = 8; x->v = t->v; x->e = mkVar(t->v); if (w < 8) { t->op = K_EXTRACT; t->v = R() % (9 - w); t->a = x; t->e = mkExtract(x->e, t->v, w); return t; } t->op = R() % 3 ? K_ZEXT : K_SEXT; t->a = x; t->e = t->op == K_ZEXT ? mkZExt(x->e, w) : mkSExt(x->e, w); if (R() % 2 && w > 16) { T *m = new T; m->w = w; m->op = K_MUL; m->a = t; m->b = new T; m->b->op = K_CONST; m->b->w = w; m->b->v = konst(w); m->b->e = mkC(m->b->v, w); m->e = mkBin(K_MUL, t->e, m->b->e); return m; } return t; }
static const unsigned ws[] = {1, 8, 16, 32, 64};
static T *gen(unsigned w, int d) {
    if (!d) return leaf(w); T *t = new T; t->w = w; int r = R() % 20;
    if (w == 1 && r < 14) { unsigned x = ws[1 + R() % 4]; static const Kind ks[] = {K_EQ, K_ULT, K_ULE, K_SLT, K_SLE}; t->op = ks[R() % 5]; t->a = gen(x, d - 1); t->b = gen(x, d - 1); t->e = mkBin((Kind)t->op, t->a->e, t->b->e); return t; }
    if (r < 12) { t->op = K_ADD + R() % (K_ASHR - K_ADD + 1); if (R() % 2) t->op = K_ADD + R() % 3; t->a = gen(w, d - 1); if (t->op == K_UDIV || t->op == K_SDIV || t->op == K_UREM || t->op == K_SREM) { t->b = new T; t->b->w = w; t->b->op = K_CONST; t->b->v = konst(w); t->b->e = mkC(t->b->v, w); } else t->b = gen(w, d - 1); t->e = mkBin((Kind)t->op, t->a->e, t->b->e); return t; }
    if (r < 15) { t->op = K_ITE; t->a = gen(1, d - 1); t->b = gen(w, d - 1); t->c = gen(w, d - 1); t->e = mkIte(t->a->e, t->b->e, t->c->e); return t; }
    if (r < 17 && w > 8) { unsigned x = w / 2; t->op = R() % 2 ? K_ZEXT : K_SEXT; t->a = gen(x, d - 1); t->e = t->op == K_ZEXT ? mkZExt(t->a->e, w) : mkSExt(t->a->e, w); return t; }
    if (r < 18 && w > 8) { t->op = K_CONCAT; t->a = gen(w / 2, d - 1); t->b = gen(w / 2, d - 1); t->e = mkConcat(t->a->e, t->b->e); return t; }
    if (w < 64 && w > 1) { t->op = K_EXTRACT; t->a = gen(w * 2, d - 1); t->v = R() % (w + 1); t->e = mkExtract(t->a->e, t->v, w); return t; }
    return leaf(w);
}
static uint8_t val[8];
static uint64_t evT(T *t) { switch (t->op) { case K_CONST: return t->v; case K_VAR: return val[t->v]; case K_ITE: return evT(t->a) ? evT(t->b) : evT(t->c); case K_ZEXT: return evT(t->a); case K_SEXT: return (uint64_t)sextw(evT(t->a), t->a->w) & maskw(t->w); case K_EXTRACT: return evT(t->a) >> t->v & maskw(t->w); case K_CONCAT: return evT(t->a) << t->b->w | evT(t->b); } return foldBin((Kind)t->op, t->a->w, evT(t->a), evT(t->b)); }
static uint64_t evE(E e) { switch (e->kind) { case K_CONST: return e->val; case K_VAR: return val[e->val]; case K_ITE: return evE(e->a) ? evE(e->b) : evE(e->c); case K_ZEXT: return evE(e->a); case K_SEXT: return (uint64_t)sextw(evE(e->a), e->a->width) & maskw(e->width); case K_EXTRACT: return evE(e->a) >> e->val & maskw(e->width); case K_CONCAT: return evE(e->a) << e->b->width | evE(e->b); default: return foldBin(e->kind, e->a->width, evE(e->a), evE(e->b)); } }
int main(int argc, char **argv) {
    rng.seed(argc > 1 ? atoi(argv[1]) : 1); int n = argc > 2 ? atoi(argv[2]) : 100000;
    for (int i = 0; i < n; i++) { T *t = gen(ws[R() % 5], 1 + (i*5ull/n) % 5); for (int k = 0; k < 12; k++) { for (auto &v : val) { static const uint8_t c[] = {0, 1, 127, 128, 255, 2}; v = R() % 2 ? R() : c[R() % 6]; } uint64_t x = evT(t), y = evE(t->e); if (x != y) { printf("mismatch: %llx vs %llx: %s\n", (unsigned long long)x, (unsigned long long)y, show(t->e, 20).c_str()); return 1; } } }
    printf("ok %d expressions\n", n); return 0;
}
