// Random differential test of the simplifier: every constructor is compared with plain arithmetic under random assignments.
#include "expr.h"
#include <random>
static std::mt19937_64 R;
struct P { Expr *e; u128 v[4]; };
static Model M[4];
static u128 ev(Expr *e, int k) { Evaluator E(&M[k]); return E.eval(e); }
int main(int argc, char **argv) {
  u64 seed = argc > 1 ? atoll(argv[1]) : 1; int iters = argc > 2 ? atoi(argv[2]) : 200000; R.seed(seed);
  std::vector<P> pool; unsigned ws[] = {1, 8, 16, 32, 64, 128, 8, 32, 64, 3, 5};
  auto reset = [&]() { 
    pool.clear();
    for (unsigned i = 0; i < g_vars.size(); i++) for (int k = 0; k < 4; k++) { M[k].v.resize(g_vars.size()); u64 r = R(); if (R() % 3 == 0) r = (s64)(s8)(r & 15) - 8; M[k].v[i] = r & mask64(g_vars[i].w); }
    for (unsigned i = 0; i < g_vars.size(); i++) { P p; p.e = mk_var_idx(i); for (int k = 0; k < 4; k++) p.v[k] = M[k].get(i); pool.push_back(p); }
  };
  for (int i = 0; i < 6; i++) { mk_var("a" + std::to_string(i), 64); mk_var("b" + std::to_string(i), 32); mk_var("c" + std::to_string(i), 8); mk_var("d" + std::to_string(i), 1); }
  reset();
  for (int it = 0; it < iters; it++) {
    if (pool.size() > 400) reset();
    auto pick = [&](unsigned w) -> P {
      if (R() % 5 == 0) { P p; u128 c; switch (R() % 6) { case 0: c = 0; break; case 1: c = 1; break; case 2: c = ~(u128)0; break; case 3: c = (u128)1 << (R() % w); break; case 4: c = R() & 0xff; break; default: c = ((u128)R() << 64) | R(); } p.e = mk_const(c, w); for (int k = 0; k < 4; k++) p.v[k] = c & maskw(w); return p; }
      for (int t = 0; t < 60; t++) { P &p = pool[R() % pool.size()]; if (p.e->w == w) return p; }
      P &p = pool[R() % pool.size()]; P q; q.e = p.e->w >= w ? mk_extract(p.e, 0, w) : mk_zext(p.e, w); for (int k = 0; k < 4; k++) q.v[k] = p.v[k] & maskw(w); return q;
    };
    unsigned w = ws[R() % 11]; P a = pick(w), b = pick(w), r; int op = R() % 22; 
    auto S = [&](u128 v) { return sx128(v, w); };
    const char *nm = "";
    #define BIN(n, f, E) case n: { nm = #f; r.e = f(a.e, b.e); for (int k = 0; k < 4; k++) { u128 x = a.v[k], y = b.v[k]; r.v[k] = (E) & maskw(r.e->w); } break; }
    switch (op) {
      BIN(0, mk_add, x + y) BIN(1, mk_sub, x - y) BIN(2, mk_mul, x * y) BIN(3, mk_and, x & y) BIN(4, mk_or, x | y) BIN(5, mk_xor, x ^ y)
      BIN(6, mk_eq, x == y) BIN(7, mk_ult, x < y) BIN(8, mk_slt, S(x) < S(y))
      BIN(9, mk_shl, y >= w ? 0 : x << (unsigned)y) BIN(10, mk_lshr, y >= w ? 0 : x >> (unsigned)y) BIN(11, mk_ashr, S(x) >> (y >= w ? w - 1 : (unsigned)y))
      case 12: nm = "not"; r.e = mk_not(a.e); for (int k = 0; k < 4; k++) r.v[k] = ~a.v[k] & maskw(w); break;
      case 13: nm = "neg"; r.e = mk_neg(a.e); for (int k = 0; k < 4; k++) r.v[k] = ((u128)0 - a.v[k]) & maskw(w); break;
      case 14: { nm = "extract"; unsigned lo = R() % w, n = 1 + R() % (w - lo); r.e = mk_extract(a.e, lo, n); for (int k = 0; k < 4; k++) r.v[k] = (a.v[k] >> lo) & maskw(n); break; }
      case 15: case 16: { nm = "concat"; P c = pick(ws[R() % 11]); if (c.e->w + w > 128) continue; r.e = mk_concat(a.e, c.e); for (int k = 0; k < 4; k++) r.v[k] = (a.v[k] << c.e->w) | c.v[k]; break; }
      case 17: { nm = "sext"; unsigned n = w + R() % (129 - w); r.e = mk_sext(a.e, n); for (int k = 0; k < 4; k++) r.v[k] = (u128)S(a.v[k]) & maskw(n); break; }
      case 18: { nm = "ite"; P c = pick(1); r.e = mk_ite(c.e, a.e, b.e); for (int k = 0; k < 4; k++) r.v[k] = c.v[k] ? a.v[k] : b.v[k]; break; }
      case 19: case 20: case 21: { // division; skip zero divisors
        bool z = false; for (int k = 0; k < 4; k++) if (!b.v[k]) z = true; if (z) continue;
        int q = R() % 4; nm = "div";
        r.e = q == 0 ? mk_udiv(a.e, b.e) : q == 1 ? mk_urem(a.e, b.e) : q == 2 ? mk_sdiv(a.e, b.e) : mk_srem(a.e, b.e);
        for (int k = 0; k < 4; k++) { u128 x = a.v[k], y = b.v[k]; s128 sx = S(x), sy = S(y);
          r.v[k] = (q == 0 ? x / y : q == 1 ? x % y : sy == -1 ? (q == 2 ? (u128)0 - (u128)sx : 0) : q == 2 ? (u128)(sx / sy) : (u128)(sx % sy)) & maskw(w); }
        break; }
    }
    for (int k = 0; k < 4; k++) if (ev(r.e, k) != r.v[k]) {
      printf("MISMATCH %s it=%d k=%d\n a=%s\n b=%s\n r=%s\n got %llx want %llx\n", nm, it, k, to_str(a.e, 8).c_str(), to_str(b.e, 8).c_str(), to_str(r.e, 10).c_str(), (unsigned long long)ev(r.e, k), (unsigned long long)r.v[k]);
      return 1;
    }
    pool.push_back(r);
  }
  printf("expr selftest ok: %d operations, %u nodes\n", iters, g_next_id);
}
