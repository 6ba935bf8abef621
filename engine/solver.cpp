#include "core.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <time.h>
Stats ST; unsigned g_solver_timeout_ms = 20000;
double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Z3_context Z; static Z3_solver Zbv, Zuf; static std::vector<Z3_ast> zc; static std::map<u32, Z3_func_decl> zuf; static std::vector<Z3_ast> zbvars;
static Z3_sort bvs[160];
static void z3_err(Z3_context c, Z3_error_code e) { throw EngineError{std::string("z3 error: ") + Z3_get_error_msg(c, e)}; }
static void z_init() {
  if (Z) Z3_del_context(Z);
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(Z, z3_err);
  zc.clear(); zuf.clear(); for (auto &b : bvs) b = nullptr;
  Zbv = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, Zbv);
  Zuf = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_UFBV")); Z3_solver_inc_ref(Z, Zuf);
  for (Z3_solver s : {Zbv, Zuf}) { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), g_solver_timeout_ms); Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p); }
}
static Z3_sort S_(unsigned w) { if (!bvs[w]) bvs[w] = Z3_mk_bv_sort(Z, w); return bvs[w]; }
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(Z, b, Z3_mk_unsigned_int(Z, 1, S_(1)), Z3_mk_unsigned_int(Z, 0, S_(1))); }
static Z3_ast zx(Expr *e) {
  if (zc.size() <= e->id) zc.resize(g_next_id + 4096, nullptr);
  if (zc[e->id]) return zc[e->id];
  Z3_ast r = nullptr; Z3_ast a = e->a ? zx(e->a) : nullptr, b = e->b ? zx(e->b) : nullptr, c = e->c ? zx(e->c) : nullptr;
  switch (e->op) {
    case O_CONST: if (e->w <= 64) r = Z3_mk_unsigned_int64(Z, e->clo, S_(e->w)); else r = Z3_mk_concat(Z, Z3_mk_unsigned_int64(Z, e->chi, S_(e->w - 64)), Z3_mk_unsigned_int64(Z, e->clo, S_(64))); break;
    case O_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%u", e->aux); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), S_(e->w)); break; }
    case O_ADD: r = Z3_mk_bvadd(Z, a, b); break;
    case O_NEG: r = Z3_mk_bvneg(Z, a); break;
    case O_MUL: r = Z3_mk_bvmul(Z, a, b); break;
    case O_UDIV: r = Z3_mk_bvudiv(Z, a, b); break;
    case O_SDIV: r = Z3_mk_bvsdiv(Z, a, b); break;
    case O_UREM: r = Z3_mk_bvurem(Z, a, b); break;
    case O_SREM: r = Z3_mk_bvsrem(Z, a, b); break;
    case O_AND: r = Z3_mk_bvand(Z, a, b); break;
    case O_OR: r = Z3_mk_bvor(Z, a, b); break;
    case O_XOR: r = Z3_mk_bvxor(Z, a, b); break;
    case O_NOT: r = Z3_mk_bvnot(Z, a); break;
    case O_SHL: r = Z3_mk_bvshl(Z, a, b); break;
    case O_LSHR: r = Z3_mk_bvlshr(Z, a, b); break;
    case O_ASHR: r = Z3_mk_bvashr(Z, a, b); break;
    case O_CONCAT: r = Z3_mk_concat(Z, a, b); break;
    case O_EXTRACT: r = Z3_mk_extract(Z, e->aux + e->w - 1, e->aux, a); break;
    case O_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, a); break;
    case O_ITE: r = Z3_mk_ite(Z, Z3_mk_eq(Z, a, Z3_mk_unsigned_int(Z, 1, S_(1))), b, c); break;
    case O_EQ: r = b2v(Z3_mk_eq(Z, a, b)); break;
    case O_ULT: r = b2v(Z3_mk_bvult(Z, a, b)); break;
    case O_SLT: r = b2v(Z3_mk_bvslt(Z, a, b)); break;
    case O_UF: {
      u32 key = e->aux; auto it = zuf.find(key ^ (e->w << 24)); Z3_func_decl f;
      Z3_sort dom[3]; Z3_ast args[3]; unsigned n = 0; for (auto x : {e->a, e->b, e->c}) if (x) { dom[n] = S_(x->w); args[n] = zx(x); n++; }
      if (it == zuf.end()) { char nm[32]; snprintf(nm, sizeof nm, "uf%x_%d", key, e->w); f = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, nm), n, dom, S_(e->w)); zuf[key ^ (e->w << 24)] = f; } else f = it->second;
      r = Z3_mk_app(Z, f, n, args); break;
    }
  }
  if (zc.size() <= e->id) zc.resize(g_next_id + 4096, nullptr);
  zc[e->id] = r; return r;
}
static Z3_ast zbool(Expr *e) { // a width-1 expression as a boolean
  switch (e->op) {
    case O_EQ: return Z3_mk_eq(Z, zx(e->a), zx(e->b));
    case O_ULT: return Z3_mk_bvult(Z, zx(e->a), zx(e->b));
    case O_SLT: return Z3_mk_bvslt(Z, zx(e->a), zx(e->b));
    case O_NOT: return Z3_mk_not(Z, zbool(e->a));
    case O_AND: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; return Z3_mk_and(Z, 2, x); }
    default: return Z3_mk_eq(Z, zx(e), Z3_mk_unsigned_int(Z, 1, S_(1)));
  }
}
struct QC { Sat r; std::vector<std::pair<u32, u64>> vals; };
static std::unordered_map<std::string, QC> qcache;
static u64 qn;

static void collect_uf(Expr *e, std::set<u32> &seen, std::vector<Expr*> &out) {
  if (!has_uf(e) || !seen.insert(e->id).second) return;
  if (e->op == O_UF) out.push_back(e);
  for (auto x : {e->a, e->b, e->c}) if (x) collect_uf(x, seen, out);
}

Sat solve(const std::vector<Expr*> &cons, Expr *extra, const Model *base, Model *out) {
  // slice
  std::vector<Expr*> q; 
  if (extra) {
    if (is_c(extra)) { if (!extra->clo) return UNSAT; if (base && out) *out = *base; return SAT; }
    q.push_back(extra);
    std::vector<u32> vs = vars_of(extra); std::vector<char> used(cons.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < cons.size(); i++) if (!used[i]) { auto &v = vars_of(cons[i]); bool hit = false; for (u32 x : v) if (std::binary_search(vs.begin(), vs.end(), x)) { hit = true; break; } if (hit) { used[i] = 1; q.push_back(cons[i]); std::vector<u32> t; std::set_union(vs.begin(), vs.end(), v.begin(), v.end(), std::back_inserter(t)); if (t.size() != vs.size()) ch = true; vs.swap(t); } } }
  } else q = cons;
  std::sort(q.begin(), q.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
  q.erase(std::unique(q.begin(), q.end()), q.end());
  std::string key((size_t)q.size() * 4, 0); for (size_t i = 0; i < q.size(); i++) memcpy(&key[i * 4], &q[i]->id, 4);
  auto it = qcache.find(key);
  auto apply = [&](const QC &c) { if (c.r == SAT && out) { if (base) *out = *base; for (auto &p : c.vals) { if (out->v.size() <= p.first) out->v.resize(p.first + 1, 0); out->v[p.first] = p.second; } } };
  if (it != qcache.end()) { ST.cache_hits++; apply(it->second); return it->second.r; }
  if (!Z || (++qn % 20000) == 0) z_init();
  if ((qn & 255) == 0 && Z3_get_estimated_alloc_size() > (2500ull << 20)) z_init();
  bool uf = false; for (auto e : q) uf |= has_uf(e);
  QC res; res.r = UNK;
  std::vector<Expr*> lemmas;
  for (int round = 0; round < 40; round++) {
    Z3_solver s = uf ? Zuf : Zbv; Z3_solver_reset(Z, s);
    for (auto e : q) Z3_solver_assert(Z, s, zbool(e));
    for (auto e : lemmas) Z3_solver_assert(Z, s, zbool(e));
    double t0 = now_s(); Z3_lbool r; 
    try { r = Z3_solver_check(Z, s); } catch (EngineError &e) { r = Z3_L_UNDEF; }
    double dt = now_s() - t0; ST.solver_s += dt; if (dt > ST.max_q) ST.max_q = dt; ST.queries++;
    if (dt > 2.0 && CFG.verbose) { fprintf(stderr, "[slow query %.1fs r=%d] %s\n", dt, (int)r, extra ? to_str(extra, 9).c_str() : ""); }
    if (r == Z3_L_FALSE) { res.r = UNSAT; ST.unsat++; break; }
    if (r == Z3_L_UNDEF) { res.r = UNK; ST.unk++; break; }
    ST.sat++;
    Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
    std::set<u32> vs; for (auto e : q) for (u32 v : vars_of(e)) vs.insert(v);
    res.vals.clear(); Model mm; if (base) mm = *base;
    for (u32 v : vs) { Z3_ast val; Expr *ve = mk_var_idx(v); u64 u = 0; if (Z3_model_eval(Z, m, zx(ve), true, &val)) Z3_get_numeral_uint64(Z, val, (uint64_t*)&u); res.vals.push_back({v, u}); if (mm.v.size() <= v) mm.v.resize(v + 1, 0); mm.v[v] = u; }
    Z3_model_dec_ref(Z, m);
    // Validate the model with the evaluator (which uses real floating point for the uninterpreted functions).
    Evaluator E(&mm); bool ok = true; for (auto e : q) if (!E.eval(e)) { ok = false; break; }
    if (ok) { res.r = SAT; break; }
    if (!uf) throw EngineError{"solver model does not satisfy the query (encoding bug)"};
    // refine: add the real value of every function application under this model
    std::set<u32> seen; std::vector<Expr*> ap; for (auto e : q) collect_uf(e, seen, ap);
    for (auto e : ap) { Evaluator F(&mm); Expr *g = mk_bool(true); for (auto x : {e->a, e->b, e->c}) if (x) g = mk_and(g, mk_eq(x, mk_const(F.eval(x), x->w))); Expr *l = mk_or(mk_not(g), mk_eq(e, mk_const(F.eval(e), e->w))); if (!is_c(l)) lemmas.push_back(l); }
    ST.spurious++;
  }
  if (res.r == UNK) ST.undecided++;
  if (qcache.size() > 200000) qcache.clear();
  qcache[key] = res; apply(res); return res.r;
}
