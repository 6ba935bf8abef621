// Interpreter over the pre-decoded IR, path exploration and harness intrinsics.
#include "core.h"
#include <algorithm>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
using llvm::CmpInst; using llvm::AtomicRMWInst;
Cfg CFG; State *g_cur;
std::vector<State*> g_work;
Mem g_pristine;
std::map<std::string, u64> g_reach, g_checks, g_undec;
std::vector<std::string> g_samples;
static std::unordered_map<std::string, Expr*> g_named;
std::map<u32, std::string> g_fault_names = {{FAULT_AV,"access violation"},{FAULT_DIV,"division fault"},{FAULT_UNREACH,"unreachable"},{FAULT_BUDGET,"instruction budget exceeded"},{FAULT_TRAP,"trap"},{FAULT_BADINS,"undecodable instruction"},{FAULT_DEADLOCK,"deadlock"},{FAULT_ALIGN,"alignment"},{FAULT_STACK,"stack overflow"}};

struct TaskPoint { s64 n; };

OS &os_mut(State &S) { if (S.os.use_count() > 1) S.os = std::make_shared<OS>(*S.os); return *S.os; }
State *state_clone(State &S) { State *N = new State(S); mem_clone(N->mem, S.mem); return N; }
void state_free(State *S) { mem_free(S->mem); delete S; }
void push_state(State *S) { g_work.push_back(S); }

void add_constraint(State &S, Expr *c) {
  if (is_c(c)) { if (!c->clo) throw PathEnd{2}; return; }
  if (c->op == O_AND) { add_constraint(S, c->a); add_constraint(S, c->b); return; }
  for (auto x : S.cons) if (x == c) return;
  S.cons.push_back(c);
}
static int known(State &S, Expr *c) {
  if (is_c(c)) return (int)c->clo;
  Expr *n = mk_not(c);
  for (auto x : S.cons) { if (x == c) return 1; if (x == n) return 0; }
  if (c->op == O_AND) { int a = known(S, c->a), b = known(S, c->b); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; }
  if (n->op == O_AND) { int a = known(S, n->a), b = known(S, n->b); if (a == 0 || b == 0) return 1; if (a == 1 && b == 1) return 0; }
  return -1;
}
std::shared_ptr<Model> the_model(State &S) {
  if (!S.model) { Model m; Sat r = solve(S.cons, nullptr, nullptr, &m); if (r == UNSAT) throw PathEnd{2}; if (r == UNK) { ST.truncated++; throw PathEnd{3}; } S.model = std::make_shared<Model>(m); }
  return S.model;
}
struct QSite { u64 n; double t; };
std::map<std::string, QSite> g_qsites; bool g_qprof = getenv("HLC_QPROF") != nullptr;
static std::string site(State &S) { Thread &T = cur_thread(S); if (T.fr.empty()) return "?"; Frame &F = T.fr.back(); if (F.kind == FK_X86) return "x86"; return (F.f ? F.f->name : std::string("?")) + ":" + std::to_string(F.f && F.pc < F.f->code.size() ? F.f->code[F.pc].line : 0); }
struct QTimer { State &S; std::string k; double t0; QTimer(State &S) : S(S) { if (g_qprof) { k = site(S); t0 = now_s(); } } ~QTimer() { if (g_qprof) { auto &q = g_qsites[k]; q.n++; q.t += now_s() - t0; } } };
bool decide(State &S, Expr *c) {
  if (is_c(c)) return c->clo;
  int k = known(S, c); if (k >= 0) { ST.syntactic++; return k; }
  QTimer qt(S);
  auto m = the_model(S); Evaluator E(m.get()); bool side = E.eval(c) != 0; ST.model_hits++;
  Expr *other = side ? mk_not(c) : c; Model om; Sat r = solve(S.cons, other, m.get(), &om);
  if (r == UNSAT) return side;
  if (r == UNK) { g_undec["branch"]++; ST.truncated++; add_constraint(S, side ? c : mk_not(c)); return side; }
  State *N = state_clone(S); ST.forks++;
  try { add_constraint(*N, other); N->model = std::make_shared<Model>(om); push_state(N); } catch (PathEnd &) { state_free(N); }
  add_constraint(S, side ? c : mk_not(c));
  return side;
}
u64 concretize(State &S, const V &v, unsigned w, int limit) {
  if (!v.e) return v.c; if (is_c(v.e)) return v.e->clo;
  QTimer qt(S);
  auto m = the_model(S); Evaluator E(m.get()); u64 val = (u64)E.eval(v.e);
  Expr *eq = mk_eq(v.e, mk_const(val, v.e->w));
  int k = known(S, eq); if (k == 1) return val;
  Model om; Sat r = solve(S.cons, mk_not(eq), m.get(), &om);
  if (r == UNSAT) return val;
  if (r == UNK) { g_undec["concretize"]++; ST.truncated++; add_constraint(S, eq); return val; }
  State *N = state_clone(S); ST.forks++;
  try { add_constraint(*N, mk_not(eq)); N->model = std::make_shared<Model>(om); push_state(N); } catch (PathEnd &) { state_free(N); }
  add_constraint(S, eq); return val;
}
u64 choose(State &S, u64 n, bool sched) { u32 tag = sched ? 0x80000000u : 0;
  if (S.forced_i < S.forced.size()) { u64 r = S.forced[S.forced_i++]; S.trail.push_back((u32)r | tag); return r; }
  for (u64 i = n; i-- > 1;) { State *N = state_clone(S); N->forced.clear(); N->forced.push_back(i); N->forced_i = 0; push_state(N); ST.forks++; }
  S.trail.push_back(tag); return 0;
}
// Feasible values of an address (up to limit); empty when there are more.
bool enum_values(State &S, Expr *e, unsigned limit, std::vector<u64> &out) {
  out.clear(); std::vector<Expr*> extra; auto m = the_model(S); Evaluator E(m.get()); out.push_back((u64)E.eval(e));
  Expr *ne = mk_not(mk_eq(e, mk_const(out[0], e->w)));
  for (;;) {
    Model om; Sat r = solve(S.cons, ne, m.get(), &om);
    if (r == UNSAT) return true; if (r == UNK) return false;
    Evaluator F(&om); u64 v = (u64)F.eval(e); out.push_back(v); if (out.size() > limit) return false;
    ne = mk_and(ne, mk_not(mk_eq(e, mk_const(v, e->w))));
  }
}
static bool addr_ok(State &S, u64 a, unsigned n) { try { mem_page(S, a, false); mem_page(S, a + n - 1, false); return true; } catch (MemFault &) { return false; } }
// Shifting by the width or more is undefined in C; the compiler is built for x86-64 without optimisation, where the count is taken modulo 32 or 64.
static inline V shiftcount(const V &b, unsigned w) {
  if (w != 32 && w != 64) return b;
  return b.e ? VE(mk_and(b.e, mk_const(w - 1, w))) : VC(b.c & (w - 1));
}
static Expr *mux(State &S, u64 base, Expr *idx, unsigned bits, u64 at, unsigned sh, unsigned n) { // value at base + idx<<sh
  if (bits == 0) return EX(mem_load(S, base + (at << sh), n), n * 8);
  Expr *lo = mux(S, base, idx, bits - 1, at, sh, n), *hi = mux(S, base, idx, bits - 1, at | (1ull << (bits - 1)), sh, n);
  return mk_ite(mk_extract(idx, bits - 1, 1), hi, lo);
}
// load with a symbolic address
V sym_load(State &S, const V &av, unsigned n) {
  Expr *a = av.e; u64 base = 0; Expr *t = a;
  if (a->op == O_ADD && is_c(a->b)) { base = a->b->clo; t = a->a; }
  if (t->op == O_CONCAT) { // zero : idx : zero
    Expr *p = t; unsigned sh = 0; Expr *idx = nullptr;
    if (is_c(p->a, 0)) { p = p->b; if (p->op == O_CONCAT && is_c(p->b, 0)) { sh = p->b->w; idx = p->a; } else if (p->op != O_CONCAT) idx = p; }
    if (idx && idx->w <= 8) {
      u64 last = base + (((1ull << idx->w) - 1) << sh); bool ok = true;
      for (u64 q = base & ~0xfffull; q <= last + n - 1 && ok; q += PG) ok = addr_ok(S, std::max(q, base), 1);
      if (ok && addr_ok(S, last, n)) return VE(mux(S, base, idx, idx->w, 0, sh, n));
    }
  }
  std::vector<u64> vals;
  if (enum_values(S, a, 48, vals)) {
    bool ok = true; for (u64 v : vals) ok = ok && addr_ok(S, v, n);
    if (ok) { std::sort(vals.begin(), vals.end()); Expr *r = EX(mem_load(S, vals.back(), n), n * 8); for (size_t i = vals.size() - 1; i-- > 0;) r = mk_ite(mk_eq(a, mk_const(vals[i], a->w)), EX(mem_load(S, vals[i], n), n * 8), r); return VE(r); }
  }
  return mem_load(S, concretize(S, av, 64), n);
}
void sym_store(State &S, const V &av, unsigned n, const V &v) {
  std::vector<u64> vals; Expr *a = av.e;
  if (enum_values(S, a, 48, vals)) {
    if (vals.size() == 1) { mem_store(S, vals[0], n, v); return; }
    bool ok = true; for (u64 x : vals) ok = ok && addr_ok(S, x, n);
    if (ok) { Expr *nv = EX(v, n * 8); std::vector<Expr*> old; for (u64 x : vals) old.push_back(EX(mem_load(S, x, n), n * 8));
      bool overlap = false; std::sort(vals.begin(), vals.end()); for (size_t i = 1; i < vals.size(); i++) if (vals[i] - vals[i - 1] < n) overlap = true;
      if (!overlap) { for (u64 x : vals) mem_store(S, x, n, VE(mk_ite(mk_eq(a, mk_const(x, 64)), nv, EX(mem_load(S, x, n), n * 8)))); return; } }
  }
  mem_store(S, concretize(S, av, 64), n, v);
}
void report_violation(State &S, const std::string &msg, Model *m);
void do_check(State &S, Expr *c, const std::string &msg) {
  ST.checks++; g_checks[msg]++;
  if (is_c(c, 1) || known(S, c) == 1) { ST.checks_trivial++; return; }
  auto m = the_model(S);
  if (is_c(c, 0)) { report_violation(S, msg, m.get()); throw PathEnd{4}; }
  ST.checks_solver++;
  Evaluator E(m.get()); if (!E.eval(c)) { report_violation(S, msg, m.get()); add_constraint(S, c); S.model = nullptr; return; }
  Model om; Sat r = solve(S.cons, mk_not(c), m.get(), &om);
  if (r == UNSAT) return;
  if (r == UNK) { g_undec[msg]++; if (CFG.verbose) fprintf(stderr, "[undecided] %s: %s\n", msg.c_str(), to_str(c, 12).c_str()); return; }
  report_violation(S, msg, &om); add_constraint(S, c);
}

// ---------------- frames ----------------
void push_frame(State &S, Func *f, const V *args, unsigned n, s32 retdst, u64 va) {
  Thread &T = cur_thread(S);
  if (!f->visited) f->visited = true; f->calls++;
  if (T.fr.size() > 6000) { handle_fault(S, FAULT_STACK, 0); return; }
  Frame F; memset(&F, 0, sizeof F); F.f = f; F.pc = 0; F.sp = T.sp; F.va = va; F.retdst = retdst; F.kind = FK_IR; F.retw = f->retw;
  F.rbase = T.regs.size(); 
  V tmp[64]; unsigned k = std::min(n, f->nargs); std::vector<V> big; const V *src = args; 
  if (k <= 64) { memcpy(tmp, args, k * sizeof(V)); src = tmp; } else { big.assign(args, args + k); src = big.data(); }
  T.regs.resize(F.rbase + f->nregs);
  for (unsigned i = 0; i < k; i++) T.regs[F.rbase + i] = src[i];
  T.fr.push_back(F);
}
void x86_resume(State &S, Func *f, V ret);
void do_return(State &S, V r) {
  Thread &T = cur_thread(S); Frame F = T.fr.back(); T.fr.pop_back(); T.sp = F.sp; T.regs.resize(F.rbase);
  if (T.fr.empty()) {
    T.status = 2; if (T.id == 0) throw PathEnd{0};
    for (auto &t : S.th) if (t.status == 1 && t.wait_handle == T.handle) t.status = 0;
    schedule_point(S, 2); return;
  }
  Frame &P = T.fr.back();
  if (P.kind == FK_IR) { if (F.retdst >= 0) T.regs[P.rbase + F.retdst] = r; P.pc++; return; }
  if (P.kind == FK_X86) { x86_resume(S, F.f, r); return; }
  if (P.kind == FK_COMPILE) { compile_finish(S, (s64)(s32)(r.e ? 0 : r.c), 0, 0); return; }
  if (P.kind == FK_CB) { // hs_invoke
    Frame Q = P; T.fr.pop_back(); T.sp = Q.sp; S.last_fault = 0; Frame &H = T.fr.back(); if (Q.retdst >= 0) T.regs[H.rbase + Q.retdst] = r; H.pc++; return;
  }
}
void mem_share_range(State &S, Mem &src, u64 lo, u64 hi);
void compile_finish(State &S, s64 code, int kind, u64 info) {
  // unwind thread 0 to its compile marker
  Thread &T = S.th[0]; S.cur = 0; T.status = 0; T.wait_handle = 0; S.budget = 1ull << 60;
  while (!T.fr.empty() && T.fr.back().kind != FK_COMPILE) { T.regs.resize(T.fr.back().rbase); T.fr.pop_back(); }
  if (T.fr.empty()) throw EngineError{"ExitProcess outside of a compile"};
  Frame Q = T.fr.back(); T.fr.pop_back(); T.sp = Q.sp; T.regs.resize(Q.rbase); T.x.resize(Q.aux2);
  for (size_t i = 1; i < S.th.size(); i++) mem_unmap(S, S.th[i].stack_lo);
  S.th.resize(1); S.last_fault = kind; S.last_fault_addr = info; S.sched_on = false;
  Frame &H = S.th[0].fr.back(); if (Q.retdst >= 0) S.th[0].regs[H.rbase + Q.retdst] = VC(kind ? (u64)(s64)(-1000 - kind) : (u64)code); H.pc++;
}
void handle_fault(State &S, int kind, u64 addr) {
  Thread &T = cur_thread(S);
  if (CFG.verbose) { fprintf(stderr, "[fault] %s addr=%llx thread %d", g_fault_names[kind].c_str(), (unsigned long long)addr, S.cur); for (size_t i = T.fr.size(), k = 0; i-- > 0 && k < 12; k++) { auto &f = T.fr[i]; if (f.kind == FK_IR) fprintf(stderr, " <- %s:%u", f.f->name.c_str(), f.pc < f.f->code.size() ? f.f->code[f.pc].line : 0); else if (f.kind == FK_X86) fprintf(stderr, " <- x86@%llx", (unsigned long long)T.x[f.xi].rip); else fprintf(stderr, " <- marker%d", f.kind); } fprintf(stderr, "\n"); }
  // any thread of a compilation faulting ends the compilation
  if (S.cur != 0) { compile_finish(S, 0, kind, addr); return; }
  for (size_t i = T.fr.size(); i-- > 0;) {
    Frame &F = T.fr[i];
    if (F.kind == FK_COMPILE) { compile_finish(S, 0, kind, addr); return; }
    if (F.kind == FK_CB) { Frame Q = F; T.fr.resize(i); T.sp = Q.sp; T.regs.resize(Q.rbase); S.last_fault = kind; S.last_fault_addr = addr; Frame &H = T.fr.back(); if (Q.retdst >= 0) T.regs[H.rbase + Q.retdst] = VC(0); H.pc++; return; }
    if (F.kind == FK_X86) { Frame Q = F; T.fr.resize(i); T.sp = Q.sp; T.regs.resize(Q.rbase); T.x.resize(Q.xi); S.last_fault = kind; S.last_fault_addr = addr; Frame &H = T.fr.back(); if (Q.retdst >= 0) T.regs[H.rbase + Q.retdst] = VC(kind); H.pc++; return; }
  }
  std::string bt; for (size_t i = T.fr.size(), k = 0; i-- > 0 && k < 8; k++) if (T.fr[i].kind == FK_IR) bt += " <- " + T.fr[i].f->name + ":" + std::to_string(T.fr[i].f->code[T.fr[i].pc].line);
  throw EngineError{"fault in harness code: " + g_fault_names[kind] + bt};
}

static bool take_point(State &S, u32 id);
void schedule_point(State &S, int kind) { // 0: optional, 1: current blocked, 2: current finished
  unsigned n = S.th.size();
  std::vector<int> run; for (unsigned i = 0; i < n; i++) if (S.th[i].status == 0) run.push_back(i);
  if (kind) {
    if (run.empty()) { S.cur = 0; handle_fault(S, FAULT_DEADLOCK, 0); return; }
    if (S.sched_on && run.size() > 1 && S.preempt_left > 0) {
      u64 k = 0; if (take_point(S, 0)) k = choose(S, run.size(), true); // a clone made by choose counts the point again
      S.points++; S.pcount[0]++; S.cur = run[k]; return;
    }
    for (unsigned k = 1; k <= n; k++) { unsigned i = (S.cur + k) % n; if (S.th[i].status == 0) { S.cur = i; return; } }
  }
}

// ---------------- interpreter ----------------
static inline V &reg(V *R, s32 o, ::Module *m) { return o >= 0 ? R[o] : m->K[~o]; }
static Expr *icmp_e(unsigned p, Expr *a, Expr *b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mk_eq(a, b); case CmpInst::ICMP_NE: return mk_not(mk_eq(a, b));
    case CmpInst::ICMP_ULT: return mk_ult(a, b); case CmpInst::ICMP_UGT: return mk_ult(b, a); case CmpInst::ICMP_ULE: return mk_not(mk_ult(b, a)); case CmpInst::ICMP_UGE: return mk_not(mk_ult(a, b));
    case CmpInst::ICMP_SLT: return mk_slt(a, b); case CmpInst::ICMP_SGT: return mk_slt(b, a); case CmpInst::ICMP_SLE: return mk_not(mk_slt(b, a)); default: return mk_not(mk_slt(a, b));
  }
}
static Expr *fcmp_e(unsigned p, Expr *a, Expr *b) {
  Expr *u = fp_uno(a, b); Expr *r;
  switch (p & 7) { case 0: r = mk_bool(false); break; case 1: r = fp_oeq(a, b); break; case 2: r = fp_olt(b, a); break; case 3: r = mk_or(fp_olt(b, a), fp_oeq(a, b)); break; case 4: r = fp_olt(a, b); break; case 5: r = mk_or(fp_olt(a, b), fp_oeq(a, b)); break; case 6: r = mk_and(mk_not(u), mk_not(fp_oeq(a, b))); break; default: r = mk_not(u); }
  if (p >= 8) r = mk_or(r, u); return r;
}
u32 ufid(u32 k, unsigned aw) { return k | (aw << 8); }
// conversions canonicalised so that both code paths build the same terms
// truncation towards zero, interpreted: magnitude = significand shifted by the exponent; values outside of the range give the x86 indefinite integer
static Expr *fp_strip(Expr *a) { if (a->op == O_UF && (a->aux & 0xff) == UF_FPEXT) return a->a; return a; }
static Expr *fp_trunc_mag(Expr *a, Expr *&e11) { // 64-bit magnitude valid for exponents below 64
  unsigned m = a->w == 32 ? 23 : 52, eb = a->w - 1 - m; int bias = (1 << (eb - 1)) - 1;
  Expr *e = mk_zext(mk_extract(a, m, eb), 64), *f = mk_zext(mk_concat(mk_const(1, 1), mk_extract(a, 0, m)), 64); e11 = e;
  Expr *left = mk_shl(f, mk_sub(e, mk_const(bias + m, 64))), *right = mk_lshr(f, mk_sub(mk_const(bias + m, 64), e));
  return mk_ite(mk_ult(e, mk_const(bias, 64)), mk_const(0, 64), mk_ite(mk_ult(e, mk_const(bias + m, 64)), right, left));
}
Expr *e_fptosi(Expr *a, unsigned w) {
  a = fp_strip(a); if (w < 32) return mk_extract(e_fptosi(a, 32), 0, w);
  if (a->op == O_CONST) return mk_uf(ufid(UF_FPTOSI, a->w), w, a);
  Expr *e; Expr *mag = fp_trunc_mag(a, e); int bias = a->w == 32 ? 127 : 1023;
  Expr *v = mk_ite(mk_extract(a, a->w - 1, 1), mk_neg(mag), mag);
  return mk_ite(mk_ult(e, mk_const(bias + w - 1, 64)), mk_extract(v, 0, w), mk_const((u128)1 << (w - 1), w));
}
Expr *e_fptoui(Expr *a, unsigned w) {
  a = fp_strip(a); if (w < 32) return mk_extract(e_fptosi(a, 32), 0, w); if (w == 32) return mk_extract(e_fptosi(a, 64), 0, 32);
  if (a->op == O_CONST) return mk_uf(ufid(UF_FPTOUI, a->w), w, a);
  // x < 2^63: signed conversion; otherwise convert x - 2^63 and set the top bit
  int bias = a->w == 32 ? 127 : 1023, m = a->w == 32 ? 23 : 52; Expr *big = mk_not(mk_ult(mk_zext(mk_extract(a, m, a->w - 1 - m), 64), mk_const(bias + 63, 64)));
  Expr *t = mk_uf(ufid(UF_FADD, a->w), a->w, a, mk_const(a->w == 32 ? 0xdf000000u : 0xc3e0000000000000ull, a->w)); Expr *lo = e_fptosi(a, 64);
  return mk_ite(mk_and(big, mk_not(mk_extract(a, a->w - 1, 1))), mk_or(mk_const((u128)1 << 63, 64), e_fptosi(t, 64)), lo);
}
Expr *e_sitofp(Expr *a, unsigned w) { if (a->w < 32) a = mk_sext(a, 32); 
  if (a->w == 64 && a->op == O_SEXT && a->a->w <= 32) a = mk_sext(a->a, 32);
  if (a->w == 64 && a->op == O_CONCAT && is_c(a->a, 0) && a->b->w < 32) a = mk_zext(a->b, 32);
  return mk_uf(ufid(UF_SITOFP, a->w), w, a); }
Expr *e_uitofp(Expr *a, unsigned w) { if (a->w < 32) return e_sitofp(mk_zext(a, 32), w); if (a->w == 32) return e_sitofp(mk_zext(a, 64), w);
  if (a->op == O_CONST) return mk_uf(ufid(UF_UITOFP, a->w), w, a);
  // exact identity: halve with the lost bit kept sticky, convert, double
  Expr *h = e_sitofp(mk_or(mk_lshr(a, mk_const(1, 64)), mk_and(a, mk_const(1, 64))), w); return mk_ite(mk_extract(a, 63, 1), mk_uf(ufid(UF_FADD, w), w, h, h), e_sitofp(a, w)); }

static bool armw(unsigned op, V o, V b, unsigned w, V &r) {
  Expr *x, *y; if (!o.e && !b.e) { u64 v; switch (op) { case AtomicRMWInst::Xchg: v = b.c; break; case AtomicRMWInst::Add: v = o.c + b.c; break; case AtomicRMWInst::Sub: v = o.c - b.c; break; case AtomicRMWInst::And: v = o.c & b.c; break; case AtomicRMWInst::Or: v = o.c | b.c; break; case AtomicRMWInst::Xor: v = o.c ^ b.c; break; default: return false; } r = VC(v & mask64(w)); return true; }
  x = EX(o, w); y = EX(b, w);
  switch (op) { case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: r = VE(mk_add(x, y)); break; case AtomicRMWInst::Sub: r = VE(mk_sub(x, y)); break; case AtomicRMWInst::And: r = VE(mk_and(x, y)); break; case AtomicRMWInst::Or: r = VE(mk_or(x, y)); break; case AtomicRMWInst::Xor: r = VE(mk_xor(x, y)); break; default: return false; }
  return true;
}
bool intrin(State &S, Instr *I, V *a, unsigned n, CallInfo *ci, V &ret);
static u64 g_check_counter;
bool preempt(State &S, Instr *I);
// Conflicting accesses seen so far: the instructions involved become points where a thread may be preempted.
struct Access { Instr *wr, *rd; u32 threads; s32 writer; bool contested; };
static std::unordered_map<u64, Access> g_access; u64 g_racy;
static inline void set_racy(Instr *I) { if (I && !I->racy) { I->racy = true; g_racy++; } }
static bool g_mark; // only before schedules are varied, so that a replay sees the same points
static void note_access(int t, u64 addr, Instr *I, bool write) {
  if (!g_mark) return;
  if (addr >= 0x7d0000000000ull && addr < 0x7f0000000000ull) return; // stacks
  Access &x = g_access[addr >> 3]; if (x.contested) { set_racy(I); return; }
  u32 others = x.threads & ~(1u << t);
  if (others && write) { x.contested = true; set_racy(I); set_racy(x.wr); set_racy(x.rd); }
  else if (x.wr && x.writer != t && write) { x.contested = true; set_racy(I); set_racy(x.wr); }
  x.threads |= 1u << t; if (write) { x.wr = I; x.writer = t; } else x.rd = I;
}
static bool rotate(State &S) { unsigned n = S.th.size(); for (unsigned k = 1; k < n; k++) { unsigned i = (S.cur + k) % n; if (S.th[i].status == 0) { S.cur = i; return true; } } return false; }


static void run_ir(State &S) {
  for (;;) {
    Thread &T = cur_thread(S); if (T.fr.empty()) return; Frame *F = &T.fr.back();
    if (F->kind != FK_IR) return;
    Instr *code = F->f->code.data(); V *R = T.regs.data() + F->rbase; ::Module *M = F->f->m; u32 pc = F->pc; u64 steps = 0;
    #define A_ reg(R, I->a, M)
    #define B_ reg(R, I->b, M)
    #define C_ reg(R, I->c, M)
    #define FLUSH() do { F->pc = pc; S.steps += steps; S.budget -= steps; ST.ir_instr += steps; steps = 0; } while (0)
    bool reload = false;
    while (!reload) {
      Instr *I = &code[pc]; steps++;
      switch (I->op) {
        case I_ADD: { V &a = A_, &b = B_; if (!(a.e || b.e)) R[I->dst] = VC((a.c + b.c) & mask64(I->w)); else R[I->dst] = VE(mk_add(EX(a, I->w), EX(b, I->w))); pc++; break; }
        case I_SUB: { V &a = A_, &b = B_; if (!(a.e || b.e)) R[I->dst] = VC((a.c - b.c) & mask64(I->w)); else R[I->dst] = VE(mk_sub(EX(a, I->w), EX(b, I->w))); pc++; break; }
        case I_MUL: { V &a = A_, &b = B_; if (!(a.e || b.e)) R[I->dst] = VC((a.c * b.c) & mask64(I->w)); else R[I->dst] = VE(mk_mul(EX(a, I->w), EX(b, I->w))); pc++; break; }
        case I_AND: { V &a = A_, &b = B_; if (!(a.e || b.e)) R[I->dst] = VC(a.c & b.c); else R[I->dst] = VE(mk_and(EX(a, I->w), EX(b, I->w))); pc++; break; }
        case I_OR: { V &a = A_, &b = B_; if (!(a.e || b.e)) R[I->dst] = VC(a.c | b.c); else R[I->dst] = VE(mk_or(EX(a, I->w), EX(b, I->w))); pc++; break; }
        case I_XOR: { V &a = A_, &b = B_; if (!(a.e || b.e)) R[I->dst] = VC(a.c ^ b.c); else R[I->dst] = VE(mk_xor(EX(a, I->w), EX(b, I->w))); pc++; break; }
        case I_SHL: { V &a = A_; V b = shiftcount(B_, I->w); if (!(a.e || b.e)) R[I->dst] = VC(b.c >= I->w ? 0 : (a.c << b.c) & mask64(I->w)); else R[I->dst] = VE(mk_shl(EX(a, I->w), EX(b, I->w))); pc++; break; }
        case I_LSHR: { V &a = A_; V b = shiftcount(B_, I->w); if (!(a.e || b.e)) R[I->dst] = VC(b.c >= I->w ? 0 : a.c >> b.c); else R[I->dst] = VE(mk_lshr(EX(a, I->w), EX(b, I->w))); pc++; break; }
        case I_ASHR: { V &a = A_; V b = shiftcount(B_, I->w); if (!(a.e || b.e)) R[I->dst] = VC((u64)(sx64(a.c, I->w) >> (b.c >= I->w ? I->w - 1 : b.c)) & mask64(I->w)); else R[I->dst] = VE(mk_ashr(EX(a, I->w), EX(b, I->w))); pc++; break; }
        case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: {
          V a = A_, b = B_; unsigned w = I->w; FLUSH();
          if (b.e ? decide(S, mk_eq(b.e, mk_const(0, w))) : b.c == 0) { handle_fault(S, FAULT_DIV, 0); reload = true; break; }
          if (!(a.e || b.e)) {
            u64 r; s64 x = sx64(a.c, w), y = sx64(b.c, w);
            if (I->op == I_UDIV) r = a.c / b.c; else if (I->op == I_UREM) r = a.c % b.c;
            else { if (y == -1) { if (x == sx64(1ull << (w - 1), w)) { handle_fault(S, FAULT_DIV, 1); reload = true; break; } r = I->op == I_SDIV ? (u64)-x : 0; } else r = I->op == I_SDIV ? (u64)(x / y) : (u64)(x % y); }
            R[I->dst] = VC(r & mask64(w));
          } else {
            Expr *x = EX(a, w), *y = EX(b, w);
            if (I->op == I_SDIV || I->op == I_SREM) { Expr *ov = mk_and(mk_eq(x, mk_const((u128)1 << (w - 1), w)), mk_eq(y, mk_const(maskw(w), w))); if (decide(S, ov)) { handle_fault(S, FAULT_DIV, 1); reload = true; break; } }
            R[I->dst] = VE(I->op == I_UDIV ? mk_udiv(x, y) : I->op == I_SDIV ? mk_sdiv(x, y) : I->op == I_UREM ? mk_urem(x, y) : mk_srem(x, y));
          }
          pc++; break;
        }
        case I_ICMP: {
          V &a = A_, &b = B_; 
          if (!(a.e || b.e)) {
            u64 x = a.c, y = b.c; s64 sx = sx64(x, I->w2), sy = sx64(y, I->w2); bool r;
            switch (I->sub) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; default: r = sx >= sy; }
            R[I->dst] = VC(r);
          } else R[I->dst] = VE(icmp_e(I->sub, EX(a, I->w2), EX(b, I->w2)));
          pc++; break;
        }
        case I_ZEXT: { V &a = A_; if (!a.e) R[I->dst] = VC(a.c & mask64(I->w)); else R[I->dst] = VE(mk_zext(a.e, I->w)); pc++; break; }
        case I_SEXT: { V &a = A_; if (!a.e) R[I->dst] = VC((u64)sx64(a.c, I->w2) & mask64(I->w)); else R[I->dst] = VE(mk_sext(a.e, I->w)); pc++; break; }
        case I_TRUNC: { V &a = A_; if (!a.e) R[I->dst] = VC(a.c & mask64(I->w)); else R[I->dst] = VE(mk_extract(a.e, 0, I->w)); pc++; break; }
        case I_MOVE: R[I->dst] = A_; pc++; break;
        case I_SELECT: { V &a = A_; if (!a.e) R[I->dst] = (a.c & 1) ? B_ : C_; else if (I->w2) { FLUSH(); bool t = decide(S, a.e); R[I->dst] = t ? B_ : C_; } else R[I->dst] = VE(mk_ite(a.e, EX(B_, I->w), EX(C_, I->w))); pc++; break; }
        case I_LOAD: {
          V a = A_; if (S.sched_on && S.th.size() > 1 && !a.e) { note_access(S.cur, a.c, I, false); if (I->racy || I->w2) { FLUSH(); if ((s64)S.budget < 0) { handle_fault(S, FAULT_BUDGET, 0); reload = true; break; } if (S.steps - S.depth > S.quantum) { S.depth = S.steps; if (rotate(S)) { reload = true; break; } } if (preempt(S, I)) { reload = true; break; } } }
          if (a.e) { FLUSH(); V r = sym_load(S, a, I->sub); if (I->w != I->sub * 8 && r.e) r = VE(mk_extract(r.e, 0, I->w)); R[I->dst] = r; pc++; break; }
          F->pc = pc; V r = mem_load(S, a.c, I->sub); if (I->w != I->sub * 8) { if (r.e) r = VE(mk_extract(r.e, 0, I->w)); else r.c &= mask64(I->w); } R[I->dst] = r; pc++; break;
        }
        case I_STORE: {
          V a = A_; if (S.sched_on && S.th.size() > 1 && !a.e) { note_access(S.cur, a.c, I, true); if (I->racy || I->w2) { FLUSH(); if ((s64)S.budget < 0) { handle_fault(S, FAULT_BUDGET, 0); reload = true; break; } if (S.steps - S.depth > S.quantum) { S.depth = S.steps; if (rotate(S)) { reload = true; break; } } if (preempt(S, I)) { reload = true; break; } } }
          V v = B_; if (I->w != I->sub * 8) { if (v.e) v = VE(mk_zext(v.e, I->sub * 8)); }
          if (a.e) { FLUSH(); sym_store(S, a, I->sub, v); pc++; break; }
          F->pc = pc; mem_store(S, a.c, I->sub, v); pc++; break;
        }
        case I_GEPC: { V &a = A_; if (!a.e) R[I->dst] = VC(a.c + I->imm); else R[I->dst] = VE(mk_add(a.e, mk_const(I->imm, 64))); pc++; break; }
        case I_GEP1: {
          GepIdx *g = (GepIdx*)I->p; V &a = A_, &ix = reg(R, g->op, M);
          if (!(a.e || ix.e)) R[I->dst] = VC(a.c + I->imm + sx64(ix.c, g->w) * g->scale);
          else R[I->dst] = VE(mk_add(mk_add(EX(a, 64), mk_const(I->imm, 64)), mk_mul(mk_sext(EX(ix, g->w), 64), mk_const(g->scale, 64))));
          pc++; break;
        }
        case I_GEPN: {
          V r = A_; if (!r.e) r.c += I->imm; else r = VE(mk_add(r.e, mk_const(I->imm, 64)));
          for (auto &g : *(std::vector<GepIdx>*)I->p) { V &ix = reg(R, g.op, M); if (!(r.e || ix.e)) r.c += sx64(ix.c, g.w) * g.scale; else r = VE(mk_add(EX(r, 64), mk_mul(mk_sext(EX(ix, g.w), 64), mk_const(g.scale, 64)))); }
          R[I->dst] = r; pc++; break;
        }
        case I_ALLOCA: {
          V n = A_; if (n.e) { FLUSH(); n = VC(concretize(S, n, 64)); }
          u64 sz = I->imm * n.c; u64 sp = T.sp - sz; sp &= ~(u64)(std::max<u64>(I->sub, 16) - 1); if (sp < T.stack_lo + 0x10000) { FLUSH(); handle_fault(S, FAULT_STACK, 0); reload = true; break; } T.sp = sp; R[I->dst] = VC(sp); pc++; break;
        }
        case I_BR: case I_CBR: {
          Edge *e = I->e0;
          if (I->op == I_CBR) { V &a = A_; bool t; if (!a.e) t = a.c & 1; else { FLUSH(); t = decide(S, a.e); } if (!t) e = I->e1; }
          if (e->nphi) { if (e->nphi == 1) R[e->phi[0].dst] = reg(R, e->phi[0].src, M); else { V tmp[64]; if (e->nphi > 64) throw EngineError{"phi"}; for (u32 i = 0; i < e->nphi; i++) tmp[i] = reg(R, e->phi[i].src, M); for (u32 i = 0; i < e->nphi; i++) R[e->phi[i].dst] = tmp[i]; } }
          pc = e->target;
          if (steps > 200000) { FLUSH(); if ((s64)S.budget < 0) { handle_fault(S, FAULT_BUDGET, 0); reload = true; } if (now_s() > CFG.deadline) { ST.truncated++; throw PathEnd{5}; } }
          break;
        }
        case I_SWITCH: {
          SwitchInfo *si = (SwitchInfo*)I->p; V &a = A_; Edge *e = nullptr;
          if (!a.e) { auto it = si->idx.find(a.c & mask64(I->w2)); e = it == si->idx.end() ? &si->def : &si->edges[it->second]; }
          else {
            FLUSH();
            // group the cases by target
            auto m = the_model(S); Evaluator E(m.get()); u64 v = (u64)E.eval(a.e); auto it = si->idx.find(v); e = it == si->idx.end() ? &si->def : &si->edges[it->second];
            Expr *c;
            if (e == &si->def) { c = mk_bool(true); for (u64 x : si->vals) c = mk_and(c, mk_not(mk_eq(a.e, mk_const(x, I->w2)))); }
            else { c = mk_bool(false); for (size_t i = 0; i < si->vals.size(); i++) if (si->edges[i].target == e->target && si->edges[i].nphi == e->nphi && (e->nphi == 0 || !memcmp(si->edges[i].phi, e->phi, e->nphi * sizeof(PhiCopy)))) c = mk_or(c, mk_eq(a.e, mk_const(si->vals[i], I->w2))); }
            decide(S, c); // the model satisfies c; the sibling re-executes with not c
          }
          if (e->nphi) { V tmp[64]; if (e->nphi > 64) throw EngineError{"phi"}; for (u32 i = 0; i < e->nphi; i++) tmp[i] = reg(R, e->phi[i].src, M); for (u32 i = 0; i < e->nphi; i++) R[e->phi[i].dst] = tmp[i]; }
          pc = e->target; break;
        }
        case I_RET: { V r = I->w ? A_ : VC(0); FLUSH(); do_return(S, r); reload = true; break; }
        case I_CALL: case I_CALLI: case I_CALLX: {
          CallInfo *ci = (CallInfo*)I->p; V args[80]; unsigned n = ci->args.size(); if (n > 80) throw EngineError{"too many arguments"};
          for (unsigned i = 0; i < n; i++) args[i] = reg(R, ci->args[i], M);
          Func *f = ci->f; FLUSH();
          if ((s64)S.budget < 0) { handle_fault(S, FAULT_BUDGET, 0); reload = true; break; }
          if ((++g_check_counter & 0x3ffff) == 0) { if (now_s() > CFG.deadline) { ST.truncated++; throw PathEnd{5}; } } if (S.th.size() > 1 && S.steps - S.depth > S.quantum) { S.depth = S.steps; if (rotate(S)) { reload = true; break; } }
          if (I->op == I_CALLI) { u64 t = concretize(S, reg(R, ci->callee, M), 64); f = func_at(t); if (!f) { handle_fault(S, FAULT_AV, t); reload = true; break; } }
          if (!f->defined && f->ext == -2) f = (Func*)f->llvm;
          if (f->defined) {
            u64 va = 0, sp = T.sp;
            if (f->vararg || n > f->nargs) { unsigned k = n - f->nargs; va = (sp - 8 * (k + 1)) & ~15ull; for (unsigned i = 0; i < k; i++) { unsigned w = ci->aw[f->nargs + i]; V v = args[f->nargs + i]; if (v.e && w < 64) v = VE(mk_zext(v.e, 64)); mem_store(S, va + 8 * i, 8, v); } T.sp = va; }
            s32 dst = I->dst == ~0u ? -1 : (s32)I->dst; push_frame(S, f, args, n, dst, va); 
            { Thread &T2 = cur_thread(S); if (!T2.fr.empty() && T2.fr.back().kind == FK_IR && T2.fr.back().f == f && va) T2.fr.back().sp = sp; }
            reload = true; break;
          }
          V ret = VC(0); 
          if (ext_call(f->ext, S, ci, args, n, ret)) { Thread &T2 = cur_thread(S); Frame &F2 = T2.fr.back(); if (I->dst != ~0u) { if (!ret.e) ret.c &= mask64(I->w); else if (ret.e->w != I->w) ret = VE(I->w < ret.e->w ? mk_extract(ret.e, 0, I->w) : mk_zext(ret.e, I->w)); T2.regs[F2.rbase + I->dst] = ret; } F2.pc++; }
          reload = true; break;
        }
        case I_INTRIN: {
          CallInfo *ci = (CallInfo*)I->p; V args[16]; unsigned n = ci->args.size(); for (unsigned i = 0; i < n; i++) args[i] = reg(R, ci->args[i], M);
          FLUSH(); V ret = VC(0); if (I->sub == 8) { handle_fault(S, FAULT_TRAP, 0); reload = true; break; }
          if (I->sub == 6) { mem_store(S, concretize(S, args[0], 64), 8, VC(F->va)); pc++; break; }
          if (I->sub == 9) { pc++; F->pc = pc; S.depth = S.steps; if (S.th.size() > 1 && rotate(S)) reload = true; break; } // pause: let another thread run
          intrin(S, I, args, n, ci, ret); if (I->w) R[I->dst] = ret; pc++; break;
        }
        case I_UNREACH: FLUSH(); handle_fault(S, FAULT_UNREACH, 0); reload = true; break;
        case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: {
          V a = A_, b = B_; u32 k = I->op == I_FADD ? UF_FADD : I->op == I_FSUB ? UF_FSUB : I->op == I_FMUL ? UF_FMUL : UF_FDIV; bool ok;
          if (!(a.e || b.e)) R[I->dst] = VC((u64)fold_uf(ufid(k, I->w), I->w, a.c, b.c, 0, ok)); else R[I->dst] = VE(mk_uf(ufid(k, I->w), I->w, EX(a, I->w), EX(b, I->w))); pc++; break;
        }
        case I_FNEG: { V a = A_; R[I->dst] = VE(mk_xor(EX(a, I->w), mk_const((u128)1 << (I->w - 1), I->w))); pc++; break; }
        case I_FCMP: { V a = A_, b = B_; R[I->dst] = VE(fcmp_e(I->sub, EX(a, I->w2), EX(b, I->w2))); pc++; break; }
        case I_SITOFP: R[I->dst] = VE(e_sitofp(EX(A_, I->w2), I->w)); pc++; break;
        case I_UITOFP: R[I->dst] = VE(e_uitofp(EX(A_, I->w2), I->w)); pc++; break;
        case I_FPTOSI: R[I->dst] = VE(e_fptosi(EX(A_, I->w2), I->w)); pc++; break;
        case I_FPTOUI: R[I->dst] = VE(e_fptoui(EX(A_, I->w2), I->w)); pc++; break;
        case I_FPTRUNC: R[I->dst] = VE(mk_uf(ufid(UF_FPTRUNC, 64), 32, EX(A_, 64))); pc++; break;
        case I_FPEXT: R[I->dst] = VE(mk_uf(ufid(UF_FPEXT, 32), 64, EX(A_, 32))); pc++; break;
        case I_CMPXCHG: {
          V a = A_, b = B_, c = C_; FLUSH(); if (S.sched_on && preempt(S, I)) { reload = true; break; }
          u64 ad = concretize(S, a, 64); V old = mem_load(S, ad, I->sub); bool eq;
          if (!old.e && !b.e) eq = old.c == b.c; else eq = decide(S, mk_eq(EX(old, I->w), EX(b, I->w)));
          if (eq) mem_store(S, ad, I->sub, c); R[I->dst] = old; R[I->dst + 1] = VC(eq); pc++; break;
        }
        case I_ARMW: {
          V a = A_, b = B_; FLUSH(); if (S.sched_on && preempt(S, I)) { reload = true; break; }
          u64 ad = concretize(S, a, 64); V old = mem_load(S, ad, I->sub), r; if (!armw(I->w2, old, b, I->w, r)) throw EngineError{"atomicrmw"};
          mem_store(S, ad, I->sub, r); R[I->dst] = old; pc++; break;
        }
        case I_NOP: pc++; break;
        default: throw EngineError{"bad instruction in " + F->f->name};
      }
    }
    FLUSH_END: 
    { S.steps += steps; S.budget -= steps; ST.ir_instr += steps; }
    if (S.compile_mark) {}
  }
}
// Point numbers (0: threads that block or end) and how often each was passed while counting.
static std::vector<u32> g_pcount(1);
static bool take_point(State &S, u32 id) {
  if (S.pcount.size() <= id) S.pcount.resize(id + 1);
  if (g_pcount.size() <= id) g_pcount.resize(id + 1);
  if (!S.part_m) { g_pcount[id]++; return false; }
  u64 stride = (g_pcount[id] + S.part_m - 1) / S.part_m; return stride <= 1 || S.pcount[id] % stride == (S.part_r + id * 7) % stride;
}
bool preempt(State &S, Instr *I) {
  Thread &T = cur_thread(S); if (T.wait_handle == 0xfffffffe) { T.wait_handle = 0; return false; }
  std::vector<int> run; for (unsigned i = 0; i < S.th.size(); i++) if (S.th[i].status == 0 && (int)i != S.cur) run.push_back(i);
  if (run.empty() || S.preempt_left <= 0) return false;
  static u32 npoints; if (!I->point) I->point = ++npoints;
  u64 k = 0; if (take_point(S, I->point)) k = choose(S, run.size() + 1, true); // a clone made by choose counts the point again
  S.points++; S.pcount[I->point]++; if (k == 0) return false;
  S.preempt_left--; T.wait_handle = 0xfffffffe; S.cur = run[k - 1]; return true;
}
bool intrin(State &S, Instr *I, V *a, unsigned n, CallInfo *ci, V &ret) {
  unsigned w = I->w;
  auto bits = [&](int kind) { // ctlz / cttz / ctpop
    if (!a[0].e) { u64 v = a[0].c & mask64(w); u64 r = kind == 3 ? (v ? __builtin_clzll(v) - (64 - w) : w) : kind == 4 ? (v ? __builtin_ctzll(v) : w) : __builtin_popcountll(v); ret = VC(r); return; }
    Expr *e = a[0].e, *r;
    if (kind == 5) { r = mk_const(0, w); for (unsigned i = 0; i < w; i++) r = mk_add(r, mk_zext(mk_extract(e, i, 1), w)); }
    else { r = mk_const(w, w); if (kind == 4) for (unsigned i = w; i-- > 0;) r = mk_ite(mk_extract(e, i, 1), mk_const(i, w), r); else for (unsigned i = 0; i < w; i++) r = mk_ite(mk_extract(e, i, 1), mk_const(w - 1 - i, w), r); }
    ret = VE(r);
  };
  switch (I->sub) {
    case 1: mem_copy(S, concretize(S, a[0], 64), concretize(S, a[1], 64), concretize(S, a[2], ci->aw[2])); break;
    case 2: mem_set(S, concretize(S, a[0], 64), a[1], concretize(S, a[2], ci->aw[2])); break;
    case 3: case 4: case 5: bits(I->sub); break;
    case 7: mem_store(S, concretize(S, a[0], 64), 8, mem_load(S, concretize(S, a[1], 64), 8)); break;
    case 9: ret = VC(1000000); break;
    case 10: { if (!a[0].e) { u64 r = __builtin_bswap64(a[0].c) >> (64 - w); ret = VC(r); } else { Expr *r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *b = mk_extract(a[0].e, i, 8); r = r ? mk_concat(r, b) : b; } ret = VE(r); } break; }
    case 11: ret = VE(mk_and(EX(a[0], w), mk_const(maskw(w - 1), w))); break;
    case 12: ret = VC(cur_thread(S).sp); break; case 13: cur_thread(S).sp = a[0].c; break;
    case 14: ret = VE(mk_uf(ufid(UF_FSQRT, w), w, EX(a[0], w))); break;
    case 15: ret = VC(0); break;
    case 16: case 17: { Expr *x = EX(a[0], w), *y = EX(a[1], w), *k = mk_urem(EX(a[2], w), mk_const(w, w)); Expr *cc = mk_zext(mk_concat(x, y), 2 * w);
      Expr *k2 = mk_zext(k, 2 * w); Expr *r = I->sub == 16 ? mk_extract(mk_shl(cc, k2), w, w) : mk_extract(mk_lshr(cc, k2), 0, w); ret = VE(r); break; }
    case 18: { Expr *x = EX(a[0], w), *y = EX(a[1], w); ret = VE(mk_ite(mk_ult(x, y), y, x)); break; }
    case 19: { Expr *x = EX(a[0], w), *y = EX(a[1], w); ret = VE(mk_ite(mk_ult(x, y), x, y)); break; }
    case 20: { Expr *x = EX(a[0], w), *y = EX(a[1], w); ret = VE(mk_ite(mk_slt(x, y), y, x)); break; }
    case 21: { Expr *x = EX(a[0], w), *y = EX(a[1], w); ret = VE(mk_ite(mk_slt(x, y), x, y)); break; }
    case 22: { Expr *x = EX(a[0], w); ret = VE(mk_ite(mk_slt(x, mk_const(0, w)), mk_neg(x), x)); break; }
    case 23: { Expr *x = EX(a[0], w), *y = EX(a[1], w); ret = VE(mk_ite(mk_ult(x, y), mk_const(0, w), mk_sub(x, y))); break; }
    default: throw EngineError{std::string("unsupported intrinsic ") + (I->imm ? (char*)I->imm : "?")};
  }
  return true;
}

void run_state(State *S) {
  g_cur = S; tlb_flush();
  for (;;) {
    try {
      for (;;) {
        Thread &T = cur_thread(*S); if (T.fr.empty()) { if (T.status == 2 && S->forced_i < S->forced.size()) { schedule_point(*S, 2); continue; } throw PathEnd{0}; }
        if (T.fr.back().kind == FK_X86) x86_step_loop(*S); else run_ir(*S);
      }
    } catch (MemFault &f) { 
      if (CFG.verbose) {}
      handle_fault(*S, FAULT_AV, f.addr);
    }
  }
}

// ---------------- harness intrinsics ----------------
void mem_share_range(State &S, Mem &src, u64 lo, u64 hi);
static Note *snapshot(State &S, const std::string &nm, u64 a, u64 n) { Note *N = new Note(); N->name = nm; mem_get(S, a, n, N->d, N->s); N->kind = 0; return N; }
Expr *named_var(State &S, const std::string &base, unsigned w) {
  std::string nm = base; int k = 0; while (std::find(S.symnames.begin(), S.symnames.end(), nm) != S.symnames.end()) nm = base + "#" + std::to_string(++k);
  S.symnames.push_back(nm);
  if (CFG.replay) { S.symvars.push_back(0); auto it = CFG.replay_vals.find(nm); return mk_const(it == CFG.replay_vals.end() ? 0 : it->second & mask64(w), w); }
  std::string key = nm + ":" + std::to_string(w); auto it = g_named.find(key); Expr *e; if (it != g_named.end()) e = it->second; else g_named[key] = e = mk_var(nm, w);
  S.symvars.push_back(e->aux);
  return e;
}
bool hs_call_ext(const std::string &n_, State &S, CallInfo *ci, V *a, unsigned n, V &ret) {
  const std::string &nm = n_; auto C = [&](unsigned i) { return concretize(S, a[i], ci->aw[i]); };
  if (nm == "hs_sym") { std::string s = mem_cstr(S, C(0)); unsigned w = C(1); 
    Expr *e = named_var(S, s, w); ret = VE(mk_zext(e, 64)); return true; }
  if (nm == "hs_strtod") { u64 len; ret = sym_strtod(S, C(0), len); return true; }
  if (nm == "hs_choice") { u64 k = C(0); ret = VC(choose(S, k, false)); return true; }
  if (nm == "hs_task") { s64 k = C(0); if (S.task < 0) throw TaskPoint{k}; ret = VC(S.task); return true; }
  if (nm == "hs_assume") { V v = a[0]; if (!v.e) { if (!(v.c & mask64(ci->aw[0]))) { ST.infeasible++; throw PathEnd{1}; } return true; }
    Expr *c = mk_not(mk_eq(v.e, mk_const(0, v.e->w))); int k = known(S, c); if (k == 1) return true; auto m = the_model(S); Evaluator E(m.get());
    if (!E.eval(c)) { Model om; Sat r = solve(S.cons, c, m.get(), &om); if (r != SAT) { ST.infeasible++; if (r == UNK) { ST.truncated++; g_undec["assume"]++; } throw PathEnd{1}; } S.model = std::make_shared<Model>(om); }
    add_constraint(S, c); return true; }
  if (nm == "hs_check") { V v = a[0]; std::string m = mem_cstr(S, C(1)); Expr *c = v.e ? mk_not(mk_eq(v.e, mk_const(0, v.e->w))) : mk_bool((v.c & mask64(ci->aw[0])) != 0); do_check(S, c, m); return true; }
  if (nm == "hs_check_mem") { u64 x = C(0), y = C(1), k = C(2); std::string m = mem_cstr(S, C(3)); Expr *c = mk_bool(true); bool bad = false;
    for (u64 i = 0; i < k;) { unsigned s = k - i >= 8 ? 8 : 1; V p = mem_load(S, x + i, s), q = mem_load(S, y + i, s); if (!p.e && !q.e) { if (p.c != q.c) bad = true; } else c = mk_and(c, mk_eq(EX(p, s * 8), EX(q, s * 8))); i += s; }
    do_check(S, bad ? mk_bool(false) : c, m); return true; }
  if (nm == "hs_reach") { std::string m = mem_cstr(S, C(0)); g_reach[m]++; ST.reach++; return true; }
  if (nm == "hs_sample") { u64 p = C(0), k = C(1); if (g_samples.size() < 6) { std::vector<u8> d; std::vector<Expr*> s; mem_get(S, p, k, d, s); if (!s.empty()) { auto m = the_model(S); Evaluator E(m.get()); for (u64 i = 0; i < k; i++) if (s[i]) d[i] = (u8)E.eval(s[i]); } g_samples.push_back(std::string(d.begin(), d.end())); } return true; }
  if (nm == "hs_note") { std::string s = mem_cstr(S, C(0)); u64 p = C(1), k = C(2); S.notes.push_back(std::shared_ptr<Note>(snapshot(S, s, p, k))); return true; }
  if (nm == "hs_skip") { throw PathEnd{6}; }
  if (nm == "hs_fail") { std::string m = mem_cstr(S, C(0)); do_check(S, mk_bool(false), m); return true; }
  if (nm == "hs_error") { throw EngineError{"harness: " + mem_cstr(S, C(0))}; }
  if (nm == "hs_puts") { std::string s = mem_cstr(S, C(0)); fprintf(stderr, "%s", s.c_str()); fflush(stderr); return true; }
  if (nm == "hs_putx") { if (a[0].e) fprintf(stderr, "<%s>", to_str(a[0].e, 8).c_str()); else fprintf(stderr, "0x%llx", (unsigned long long)a[0].c); fflush(stderr); return true; }
  if (nm == "hs_conc") { ret = VC(C(0)); return true; }
  if (nm == "hs_is_sym") { ret = VC(a[0].e != nullptr); return true; }
  if (nm == "hs_select") { ret = a[0].e ? VE(mk_ite(mk_not(mk_eq(a[0].e, mk_const(0, a[0].e->w))), EX(a[1], 64), EX(a[2], 64))) : (a[0].c ? a[1] : a[2]); return true; }
  if (nm == "hs_alloc") { u64 k = C(0); u64 sz = (k + PG - 1) / PG * PG + PG; u64 p = S.harness_next; S.harness_next += sz + 4 * PG; mem_map(S, p, sz, 5); u64 off = (sz - k) & ~15ull; ret = VC(p + off); return true; }
  if (nm == "hs_map_at") { u64 p = C(0), k = C(1); mem_map(S, p, (k + PG - 1) / PG * PG, 5); ret = VC(p); return true; }
  if (nm == "hs_unmap") { mem_unmap(S, C(0)); return true; }
  if (nm == "hs_file") { std::string s = mem_cstr(S, C(0)); u64 p = C(1), k = C(2); auto f = std::make_shared<File>(); if (k) mem_get(S, p, k, f->d, f->s); os_mut(S).vfs[s] = f; auto N = std::make_shared<Note>(); N->name = s; N->d = f->d; N->s = f->s; N->kind = 1; S.notes.push_back(N); return true; }
  if (nm == "hs_load_host") { std::string s = mem_cstr(S, C(0)), h = mem_cstr(S, C(1)); auto f = std::make_shared<File>(); FILE *fp = fopen(h.c_str(), "rb"); if (!fp) throw EngineError{"hs_load_host " + h}; u8 b[4096]; size_t k; while ((k = fread(b, 1, 4096, fp)) > 0) f->d.insert(f->d.end(), b, b + k); fclose(fp); os_mut(S).vfs[s] = f; return true; }
  if (nm == "hs_dump") { for (auto &w : S.os->written) { auto f = S.os->vfs.at(w); std::string q = w; for (auto &c : q) if (c == '/' || c == ':') c = '_'; FILE *fp = fopen((CFG.outdir + "/" + q).c_str(), "wb"); fwrite(f->d.data(), 1, f->d.size(), fp); fclose(fp); } return true; }
  if (nm == "hs_file_del") { os_mut(S).vfs.erase(mem_cstr(S, C(0))); return true; }
  if (nm == "hs_file_size") { auto &v = S.os->vfs; auto it = v.find(mem_cstr(S, C(0))); ret = VC(it == v.end() || !it->second ? ~0ull : it->second->d.size()); return true; }
  if (nm == "hs_file_get") { auto &v = S.os->vfs; auto it = v.find(mem_cstr(S, C(0))); if (it == v.end()) throw EngineError{"hs_file_get: no file"}; u64 k = C(2); auto f = it->second; mem_put(S, C(1), *f, 0, std::min<u64>(k, f->d.size())); return true; }
  if (nm == "hs_stdout") { auto &v = S.os->vfs; auto it = v.find("<stdout>"); u64 k = it == v.end() ? 0 : it->second->d.size(); u64 cap = C(1); if (k && C(0)) mem_put(S, C(0), *it->second, 0, std::min(k, cap)); ret = VC(k); return true; }
  if (nm == "hs_func") { auto it = g_func_by_name.find(mem_cstr(S, C(0))); ret = VC(it == g_func_by_name.end() ? 0 : it->second->addr); return true; }
  if (nm == "hs_last_fault") { ret = VC(S.last_fault); return true; }
  if (nm == "hs_fault_addr") { ret = VC(S.last_fault_addr); return true; }
  if (nm == "hs_steps") { ret = VC(S.steps); return true; }
  if (nm == "hs_budget") { S.budget = C(0); return true; }
  if (nm == "hs_sched") { S.preempt_left = C(0); S.slice = C(0) || C(1) ? 1 : 0; S.quantum = C(1) ? C(1) : 400000; S.part_m = C(2); S.part_r = C(3); S.points = 0; S.pcount.clear(); if (C(0) && !C(2)) g_pcount.assign(1, 0); g_access.clear(); g_mark = !C(0) && C(1); return true; } // (preemptions, quantum, m, r)
  if (nm == "hs_points") { u64 n = 0, c = 0; for (u32 x : g_pcount) { n += x != 0; c += std::min<u64>(x, C(0)); } ret = VC(C(0) ? c : n); return true; } // (k): points passed, at most k per instruction; 0: instructions
  if (nm == "hs_arg") { u64 i = C(0); u64 p = C(1); std::string s = i < CFG.args.size() ? CFG.args[i] : ""; mem_w(S, p, s.c_str(), s.size() + 1); ret = VC(i < CFG.args.size()); return true; }
  if (nm == "hs_invoke" || nm == "hs_invoke_fp") { // hs_invoke(fn, slots, n): calls an IR function with 8-byte argument slots
    u64 t = C(0), sl = C(1), k = C(2); Func *f = func_at(t); if (!f || !f->defined) throw EngineError{"hs_invoke: not a function"};
    std::vector<V> av; for (unsigned i = 0; i < f->nargs; i++) { V v = i < k ? mem_load(S, sl + 8 * i, 8) : VC(0); if (v.e) { if (f->argw[i] < 64) v = VE(mk_extract(v.e, 0, f->argw[i])); } else v.c &= mask64(f->argw[i]); av.push_back(v); }
    Thread &T = cur_thread(S); Frame F; memset(&F, 0, sizeof F); F.kind = FK_CB; F.sp = T.sp; F.rbase = T.regs.size(); F.retdst = -1;
    Frame &H = T.fr.back(); Instr *I = &H.f->code[H.pc]; F.retdst = I->dst == ~0u ? -1 : (s32)I->dst; T.fr.push_back(F);
    push_frame(S, f, av.data(), av.size(), -1, sl + 8 * f->nargs); 
    // widen the result to 64 bits at return: handled by the frame's retw
    return false; }
  if (nm == "hs_watch") { // hs_watch(lo, hi, fn): fn(cpu*) runs before every instruction of compiled code in [lo, hi)
    u64 t = C(2); S.watch_lo = C(0); S.watch_hi = C(1); S.watch_fn = t ? func_at(t) : nullptr; if (t && (!S.watch_fn || S.watch_fn->name.compare(0, 6, "watch_"))) throw EngineError{"hs_watch: not a watch_ function"}; return true; }
  if (nm == "hs_call") { // hs_call(cpu*, rip, budget)
    u64 cpu = C(0), t = C(1), b = C(2); x86_enter(S, cpu, t, b); return false; }
  if (nm == "hs_compile") {
    u64 cmdp = C(0), budget = C(1); ST.compiles++; os_mut(S).vfs.erase("<stdout>");
    Module *hm = g_modules[0]; mem_share_range(S, g_pristine, hm->gbase, hm->gend);
    OS &o = os_mut(S); 
    { std::vector<u64> del; for (auto &r : *S.mem.regions) if (r.second.kind == 4) del.push_back(r.first); for (u64 d : del) mem_unmap(S, d); }
    o.h.clear(); o.h.resize(4); o.va_next = 0x200000000000ull; o.last_error = 0; o.tick = 1000; o.cmdline_addr = cmdp; o.written.clear(); o.vfs.erase("<stdout>"); o.heap_next = 0;
    Thread &T = cur_thread(S); Frame F; memset(&F, 0, sizeof F); F.kind = FK_COMPILE; F.sp = T.sp; F.rbase = T.regs.size(); F.aux2 = T.x.size();
    Frame &H = T.fr.back(); Instr *I = &H.f->code[H.pc]; F.retdst = I->dst == ~0u ? -1 : (s32)I->dst;
    // reset the stack memory below so that repeated compilations start from the same bytes
    T.fr.push_back(F); S.budget = budget; S.sched_on = S.slice != 0;
    T.sp = (T.sp & ~0xffffull) - 0x10000; mem_share_range(S, g_pristine, T.stack_lo, T.sp);
    auto it = g_func_by_name.find("hlc:_start"); if (it == g_func_by_name.end()) throw EngineError{"no _start in the compiler"};
    push_frame(S, it->second, nullptr, 0, -1, 0); return false; }
  throw EngineError{"unknown harness intrinsic " + nm};
}
