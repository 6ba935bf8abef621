// Symbolic emulator for x86-64 machine code emitted by the compiler.
#include "core.h"
#include <algorithm>
V sym_load(State &S, const V &av, unsigned n); void sym_store(State &S, const V &av, unsigned n, const V &v);
Expr *named_var(State &S, const std::string &base, unsigned w); u32 ufid(u32 k, unsigned aw);
Expr *e_fptosi(Expr *a, unsigned w); Expr *e_fptoui(Expr *a, unsigned w); Expr *e_sitofp(Expr *a, unsigned w); Expr *e_uitofp(Expr *a, unsigned w);
static const u64 SENTINEL = 0x7ffedead0000ull; static const u64 GS_BASE = 0x7b5000000000ull, FS_BASE = 0x7f4000000000ull;
enum { FL_EXPL, FL_SUB, FL_ADD, FL_LOGIC, FL_RES /* zf sf pf from r; cf, of explicit */ };
extern std::string mc_disasm(const u8 *p, unsigned n, unsigned *len);
std::map<std::string, u64> g_x86_unsupported; std::map<u32, u64> g_x86_ops;

#define BINV(nm, cexpr, eexpr) static V nm(V a, V b, unsigned w) { if (!(a.e || b.e)) { u64 x = a.c, y = b.c; (void)x; (void)y; return VC((cexpr) & mask64(w)); } Expr *x = EX(a, w), *y = EX(b, w); return VE(eexpr); }
BINV(vadd, x + y, mk_add(x, y)) BINV(vsub, x - y, mk_sub(x, y)) BINV(vand, x & y, mk_and(x, y)) BINV(vor, x | y, mk_or(x, y)) BINV(vxor, x ^ y, mk_xor(x, y)) BINV(vmul, x * y, mk_mul(x, y))
static V vnot(V a, unsigned w) { return a.e ? VE(mk_not(EX(a, w))) : VC(~a.c & mask64(w)); }
static V vext(V a, unsigned lo, unsigned w) { return a.e ? VE(mk_extract(a.e, lo, w)) : VC((a.c >> lo) & mask64(w)); }
static V vz(V a, unsigned from, unsigned to) { if (!a.e) return VC(a.c & mask64(from)); return VE(mk_zext(EX(a, from), to)); }
static V vs(V a, unsigned from, unsigned to) { if (!a.e) return VC((u64)sx64(a.c, from) & mask64(to)); return VE(mk_sext(EX(a, from), to)); }
static V vbool(Expr *e) { return VE(e); }
static Expr *B(const V &v) { return EX(v, 1); }
static V veq0(V a, unsigned w) { return a.e ? VE(mk_eq(EX(a, w), mk_const(0, w))) : VC((a.c & mask64(w)) == 0); }
static V vmsb(V a, unsigned w) { return vext(a, w - 1, 1); }

struct Ctx {
  State &S; X86 &x; u64 ip; // ip: decoding position
  bool p66 = false, pf2 = false, pf3 = false, lock = false; int seg = 0; u8 rex = 0; bool hasrex = false;
  int opw; bool vex = false; int vvvv = 0; bool vexL = false;
  // modrm
  u8 mod = 0, reg = 0, rm = 0; V addr; 
  Ctx(State &S, X86 &x) : S(S), x(x), ip(x.rip) {}
  u8 f8() { V v = mem_load(S, ip, 1); ip++; if (v.e) return (u8)concretize(S, v, 8); return (u8)v.c; }
  V fimm(unsigned n) { V v = mem_load(S, ip, n); ip += n; return v; }
  V rd(unsigned r, unsigned w) { // general purpose register
    if (w == 8 && !hasrex && r >= 4 && r < 8) return vext(x.r[r - 4], 8, 8);
    V v = x.r[r]; return w == 64 ? v : vext(v, 0, w);
  }
  void wr(unsigned r, unsigned w, V v) {
    if (w == 64) { x.r[r] = v; return; }
    if (w == 32) { x.r[r] = vz(v, 32, 64); return; }
    unsigned lo = 0; if (w == 8 && !hasrex && r >= 4 && r < 8) { r -= 4; lo = 8; }
    V o = x.r[r];
    if (!o.e && !v.e) { u64 m = mask64(w) << lo; x.r[r] = VC((o.c & ~m) | ((v.c << lo) & m)); return; }
    Expr *e = EX(o, 64), *n = EX(v, w); if (lo) n = mk_concat(n, mk_extract(e, 0, lo)); x.r[r] = VE(mk_concat(mk_extract(e, lo + w, 64 - lo - w), n));
  }
  void modrm(unsigned immsz) {
    u8 m = f8(); mod = m >> 6; reg = ((m >> 3) & 7) | ((rex & 4) ? 8 : 0); rm = m & 7;
    if (mod == 3) { rm |= (rex & 1) ? 8 : 0; return; }
    V a = VC(0);
    if (rm == 4) {
      u8 s = f8(); unsigned sc = s >> 6, ix = ((s >> 3) & 7) | ((rex & 2) ? 8 : 0), bs = (s & 7);
      if (bs == 5 && mod == 0) a = vs(fimm(4), 32, 64); else a = x.r[bs | ((rex & 1) ? 8 : 0)];
      V dis = VC(0); if (mod == 1) dis = vs(fimm(1), 8, 64); else if (mod == 2) dis = vs(fimm(4), 32, 64);
      if (ix != 4) a = vadd(a, vmul(x.r[ix], VC(1ull << sc), 64), 64);
      a = vadd(a, dis, 64);
    } else if (rm == 5 && mod == 0) { V d = vs(fimm(4), 32, 64); a = vadd(d, VC(ip + immsz), 64); }
    else { a = x.r[rm | ((rex & 1) ? 8 : 0)]; if (mod == 1) a = vadd(a, vs(fimm(1), 8, 64), 64); else if (mod == 2) a = vadd(a, vs(fimm(4), 32, 64), 64); }
    if (p67) a = vz(vext(a, 0, 32), 32, 64);
    if (seg == 0x65) a = vadd(a, VC(GS_BASE), 64); else if (seg == 0x64) a = vadd(a, VC(FS_BASE), 64);
    addr = a;
  }
  bool p67 = false;
  V ld(V a, unsigned n) { if (a.e) return sym_load(S, a, n); return mem_load(S, a.c, n); }
  void st(V a, unsigned n, V v) { if (v.e && v.e->w != n * 8) v = VE(mk_zext(v.e, n * 8)); if (a.e) { sym_store(S, a, n, v); return; } mem_store(S, a.c, n, v); }
  V rrm(unsigned w) { return mod == 3 ? rd(rm, w) : ld(addr, w / 8); }
  void wrm(unsigned w, V v) { if (mod == 3) wr(rm, w, v); else st(addr, w / 8, v); }
  void push(V v, unsigned n = 8) { V sp = vsub(x.r[4], VC(n), 64); st(sp, n, v); x.r[4] = sp; }
  V pop() { V v = ld(x.r[4], 8); x.r[4] = vadd(x.r[4], VC(8), 64); return v; }
  V undef(const char *) { static Expr *u; if (!u) u = mk_var("undefined-flag", 1); return VE(u); }
  // ----- flags -----
  void fsub(V a, V b, V r, unsigned w) { x.f.kind = FL_SUB; x.f.w = w; x.f.a = a; x.f.b = b; x.f.r = r; }
  void fadd(V a, V b, V r, unsigned w) { x.f.kind = FL_ADD; x.f.w = w; x.f.a = a; x.f.b = b; x.f.r = r; }
  void flogic(V r, unsigned w) { x.f.kind = FL_LOGIC; x.f.w = w; x.f.r = r; }
  void fres(V r, unsigned w, V cf, V of) { x.f.kind = FL_RES; x.f.w = w; x.f.r = r; x.f.cf = cf; x.f.of = of; }
  V CF() { XF &f = x.f; switch (f.kind) { case FL_SUB: return VE(mk_ult(EX(f.a, f.w), EX(f.b, f.w))); case FL_ADD: return VE(mk_ult(EX(f.r, f.w), EX(f.a, f.w))); case FL_LOGIC: return VC(0); default: return f.cf; } }
  V OF() { XF &f = x.f; unsigned w = f.w; switch (f.kind) {
    case FL_SUB: return VE(mk_extract(mk_and(mk_xor(EX(f.a, w), EX(f.b, w)), mk_xor(EX(f.a, w), EX(f.r, w))), w - 1, 1));
    case FL_ADD: return VE(mk_extract(mk_and(mk_not(mk_xor(EX(f.a, w), EX(f.b, w))), mk_xor(EX(f.a, w), EX(f.r, w))), w - 1, 1));
    case FL_LOGIC: return VC(0); default: return f.of; } }
  V ZF() { return x.f.kind == FL_EXPL ? x.f.zf : x.f.kind == FL_SUB ? VE(mk_eq(EX(x.f.a, x.f.w), EX(x.f.b, x.f.w))) : veq0(x.f.r, x.f.w); }
  V SF() { return x.f.kind == FL_EXPL ? x.f.sf : vmsb(x.f.r, x.f.w); }
  V PF() { if (x.f.kind == FL_EXPL) return x.f.pf; Expr *r = EX(vext(x.f.r, 0, 8), 8), *p = mk_bool(true); for (int i = 0; i < 8; i++) p = mk_xor(p, mk_extract(r, i, 1)); return VE(p); }
  Expr *cond(unsigned cc) {
    Expr *r; XF &f = x.f; bool neg = cc & 1;
    switch (cc >> 1) {
      case 0: r = B(OF()); break;
      case 1: r = B(CF()); break;
      case 2: r = B(ZF()); break;
      case 3: if (f.kind == FL_SUB) r = mk_not(mk_ult(EX(f.b, f.w), EX(f.a, f.w))); else r = mk_or(B(CF()), B(ZF())); break;
      case 4: r = B(SF()); break;
      case 5: r = B(PF()); break;
      case 6: if (f.kind == FL_SUB) r = mk_slt(EX(f.a, f.w), EX(f.b, f.w)); else r = mk_xor(B(SF()), B(OF())); break;
      default: if (f.kind == FL_SUB) r = mk_not(mk_slt(EX(f.b, f.w), EX(f.a, f.w))); else if (f.kind == FL_LOGIC) r = mk_not(mk_slt(mk_const(0, f.w), EX(f.r, f.w))); else r = mk_or(B(ZF()), mk_xor(B(SF()), B(OF()))); break;
    }
    return neg ? mk_not(r) : r;
  }
  void expl(V z, V s, V c, V o, V p) { x.f.kind = FL_EXPL; x.f.zf = z; x.f.sf = s; x.f.cf = c; x.f.of = o; x.f.pf = p; }
  void all_expl() { V z = ZF(), s = SF(), c = CF(), o = OF(), p = PF(); expl(z, s, c, o, p); }
  // ----- alu -----
  V alu(unsigned op, V a, V b, unsigned w, bool &wb) {
    wb = true; V r;
    switch (op) {
      case 0: r = vadd(a, b, w); fadd(a, b, r, w); return r;
      case 1: r = vor(a, b, w); flogic(r, w); return r;
      case 2: { V c = CF(); Expr *A = mk_zext(EX(a, w), w + 1 > 64 ? 65 : w + 1), *Bb = mk_zext(EX(b, w), w + 1), *s = mk_add(mk_add(A, Bb), mk_zext(B(c), w + 1)); r = VE(mk_extract(s, 0, w)); V of = VE(mk_extract(mk_and(mk_not(mk_xor(EX(a, w), EX(b, w))), mk_xor(EX(a, w), EX(r, w))), w - 1, 1)); fres(r, w, VE(mk_extract(s, w, 1)), of); return r; }
      case 3: { V c = CF(); Expr *A = mk_zext(EX(a, w), w + 1), *Bb = mk_zext(EX(b, w), w + 1), *s = mk_sub(mk_sub(A, Bb), mk_zext(B(c), w + 1)); r = VE(mk_extract(s, 0, w)); V of = VE(mk_extract(mk_and(mk_xor(EX(a, w), EX(b, w)), mk_xor(EX(a, w), EX(r, w))), w - 1, 1)); fres(r, w, VE(mk_extract(s, w, 1)), of); return r; }
      case 4: r = vand(a, b, w); flogic(r, w); return r;
      case 5: r = vsub(a, b, w); fsub(a, b, r, w); return r;
      case 6: r = vxor(a, b, w); flogic(r, w); return r;
      default: r = vsub(a, b, w); fsub(a, b, r, w); wb = false; return r;
    }
  }
  V shift(unsigned op, V a, V cnt, unsigned w) {
    unsigned m = w == 64 ? 63 : 31;
    V c = vand(cnt, VC(m), 8);
    Expr *A = EX(a, w);
    if (!c.e) {
      unsigned k = (unsigned)c.c; 
      if (op == 2 || op == 3) { // rcl / rcr
        k %= (w + 1); if (!k) return a; Expr *cc = mk_concat(B(CF()), A); // w+1 bits
        Expr *r; if (op == 2) r = mk_concat(mk_extract(cc, 0, w + 1 - k), mk_extract(cc, w + 1 - k, k)); else r = mk_concat(mk_extract(cc, 0, k), mk_extract(cc, k, w + 1 - k));
        V z = ZF(), s = SF(), p = PF(); V res = VE(mk_extract(r, 0, w)); expl(z, s, VE(mk_extract(r, w, 1)), undef("of"), p); return res;
      }
      if (!k) return a;
      if (op == 0 || op == 1) { unsigned q = k % w; Expr *r = A; if (q) r = op == 0 ? mk_concat(mk_extract(A, 0, w - q), mk_extract(A, w - q, q)) : mk_concat(mk_extract(A, 0, q), mk_extract(A, q, w - q)); V z = ZF(), s = SF(), p = PF(); V cf = VE(op == 0 ? mk_extract(r, 0, 1) : mk_extract(r, w - 1, 1)); expl(z, s, cf, undef("of"), p); return VE(r); }
      Expr *K = mk_const(k, w); Expr *r; V cf;
      if (op == 4 || op == 6) { r = mk_shl(A, k >= w ? mk_const(maskw(w), w) : K); if (k >= w && w < 32) r = mk_const(0, w); cf = k <= w ? VE(mk_extract(A, w - k, 1)) : VC(0); }
      else if (op == 5) { r = k >= w ? mk_const(0, w) : mk_lshr(A, K); cf = k <= w ? VE(mk_extract(A, k - 1, 1)) : VC(0); }
      else { r = mk_ashr(A, k >= w ? mk_const(w - 1, w) : K); cf = VE(mk_extract(A, std::min(k - 1, w - 1), 1)); }
      V of = op == 5 ? vmsb(a, w) : op == 7 ? VC(0) : VE(mk_xor(mk_extract(r, w - 1, 1), B(cf)));
      fres(VE(r), w, cf, k == 1 ? of : undef("of")); return VE(r);
    }
    Expr *C = c.e; if (C->w != w) C = w > C->w ? mk_zext(C, w) : mk_extract(C, 0, w); Expr *C8 = c.e;
    Expr *r;
    if (op == 0 || op == 1) { Expr *q = mk_urem(C8, mk_const(w, 8)); Expr *Q = mk_zext(q, w), *W = mk_sub(mk_const(w, w), Q); Expr *l, *h; if (op == 0) { l = mk_shl(A, Q); h = mk_lshr(A, W); } else { l = mk_lshr(A, Q); h = mk_shl(A, W); } r = mk_or(l, h); V z = ZF(), s = SF(), p = PF(); expl(z, s, undef("cf"), undef("of"), p); return VE(r); }
    if (op == 4 || op == 6) r = w < 32 ? mk_extract(mk_shl(mk_zext(A, 32), mk_zext(C8, 32)), 0, w) : mk_shl(A, C);
    else if (op == 5) r = w < 32 ? mk_extract(mk_lshr(mk_zext(A, 32), mk_zext(C8, 32)), 0, w) : mk_lshr(A, C);
    else if (op == 7) r = w < 32 ? mk_extract(mk_ashr(mk_sext(A, 32), mk_zext(C8, 32)), 0, w) : mk_ashr(A, C);
    else throw EngineError{"rcl/rcr with a symbolic count"};
    expl(undef("zf"), undef("sf"), undef("cf"), undef("of"), undef("pf")); return VE(r);
  }
  // xmm access in lanes
  V xl(unsigned r, unsigned lane, unsigned w) { unsigned bit = lane * w; return vext(x.x[r][bit / 64], bit % 64, w); }
  void xw(unsigned r, unsigned lane, unsigned w, V v) {
    unsigned bit = lane * w; V &h = x.x[r][bit / 64]; if (w == 64) { h = v; return; } unsigned lo = bit % 64;
    if (!h.e && !v.e) { u64 m = mask64(w) << lo; h = VC((h.c & ~m) | ((v.c << lo) & m)); return; }
    Expr *e = EX(h, 64), *n = EX(v, w); if (lo) n = mk_concat(n, mk_extract(e, 0, lo)); if (lo + w < 64) n = mk_concat(mk_extract(e, lo + w, 64 - lo - w), n); h = VE(n);
  }
  V sx(unsigned w) { return mod == 3 ? xl(rm, 0, w) : ld(addr, w / 8); } // scalar xmm/mem operand
  void x128(V o[2]) { if (mod == 3) { o[0] = x.x[rm][0]; o[1] = x.x[rm][1]; } else { o[0] = ld(addr, 8); o[1] = ld(vadd(addr, VC(8), 64), 8); } }
  void st128(V o[2]) { if (mod == 3) { x.x[rm][0] = o[0]; x.x[rm][1] = o[1]; } else { st(addr, 8, o[0]); st(vadd(addr, VC(8), 64), 8, o[1]); } }
  void check_align() { if (mod != 3 && !addr.e && (addr.c & 15)) throw MemFault{addr.c | (1ull << 63), false}; }
};
static V fp2(u32 k, V a, V b, unsigned w) { bool ok; if (!(a.e || b.e)) return VC((u64)fold_uf(ufid(k, w), w, a.c, b.c, 0, ok)); return VE(mk_uf(ufid(k, w), w, EX(a, w), EX(b, w))); }
static V fparith(unsigned op, V a, V b, unsigned w) { // 51 sqrt 58 add 59 mul 5c sub 5d min 5e div 5f max
  switch (op) { case 0x58: return fp2(UF_FADD, a, b, w); case 0x59: return fp2(UF_FMUL, a, b, w); case 0x5c: return fp2(UF_FSUB, a, b, w); case 0x5e: return fp2(UF_FDIV, a, b, w); case 0x51: return VE(mk_uf(ufid(UF_FSQRT, w), w, EX(b, w)));
    case 0x5d: return VE(mk_ite(fp_olt(EX(a, w), EX(b, w)), EX(a, w), EX(b, w))); default: return VE(mk_ite(fp_olt(EX(b, w), EX(a, w)), EX(a, w), EX(b, w))); }
}

void x86_store_cpu(State &S, X86 &x) {
  u64 c = x.cpu_addr; for (int i = 0; i < 16; i++) mem_store(S, c + 8 * i, 8, x.r[i]);
  for (int i = 0; i < 16; i++) { mem_store(S, c + 144 + 16 * i, 8, x.x[i][0]); mem_store(S, c + 152 + 16 * i, 8, x.x[i][1]); }
  mem_store(S, c + 136, 8, VC(x.rip));
  // flags: CF(0) PF(2) ZF(6) SF(7) OF(11)
  Ctx C(S, x); V f = VC(2 | (x.df.c ? 0x400 : 0)); Expr *e = mk_const(f.c, 64);
  auto put = [&](V v, unsigned bit) { e = mk_or(e, mk_shl(mk_zext(B(v), 64), mk_const(bit, 64))); };
  put(C.CF(), 0); put(C.PF(), 2); put(C.ZF(), 6); put(C.SF(), 7); put(C.OF(), 11); mem_store(S, c + 128, 8, VE(e));
}
static void x86_load_cpu(State &S, X86 &x) {
  u64 c = x.cpu_addr; for (int i = 0; i < 16; i++) x.r[i] = mem_load(S, c + 8 * i, 8);
  for (int i = 0; i < 16; i++) { x.x[i][0] = mem_load(S, c + 144 + 16 * i, 8); x.x[i][1] = mem_load(S, c + 152 + 16 * i, 8); }
  V f = mem_load(S, c + 128, 8); x.f.kind = FL_EXPL; x.f.cf = vext(f, 0, 1); x.f.pf = vext(f, 2, 1); x.f.zf = vext(f, 6, 1); x.f.sf = vext(f, 7, 1); x.f.of = vext(f, 11, 1); x.df = VC(0);
}
void x86_enter(State &S, u64 cpu, u64 target, u64 budget) {
  Thread &T = cur_thread(S); X86 x; memset(&x, 0, sizeof x); x.cpu_addr = cpu; x86_load_cpu(S, x); x.rip = target; x.budget = budget ? budget : 1000000; x.ret_sentinel = SENTINEL;
  V sp = x.r[4]; u64 s = concretize(S, sp, 64); mem_store(S, s - 8, 8, VC(SENTINEL)); x.r[4] = VC(s - 8); x.rsp0 = s - 8; ST.calls++;
  Frame &H = T.fr.back(); Instr *I = &H.f->code[H.pc]; Frame F; memset(&F, 0, sizeof F); F.kind = FK_X86; F.sp = T.sp; F.rbase = T.regs.size(); F.retdst = I->dst == ~0u ? -1 : (s32)I->dst; F.xi = T.x.size();
  T.x.push_back(x); T.fr.push_back(F);
}
static void x86_leave(State &S, int code) {
  Thread &T = cur_thread(S); Frame Q = T.fr.back(); T.fr.pop_back(); x86_store_cpu(S, T.x.back()); T.x.pop_back(); T.sp = Q.sp; T.regs.resize(Q.rbase); S.last_fault = code;
  Frame &H = T.fr.back(); if (Q.retdst >= 0) T.regs[H.rbase + Q.retdst] = VC(code); H.pc++;
}
void x86_resume(State &S, Func *f, V ret) { // a harness callback returned
  Thread &T = cur_thread(S); X86 &x = T.x[T.fr.back().xi];
  if (f->name.compare(0, 6, "watch_") == 0) { x.watched = x.rip; return; }
  if (f->name.compare(0, 3, "cb_") == 0) x86_load_cpu(S, x);
  else { // volatile registers, the home area and undefined result bits hold garbage after the call
    static const int vol[7] = {0, 1, 2, 8, 9, 10, 11}; for (int k : vol) x.r[k] = VC(0xfeedfa11dead0001ull + 0x1010101ull * k);
    for (int i = 0; i < 6; i++) for (int j = 0; j < 2; j++) x.x[i][j] = VC(0x7ff7dead7fb7beefull + i); for (int i = 0; i < 16; i++) for (int j = 0; j < 2; j++) x.xh[i][j] = VC(0xabababababababab);
    u64 sp = x.r[4].c; for (int i = 0; i < 4; i++) mem_store(S, sp + 8 + 8 * i, 8, VC(0xbaadf00dbaadf00dull));
    x.f.kind = FL_EXPL; x.f.cf = x.f.zf = x.f.of = x.f.sf = x.f.pf = VC(1);
    if (f->sret) x.r[0] = VC(T.fr.back().aux2);
    else if (unsigned w = f->retw) { if (w < 8) { if (ret.e) ret = VE(mk_zext(EX(ret, w), 8)); w = 8; } if (f->retf) { if (w == 64) x.x[0][0] = ret; else x.x[0][0] = VE(mk_concat(mk_const(0x7fb7beef, 32), EX(ret, 32))); }
      else if (w >= 64) x.r[0] = ret; else x.r[0] = ret.e ? VE(mk_concat(mk_const(0xa5a5a5a5a5a5a5a5ull & mask64(64 - w), 64 - w), EX(ret, w))) : VC((0xa5a5a5a5a5a5a5a5ull << w) | ret.c); }
  } Ctx c(S, x); V r = c.pop(); x.rip = concretize(S, r, 64);
}
struct Bad {};
static void step(State &S, X86 &x) {
  Ctx c(S, x); u8 op;
  for (;;) {
    op = c.f8();
    switch (op) { case 0x66: c.p66 = true; continue; case 0xf2: c.pf2 = true; continue; case 0xf3: c.pf3 = true; continue; case 0xf0: c.lock = true; continue; case 0x64: case 0x65: c.seg = op; continue; case 0x2e: case 0x36: case 0x3e: case 0x26: continue; case 0x67: c.p67 = true; continue; }
    break;
  }
  if ((op & 0xf0) == 0x40) { c.rex = op; c.hasrex = true; op = c.f8(); }
  unsigned W = (c.rex & 8) ? 64 : c.p66 ? 16 : 32; // operand width
  auto done = [&]() { x.rip = c.ip; };
  auto imm = [&](unsigned w) -> V { // immediate of an operand of width w (sign extended imm32 for 64)
    if (w == 8) return c.fimm(1); if (w == 16) return c.fimm(2); if (w == 32) return c.fimm(4); return vs(c.fimm(4), 32, 64); };
  unsigned rb = (c.rex & 1) ? 8 : 0;
  bool wb;
  g_x86_ops[op]++;
  if (op < 0x40 && (op & 7) < 6) { // alu
    unsigned k = op >> 3; unsigned w = (op & 1) ? W : 8; V a, b, r;
    switch (op & 7) {
      case 0: case 1: c.modrm(0); a = c.rrm(w); b = c.rd(c.reg, w); r = c.alu(k, a, b, w, wb); if (wb) c.wrm(w, r); break;
      case 2: case 3: c.modrm(0); a = c.rd(c.reg, w); b = c.rrm(w); r = c.alu(k, a, b, w, wb); if (wb) c.wr(c.reg, w, r); break;
      default: b = imm(w); a = c.rd(0, w); r = c.alu(k, a, b, w, wb); if (wb) c.wr(0, w, r); break;
    }
    done(); return;
  }
  switch (op) {
    case 0x50 ... 0x57: { V v = x.r[(op & 7) | rb]; c.push(v); done(); return; }
    case 0x58 ... 0x5f: { V v = c.pop(); x.r[(op & 7) | rb] = v; done(); return; }
    case 0x63: { c.modrm(0); V v = c.rrm(32); c.wr(c.reg, W, W == 32 ? v : vs(v, 32, W)); done(); return; }
    case 0x68: { V v = vs(c.fimm(4), 32, 64); c.push(v); done(); return; }
    case 0x6a: { V v = vs(c.fimm(1), 8, 64); c.push(v); done(); return; }
    case 0x69: case 0x6b: { c.modrm(op == 0x69 ? (W == 16 ? 2 : 4) : 1); V a = c.rrm(W); V b = op == 0x69 ? imm(W) : vs(c.fimm(1), 8, W); V r = vmul(a, b, W);
      c.wr(c.reg, W, r); c.expl(c.undef("zf"), c.undef("sf"), c.undef("cf"), c.undef("of"), c.undef("pf")); done(); return; }
    case 0x70 ... 0x7f: { V d = vs(c.fimm(1), 8, 64); u64 dd = concretize(S, d, 64); Expr *e = c.cond(op & 15); bool t = decide(S, e); x.rip = c.ip + (t ? dd : 0); return; }
    case 0x80: case 0x81: case 0x83: {
      unsigned w = op == 0x80 ? 8 : W; c.modrm(op == 0x81 ? (W == 16 ? 2 : 4) : 1); V b = op == 0x83 ? vs(c.fimm(1), 8, w) : imm(w); V a = c.rrm(w); V r = c.alu(c.reg & 7, a, b, w, wb); if (wb) c.wrm(w, r); done(); return; }
    case 0x84: case 0x85: { unsigned w = op == 0x84 ? 8 : W; c.modrm(0); V a = c.rrm(w), b = c.rd(c.reg, w); V r = vand(a, b, w); c.flogic(r, w); if (c.mod == 3 && c.rm == c.reg) { c.fsub(a, VC(0), a, w); x.f.kind = FL_SUB; } done(); return; }
    case 0x86: case 0x87: { unsigned w = op == 0x86 ? 8 : W; c.modrm(0); V a = c.rrm(w), b = c.rd(c.reg, w); c.wrm(w, b); c.wr(c.reg, w, a); done(); return; }
    case 0x88: case 0x89: { unsigned w = op == 0x88 ? 8 : W; c.modrm(0); c.wrm(w, c.rd(c.reg, w)); done(); return; }
    case 0x8a: case 0x8b: { unsigned w = op == 0x8a ? 8 : W; c.modrm(0); V v = c.rrm(w); c.wr(c.reg, w, v); done(); return; }
    case 0x8d: { c.seg = 0; c.modrm(0); if (c.mod == 3) throw Bad(); c.wr(c.reg, W, vext(c.addr, 0, W)); done(); return; }
    case 0x8f: { c.modrm(0); V v = c.pop(); c.wrm(64, v); done(); return; }
    case 0x90 ... 0x97: { unsigned r = (op & 7) | rb; if (r == 0) { done(); return; } V a = c.rd(0, W), b = c.rd(r, W); c.wr(0, W, b); c.wr(r, W, a); done(); return; }
    case 0x98: { V v = c.rd(0, W / 2); c.wr(0, W, vs(v, W / 2, W)); done(); return; }
    case 0x99: { V v = vs(vmsb(c.rd(0, W), W), 1, W); c.wr(2, W, v); done(); return; }
    case 0x9c: { x86_store_cpu(S, x); V f = mem_load(S, x.cpu_addr + 128, 8); c.push(f); done(); return; }
    case 0x9d: { V f = c.pop(); c.expl(vext(f, 6, 1), vext(f, 7, 1), vext(f, 0, 1), vext(f, 11, 1), vext(f, 2, 1)); done(); return; }
    case 0xa4: case 0xa5: case 0xaa: case 0xab: case 0xac: case 0xad: {
      unsigned n = (op & 1) ? W / 8 : 1; u64 cnt = 1; if (c.pf3 || c.pf2) cnt = concretize(S, x.r[1], 64);
      if (cnt > (1u << 24)) throw MemFault{concretize(S, x.r[7], 64), true};
      u64 di = concretize(S, x.r[7], 64), si = (op == 0xa4 || op == 0xa5 || op >= 0xac) ? concretize(S, x.r[6], 64) : 0; s64 d = x.df.c ? -(s64)n : n;
      for (u64 i = 0; i < cnt; i++) { if (op <= 0xa5) { mem_store(S, di, n, mem_load(S, si, n)); si += d; di += d; } else if (op <= 0xab) { mem_store(S, di, n, c.rd(0, n * 8)); di += d; } else { c.wr(0, n * 8, mem_load(S, si, n)); si += d; } }
      if (op <= 0xab) x.r[7] = VC(di); if (si) x.r[6] = VC(si); if (c.pf3 || c.pf2) x.r[1] = VC(0); done(); return; }
    case 0xa8: case 0xa9: { unsigned w = op == 0xa8 ? 8 : W; V b = imm(w); V r = vand(c.rd(0, w), b, w); c.flogic(r, w); done(); return; }
    case 0xb0 ... 0xb7: { V v = c.fimm(1); c.wr((op & 7) | rb, 8, v); done(); return; }
    case 0xb8 ... 0xbf: { V v = c.fimm(W / 8); c.wr((op & 7) | rb, W, v); done(); return; }
    case 0xc0: case 0xc1: case 0xd0: case 0xd1: case 0xd2: case 0xd3: {
      unsigned w = (op & 1) ? W : 8; c.modrm(op < 0xd0 ? 1 : 0); V k = op < 0xd0 ? c.fimm(1) : op < 0xd2 ? VC(1) : c.rd(1, 8); if (op >= 0xd2) { bool h = c.hasrex; c.hasrex = true; k = c.rd(1, 8); c.hasrex = h; }
      V a = c.rrm(w); V r = c.shift(c.reg & 7, a, k, w); c.wrm(w, r); done(); return; }
    case 0xc2: { u64 n = concretize(S, c.fimm(2), 16); V r = c.pop(); x.r[4] = vadd(x.r[4], VC(n), 64); x.rip = concretize(S, r, 64); return; }
    case 0xc3: { V r = c.pop(); x.rip = concretize(S, r, 64); return; }
    case 0xc6: case 0xc7: { unsigned w = op == 0xc6 ? 8 : W; c.modrm(w == 8 ? 1 : w == 16 ? 2 : 4); V v = imm(w); c.wrm(w, v); done(); return; }
    case 0xc9: { x.r[4] = x.r[5]; x.r[5] = c.pop(); done(); return; }
    case 0xcc: case 0xcd: { if (op == 0xcd) c.f8(); done(); throw Fault{FAULT_TRAP, x.rip}; }
    case 0xe8: { V d = vs(c.fimm(4), 32, 64); u64 t = concretize(S, vadd(d, VC(c.ip), 64), 64); c.push(VC(c.ip)); x.rip = t; return; }
    case 0xe9: { V d = vs(c.fimm(4), 32, 64); x.rip = concretize(S, vadd(d, VC(c.ip), 64), 64); return; }
    case 0xeb: { V d = vs(c.fimm(1), 8, 64); x.rip = concretize(S, vadd(d, VC(c.ip), 64), 64); return; }
    case 0xe3: { u64 d = concretize(S, vs(c.fimm(1), 8, 64), 64); bool t = decide(S, mk_eq(EX(x.r[1], 64), mk_const(0, 64))); x.rip = c.ip + (t ? d : 0); return; }
    case 0xf5: { c.all_expl(); x.f.cf = vnot(x.f.cf, 1); done(); return; }
    case 0xf8: case 0xf9: { c.all_expl(); x.f.cf = VC(op & 1); done(); return; }
    case 0xfc: x.df = VC(0); done(); return; case 0xfd: x.df = VC(1); done(); return;
    case 0xf6: case 0xf7: {
      unsigned w = op == 0xf6 ? 8 : W; u64 save = c.ip; u8 m = c.f8(); c.ip = save; unsigned k = (m >> 3) & 7; c.modrm(k < 2 ? (w == 8 ? 1 : w == 16 ? 2 : 4) : 0); V a = c.rrm(w);
      switch (k) {
        case 0: case 1: { V b = imm(w); V r = vand(a, b, w); c.flogic(r, w); break; }
        case 2: c.wrm(w, vnot(a, w)); break;
        case 3: { V r = vsub(VC(0), a, w); c.wrm(w, r); c.fsub(VC(0), a, r, w); break; }
        case 4: case 5: {
          bool h = c.hasrex; V b = c.rd(0, w); Expr *A = EX(a, w), *Bx = EX(b, w); Expr *p = k == 4 ? mk_mul(mk_zext(A, 2 * w), mk_zext(Bx, 2 * w)) : mk_mul(mk_sext(A, 2 * w), mk_sext(Bx, 2 * w));
          V lo = vmul(a, b, w); V hi = VE(mk_extract(p, w, w)); (void)h;
          if (w == 8) c.wr(0, 16, VE(mk_concat(EX(hi, 8), EX(lo, 8)))); else { c.wr(0, w, lo); c.wr(2, w, hi); }
          Expr *ov = k == 4 ? mk_not(mk_eq(EX(hi, w), mk_const(0, w))) : mk_not(mk_eq(p, mk_sext(EX(lo, w), 2 * w)));
          c.expl(c.undef("zf"), c.undef("sf"), VE(ov), VE(ov), c.undef("pf")); break; }
        default: { // div / idiv
          V lo, hi; if (w == 8) { V ax = c.rd(0, 16); lo = vext(ax, 0, 8); hi = vext(ax, 8, 8); } else { lo = c.rd(0, w); hi = c.rd(2, w); }
          Expr *d = EX(a, w), *L = EX(lo, w), *H = EX(hi, w); Expr *D = mk_concat(H, L);
          if (decide(S, mk_eq(d, mk_const(0, w)))) throw Fault{FAULT_DIV, x.rip};
          Expr *q, *r;
          if (k == 6) {
            if (is_c(H, 0)) { q = mk_udiv(L, d); r = mk_urem(L, d); }
            else { if (decide(S, mk_not(mk_ult(H, d)))) throw Fault{FAULT_DIV, x.rip}; Expr *D2 = mk_zext(d, 2 * w); q = mk_extract(mk_udiv(D, D2), 0, w); r = mk_extract(mk_urem(D, D2), 0, w); }
          } else {
            bool se = D == mk_sext(L, 2 * w);
            if (se) { Expr *ov = mk_and(mk_eq(L, mk_const((u128)1 << (w - 1), w)), mk_eq(d, mk_const(maskw(w), w))); if (decide(S, ov)) throw Fault{FAULT_DIV, x.rip}; q = mk_sdiv(L, d); r = mk_srem(L, d); }
            else { Expr *D2 = mk_sext(d, 2 * w); Expr *Q = mk_sdiv(D, D2); Expr *fit = mk_eq(Q, mk_sext(mk_extract(Q, 0, w), 2 * w)); Expr *mn = mk_and(mk_eq(D, mk_const((u128)1 << (2 * w - 1), 2 * w)), mk_eq(d, mk_const(maskw(w), w))); if (decide(S, mk_or(mn, mk_not(fit)))) throw Fault{FAULT_DIV, x.rip}; q = mk_extract(Q, 0, w); r = mk_extract(mk_srem(D, D2), 0, w); }
          }
          if (w == 8) c.wr(0, 16, VE(mk_concat(r, q))); else { c.wr(0, w, VE(q)); c.wr(2, w, VE(r)); }
          c.expl(c.undef("zf"), c.undef("sf"), c.undef("cf"), c.undef("of"), c.undef("pf")); break; }
      }
      done(); return; }
    case 0xfe: case 0xff: {
      unsigned w = op == 0xfe ? 8 : W; c.modrm(0); unsigned k = c.reg & 7;
      if (k == 0 || k == 1) { V a = c.rrm(w); V cf = c.CF(); V r = k == 0 ? vadd(a, VC(1), w) : vsub(a, VC(1), w); V of = VE(mk_eq(EX(r, w), mk_const(k == 0 ? (u128)1 << (w - 1) : maskw(w - 1), w))); c.wrm(w, r); c.fres(r, w, cf, of); done(); return; }
      if (op == 0xfe) throw Bad();
      if (k == 2) { V t = c.rrm(64); u64 tt = concretize(S, t, 64); c.push(VC(c.ip)); x.rip = tt; return; }
      if (k == 4) { V t = c.rrm(64); x.rip = concretize(S, t, 64); return; }
      if (k == 6) { V t = c.rrm(64); c.push(t); done(); return; }
      throw Bad(); }
    case 0x0f: break;
    default: throw Bad();
  }
  u8 o2 = c.f8(); g_x86_ops[0x0f00 | o2]++;
  unsigned fw = c.pf2 ? 64 : 32; bool scalar = c.pf2 || c.pf3; // SSE width
  switch (o2) {
    case 0x05: case 0x0b: done(); throw Fault{FAULT_TRAP, x.rip};
    case 0x0d: case 0x18: case 0x1f: c.modrm(0); done(); return;
    case 0x10: case 0x11: {
      c.modrm(0);
      if (scalar) { if (o2 == 0x10) { V v = c.sx(fw); if (c.mod != 3) { x.x[c.reg][0] = vz(v, fw, 64); x.x[c.reg][1] = VC(0); } else c.xw(c.reg, 0, fw, v); } else { V v = c.xl(c.reg, 0, fw); if (c.mod == 3) c.xw(c.rm, 0, fw, v); else c.st(c.addr, fw / 8, v); } }
      else { V t[2]; if (o2 == 0x10) { c.x128(t); x.x[c.reg][0] = t[0]; x.x[c.reg][1] = t[1]; } else c.st128(x.x[c.reg]); }
      done(); return; }
    case 0x28: case 0x29: { c.modrm(0); c.check_align(); V t[2]; if (o2 == 0x28) { c.x128(t); x.x[c.reg][0] = t[0]; x.x[c.reg][1] = t[1]; } else c.st128(x.x[c.reg]); done(); return; }
    case 0x12: case 0x13: case 0x16: case 0x17: { c.modrm(0); if (scalar) throw Bad(); unsigned hi = o2 >= 0x16; if (!(o2 & 1)) { V v = c.mod == 3 ? x.x[c.rm][hi ? 0 : 1] : c.ld(c.addr, 8); x.x[c.reg][hi] = v; } else c.st(c.addr, 8, x.x[c.reg][hi]); done(); return; }
    case 0x14: case 0x15: { c.modrm(0); V t[2]; c.x128(t); V *d = x.x[c.reg]; if (c.p66) { if (o2 == 0x14) d[1] = t[0]; else { d[0] = d[1]; d[1] = t[1]; } } else { V s = d[o2 & 1], u = t[o2 & 1]; d[0] = VE(mk_concat(EX(vext(u, 0, 32), 32), EX(vext(s, 0, 32), 32))); d[1] = VE(mk_concat(EX(vext(u, 32, 32), 32), EX(vext(s, 32, 32), 32))); } done(); return; }
    case 0x2a: { c.modrm(0); if (!scalar) throw Bad(); unsigned iw = (c.rex & 8) ? 64 : 32; V v = c.rrm(iw); V r = VE(e_sitofp(EX(v, iw), fw)); c.xw(c.reg, 0, fw, r); done(); return; }
    case 0x2c: case 0x2d: { c.modrm(0); if (!scalar) throw Bad(); unsigned iw = (c.rex & 8) ? 64 : 32; V v = c.sx(fw); if (o2 == 0x2d) throw Bad(); V r = VE(e_fptosi(EX(v, fw), iw)); c.wr(c.reg, iw, r); done(); return; }
    case 0x2e: case 0x2f: { c.modrm(0); unsigned w = c.p66 ? 64 : 32; Expr *a = EX(c.xl(c.reg, 0, w), w), *b = EX(c.sx(w), w); Expr *u = fp_uno(a, b); c.expl(VE(mk_or(u, fp_oeq(a, b))), VC(0), VE(mk_or(u, fp_olt(a, b))), VC(0), VE(u)); done(); return; }
    case 0x31: { c.wr(0, 32, VC(1000)); c.wr(2, 32, VC(0)); done(); return; }
    case 0x40 ... 0x4f: { c.modrm(0); V v = c.rrm(W); V o = c.rd(c.reg, W); c.wr(c.reg, W, VE(mk_ite(c.cond(o2 & 15), EX(v, W), EX(o, W)))); done(); return; }
    case 0x51: case 0x58: case 0x59: case 0x5c: case 0x5d: case 0x5e: case 0x5f: {
      c.modrm(0); if (scalar) { V a = c.xl(c.reg, 0, fw), b = c.sx(fw); c.xw(c.reg, 0, fw, fparith(o2, a, b, fw)); }
      else { unsigned w = c.p66 ? 64 : 32; c.check_align(); V t[2]; c.x128(t); V s[2] = {x.x[c.reg][0], x.x[c.reg][1]}; for (unsigned i = 0; i < 128 / w; i++) { V a = vext(s[i * w / 64], i * w % 64, w), b = vext(t[i * w / 64], i * w % 64, w); c.xw(c.reg, i, w, fparith(o2, a, b, w)); } }
      done(); return; }
    case 0x54: case 0x55: case 0x56: case 0x57: case 0xdb: case 0xdf: case 0xeb: case 0xef: {
      c.modrm(0); c.check_align(); V t[2]; c.x128(t); for (int i = 0; i < 2; i++) { V a = x.x[c.reg][i]; switch (o2) { case 0x54: case 0xdb: a = vand(a, t[i], 64); break; case 0x55: case 0xdf: a = vand(vnot(a, 64), t[i], 64); break; case 0x56: case 0xeb: a = vor(a, t[i], 64); break; default: a = vxor(a, t[i], 64); } x.x[c.reg][i] = a; }
      done(); return; }
    case 0xc2: { c.modrm(1); u64 k = concretize(S, c.fimm(1), 8) & 7; unsigned w = scalar ? fw : c.p66 ? 64 : 32; V t[2]; if (!scalar) { c.check_align(); c.x128(t); } V s[2] = {x.x[c.reg][0], x.x[c.reg][1]}; V sc = scalar ? c.sx(w) : VC(0);
      for (unsigned i = 0; i < (scalar ? 1u : 128 / w); i++) { Expr *a = EX(vext(s[i * w / 64], i * w % 64, w), w), *b = EX(scalar ? sc : vext(t[i * w / 64], i * w % 64, w), w); Expr *r; switch (k & 3) { case 0: r = fp_oeq(a, b); break; case 1: r = fp_olt(a, b); break; case 2: r = mk_or(fp_olt(a, b), fp_oeq(a, b)); break; default: r = fp_uno(a, b); }
        if (k & 4) r = mk_not(r); c.xw(c.reg, i, w, VE(mk_ite(r, mk_const(w == 64 ? ~0ull : 0xffffffffull, w), mk_const(0, w)))); }
      done(); return; }
    case 0x5a: { c.modrm(0); if (c.pf3) { V v = c.sx(32); c.xw(c.reg, 0, 64, VE(mk_uf(ufid(UF_FPEXT, 32), 64, EX(v, 32)))); } else if (c.pf2) { V v = c.sx(64); c.xw(c.reg, 0, 32, VE(mk_uf(ufid(UF_FPTRUNC, 64), 32, EX(v, 64)))); }
      else if (!c.p66) { V v = c.mod == 3 ? x.x[c.rm][0] : c.ld(c.addr, 8); V l = vext(v, 0, 32), h = vext(v, 32, 32); x.x[c.reg][0] = VE(mk_uf(ufid(UF_FPEXT, 32), 64, EX(l, 32))); x.x[c.reg][1] = VE(mk_uf(ufid(UF_FPEXT, 32), 64, EX(h, 32))); }
      else { V t[2]; c.x128(t); Expr *l = mk_uf(ufid(UF_FPTRUNC, 64), 32, EX(t[0], 64)), *h = mk_uf(ufid(UF_FPTRUNC, 64), 32, EX(t[1], 64)); x.x[c.reg][0] = VE(mk_concat(h, l)); x.x[c.reg][1] = VC(0); }
      done(); return; }
    case 0x5b: { c.modrm(0); V t[2]; c.x128(t); if (scalar) throw Bad(); for (int i = 0; i < 4; i++) { V v = vext(t[i / 2], (i & 1) * 32, 32); if (!c.p66) c.xw(c.reg, i, 32, VE(e_sitofp(EX(v, 32), 32))); else throw Bad(); } done(); return; }
    case 0xe6: { c.modrm(0); if (!c.pf3) throw Bad(); V v = c.mod == 3 ? x.x[c.rm][0] : c.ld(c.addr, 8); V l = vext(v, 0, 32), h = vext(v, 32, 32); x.x[c.reg][0] = VE(e_sitofp(EX(l, 32), 64)); x.x[c.reg][1] = VE(e_sitofp(EX(h, 32), 64)); done(); return; }
    case 0x60 ... 0x62: case 0x68 ... 0x6a: case 0x6c: case 0x6d: { // punpck
      if (!c.p66) throw Bad(); c.modrm(0); V t[2]; c.x128(t); unsigned w = o2 >= 0x6c ? 64 : 8u << (o2 & 3 & (o2 >= 0x68 ? 3 : 3)); if (o2 >= 0x68 && o2 < 0x6c) w = 8u << (o2 - 0x68); bool hi = o2 >= 0x68 && o2 != 0x6c; V s = x.x[c.reg][hi], u = t[hi]; 
      if (w == 64) { x.x[c.reg][0] = s; x.x[c.reg][1] = u; done(); return; }
      Expr *r = nullptr; for (unsigned i = 0; i < 64 / w; i++) { Expr *a = EX(vext(s, i * w, w), w), *b = EX(vext(u, i * w, w), w); r = r ? mk_concat(mk_concat(b, a), r) : mk_concat(b, a); } x.x[c.reg][0] = VE(mk_extract(r, 0, 64)); x.x[c.reg][1] = VE(mk_extract(r, 64, 64)); done(); return; }
    case 0x6e: { if (!c.p66) throw Bad(); c.modrm(0); unsigned w = (c.rex & 8) ? 64 : 32; V v = c.rrm(w); x.x[c.reg][0] = vz(v, w, 64); x.x[c.reg][1] = VC(0); done(); return; }
    case 0x7e: { c.modrm(0); if (c.pf3) { V v = c.mod == 3 ? x.x[c.rm][0] : c.ld(c.addr, 8); x.x[c.reg][0] = v; x.x[c.reg][1] = VC(0); } else { if (!c.p66) throw Bad(); unsigned w = (c.rex & 8) ? 64 : 32; c.wrm(w, vext(x.x[c.reg][0], 0, w)); } done(); return; }
    case 0xd6: { if (!c.p66) throw Bad(); c.modrm(0); if (c.mod == 3) { x.x[c.rm][0] = x.x[c.reg][0]; x.x[c.rm][1] = VC(0); } else c.st(c.addr, 8, x.x[c.reg][0]); done(); return; }
    case 0x6f: case 0x7f: { if (!c.p66 && !c.pf3) throw Bad(); c.modrm(0); if (c.p66) c.check_align(); V t[2]; if (o2 == 0x6f) { c.x128(t); x.x[c.reg][0] = t[0]; x.x[c.reg][1] = t[1]; } else c.st128(x.x[c.reg]); done(); return; }
    case 0xe7: case 0x2b: { c.modrm(0); c.check_align(); c.st128(x.x[c.reg]); done(); return; }
    case 0xd7: case 0x50: { c.modrm(0); if (c.mod != 3) throw Bad(); unsigned w = o2 == 0xd7 ? 8 : c.p66 ? 64 : 32; Expr *r = nullptr; for (unsigned i = 0; i < 128 / w; i++) { Expr *b = B(vext(c.xl(c.rm, i, w), w - 1, 1)); r = r ? mk_concat(b, r) : b; } c.wr(c.reg, 32, VE(mk_zext(r, 32))); done(); return; }
    case 0x70: { c.modrm(1); u64 k = concretize(S, c.fimm(1), 8); V t[2]; c.x128(t); if (c.p66) { for (int i = 0; i < 4; i++) { unsigned s = (k >> (2 * i)) & 3; c.xw(c.reg, i, 32, vext(t[s / 2], (s & 1) * 32, 32)); } } else if (scalar) { int h = c.pf3 ? 1 : 0; V d[2] = {t[0], t[1]}; x.x[c.reg][1 - h] = d[1 - h]; for (int i = 0; i < 4; i++) { unsigned s = (k >> (2 * i)) & 3; c.xw(c.reg, h * 4 + i, 16, vext(d[h], s * 16, 16)); } } else throw Bad(); done(); return; }
    case 0xc6: { c.modrm(1); u64 k = concretize(S, c.fimm(1), 8); V t[2]; c.x128(t); V s[2] = {x.x[c.reg][0], x.x[c.reg][1]}; if (c.p66) { x.x[c.reg][0] = s[k & 1]; x.x[c.reg][1] = t[(k >> 1) & 1]; } else for (int i = 0; i < 4; i++) { unsigned q = (k >> (2 * i)) & 3; V *src = i < 2 ? s : t; c.xw(c.reg, i, 32, vext(src[q / 2], (q & 1) * 32, 32)); } done(); return; }
    case 0x71 ... 0x73: { c.modrm(1); u64 k = concretize(S, c.fimm(1), 8); unsigned w = 8u << (o2 - 0x70); unsigned sub = c.reg & 7; if (!c.p66 || c.mod != 3) throw Bad();
      if (o2 == 0x73 && (sub == 3 || sub == 7)) { Expr *e = mk_concat(EX(x.x[c.rm][1], 64), EX(x.x[c.rm][0], 64)); unsigned n = std::min<u64>(k, 16) * 8; Expr *r = sub == 3 ? mk_lshr(e, mk_const(n, 128)) : mk_shl(e, mk_const(n, 128)); x.x[c.rm][0] = VE(mk_extract(r, 0, 64)); x.x[c.rm][1] = VE(mk_extract(r, 64, 64)); done(); return; }
      for (unsigned i = 0; i < 128 / w; i++) { Expr *a = EX(c.xl(c.rm, i, w), w), *r; if (sub == 2) r = k >= w ? mk_const(0, w) : mk_lshr(a, mk_const(k, w)); else if (sub == 6) r = k >= w ? mk_const(0, w) : mk_shl(a, mk_const(k, w)); else if (sub == 4) r = mk_ashr(a, mk_const(std::min<u64>(k, w - 1), w)); else throw Bad(); c.xw(c.rm, i, w, VE(r)); } done(); return; }
    case 0x64 ... 0x66: case 0x74 ... 0x76: case 0xd4: case 0xd5: case 0xf8 ... 0xfe: case 0xda: case 0xde: case 0xea: case 0xee: case 0xf4: {
      if (!c.p66) throw Bad(); c.modrm(0); c.check_align(); V t[2]; c.x128(t); V s[2] = {x.x[c.reg][0], x.x[c.reg][1]}; unsigned w;
      switch (o2) { case 0x64: case 0x74: case 0xf8: case 0xfc: case 0xda: case 0xde: w = 8; break; case 0x65: case 0x75: case 0xf9: case 0xfd: case 0xd5: case 0xea: case 0xee: w = 16; break; case 0x66: case 0x76: case 0xfa: case 0xfe: w = 32; break; default: w = 64; }
      for (unsigned i = 0; i < 128 / w; i++) { Expr *a = EX(vext(s[i * w / 64], i * w % 64, w), w), *b = EX(vext(t[i * w / 64], i * w % 64, w), w), *r;
        if (o2 >= 0x64 && o2 <= 0x66) r = mk_sext(mk_slt(b, a), w); else if (o2 >= 0x74 && o2 <= 0x76) r = mk_sext(mk_eq(a, b), w); else if (o2 == 0xd4 || o2 >= 0xfc) r = mk_add(a, b); else if (o2 >= 0xf8 && o2 <= 0xfb) r = mk_sub(a, b); else if (o2 == 0xd5) r = mk_mul(a, b);
        else if (o2 == 0xda) r = mk_ite(mk_ult(a, b), a, b); else if (o2 == 0xde) r = mk_ite(mk_ult(b, a), a, b); else if (o2 == 0xea) r = mk_ite(mk_slt(a, b), a, b); else if (o2 == 0xee) r = mk_ite(mk_slt(b, a), a, b); else r = mk_mul(mk_zext(mk_extract(a, 0, 32), 64), mk_zext(mk_extract(b, 0, 32), 64));
        c.xw(c.reg, i, w, VE(r)); }
      done(); return; }
    case 0x80 ... 0x8f: { V d = vs(c.fimm(4), 32, 64); u64 dd = concretize(S, d, 64); bool t = decide(S, c.cond(o2 & 15)); x.rip = c.ip + (t ? dd : 0); return; }
    case 0x90 ... 0x9f: { c.modrm(0); Expr *e = c.cond(o2 & 15); c.wrm(8, VE(mk_zext(e, 8))); done(); return; }
    case 0xa2: { c.wr(0, 32, VC(0)); c.wr(1, 32, VC(0)); c.wr(2, 32, VC(0)); c.wr(3, 32, VC(0)); done(); return; }
    case 0xa3: case 0xab: case 0xb3: case 0xbb: case 0xba: {
      c.modrm(o2 == 0xba ? 1 : 0); unsigned k = o2 == 0xba ? (c.reg & 7) - 4 : (o2 - 0xa3) >> 3; if (o2 == 0xba && (c.reg & 7) < 4) throw Bad(); V ix = o2 == 0xba ? c.fimm(1) : c.rd(c.reg, W);
      V ixm; if (o2 == 0xba) ixm = vz(vand(ix, VC(W - 1), 8), 8, W); else ixm = vand(ix, VC(W - 1), W);
      if (c.mod != 3 && o2 != 0xba) { // bit string addressing
        V off = vs(ix, W, 64); Expr *e = EX(off, 64); c.addr = vadd(c.addr, VE(mk_mul(mk_ashr(e, mk_const(W == 64 ? 6 : W == 32 ? 5 : 4, 64)), mk_const(W / 8, 64))), 64); }
      V a = c.rrm(W); Expr *A = EX(a, W), *K = EX(ixm, W); Expr *bit = mk_extract(mk_lshr(A, K), 0, 1), *m = mk_shl(mk_const(1, W), K); Expr *r = k == 1 ? mk_or(A, m) : k == 2 ? mk_and(A, mk_not(m)) : mk_xor(A, m); if (k) c.wrm(W, VE(r));
      V z = c.ZF(), s = c.SF(), o = c.OF(), p = c.PF(); c.expl(z, s, VE(bit), o, p); done(); return; }
    case 0xa4: case 0xa5: case 0xac: case 0xad: { c.modrm((o2 & 1) ? 0 : 1); V k = (o2 & 1) ? c.rd(1, 8) : c.fimm(1); if (o2 & 1) { bool h = c.hasrex; c.hasrex = true; k = c.rd(1, 8); c.hasrex = h; } V a = c.rrm(W), b = c.rd(c.reg, W); V kk = vand(k, VC(W == 64 ? 63 : 31), 8);
      Expr *A = EX(a, W), *Bx = EX(b, W); Expr *r; bool left = o2 < 0xa8; Expr *cc = left ? mk_concat(A, Bx) : mk_concat(Bx, A); Expr *K = mk_zext(EX(kk, 8), 2 * W); r = left ? mk_extract(mk_shl(cc, K), W, W) : mk_extract(mk_lshr(cc, K), 0, W); if (!kk.e && kk.c == 0) { done(); return; } c.wrm(W, VE(r)); c.fres(VE(r), W, c.undef("cf"), c.undef("of")); done(); return; }
    case 0xae: { c.modrm(0); if (c.mod == 3) { done(); return; } if ((c.reg & 7) == 3) { c.st(c.addr, 4, VC(0x1f80)); done(); return; } if ((c.reg & 7) == 2) { done(); return; } throw Bad(); }
    case 0xaf: { c.modrm(0); V a = c.rd(c.reg, W), b = c.rrm(W); V r = vmul(a, b, W); c.wr(c.reg, W, r); Expr *p = mk_mul(mk_sext(EX(a, W), 2 * W), mk_sext(EX(b, W), 2 * W)); Expr *ov = mk_not(mk_eq(p, mk_sext(EX(r, W), 2 * W))); c.expl(c.undef("zf"), c.undef("sf"), VE(ov), VE(ov), c.undef("pf")); done(); return; }
    case 0xb0: case 0xb1: { unsigned w = o2 == 0xb0 ? 8 : W; c.modrm(0); V d = c.rrm(w), a = c.rd(0, w), s = c.rd(c.reg, w); Expr *eq = mk_eq(EX(a, w), EX(d, w)); V r = vsub(a, d, w); bool t = decide(S, eq); if (t) c.wrm(w, s); else c.wr(0, w, d); c.fsub(a, d, r, w); done(); return; }
    case 0xb6: case 0xb7: { c.modrm(0); unsigned w = o2 == 0xb6 ? 8 : 16; V v = c.rrm(w); c.wr(c.reg, W, vz(v, w, W)); done(); return; }
    case 0xbe: case 0xbf: { c.modrm(0); unsigned w = o2 == 0xbe ? 8 : 16; V v = c.rrm(w); c.wr(c.reg, W, vs(v, w, W)); done(); return; }
    case 0xb8: case 0xbc: case 0xbd: {
      c.modrm(0); V v = c.rrm(W); Expr *e = EX(v, W), *r; Expr *z = mk_eq(e, mk_const(0, W));
      if (o2 == 0xb8) { if (!c.pf3) throw Bad(); r = mk_const(0, W); for (unsigned i = 0; i < W; i++) r = mk_add(r, mk_zext(mk_extract(e, i, 1), W)); c.wr(c.reg, W, VE(r)); c.expl(VE(z), VC(0), VC(0), VC(0), VC(0)); done(); return; }
      bool cnt = c.pf3; Expr *dflt = cnt ? mk_const(W, W) : EX(c.rd(c.reg, W), W); r = dflt;
      if (o2 == 0xbc) for (unsigned i = W; i-- > 0;) r = mk_ite(mk_extract(e, i, 1), mk_const(i, W), r); else for (unsigned i = 0; i < W; i++) r = mk_ite(mk_extract(e, i, 1), mk_const(cnt ? W - 1 - i : i, W), r);
      c.wr(c.reg, W, VE(r)); if (cnt) c.expl(VE(mk_eq(r, mk_const(0, W))), c.undef("sf"), VE(z), c.undef("of"), c.undef("pf")); else c.expl(VE(z), c.undef("sf"), c.undef("cf"), c.undef("of"), c.undef("pf")); done(); return; }
    case 0xc0: case 0xc1: { unsigned w = o2 == 0xc0 ? 8 : W; c.modrm(0); V a = c.rrm(w), b = c.rd(c.reg, w); V r = vadd(a, b, w); if (c.mod == 3) { c.wr(c.reg, w, a); c.wrm(w, r); } else { c.wrm(w, r); c.wr(c.reg, w, a); } c.fadd(a, b, r, w); done(); return; }
    case 0xc7: { c.modrm(0); unsigned k = c.reg & 7; if (c.mod == 3 || k != 1) throw Bad(); unsigned h = (c.rex & 8) ? 64 : 32; if (h == 64 && !c.addr.e && (c.addr.c & 15)) throw MemFault{c.addr.c | (1ull << 63), true};
      V lo = c.ld(c.addr, h / 8), hi = c.ld(vadd(c.addr, VC(h / 8), 64), h / 8); Expr *eq = mk_and(mk_eq(EX(lo, h), EX(c.rd(0, h), h)), mk_eq(EX(hi, h), EX(c.rd(2, h), h))); bool t = decide(S, eq);
      V s = c.SF(), cf = c.CF(), of = c.OF(), p = c.PF(); if (t) { c.st(c.addr, h / 8, c.rd(3, h)); c.st(vadd(c.addr, VC(h / 8), 64), h / 8, c.rd(1, h)); } else { c.wr(0, h, lo); c.wr(2, h, hi); } c.expl(VC(t), s, cf, of, p); done(); return; }
    case 0xc8 ... 0xcf: { unsigned r = (o2 & 7) | rb; V v = c.rd(r, W); Expr *e = EX(v, W), *o = nullptr; for (unsigned i = 0; i < W; i += 8) { Expr *b = mk_extract(e, i, 8); o = o ? mk_concat(o, b) : b; } c.wr(r, W, VE(o)); done(); return; }
    default: throw Bad();
  }
}
void x86_step_loop(State &S) {
  Thread &T = cur_thread(S);
  for (;;) {
    if (T.fr.empty() || T.fr.back().kind != FK_X86) return;
    X86 &x = T.x[T.fr.back().xi];
    if (x.rip == SENTINEL) { 
      V sp = x.r[4]; bool ok = !sp.e && sp.c == x.rsp0 + 8; x86_leave(S, ok ? 0 : FAULT_STACK); return; }
    if (Func *f = func_at(x.rip)) { // callback into the harness
      if (!f->defined) throw EngineError{"x86 call to undefined function " + f->name};
      if (f->name.compare(0, 3, "cb_") == 0) { x86_store_cpu(S, x); V a = VC(x.cpu_addr); push_frame(S, f, &a, 1, -1, 0); return; }
      // the callee is ordinary C code: pass the arguments according to the Win64 calling convention
      u64 sp = concretize(S, x.r[4], 64); if ((sp & 15) != 8) { handle_fault(S, FAULT_ALIGN, x.rip); return; }
      static const int order[4] = {1, 2, 8, 9}; std::vector<V> av; unsigned na = f->nargs;
      if (f->vararg) for (int i = 0; i < 4; i++) mem_store(S, sp + 8 + 8 * i, 8, x.r[order[i]]);
      for (unsigned i = 0; i < na; i++) { unsigned w = f->argw[i]; V v; if (i < 4) v = f->argf[i] ? x.x[i][0] : x.r[order[i]]; else v = mem_load(S, sp + 8 + 8 * i, 8); if (w < 64) v = vext(v, 0, w); av.push_back(v); }
      T.fr.back().aux = av.empty() ? 0 : 1; if (f->sret && na) T.fr.back().aux2 = concretize(S, av[0], 64);
      push_frame(S, f, av.data(), na, -1, sp + 8 + 8 * na); return; }
    if (S.watch_fn && x.rip - S.watch_lo < S.watch_hi - S.watch_lo && x.watched != x.rip) { x86_store_cpu(S, x); V a = VC(x.cpu_addr); push_frame(S, S.watch_fn, &a, 1, -1, 0); return; }
    x.watched = 0;
    if (x.steps++ > x.budget) { handle_fault(S, FAULT_BUDGET, x.rip); return; }
    if ((x.steps & 1023) == 0 && now_s() > CFG.deadline) { ST.truncated++; throw PathEnd{5}; }
    ST.x86_instr++; S.steps++;
    if (CFG.trace) { u8 b[16]; for (int i = 0; i < 16; i++) { try { b[i] = mem_r8(S, x.rip + i); } catch (MemFault &) { b[i] = 0xcc; } } fprintf(stderr, "%llx: %s\n", (unsigned long long)x.rip, mc_disasm(b, 16, nullptr).c_str()); }
    u64 rip = x.rip;
    try { step(S, x); }
    catch (Fault &f) { handle_fault(S, f.kind, f.addr); return; }
    catch (Bad &) {
      u8 b[16]; for (int i = 0; i < 16; i++) { try { b[i] = mem_r8(S, rip + i); } catch (MemFault &) { b[i] = 0xcc; } }
      unsigned len = 0; std::string d = mc_disasm(b, 16, &len);
      if (len == 0) { handle_fault(S, FAULT_BADINS, rip); return; }
      g_x86_unsupported[d]++; throw EngineError{"unsupported instruction " + d};
    }
  }
}
