// Generic differential harness: the compiled function against the same C text compiled by clang.
#pragma once
#include "lib.h"
#ifndef TARGET_OF
#define TARGET_OF(I, n) sym_addr(I, n)
#endif
struct fn { const char *name; void *ref; const char *sig; u32 budget; };
struct casefile { const char *name, *src; u32 len; const char *cmd; const struct fn *fns; u32 nfn; };
struct arg { u8 kind; u32 n; u64 lim; u64 lo; int haslim; };
#define MAXARG 24
static const char *num(const char *s, u64 *v) { *v = 0; while (*s >= '0' && *s <= '9') *v = *v * 10 + (*s++ - '0'); return s; }
static int g_vararg; // 'V' in a signature: the arguments after it are variadic
static int parse_sig(const char *s, struct arg *a) { // a[0] is the result
  int n = 0;
  g_vararg = 0;
  for (; *s; n++) { if (*s == 'V') { g_vararg = 1; s++; if (!*s) break; } if (n > MAXARG) hs_error("too many arguments in a signature"); zero(&a[n], sizeof a[n]); a[n].kind = *s++; u64 v;
    if (a[n].kind == 'P' || a[n].kind == 'S') { s = num(s, &v); a[n].n = v; }
    for (;;) { if (*s == '<') { s = num(s + 1, &v); a[n].lim = v; a[n].haslim = 1; } else if (*s == '>') { s = num(s + 1, &v); a[n].lo = v; } else if (*s == ',') { s++; } else break; } }
  return n;
}
static u64 width_mask(u8 k) { return k == '1' ? 0xff : k == '2' ? 0xffff : k == '4' || k == 'f' ? 0xffffffffull : ~0ull; }
static int isnan_bits(u64 v, u8 k) { if (k == 'f') return ((u32)v & 0x7fffffff) > 0x7f800000; return (v & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
static char g_msg[512];
static const char *msg3(const char *a, const char *b, const char *c) { char *d = g_msg; d = sapp(d, a); d = sapp(d, "/"); d = sapp(d, b); d = sapp(d, ": "); sapp(d, c); return g_msg; }
static u64 g_const[MAXARG];
static void run_diff(struct img *I, const struct casefile *cf, const struct fn *f) {
  struct arg a[MAXARG + 1]; int n = parse_sig(f->sig, a) - 1; u64 sr[MAXARG + 2], sh[MAXARG + 2]; u32 fm = 0; u8 *br[MAXARG + 2], *bh[MAXARG + 2]; u64 bn[MAXARG + 2]; int k = 0; char nm[8] = "a00";
  u64 target = TARGET_OF(I, f->name); if (!target) hs_fail(msg3(cf->name, f->name, "function is missing from the object file"));
  int sret = 0, kr = 0; if (a[0].kind == 'S' && a[0].n != 1 && a[0].n != 2 && a[0].n != 4 && a[0].n != 8) { sret = 1; br[0] = hs_alloc(a[0].n); bh[0] = hs_alloc(a[0].n); __builtin_memset(br[0], 0x5e, a[0].n); __builtin_memset(bh[0], 0x5e, a[0].n); sr[0] = (u64)br[0]; sh[0] = (u64)bh[0]; bn[0] = a[0].n; k = kr = 1; }
  for (int i = 1; i <= n && a[i].kind == 'C'; i++) sr[kr++] = g_const[i - 1];
  for (int i = 1; i <= n; i++) { if (a[i].kind == 'C') continue;
    nm[1] = '0' + i / 10; nm[2] = '0' + i % 10; bn[k] = 0; struct arg *p = &a[i];
    if (p->kind == 'P' || (p->kind == 'S' && p->n != 1 && p->n != 2 && p->n != 4 && p->n != 8)) {
      br[k] = hs_alloc(p->n); bh[k] = hs_alloc(p->n); bn[k] = p->kind == 'P' ? p->n : 0; u32 o = 0;
      for (; o + 8 <= p->n; o += 8) { u64 v = hs_sym(nm, 64); *(u64*)(br[k] + o) = v; *(u64*)(bh[k] + o) = v; } for (; o < p->n; o++) { u8 v = (u8)hs_sym(nm, 8); br[k][o] = v; bh[k][o] = v; }
      sr[kr++] = (u64)br[k]; sh[k] = (u64)bh[k];
    } else {
      u64 v = hs_sym(nm, 64); u64 m = p->kind == 'S' ? (p->n == 8 ? ~0ull : (1ull << 8 * p->n) - 1) : width_mask(p->kind);
      if (p->haslim) hs_assume((v & m) - p->lo < p->lim);
      if ((p->kind == 'f' || p->kind == 'd')) fm |= 1u << k;
      sr[kr++] = v; sh[k] = v;
    }
    k++;
  }
  if (g_vararg) fm |= 1u << 31;
  u64 bud = f->budget ? f->budget : 4000000;
  u64 rr = a[0].kind == 'f' || a[0].kind == 'd' ? hs_invoke_fp(f->ref, sr, kr) : hs_invoke(f->ref, sr, kr); u32 rf = hs_last_fault();
  if (rf == FAULT_DIV) { hs_reach("undefined in the reference (division)"); hs_skip(); }
  if (rf) hs_error(msg3(cf->name, f->name, "the reference faulted"));
  struct call c; int fault = call_fn(&c, target, sh, k, fm, bud);
  if (fault == FAULT_DIV) hs_fail(msg3(cf->name, f->name, "compiled code raises a division fault"));
  if (fault == FAULT_AV) hs_fail(msg3(cf->name, f->name, "compiled code raises an access violation"));
  if (fault == FAULT_BADINS) hs_fail(msg3(cf->name, f->name, "compiled code runs into an invalid instruction"));
  if (fault == FAULT_BUDGET) hs_fail(msg3(cf->name, f->name, "compiled code does not terminate within the step bound"));
  if (fault) hs_fail(msg3(cf->name, f->name, "compiled code faults"));
  check_abi(&c);
  hs_reach("compared");
  const char *m = msg3(cf->name, f->name, "result differs from the reference");
  switch (a[0].kind) {
    case 'v': break;
    case 'f': case 'd': { u64 x = *(u64*)c.c.xmm[0] & width_mask(a[0].kind), y = rr & width_mask(a[0].kind); hs_check((x == y) | (isnan_bits(x, a[0].kind) & isnan_bits(y, a[0].kind)), m); break; }
    case 'S': if (sret) { hs_check(c.ret == sh[0], msg3(cf->name, f->name, "rax does not hold the address of the returned structure")); m = msg3(cf->name, f->name, "result differs from the reference"); hs_check_mem(br[0], bh[0], bn[0], m); } else { u64 mk = a[0].n == 8 ? ~0ull : (1ull << 8 * a[0].n) - 1; hs_check((c.ret & mk) == (rr & mk), m); } break;
    default: hs_check((c.ret & width_mask(a[0].kind)) == (rr & width_mask(a[0].kind)), m);
  }
  for (int i = sret; i < k; i++) if (bn[i]) hs_check_mem(br[i], bh[i], bn[i], msg3(cf->name, f->name, "memory written through a pointer differs from the reference"));
}
// Constants of the source text that are symbolic: "@<function><argument>" and 19 more '@' is a 22-digit octal number, whose digits denote a symbolic 64-bit value.
static void spell(u8 *src, u32 len, const struct casefile *cf, u32 fi) {
  struct arg a[MAXARG + 1]; int n = parse_sig(cf->fns[fi].sig, a) - 1; char nm[8] = "c0";
  for (int i = 1; i <= n && a[i].kind == 'C'; i++) { nm[1] = '0' + i - 1; u64 v = g_const[i - 1] = hs_sym(nm, 64); if (a[i].haslim) hs_assume(v - a[i].lo < a[i].lim); }
  for (u32 i = 0; i + 22 <= len; i++) if (src[i] == '@' && src[i + 3] == '@') { u64 v = 3; if (src[i + 1] - 48 == fi) v = g_const[src[i + 2] - 48]; for (int k = 0; k < 22; k++) src[i + k] = '0' | (u8)(v >> 3 * (21 - k) & 7); i += 21; }
}
// A source with '\2' between its declarations is compiled with them in any order; after '\3' instead of '\2' the following declarations go to b.c or a.c at will.
// '\1' starts another file: its name, a new line, its text.
static void put_files(const u8 *t, u32 n) {
  u8 *o = hs_alloc(n + 64), *o2 = hs_alloc(n + 64); u32 np = 0, nf = 0, st[16], en[16], free_[16], split = 0, two = 0; u8 nm[64]; const char *name = "a.c"; u32 i = 0;
  for (;;) {
    u32 e = i; np = 0; split = 0; st[0] = i;
    for (; e < n && (hs_is_sym(t[e]) || t[e] != 1); e++) if (!hs_is_sym(t[e]) && (t[e] == 2 || t[e] == 3)) { if (np >= 15) hs_error("too many declarations"); if (t[e] == 3) split = 1; en[np++] = e; st[np] = e + 1; }
    en[np++] = e; u32 k = 0, k2 = 0;
    for (u32 q = 0; q < np; q++) {
      u32 r = np - q == 1 ? 0 : hs_choice(np - q), x = q + r; u32 a = st[x], b = en[x]; for (; x > q; x--) { st[x] = st[x - 1]; en[x] = en[x - 1]; } 
      if (split && hs_choice(2)) { cpy(o2 + k2, t + a, b - a); k2 += b - a; o2[k2++] = '\n'; } else { cpy(o + k, t + a, b - a); k += b - a; if (np > 1) o[k++] = '\n'; }
    }
    hs_file(name, o, k); hs_note(name, o, k); if (split) { hs_file("b.c", o2, k2); hs_note("b.c", o2, k2); }
    if (e >= n) break; u32 j = 0; for (e++; t[e] != '\n'; e++) nm[j++] = t[e]; nm[j] = 0; char *keep = (char*)hs_alloc(j + 1); cpy(keep, nm, j + 1); name = keep; i = e + 1;
  }
}
static void compile_ok(const struct casefile *cf, s32 fi) {
  u8 *t = hs_alloc(cf->len + 1); cpy(t, cf->src, cf->len); if (fi >= 0) spell(t, cf->len, cf, fi); int multi = 0; for (u32 i = 0; i < cf->len; i++) multi |= cf->src[i] < 4;
  if (multi) put_files(t, cf->len); else hs_file("a.c", t, cf->len);
  int r = hs_compile(cf->cmd, 1ull << 34);
  if (r) { if (r < 0) hs_fail(msg3(cf->name, "compile", r == -1000 - FAULT_BUDGET ? "the compiler did not terminate within the step bound" : "the compiler crashed")); hs_fail(msg3(cf->name, "compile", "a valid program was rejected")); }
  hs_reach("compiled");
}
extern const struct casefile *const cases[]; extern const u32 ncases;
void diff_main(void) {
  u32 t = hs_task(ncases); const struct casefile *cf = cases[t];
  s32 i = -1; for (u32 k = 0; k < cf->len && i < 0; k++) if (cf->src[k] == '@') i = hs_choice(cf->nfn);
  compile_ok(cf, i); struct img I; load_obj(&I, "a.obj");
  if (i < 0) i = hs_choice(cf->nfn); run_diff(&I, cf, &cf->fns[i]);
}

// Functions whose only inputs are symbolic constants of the source text: the reference runs first, so that inputs for which it is undefined are left out before compiling.
void const_main(void) {
  u32 t = hs_task(ncases); const struct casefile *cf = cases[t]; u32 i = hs_choice(cf->nfn); const struct fn *f = &cf->fns[i];
  u8 *text = hs_alloc(cf->len + 1); cpy(text, cf->src, cf->len); spell(text, cf->len, cf, i); hs_file("a.c", text, cf->len);
  struct arg a[MAXARG + 1]; int n = parse_sig(f->sig, a) - 1; u64 sr[MAXARG + 2]; for (int k = 0; k < n; k++) sr[k] = g_const[k];
  u64 rr = hs_invoke(f->ref, sr, n); if (hs_last_fault() == FAULT_DIV) hs_skip(); if (hs_last_fault()) hs_error(msg3(cf->name, f->name, "the reference faulted"));
  int r = hs_compile(cf->cmd, 1ull << 34);
  if (r) { if (r < 0) hs_fail(msg3(cf->name, f->name, r == -1000 - FAULT_BUDGET ? "the compiler did not terminate within the step bound" : "the compiler crashed")); hs_fail(msg3(cf->name, f->name, "a valid program was rejected")); }
  struct img I; load_obj(&I, "a.obj"); u64 target = sym_addr(&I, f->name); if (!target) hs_fail(msg3(cf->name, f->name, "function is missing from the object file"));
  struct call c; if (call_fn(&c, target, sr, 0, 0, f->budget ? f->budget : 4000000)) hs_fail(msg3(cf->name, f->name, "compiled code faults"));
  check_abi(&c); hs_reach("compared");
  hs_check((c.ret & width_mask(a[0].kind)) == (rr & width_mask(a[0].kind)), msg3(cf->name, f->name, "result differs from the reference"));
}
