// Unwinding at every instruction boundary by the documented x64 procedure; the .pdata and .xdata entries come from the loaded object file.
#pragma once
#include "diff.h"
static struct img *g_ui; static u64 g_pd, g_npd; static const char *g_un = "";
static const char *umsg(const char *m) { static char b[400]; sapp(sapp(sapp(b, g_un), ": "), m); return b; }
struct __attribute__((packed)) pdata { u32 begin, end, info; };
static struct pdata *lookup(u64 rip) { struct pdata *f = NULL; for (u64 i = 0; i < g_npd; i++) { struct pdata *p = (struct pdata*)g_pd + i; if (rip >= IMG_BASE + p->begin && rip < IMG_BASE + p->end) { if (f) hs_fail(umsg("two entries cover one instruction")); f = p; } } return f; }
struct mc { u64 g[16]; u64 rip; u8 x[16][16]; };
static u64 rd(u64 a) { return *(u64*)a; }
static int epilog(struct mc *m, u32 fr) { // the instructions from rip on are an epilogue: simulate them
  u64 p = m->rip; u64 sp = m->g[RSP]; u8 *c = (u8*)p;
  if (c[0] == 0x48 && c[1] == 0x83 && c[2] == 0xc4) { sp += (s8)c[3]; p += 4; }
  else if (c[0] == 0x48 && c[1] == 0x81 && c[2] == 0xc4) { u32 v; cpy(&v, c + 3, 4); sp += (s32)v; p += 7; }
  else if ((c[0] & 0xfe) == 0x48 && c[1] == 0x8d && (c[2] & 0x38) == 0x20 && fr && ((c[2] & 7) | (c[0] & 1) << 3) == fr && (c[2] & 7) != 4) { u32 v; if (c[2] >> 6 == 1) { sp = m->g[fr] + (s8)c[3]; p += 4; } else if (c[2] >> 6 == 2) { cpy(&v, c + 3, 4); sp = m->g[fr] + (s32)v; p += 7; } else return 0; }
  u64 t[16]; for (int i = 0; i < 16; i++) t[i] = m->g[i];
  for (;;) { c = (u8*)p; if ((c[0] & 0xf8) == 0x58) { t[c[0] & 7] = rd(sp); sp += 8; p++; } else if (c[0] == 0x41 && (c[1] & 0xf8) == 0x58) { t[8 + (c[1] & 7)] = rd(sp); sp += 8; p += 2; } else break; }
  c = (u8*)p; if (!(c[0] == 0xc3 || c[0] == 0xc2 || (c[0] == 0xf3 && c[1] == 0xc3))) return 0;
  for (int i = 0; i < 16; i++) m->g[i] = t[i]; m->rip = rd(sp); m->g[RSP] = sp + 8; return 1;
}
static u32 g_prologs;
static void unwind1(struct mc *m, int top) {
  struct pdata *f = lookup(m->rip); if (!f) hs_fail(umsg("an executed instruction is in no unwind entry"));
  u64 off = m->rip - IMG_BASE - f->begin; u8 *u = (u8*)(IMG_BASE + f->info); u32 n = u[2], fr = u[3] & 15, fo = u[3] >> 4;
  if ((u[0] & 7) != 1) hs_fail(umsg("unknown version of unwind information")); if (u[0] >> 3 & 4) hs_fail(umsg("chained unwind information"));
  if (off >= u[1] && epilog(m, fr)) return;
  for (u32 i = 0; i < n;) {
    u32 o = u[4 + 2 * i], op = u[5 + 2 * i] & 15, in = u[5 + 2 * i] >> 4, k = op == 1 ? 2 + in : op == 4 || op == 8 ? 2 : op == 5 || op == 9 ? 3 : 1, v = 0; if (i + k > n) hs_fail(umsg("truncated unwind code"));
    if (k == 2) { u16 w; cpy(&w, u + 6 + 2 * i, 2); v = w; } else if (k == 3) cpy(&v, u + 6 + 2 * i, 4);
    if (o <= off) switch (op) {
      case 0: m->g[in] = rd(m->g[RSP]); m->g[RSP] += 8; break;
      case 1: m->g[RSP] += in ? v : v * 8ull; break;
      case 2: m->g[RSP] += in * 8 + 8; break;
      case 3: if (top && off == u[1]) { g_prologs++; hs_check(m->g[RSP] == m->g[fr] - fo * 16, umsg("the allocation in the unwind codes differs from the prologue's")); } m->g[RSP] = m->g[fr] - fo * 16; break;
      case 4: m->g[in] = rd(m->g[RSP] + v * 8ull); break;
      case 5: m->g[in] = rd(m->g[RSP] + v); break;
      case 8: cpy(m->x[in], (void*)(m->g[RSP] + v * 16ull), 16); break;
      case 9: cpy(m->x[in], (void*)(m->g[RSP] + v), 16); break;
      default: hs_fail(umsg("unknown unwind code"));
    }
    i += k;
  }
  m->rip = rd(m->g[RSP]); m->g[RSP] += 8;
}
static u64 g_tlo, g_thi; static u32 g_steps, g_depth;
void watch_unw(struct cpu *c) {
  struct mc m; cpy(m.g, c->gpr, 128); m.rip = c->rip; cpy(m.x, c->xmm, 256); struct call *k = g_call; u32 d = 0; g_steps++;
  if (hs_is_sym(m.g[RSP])) m.g[RSP] = hs_conc(m.g[RSP]);
  do { if (++d > 40) hs_fail(umsg("unwinding does not end")); unwind1(&m, d == 1); } while (m.rip >= g_tlo && m.rip < g_thi);
  if (d > g_depth) g_depth = d;
  hs_check(m.rip == rd(k->top - 8), umsg("unwinding does not find the return address")); hs_check(m.g[RSP] == k->top, umsg("unwinding does not find the caller's stack pointer"));
  for (int i = 0; i < 8; i++) hs_check(m.g[saved_regs[i]] == k->saved[saved_regs[i]], umsg("unwinding does not restore a callee-saved register"));
  for (int i = 0; i < 10; i++) hs_check_mem(m.x[6 + i], k->xsave[i], 16, umsg("unwinding does not restore a callee-saved xmm register"));
}
// Every function has exactly one entry; entries and their unwind information are well-formed.
static void static_unw(struct img *I) {
  char nm[512]; g_ui = I; g_pd = 0; g_npd = 0; g_tlo = ~0ull; g_thi = 0;
  for (u32 i = 0; i < I->nsec; i++) { struct coff_sec *s = I->sec + i; if (s->name[1] == 'p' && s->name[2] == 'd' && I->secbase[i]) { hs_check(!g_pd, umsg("two .pdata sections")); g_pd = I->secbase[i]; g_npd = s->size / 12; hs_check(s->size % 12 == 0, umsg("size of .pdata")); }
    if ((s->flags & 0x20) && I->secbase[i]) { if (I->secbase[i] < g_tlo) g_tlo = I->secbase[i]; if (I->secbase[i] + s->size > g_thi) g_thi = I->secbase[i] + s->size; } }
  hs_check(g_pd != 0, umsg("no .pdata section")); u32 nf = 0;
  for (u32 i = 0; i < I->nsym; i++) { struct coff_sym *s = I->sym + i; if (s->sec > 0 && s->type == 0x20 && (s->cls == 2 || s->cls == 3)) { u64 a = I->secbase[s->sec - 1] + s->value; u32 n = 0; nf++; for (u64 k = 0; k < g_npd; k++) n += IMG_BASE + ((struct pdata*)g_pd)[k].begin == a; sym_name(I, s, nm); if (n != 1) hs_fail(umsg(n ? "a function with several unwind entries" : "a function without unwind entry")); } i += s->naux; }
  hs_check(nf == g_npd, umsg("an unwind entry for something that is no function"));
  for (u64 k = 0; k < g_npd; k++) { struct pdata *p = (struct pdata*)g_pd + k; u8 *u = (u8*)(IMG_BASE + p->info); u32 last = 256;
    hs_check(p->begin < p->end && IMG_BASE + p->end <= g_thi && IMG_BASE + p->begin >= g_tlo, umsg("range of an unwind entry")); hs_check((p->info & 3) == 0, umsg("unwind information is not aligned")); hs_check(p->begin + (u64)u[1] <= p->end, umsg("prologue longer than the function"));
    for (u32 i = 0; i < u[2];) { u32 o = u[4 + 2 * i], op = u[5 + 2 * i] & 15, in = u[5 + 2 * i] >> 4; hs_check(o <= last && o <= u[1], umsg("order of the unwind codes")); hs_check(op != 1 || in < 2, umsg("unwind code with undefined operand")); last = o; i += op == 1 ? 2 + in : op == 4 || op == 8 ? 2 : op == 5 || op == 9 ? 3 : 1; } }
}
void unw_main(void) {
  u32 t = hs_task(ncases); const struct casefile *cf = cases[t]; g_un = cf->name;
  compile_ok(cf, -1); struct img I; load_obj(&I, "a.obj"); static_unw(&I); hs_reach("tables checked");
  s32 i = hs_choice(cf->nfn); static char b[200]; sapp(sapp(sapp(b, cf->name), "/"), cf->fns[i].name); g_un = b;
  hs_watch(g_tlo, g_thi, watch_unw); run_diff(&I, cf, &cf->fns[i]); hs_watch(0, 0, 0); hs_check(g_prologs > 0, umsg("the end of the prologue is no instruction boundary"));
  if (!g_steps) hs_error("no instruction was observed"); hs_reach(g_depth > 1 ? "unwound through several frames" : "unwound"); 
}
