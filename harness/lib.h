// Harness library: strings, loading of object files and images, calls into the compiled code.
#pragma once
#include "hs.h"
#define NULL ((void*)0)
#ifdef __cplusplus
#error C only
#endif
static u64 slen(const char *s) { u64 n = 0; while (s[n]) n++; return n; }
static int seq(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static void cpy(void *d, const void *s, u64 n) { __builtin_memcpy(d, s, n); }
static void zero(void *d, u64 n) { __builtin_memset(d, 0, n); }
static char *sapp(char *d, const char *s) { while (*s) *d++ = *s++; *d = 0; return d; }
static char *sappu(char *d, u64 v) { char t[24]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); while (n) *d++ = t[--n]; *d = 0; return d; }
static void putu(u64 v) { char b[32]; sappu(b, v); hs_puts(b); }

// ---- COFF objects ----
struct coff_hdr { u16 machine, nsec; u32 time, symtab, nsym; u16 opt, flags; };
struct __attribute__((packed)) coff_sec { char name[8]; u32 vsize, vaddr, size, data, rel, line; u16 nrel, nline; u32 flags; };
struct __attribute__((packed)) coff_sym { union { char name[8]; struct { u32 z, off; } s; } n; u32 value; s16 sec; u16 type; u8 cls, naux; };
struct __attribute__((packed)) coff_rel { u32 va, sym; u16 type; };
#define MAXSEC 64
struct img { u8 *file; u64 size; u64 secbase[MAXSEC]; u64 secsize[MAXSEC]; struct coff_sec *sec; struct coff_sym *sym; u32 nsec, nsym; char *strtab; u32 strsize; u64 next; };
#define IMG_BASE 0x7f0010000000ull
static void sym_name(struct img *I, struct coff_sym *s, char *out) { // at most 511 characters
  if (s->n.s.z == 0) { char *p = I->strtab + s->n.s.off; int i = 0; while (p[i] && i < 511) { out[i] = p[i]; i++; } out[i] = 0; }
  else { int i = 0; while (i < 8 && s->n.name[i]) { out[i] = s->n.name[i]; i++; } out[i] = 0; }
}
static struct coff_sym *find_sym(struct img *I, const char *name) {
  char nm[512]; for (u32 i = 0; i < I->nsym; i++) { struct coff_sym *s = I->sym + i; sym_name(I, s, nm); if (s->sec > 0 && (s->cls == 2 || s->cls == 3) && seq(nm, name)) return s; i += s->naux; } return NULL;
}
static u64 sym_addr(struct img *I, const char *name) { struct coff_sym *s = find_sym(I, name); return s ? I->secbase[s->sec - 1] + s->value : 0; }
static u64 undefined_symbol(const char *name); // provided by the harness: address of an external symbol, 0 when unknown
static u64 g_img_next = IMG_BASE;
// A function too far away for a 32-bit displacement is reached over a jump, as a linker would do.
static u64 near_thunk(u64 a) {
  static u64 pg, n; if (!pg) { pg = g_img_next; g_img_next += 0x11000; hs_map_at(pg, 0x1000); } if (n >= 256) hs_error("too many thunks");
  u8 *p = (u8*)(pg + 16 * n++); p[0] = 0xff; p[1] = 0x25; p[2] = p[3] = p[4] = p[5] = 0; cpy(p + 6, &a, 8); return (u64)p;
}
// Loads an object file at a fixed address range; every section is followed by unmapped memory.
static void load_obj(struct img *I, const char *name) {
  u64 n = hs_file_size(name); if (n == ~0ull) hs_fail("no object file was written");
  u8 *f = hs_alloc(n); hs_file_get(name, f, n); zero(I, sizeof *I); I->file = f; I->size = n;
  struct coff_hdr *h = (void*)f; hs_check(n >= 20 && h->machine == 0x8664, "object file: bad header");
  hs_check(h->nsec <= MAXSEC && 20 + (u64)h->nsec * 40 <= n, "object file: section table out of range"); I->nsec = h->nsec; I->sec = (void*)(f + 20);
  hs_check(h->symtab + 18ull * h->nsym + 4 <= n, "object file: symbol table out of range"); I->sym = (void*)(f + h->symtab); I->nsym = h->nsym; I->strtab = (char*)(I->sym + I->nsym); cpy(&I->strsize, I->strtab, 4);
  for (u32 i = 0; i < I->nsec; i++) {
    struct coff_sec *s = I->sec + i; if (s->flags & 0x02000a00) { if ((s->flags & 0x02000000) || (s->flags & 0x200)) continue; } // discardable (debug), info
    u64 sz = s->size; if (!sz) sz = 1; u64 b = g_img_next; g_img_next += ((sz + 4095) & ~4095ull) + 0x10000; 
    hs_map_at(b, sz); I->secbase[i] = b; I->secsize[i] = s->size; 
    if (!(s->flags & 0x80) && s->size) { hs_check((u64)s->data + s->size <= n, "object file: section data out of range"); cpy((void*)b, f + s->data, s->size); }
  }
  char nm[512];
  for (u32 i = 0; i < I->nsec; i++) {
    struct coff_sec *s = I->sec + i; if (!I->secbase[i]) continue;
    struct coff_rel *r = (void*)(f + s->rel); u32 nr = s->nrel; if ((s->flags & 0x01000000) && nr == 0xffff) { nr = r->va - 1; r++; }
    hs_check((u64)s->rel + 10ull * nr <= n, "object file: relocations out of range");
    for (u32 k = 0; k < nr; k++, r++) {
      if (r->sym >= I->nsym) hs_fail("object file: relocation symbol out of range"); struct coff_sym *y = I->sym + r->sym; u64 a;
      if (y->sec > 0) { if (y->sec > (int)I->nsec) hs_fail("object file: symbol section out of range"); a = I->secbase[y->sec - 1] + y->value; }
      else if (y->sec == -1) a = y->cls == 2 ? IMG_BASE + y->value : y->value;
      else { sym_name(I, y, nm); 
        if (y->value && y->cls == 2) { a = g_img_next; g_img_next += ((y->value + 4095) & ~4095ull) + 0x10000; hs_map_at(a, y->value); y->sec = -1; y->value = a - IMG_BASE; a = IMG_BASE + y->value; }
        else { a = undefined_symbol(nm); if (a && a - IMG_BASE >> 31) a = near_thunk(a); } if (!a) { hs_note("undefined symbol", nm, slen(nm)); hs_error(nm); } }
      u64 at = I->secbase[i] + r->va; if (r->va + 4ull > s->size) hs_fail("object file: relocation outside of its section");
      switch (r->type) {
        case 1: *(u64*)at += a; break;
        case 2: *(u32*)at += (u32)a; break;
        case 3: *(u32*)at += (u32)(a - IMG_BASE); break;
        case 4: case 5: case 6: case 7: case 8: case 9: { s64 d = (s64)(a - (at + 4 + (r->type - 4))); if (d + 0x80000000ull >> 32) hs_error("rel32 out of range in the harness"); *(u32*)at += (u32)d; break; }
        case 10: *(u16*)at += y->sec; break;
        case 11: *(u32*)at += y->value; break;
        default: hs_fail("object file: unknown relocation type");
      }
    }
  }
}

// ---- calls ----
struct call { struct cpu c; u64 stack; u64 top; u64 saved[16]; u64 nstack; u64 ret; int fault; u8 xsave[10][16]; u64 outer[8]; };
#ifndef STACK_SIZE
#define STACK_SIZE 0x40000
#endif
static u64 g_stack; static struct call *g_call; // the call under way
static const u8 saved_regs[8] = {RBX, RSI, RDI, RBP, R12, R13, R14, R15};
// Calls compiled code at `target` with n argument slots; bit i of fmask: slot i is passed in an xmm register.
static int call_fn(struct call *k, u64 target, u64 *slots, u32 n, u32 fmask, u64 budget) {
  struct cpu *c = &k->c; zero(c, sizeof *c);
  if (!g_stack) { g_stack = 0x7c0000000000ull; hs_map_at(g_stack, STACK_SIZE); }
  for (int i = 0; i < 16; i++) { c->gpr[i] = 0xd15ea5e000000000ull + 0x111111111ull * i; for (int j = 0; j < 16; j++) c->xmm[i][j] = 0x91 + 7 * i + j; }
  c->rflags = 2;
  u64 ns = n < 4 ? 4 : n; u64 sp = g_stack + STACK_SIZE - 0x200 - 8 * ns; sp &= ~15ull; k->top = sp; u64 *st = (u64*)sp; k->nstack = ns;
  for (u32 i = 0; i < 4; i++) st[i] = 0xaaaa5555aaaa5555ull + i;
  for (u32 i = 4; i < n; i++) st[i] = slots[i];
  for (u32 i = 0; i < 8; i++) k->outer[i] = st[ns + i] = 0x0c0ffee000000000ull + i;
  static const u8 ord[4] = {RCX, RDX, R8, R9};
  for (u32 i = 0; i < n && i < 4; i++) { if (fmask >> i & 1) { *(u64*)c->xmm[i] = slots[i]; if (fmask >> 31) c->gpr[ord[i]] = slots[i]; } else c->gpr[ord[i]] = slots[i]; }
  c->gpr[RSP] = sp; for (int i = 0; i < 16; i++) k->saved[i] = c->gpr[i]; for (int i = 0; i < 10; i++) cpy(k->xsave[i], c->xmm[6 + i], 16);
  struct call *outer = g_call; g_call = k; k->fault = hs_call(c, target, budget); g_call = outer; k->ret = c->gpr[RAX]; return k->fault;
}
// ABI obligations of the callee after a normal return.
static void check_abi(struct call *k) {
  struct cpu *c = &k->c;
  hs_check(c->gpr[RSP] == k->saved[RSP], "stack pointer not restored on return");
  for (int i = 0; i < 8; i++) hs_check(c->gpr[saved_regs[i]] == k->saved[saved_regs[i]], "callee-saved register not preserved");
  for (int i = 0; i < 10; i++) hs_check_mem(k->xsave[i], c->xmm[6 + i], 16, "callee-saved xmm register not preserved");
  hs_check((c->rflags & 0x400) == 0, "direction flag set on return");
  u64 *st = (u64*)k->top; for (u32 i = 0; i < 8; i++) hs_check(st[k->nstack + i] == k->outer[i], "caller's stack frame was overwritten");
}
