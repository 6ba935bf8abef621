// Structure of object files: every table of the format is checked against the others, against the symbols the program defines, and by linking and calling.
#pragma once
#include "diff.h"
struct exp { const char *name; char kind; u32 size, align; };
struct cprog { const char *name, *src; u32 len; const char *cmd; const struct exp *e; u32 ne; };
static const struct cprog *g_p; static const char *g_what = "";
static const char *cm(const char *m) { static char b[900]; char *d = sapp(b, g_p->name); d = sapp(d, ": "); if (*g_what) { d = sapp(d, g_what); d = sapp(d, ": "); } sapp(d, m); return b; }
static void ck_(int c, const char *m) { if (hs_is_sym(c)) hs_check(c, cm(m)); else if (!c) hs_fail(cm(m)); }
#define ck(c, m) ck_(c, m)
static u64 undef_page(const char *n, u64 val) { // one page for each undefined name
  static char names[400][300]; static u64 at[400]; static u32 k; for (u32 i = 0; i < k; i++) if (seq(names[i], n)) return at[i];
  if (k >= 400) hs_error("too many undefined symbols"); u64 a = g_img_next; g_img_next += 0x11000; hs_map_at(a, 0x1000); *(u64*)a = val; sapp(names[k], n); at[k++] = a; return a;
}
static u64 undefined_symbol(const char *n) { if (n[0] == '_' && n[1] == '_' && n[2] == 'i' && n[3] == 'm' && n[4] == 'p' && n[5] == '_') return undef_page(n, undef_page(n + 6, 0)); return undef_page(n, 0); }
static u64 g_beg[200], g_end[200]; static u32 g_nreg;
static void region(u64 at, u64 n, u64 size) { if (!n) return; ck(at + n <= size && at + n >= at, "out of the file"); for (u32 i = 0; i < g_nreg; i++) ck(at >= g_end[i] || at + n <= g_beg[i], "overlaps another part of the file"); if (g_nreg >= 200) hs_error("regions"); g_beg[g_nreg] = at; g_end[g_nreg++] = at + n; }
static int starts(const char *s, const char *p) { while (*p) if (*s++ != *p++) return 0; return 1; }
static const char *const SECN[] = {".drectve", ".text", ".pdata", ".xdata", ".bss", ".rdata", ".data", ".tls$", ".debug$T", ".debug$S"};
static const u32 SECF[] = {0xa00, 0x60000020, 0x40000040, 0x40000040, 0xc0000080, 0x40000040, 0xc0000040, 0xc0000040, 0x42000040, 0x42000040};
static void structure(struct img *I) {
  u64 n = I->size; struct coff_hdr *h = (void*)I->file; char nm[600]; static char seen[300][300]; u32 nseen = 0; g_nreg = 0; g_what = "header";
  region(0, 20 + 40ull * h->nsec, n); ck(h->opt == 0, "optional header in an object file"); ck((h->flags & 0x2022) == 0, "characteristics of an image");
  g_what = "symbol and string table"; ck(I->strsize >= 4, "size of the string table"); region(h->symtab, 18ull * h->nsym + I->strsize, n); ck(h->symtab + 18ull * h->nsym + I->strsize <= n, "the string table ends after the file"); ck(I->strsize == 4 || I->strtab[I->strsize - 1] == 0, "the last string is not terminated");
  for (u32 i = 0; i < I->nsec; i++) { struct coff_sec *s = I->sec + i; char sn[9]; cpy(sn, s->name, 8); sn[8] = 0; static char w[12]; sapp(w, sn); g_what = w; u32 k = 0;
    while (k < sizeof SECN / sizeof *SECN && !seq(SECN[k], sn)) k++; ck(k < sizeof SECN / sizeof *SECN, "unknown section"); u32 f = s->flags; ck((f & 0xfe000ae0) == SECF[k], "section flags"); 
    ck((f >> 20 & 15) <= 14, "section alignment"); ck(s->vsize == 0 && s->vaddr == 0 && s->nline == 0 && s->line == 0, "fields that are zero in object files");
    if (f & 0x80) ck(s->data == 0 && s->nrel == 0, "uninitialized section with data"); else { ck(s->size == 0 || s->data != 0, "section data missing"); region(s->data, s->size, n); }
    u32 nr = s->nrel, ov = 0; struct coff_rel *r = (void*)(I->file + s->rel); if (f & 0x01000000) { ck(nr == 0xffff, "relocation overflow"); nr = r->va; ov = 1; } region(nr ? s->rel : 0, 10ull * nr, n);
    if (k == 0) continue; u8 *cov = hs_alloc(s->size + 16); zero(cov, s->size + 16);
    for (u32 j = ov; j < nr; j++) { r = (void*)(I->file + s->rel + 10ull * j); u32 t = r->type, wd = t == 1 ? 8 : t == 10 ? 2 : 4; ck(r->va + (u64)wd <= s->size, "relocation outside of the section"); ck(r->sym < I->nsym, "symbol index of a relocation");
      for (u32 q = 0; q < wd; q++) { ck(!cov[r->va + q], "relocations overlap"); cov[r->va + q] = 1; }
      int ok = k == 1 ? (t >= 4 && t <= 9) || t == 11 : k == 2 || k == 3 ? t == 3 : k == 9 ? t == 10 || t == 11 : k >= 5 && k <= 7 ? t == 1 : 0; ck(ok, "relocation type");
      u32 q = 0; while (q < r->sym) q += 1 + I->sym[q].naux; ck(q == r->sym, "relocation against an auxiliary record");
      if (t == 11 && k == 1) ck(I->sym[r->sym].sec >= 0 && (I->sym[r->sym].sec == 0 || seq(I->sec[I->sym[r->sym].sec - 1].name, ".tls$")), "section relative relocation against a variable that is not thread-local"); } 
    u32 na = 0; for (u32 q = 0; q < I->nsym; q += 1 + I->sym[q].naux) { struct coff_sym *y = I->sym + q; if (y->sec == (s16)(i + 1) && y->cls == 3 && y->naux && y->value == 0) { sym_name(I, y, nm); u8 *a = (u8*)(y + 1); u32 len; u16 ar; cpy(&len, a, 4); cpy(&ar, a + 4, 2); ck(seq(nm, sn), "name of the section symbol"); ck(len == s->size, "length in the section symbol"); ck(ar == s->nrel, "number of relocations in the section symbol"); if (f & 0x1000) ck(a[14] == 2, "COMDAT selection"); na++; } }
    ck(na == 1, "section symbol"); }
  for (u32 i = 0; i < I->nsym;) { struct coff_sym *s = I->sym + i; g_what = "symbol"; ck(i + 1ull + s->naux <= I->nsym, "auxiliary records"); 
    if (s->n.s.z == 0) { ck(s->n.s.off >= 4 && s->n.s.off < I->strsize, "name outside of the string table"); ck(s->n.s.off == 4 || I->strtab[s->n.s.off - 1] == 0, "name inside of another string"); }
    sym_name(I, s, nm); g_what = nm; ck(nm[0] != 0, "a symbol has no name"); ck(s->cls == 2 || s->cls == 3, "storage class"); ck(s->type == 0 || s->type == 0x20, "symbol type"); ck(s->sec >= 0 && s->sec <= (s32)I->nsec, "section number"); if (s->cls == 3) ck(s->sec > 0, "static symbol without section");
    if (s->sec > 0) { struct coff_sec *c = I->sec + s->sec - 1; ck(s->value <= c->size, "symbol outside of its section"); if (s->type) ck((c->flags & 0x20) != 0, "a function outside of the code"); }
    if (s->cls == 2) { for (u32 q = 0; q < nseen; q++) if (seq(seen[q], nm)) hs_fail(cm("an external symbol occurs twice")); if (nseen >= 300) hs_error("too many symbols"); sapp(seen[nseen++], nm); 
      u32 k = 0; while (k < g_p->ne && !(seq(g_p->e[k].name, nm) || (g_p->e[k].kind == 'I' && starts(nm, "__imp_") && seq(nm + 6, g_p->e[k].name)))) k++;
      static const char *const extra[] = {"_fltused", "_tls_index", "__chkstk", "memset", "memcpy"}; u32 q = 0; while (q < 5 && !seq(nm, extra[q])) q++; if (k == g_p->ne && q == 5) hs_fail(cm("an external symbol the program does not have")); if (k < g_p->ne && g_p->e[k].kind >= 'a' && g_p->e[k].kind <= 'z') hs_fail(cm("a name with internal linkage is an external symbol")); if (k < g_p->ne && g_p->e[k].kind == 'N') hs_fail(cm("an unused external declaration is a symbol")); }
    i += 1 + s->naux; }
}
static struct coff_sym *named(struct img *I, const char *name, u32 cls) { char nm[600]; for (u32 i = 0; i < I->nsym; i += 1 + I->sym[i].naux) { struct coff_sym *s = I->sym + i; if (s->cls != cls || s->naux) continue; sym_name(I, s, nm); if (seq(nm, name)) return s; } return NULL; }
static int drectve(struct img *I, const char *a, const char *b, const char *c) { char w[400]; sapp(sapp(sapp(w, a), b), c); u64 m = slen(w); for (u32 i = 0; i < I->nsec; i++) if (I->sec[i].name[1] == 'd' && I->sec[i].name[2] == 'r') { const char *t = (const char*)I->file + I->sec[i].data; for (u64 k = 0; k + m <= I->sec[i].size; k++) { u64 q = 0; while (q < m && t[k + q] == w[q]) q++; if (q == m && (k + m == I->sec[i].size || t[k + m] == ' ') && (k == 0 || t[k - 1] == ' ')) return 1; } } return 0; }
static void expected(struct img *I) {
  static struct { s32 sec; u64 lo, hi; } ob[300]; u32 no = 0;
  for (u32 k = 0; k < g_p->ne; k++) { const struct exp *e = g_p->e + k; g_what = e->name; char kd = e->kind; struct coff_sym *s;
    switch (kd) { case 'N': case 'n': continue;
      case 'U': case 'u': s = named(I, e->name, 2); ck(s != 0, "a used undefined symbol is missing"); ck(s->sec == 0 && s->value == 0, "an undefined symbol is defined"); ck(s->type == (e->size ? 0x20 : 0), "type of an undefined symbol"); continue;
      case 'I': { char w[400]; sapp(sapp(w, "__imp_"), e->name); s = named(I, w, 2); ck(s != 0, "an imported symbol is missing"); ck(s->sec == 0 && s->value == 0, "an imported symbol is defined"); continue; }
      default: ; }
    s = named(I, e->name, kd >= 'a' ? 3 : 2); if (!s) { if (kd >= 'a') { if (named(I, e->name, 2)) hs_fail(cm("a name with internal linkage is an external symbol")); hs_fail(cm("a used static symbol is missing")); } hs_fail(cm("an external definition is missing")); }
    if (kd == 'G') { ck(drectve(I, "/EXPORT:", e->name, ""), "the export is missing in .drectve"); kd = 'F'; } if (kd == 'X') { ck(drectve(I, "/EXPORT:", e->name, ",DATA"), "the export is missing in .drectve"); kd = e->align >> 16 ? 'D' : 'B'; }
    u32 al = e->align & 0xffff; 
    if ((kd == 'B') && s->sec == 0) { ck(s->value == e->size, "size of a common symbol"); u32 got = 1; while (got < 32 && got < e->size) got *= 2; ck(got >= al, "the linker does not give a common symbol its alignment"); ck(s->type == 0, "type of an object"); continue; }
    ck(s->sec > 0, "an external definition has no section"); struct coff_sec *c = I->sec + s->sec - 1; char sn[9]; cpy(sn, c->name, 8); sn[8] = 0; u32 sal = c->flags >> 20 & 15; 
    if (kd == 'F' || kd == 'f') { ck(seq(sn, ".text"), "a function is not in the code section"); ck(s->type == 0x20, "type of a function symbol"); ck(s->value < c->size, "a function lies outside of the code"); continue; }
    ck(s->type == 0, "type of an object"); ck(s->value + (u64)e->size <= c->size, "an object ends after its section"); ck(s->value % al == 0, "offset of an object is not aligned"); ck(sal >= 1 && 1u << (sal - 1) >= al, "section alignment is smaller than that of an object"); 
    if (kd == 'T' || kd == 't') ck(seq(sn, ".tls$"), "a thread-local object is not in .tls$"); else if (kd == 'S') ck(seq(sn, ".data") && (c->flags & 0x1000) && c->size == e->size, "a selectany object has no COMDAT section"); else ck((seq(sn, ".data") || seq(sn, ".rdata") || seq(sn, ".bss")) && !(c->flags & 0x1000), "section of an object"); 
    for (u32 q = 0; q < no; q++) if (ob[q].sec == s->sec) ck(s->value >= ob[q].hi || s->value + (u64)e->size <= ob[q].lo, "objects overlap"); ob[no].sec = s->sec; ob[no].lo = s->value; ob[no].hi = s->value + (u64)e->size; if (++no >= 300) hs_error("too many objects"); }
}
static u64 addr_of(struct img *I, const struct exp *e) {
  char kd = e->kind; if (kd == 'I') return undef_page(e->name, 0); if (kd == 'U') return undef_page(e->name, 0); struct coff_sym *s = named(I, e->name, kd >= 'a' && kd != 'u' ? 3 : 2); if (!s) return 0; if (s->sec > 0) return I->secbase[s->sec - 1] + s->value; return IMG_BASE + s->value;
}
extern const struct cprog cprogs[]; extern const u32 ncprogs;
// Symbolic characters of the source: '\5' a letter of a name, '\6' a digit of a size or value.
static u8 g_letter, g_digit;
static void read_obj(struct img *I, const char *name) {
  u64 n = hs_file_size(name); if (n == ~0ull) hs_fail(cm("no object file was written")); u8 *f = hs_alloc(n); hs_file_get(name, f, n); zero(I, sizeof *I); I->file = f; I->size = n; struct coff_hdr *h = (void*)f; g_what = "header";
  ck(n >= 20 && h->machine == 0x8664, "bad header"); ck(h->nsec <= MAXSEC && 20 + (u64)h->nsec * 40 <= n, "section table out of range"); I->nsec = h->nsec; I->sec = (void*)(f + 20); ck(h->symtab + 18ull * h->nsym + 4 <= n, "symbol table out of range"); I->sym = (void*)(f + h->symtab); I->nsym = h->nsym; I->strtab = (char*)(I->sym + I->nsym); cpy(&I->strsize, I->strtab, 4);
}
void coff_main(void) {
  u32 t = hs_task(ncprogs); g_p = cprogs + t; u8 *s = hs_alloc(g_p->len + 1); cpy(s, g_p->src, g_p->len); g_what = ""; struct exp ne[120]; static char ns[120][300]; struct cprog pp = *g_p; int sl = 0, sd = 0, multi = 0;
  for (u32 i = 0; i < g_p->len; i++) { if (s[i] == 5) sl = 1; if (s[i] == 6) sd |= 1; if (s[i] == 7) sd |= 2; if (s[i] == 8) sl |= 2; if (s[i] < 4) multi = 1; } 
  if (sl & 1) { g_letter = (u8)hs_sym("letter", 8); hs_assume((u8)(g_letter - 'b') < 24); } if (sd & 1) g_digit = '1' + hs_choice(9); if (sd & 2) { g_digit = (u8)hs_sym("digit", 8); hs_assume((u8)(g_digit - '1') < 9); }
  for (u32 i = 0; i < g_p->len; i++) if (s[i] == 5) s[i] = g_letter; else if (s[i] == 6 || s[i] == 7) s[i] = g_digit;
  if (g_p->ne > 120) hs_error("too many expectations"); for (u32 k = 0; k < g_p->ne; k++) { ne[k] = g_p->e[k]; char *d = sapp(ns[k], ne[k].name); for (d = ns[k]; *d; d++) if (*d == 5) *d = g_letter; ne[k].name = ns[k]; if (ne[k].size & 1u << 31) ne[k].size = (ne[k].size & 0x7fffffff) * (g_digit - '0'); } pp.e = ne; g_p = &pp;
  if (multi) put_files(s, g_p->len); else hs_file("a.c", s, g_p->len);
  int r = hs_compile(g_p->cmd, 1ull << 34); if (r) { if (r < 0) hs_fail(cm("the compiler crashed")); static char o[300]; u64 k = hs_stdout(o, 250); o[k < 250 ? k : 250] = 0; hs_note("output", o, slen(o)); hs_fail(cm("a valid program was rejected")); }
  struct img J; read_obj(&J, "a.obj"); structure(&J); expected(&J); hs_reach("structure");
  struct img I; g_what = ""; load_obj(&I, "a.obj"); char nm[400]; u32 got = 0;
  for (u32 k = 0; k < g_p->ne; k++) { const struct exp *e = g_p->e + k; sapp(sapp(nm, "get_"), e->name); g_what = e->name; struct coff_sym *g = named(&I, nm, 2); if (!g) continue; struct call c; int f = call_fn(&c, I.secbase[g->sec - 1] + g->value, 0, 0, 0, 100000); ck(!f, "the function that returns the address faults"); ck(c.ret == addr_of(&I, e), "the code uses the address of something else"); got++;
    sapp(sapp(nm, "ptr_"), e->name); g = named(&I, nm, 2); if (g) { ck(*(u64*)(I.secbase[g->sec - 1] + g->value) == addr_of(&I, e) + 3, "the pointer in the initialized data points to something else"); } 
    sapp(sapp(nm, "sel_"), e->name); g = named(&I, nm, 2); if (g) { ck(*(u64*)(I.secbase[g->sec - 1] + g->value) == addr_of(&I, e), "the pointer in the selectany data points to something else"); } }
  if (got) hs_reach("linked");
}
const struct casefile *const cases[1] = {0}; const u32 ncases = 0;
