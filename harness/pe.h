// Executables and DLLs: the image is checked against the documented format and loaded at several bases, its imports are bound to known functions, and entry point and exports are run and compared with the reference.
#pragma once
#define TARGET_OF(I, n) pe_target(n)
static unsigned long long pe_target(const char *);
#include "diff.h"
struct imp { const char *dll, *name; u32 id; int ord, hint, used; };
struct lib { const char *name; const void *p; u32 n; };
struct peprog { const char *name, *src; u32 len; const char *cmd, *out; const struct fn *fns; u32 nfn; const struct imp *imps; u32 nimp; const struct lib *libs; u32 nlib; u64 base; u32 flags, subsystem; }; // flags: 1 DLL, 2 fixed base, 4 debug, 8 symbolic base, 16 no entry point
extern const struct peprog peprogs[]; extern const u32 npeprogs;
static const struct peprog *g_p; static const char *g_what = "";
static u64 undefined_symbol(const char *n) { return 0; }
static const char *cm(const char *m) { static char b[900]; char *d = sapp(b, g_p->name); d = sapp(d, ": "); if (*g_what) { d = sapp(d, g_what); d = sapp(d, ": "); } sapp(d, m); return b; }
static void ck(int c, const char *m) { if (hs_is_sym(c)) hs_check(c, cm(m)); else if (!c) hs_fail(cm(m)); }
struct __attribute__((packed)) opt { u16 magic; u8 maj, min; u32 code, init, uninit, entry, basecode; u64 base; u32 salign, falign; u16 osv[2], imv[2], ssv[2]; u32 win32; u32 imgsize, hdrsize, sum; u16 subsys, dll; u64 stackr, stackc, heapr, heapc; u32 loader, ndir; struct { u32 rva, size; } dir[16]; };
#define GS 0x7b5000000000ull
static u8 *g_f, *g_m; static u64 g_n; static struct coff_hdr *g_h; static struct opt *g_o; static struct coff_sec *g_s; static u32 g_ns; static u64 g_load, g_delta; static u32 g_entry;
static u32 rd32(u64 rva) { u32 v; cpy(&v, g_m + rva, 4); return v; } static u64 rd64(u64 rva) { u64 v; cpy(&v, g_m + rva, 8); return v; } static u16 rd16(u64 rva) { u16 v; cpy(&v, g_m + rva, 2); return v; }
static struct coff_sec *sec_of(u64 rva, u64 n) { for (u32 i = 0; i < g_ns; i++) { struct coff_sec *s = g_s + i; u64 e = (u64)s->vaddr + (s->vsize ? s->vsize : s->size); if (rva >= s->vaddr && rva + n <= e) return s; } return 0; }
static void inside(u64 rva, u64 n, const char *m) { ck(sec_of(rva, n) != 0, m); }
static void str_in(u64 rva) { struct coff_sec *s = sec_of(rva, 1); ck(s != 0, "a name lies outside of the sections"); u64 e = (u64)s->vaddr + s->vsize; while (rva < e && g_m[rva]) rva++; ck(rva < e, "a name is not terminated"); }
static void headers(void) {
  g_what = "DOS header"; ck(g_n >= 0x40 && g_f[0] == 'M' && g_f[1] == 'Z', "signature"); u32 pe; cpy(&pe, g_f + 0x3c, 4); ck(pe >= 0x40 && pe % 8 == 0 && pe + 24ull + sizeof(struct opt) <= g_n, "offset of the PE header");
  g_what = "PE header"; ck(g_f[pe] == 'P' && g_f[pe + 1] == 'E' && !g_f[pe + 2] && !g_f[pe + 3], "signature"); g_h = (void*)(g_f + pe + 4); g_o = (void*)(g_h + 1); ck(g_h->machine == 0x8664, "machine"); ck(g_h->opt == sizeof(struct opt), "size of the optional header"); ck(g_h->symtab == 0 && g_h->nsym == 0, "symbol table in an image");
  u32 c = g_h->flags; ck((c & 0x22) == 0x22, "characteristics lack EXECUTABLE_IMAGE or LARGE_ADDRESS_AWARE"); ck(!(c & 0x2000) == !(g_p->flags & 1), "DLL characteristic"); ck(!(c & 1) == !(g_p->flags & 2), "RELOCS_STRIPPED characteristic"); ck((c & ~0x2023u) == 0, "unexpected characteristics");
  g_what = "optional header"; struct opt *o = g_o; ck(o->magic == 0x20b, "magic"); ck(o->salign == 0x1000 && o->falign == 0x200, "alignments"); ck(o->ndir == 16, "number of directories"); ck(o->win32 == 0 && o->loader == 0, "reserved fields"); ck(o->ssv[0] >= 4, "subsystem version"); ck(o->stackr >= o->stackc && o->stackc && o->heapr >= o->heapc, "stack and heap sizes");
  ck(o->subsys == g_p->subsystem, "subsystem"); ck(!(o->dll & 0x40) == !!(g_p->flags & 2), "DYNAMIC_BASE"); ck((o->dll & 0x120) == 0x120, "HIGH_ENTROPY_VA and NX_COMPAT"); ck((o->dll & ~0x8160u) == 0, "unexpected DLL characteristics");
  g_ns = g_h->nsec; g_s = (void*)(o + 1); u64 he = (u64)((u8*)(g_s + g_ns) - g_f); ck(g_ns <= 16, "number of sections"); ck(he <= o->hdrsize && o->hdrsize <= g_n && o->hdrsize % 0x200 == 0, "SizeOfHeaders");
  u64 va = 0x1000, fo = o->hdrsize, ncode = 0; 
  for (u32 i = 0; i < g_ns; i++) { struct coff_sec *s = g_s + i; static char w[12]; cpy(w, s->name, 8); w[8] = 0; g_what = w; 
    static const char *const nm[] = {".text", ".bss", ".rdata", ".data", ".reloc", ".pdata"}; static const u32 fl[] = {0x60000020, 0xc0000080, 0x40000040, 0xc0000040, 0x42000040, 0x40000040}; u32 k = 0; while (k < 6 && !seq(nm[k], w)) k++; ck(k < 6, "unknown section"); ck(s->flags == fl[k], "section flags");
    ck(s->vaddr == va, "sections are not contiguous in memory"); ck(s->vsize > 0, "empty section"); va += ((u64)s->vsize + 0xfff) & ~0xfffull; ck(s->rel == 0 && s->line == 0 && s->nrel == 0 && s->nline == 0, "fields that are zero in images"); 
    if (k == 1) ck(s->data == 0 && s->size == 0, "data of the uninitialized section"); else { ck(s->data % 0x200 == 0 && s->size % 0x200 == 0, "file alignment of a section"); ck(s->data >= fo && s->data + (u64)s->size <= g_n, "section data out of the file or overlapping"); ck(s->size >= s->vsize, "section data missing"); fo = s->data + (u64)s->size; } if (k == 0) ncode++; }
  g_what = "optional header"; ck(o->imgsize == va, "SizeOfImage"); ck(ncode <= 1, "two code sections"); 
  for (u32 i = 0; i < 16; i++) { static char w[20]; *sappu(sapp(w, "directory "), i) = 0; g_what = w; u64 r = o->dir[i].rva, n = o->dir[i].size; if (i == 0 || i == 1 || i == 3 || i == 5 || i == 6 || i == 9) { ck(!r == !n || (i == 3 && !n), "address without size"); // an empty exception table is harmless
     if (n) inside(r, n, "outside of the sections"); } else ck(!r && !n, "unexpected directory"); }
  g_what = "entry point"; if (g_p->flags & 16) ck(o->entry == 0, "an entry point was not asked for"); else { struct coff_sec *s = sec_of(o->entry, 1); ck(s && (s->flags & 0x20), "outside of the code"); } g_entry = o->entry;
}
static void load(void) {
  g_what = "image"; struct opt *o = g_o; u64 n = o->imgsize; hs_map_at(g_load, n); g_m = (u8*)g_load; zero(g_m, n); cpy(g_m, g_f, o->hdrsize);
  for (u32 i = 0; i < g_ns; i++) { struct coff_sec *s = g_s + i; u64 k = s->size < s->vsize ? s->size : s->vsize; cpy(g_m + s->vaddr, g_f + s->data, k); }
}
static void relocs(void) {
  g_what = "base relocations"; u64 r = g_o->dir[5].rva, e = r + g_o->dir[5].size; u64 base = g_o->base; ck(!(g_p->flags & 2) || !g_o->dir[5].rva, "relocations in an image that cannot be relocated"); if (!g_o->dir[5].rva) return; ck(r % 4 == 0, "alignment of the directory"); static u64 seen[8192], pages[512]; u32 ns = 0, np = 0;
  while (r < e) { ck(r + 8 <= e, "a block ends after the directory"); u64 page = rd32(r), n = rd32(r + 4); ck(n >= 8 && n % 4 == 0 && r + n <= e, "size of a block"); ck(page % 0x1000 == 0, "page of a block"); for (u32 q = 0; q < np; q++) ck(pages[q] != page, "two blocks for a page"); if (np >= 512) hs_error("pages"); pages[np++] = page;
    for (u64 k = 8; k < n; k += 2) { u16 v = rd16(r + k); u32 t = v >> 12, of = v & 0xfff; if (t == 0) { ck(k + 2 == n, "padding before the end of a block"); continue; } ck(t == 10, "type"); u64 at = page + of; struct coff_sec *s = sec_of(at, 8); ck(s != 0, "outside of the sections"); ck(!(s->flags & 0x20), "in the code"); for (u32 q = 0; q < ns; q++) ck(at >= seen[q] + 8 || at + 8 <= seen[q], "an address is relocated twice"); if (ns >= 8192) hs_error("relocations"); seen[ns++] = at;
      u64 c = rd64(at) - base; u64 off = hs_conc(c); ck(c == off, "a relocated address does not follow the image base"); ck(off >= 0x1000 && off <= g_o->imgsize, "a relocated cell does not hold an address of the image"); c = g_load + off; cpy(g_m + at, &c, 8); }
    r += n; }
}
static u64 import_fn(u32 id) { static u64 pg, n; if (!pg) { pg = 0x7a0000000000ull; hs_map_at(pg, 0x1000); } u8 *p = (u8*)pg + 16 * n++; if (n > 250) hs_error("imports"); p[0] = 0x48; p[1] = 0x8d; p[2] = 0x04; p[3] = 0x49; p[4] = 0x48; p[5] = 0x05; cpy(p + 6, &id, 4); p[10] = 0xc3; return (u64)p; }
static int ieq(const char *a, const char *b) { for (;; a++, b++) { char x = *a, y = *b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return 0; if (!x) return 1; } }
static void imports(void) {
  g_what = "imports"; u64 r = g_o->dir[1].rva, n = g_o->dir[1].size; static u8 got[64]; zero(got, 64); u32 want = 0; for (u32 i = 0; i < g_p->nimp; i++) want += g_p->imps[i].used == 1; if (!r) { ck(!want, "the import directory is missing"); return; }
  ck(r % 4 == 0 && n % 20 == 0 && n >= 20, "directory"); u64 k = 0; static const char *dlls[16]; u32 nd = 0; static u64 seen[300]; u32 ns = 0;
  for (;; k += 20) { ck(k + 20 <= n, "the directory is not terminated"); u32 ilt = rd32(r + k), ts = rd32(r + k + 4), fw = rd32(r + k + 8), nm = rd32(r + k + 12), iat = rd32(r + k + 16); if (!ilt && !nm && !iat) { ck(!ts && !fw && k + 20 == n, "terminating descriptor"); break; }
    str_in(nm); const char *dll = (char*)g_m + nm; ck(ts == 0, "time stamp of an unbound import"); for (u32 q = 0; q < nd; q++) ck(!ieq(dlls[q], dll), "a DLL is listed twice"); if (nd >= 16) hs_error("dlls"); dlls[nd++] = dll; ck(ilt % 8 == 0 && iat % 8 == 0, "alignment of the import tables"); 
    for (u32 j = 0;; j++) { inside(ilt + 8ull * j, 8, "import lookup table"); inside(iat + 8ull * j, 8, "import address table"); u64 v = rd64(ilt + 8ull * j), w = rd64(iat + 8ull * j); ck(v == w, "lookup table and address table differ"); for (u32 q = 0; q < ns; q++) ck(seen[q] != iat + 8ull * j, "address tables overlap"); if (ns >= 300) hs_error("imports"); seen[ns++] = iat + 8ull * j; if (!v) { ck(j > 0, "a DLL without imports"); break; } u32 q = 0;
      if (v >> 63) { ck((v & ~0x800000000000ffffull) == 0, "import by ordinal"); while (q < g_p->nimp && !(ieq(g_p->imps[q].dll, dll) && g_p->imps[q].ord == (int)(u16)v)) q++; }
      else { ck(v >> 31 == 0 && v % 2 == 0, "address of a name"); inside(v, 3, "a name lies outside of the sections"); str_in(v + 2); while (q < g_p->nimp && !(ieq(g_p->imps[q].dll, dll) && g_p->imps[q].ord < 0 && seq(g_p->imps[q].name, (char*)g_m + v + 2))) q++; if (q < g_p->nimp) ck(g_p->imps[q].hint == rd16(v), "hint"); }
      ck(q < g_p->nimp && g_p->imps[q].used, "an import the program does not use"); got[q] = 1; u64 a = import_fn(g_p->imps[q].id); cpy(g_m + iat + 8ull * j, &a, 8); } }
  for (u32 i = 0; i < g_p->nimp; i++) if (g_p->imps[i].used == 1) { g_what = g_p->imps[i].name; ck(got[i], "an import is missing"); }
}
static u32 export_rva(const char *name) { u64 r = g_o->dir[0].rva; if (!r) return 0; u32 n = rd32(r + 24), f = rd32(r + 28), nm = rd32(r + 32), od = rd32(r + 36); u32 lo = 0, hi = n; while (lo < hi) { u32 m = (lo + hi) / 2; const char *a = (char*)g_m + rd32(nm + 4ull * m), *b = name; while (*a && *a == *b) { a++; b++; } if ((u8)*a == (u8)*b) return rd32(f + 4ull * rd16(od + 2ull * m)); if ((u8)*a < (u8)*b) lo = m + 1; else hi = m; } return 0; } // as the loader does: binary search
static int is_entry(const struct fn *f) { return f->name[0] == '@'; }
static void exports(void) {
  g_what = "exports"; u32 want = 0; for (u32 i = 0; i < g_p->nfn; i++) want += !is_entry(g_p->fns + i); u64 r = g_o->dir[0].rva; if (!r) { ck(!want, "the export directory is missing"); return; } ck(g_o->dir[0].size >= 40 && r % 4 == 0, "directory"); ck(rd32(r) == 0, "flags"); str_in(rd32(r + 12)); u32 base = rd32(r + 16), nf = rd32(r + 20), nn = rd32(r + 24), f = rd32(r + 28), nm = rd32(r + 32), od = rd32(r + 36); ck(base == 1, "ordinal base"); ck(nf == want && nn == want, "number of exports"); inside(f, 4ull * nf, "address table"); inside(nm, 4ull * nn, "name table"); inside(od, 2ull * nn, "ordinal table"); ck(f % 4 == 0 && nm % 4 == 0 && od % 2 == 0, "alignment of the tables");
  static u8 us[300]; zero(us, 300); if (nf > 300) hs_error("exports"); for (u32 i = 0; i < nn; i++) { u32 a = rd32(nm + 4ull * i); str_in(a); if (i) { const u8 *x = g_m + rd32(nm + 4ull * i - 4), *y = g_m + a; while (*x && *x == *y) { x++; y++; } ck(*x < *y, "names are not in ascending order"); } u16 o = rd16(od + 2ull * i); ck(o < nf, "ordinal out of range"); ck(!us[o], "two names for an ordinal"); us[o] = 1; u32 t = rd32(f + 4ull * o); struct coff_sec *s = sec_of(t, 1); ck(s && (s->flags & 0x20), "an exported function lies outside of the code"); }
  for (u32 i = 0; i < g_p->nfn; i++) if (!is_entry(g_p->fns + i)) { g_what = g_p->fns[i].name; ck(export_rva(g_p->fns[i].name) != 0, "an export is missing"); }
}
static int in_pdata(u32 rva) { u64 r = g_o->dir[3].rva, n = g_o->dir[3].size; for (u64 k = 0; k < n; k += 12) if (rd32(r + k) == rva) return 1; return 0; }
static void exceptions(void) {
  g_what = "exception directory"; u64 r = g_o->dir[3].rva, n = g_o->dir[3].size; ck(n % 12 == 0 && r % 4 == 0, "size or alignment"); u32 last = 0; for (u64 k = 0; k < n; k += 12) { u32 b = rd32(r + k), e = rd32(r + k + 4), u = rd32(r + k + 8); ck(b < e, "empty function"); ck(b >= last, "functions overlap or are not in ascending order"); last = e; struct coff_sec *s = sec_of(b, e - b); ck(s && (s->flags & 0x20), "a function lies outside of the code"); ck(u % 4 == 0, "alignment of unwind information"); inside(u, 4, "unwind information"); ck((g_m[u] & 7) == 1 && g_m[u + 1] <= e - b, "version or prologue size of unwind information"); inside(u, 4 + 2ull * ((g_m[u + 2] + 1) & ~1u), "unwind codes"); }
  if (!(g_p->flags & 16)) ck(in_pdata(g_entry), "the entry point has no unwind information"); for (u32 i = 0; i < g_p->nfn; i++) if (!is_entry(g_p->fns + i)) { g_what = g_p->fns[i].name; ck(in_pdata(export_rva(g_p->fns[i].name)), "an exported function has no unwind information"); }
}
static void debugdir(void) {
  g_what = "debug directory"; u64 r = g_o->dir[6].rva; ck(!r == !(g_p->flags & 4), "presence"); if (!r) return; ck(g_o->dir[6].size == 28 && rd32(r) == 0 && rd32(r + 12) == 2, "entry"); u32 n = rd32(r + 16), a = rd32(r + 20), f = rd32(r + 24); inside(a, n, "data"); struct coff_sec *s = sec_of(a, n); ck(f == a - s->vaddr + s->data, "address and file offset disagree"); ck(n > 25 && g_m[a] == 'R' && g_m[a + 1] == 'S' && g_m[a + 2] == 'D' && g_m[a + 3] == 'S' && g_m[a + n - 1] == 0, "signature or path");
}
static void tls(void) {
  g_what = "TLS directory"; u64 r = g_o->dir[9].rva, b = g_load; hs_map_at(GS, 0x1000); u64 arr = 0x7b6000000000ull; hs_map_at(arr, 0x1000); *(u64*)(GS + 0x58) = arr; u32 slot = 5; if (!r) return; ck(g_o->dir[9].size == 40 && r % 8 == 0, "size or alignment"); u64 s = rd64(r) - b, e = rd64(r + 8) - b, ix = rd64(r + 16) - b, cb = rd64(r + 24) - b; u32 z = rd32(r + 32), c = rd32(r + 36); ck(s <= e, "template"); inside(s, e - s, "template"); ck(c == 0 || (c & ~0xf00000u) == 0, "characteristics"); struct coff_sec *w = sec_of(ix, 4); ck(w && (w->flags >> 31), "the index is not in writable memory"); inside(cb, 8, "callbacks"); ck(rd64(cb) == 0, "unexpected callback");
  u64 al = c ? 1ull << ((c >> 20) - 1) : 16; u64 blk = 0x7b7000000000ull; hs_map_at(blk, al + (e - s) + z + 64); blk += al; cpy((void*)blk, g_m + s, e - s); *(u64*)(arr + 8 * slot) = blk; *(u32*)(g_m + ix) = slot;
}
static unsigned long long pe_target(const char *n) { if (n[0] == '@') return g_load + g_entry; u32 r = export_rva(n); return r ? g_load + r : 0; }
void pe_main(void) {
  u32 t = hs_task(npeprogs); g_p = peprogs + t; g_what = ""; struct casefile cf; zero(&cf, sizeof cf); cf.name = g_p->name; static char cmd[600]; char *d = sapp(cmd, g_p->cmd);
  put_files((u8*)g_p->src, g_p->len); for (u32 i = 0; i < g_p->nlib; i++) hs_file(g_p->libs[i].name, g_p->libs[i].p, g_p->libs[i].n);
  u64 base = g_p->base; if (g_p->flags & 8) { d = sapp(d, " /imagebase:0x"); for (int k = 0; k < 7; k++) { char nm[3] = {'b', '0' + k, 0}; u8 c = (u8)hs_sym(nm, 8); hs_assume((u8)(c - (k ? '0' : '1')) < (k ? 10 : 7)); *d++ = c; base = k ? base * 16 + (c - '0') : (u64)(c - '0'); } d = sapp(d, "0000"); base <<= 16; }
  int r = hs_compile(cmd, 1ull << 34); if (r) { if (r < 0) hs_fail(cm("the compiler crashed")); static char o[300]; u64 k = hs_stdout(o, 250); o[k < 250 ? k : 250] = 0; hs_note("output", o, slen(o)); hs_fail(cm("a valid program was rejected")); }
  u64 n = hs_file_size(g_p->out); if (n == ~0ull) hs_fail(cm("no image was written")); g_f = hs_alloc(n); hs_file_get(g_p->out, g_f, n); g_n = n; headers(); ck(g_o->base == base, "ImageBase"); 
  u64 pref = g_p->flags & 8 ? 0x140000000ull : g_p->base; g_load = pref; if (!(g_p->flags & 2)) { u32 k = hs_choice(3); g_load = k == 0 ? pref : k == 1 ? 0x12340000ull : 0x6a3412340000ull; } load(); relocs(); tls(); exports(); exceptions(); debugdir(); imports(); hs_reach("structure");
  if (!g_p->nfn) return; u32 e = ~0u; for (u32 i = 0; i < g_p->nfn; i++) if (is_entry(g_p->fns + i)) e = i; 
  if (e != ~0u) run_diff(0, &cf, g_p->fns + e); for (int k = 0; k < 2; k++) { u32 i = hs_choice(g_p->nfn); if (i == e) continue; run_diff(0, &cf, g_p->fns + i); }
}
const struct casefile *const cases[1] = {0}; const u32 ncases = 0;
