#include "core.h"
TlbE g_tlb[TLBN]; u64 g_live_pages;
void tlb_flush() { for (auto &t : g_tlb) { t.page = ~0ull; t.p = nullptr; t.w = false; } }
static std::vector<Page*> page_pool; static std::vector<Node*> node_pool; static std::vector<Sym*> sym_pool;
static Page *page_new() { g_live_pages++; if (!page_pool.empty()) { Page *p = page_pool.back(); page_pool.pop_back(); p->ref = 1; p->nsym = 0; p->sym = nullptr; return p; } Page *p = (Page*)malloc(sizeof(Page)); p->ref = 1; p->nsym = 0; p->sym = nullptr; return p; }
static Node *node_new() { if (!node_pool.empty()) { Node *n = node_pool.back(); node_pool.pop_back(); n->ref = 1; memset(n->ch, 0, sizeof n->ch); return n; } Node *n = (Node*)calloc(1, sizeof(Node)); n->ref = 1; return n; }
static Sym *sym_new() { if (!sym_pool.empty()) { Sym *s = sym_pool.back(); sym_pool.pop_back(); return s; } return (Sym*)malloc(sizeof(Sym)); }
static void page_unref(Page *p) { if (--p->ref == 0) { g_live_pages--; if (p->sym) sym_pool.push_back(p->sym); page_pool.push_back(p); } }
static void node_unref(Node *n, int level) {
  if (--n->ref) return;
  for (int i = 0; i < 512; i++) if (n->ch[i]) { if (level == 0) page_unref((Page*)n->ch[i]); else node_unref((Node*)n->ch[i], level - 1); }
  node_pool.push_back(n);
}
void mem_init(Mem &m) { m.root = node_new(); m.regions = std::make_shared<std::map<u64, Region>>(); }
void mem_clone(Mem &d, const Mem &s) { d.root = s.root; d.root->ref++; d.regions = s.regions; tlb_flush(); }
void mem_free(Mem &m) { if (m.root) node_unref(m.root, 3); m.root = nullptr; tlb_flush(); }

static Node *own(void *&slot, int level) { // make child node uniquely owned
  Node *n = (Node*)slot;
  if (!n) { n = node_new(); slot = n; return n; }
  if (n->ref == 1) return n;
  Node *c = node_new(); memcpy(c->ch, n->ch, sizeof c->ch);
  for (int i = 0; i < 512; i++) if (c->ch[i]) { if (level == 0) ((Page*)c->ch[i])->ref++; else ((Node*)c->ch[i])->ref++; }
  n->ref--; slot = c; return c;
}
static Page g_zero; // shared zero page
Page *mem_page(State &S, u64 addr, bool write) {
  u64 pg = addr >> 12; TlbE &t = g_tlb[pg & (TLBN - 1)];
  if (t.page == pg && (!write || t.w)) return t.p;
  if (addr >> 48) throw MemFault{addr, write};
  unsigned i3 = (pg >> 27) & 511, i2 = (pg >> 18) & 511, i1 = (pg >> 9) & 511, i0 = pg & 511;
  if (!write) {
    Node *n = S.mem.root; n = (Node*)n->ch[i3]; if (n) n = (Node*)n->ch[i2]; if (n) n = (Node*)n->ch[i1];
    if (n && n->ch[i0]) { t.page = pg; t.p = (Page*)n->ch[i0]; t.w = false; return t.p; }
  }
  // region check
  Node *root;
  if (S.mem.root->ref > 1) { void *slot = S.mem.root; own(slot, 3); S.mem.root = (Node*)slot; }
  root = S.mem.root;
  // present?
  Page *cur = nullptr; { Node *n = (Node*)root->ch[i3]; if (n) n = (Node*)n->ch[i2]; if (n) n = (Node*)n->ch[i1]; if (n) cur = (Page*)n->ch[i0]; }
  if (!cur) {
    auto &R = *S.mem.regions; auto it = R.upper_bound(addr);
    if (it == R.begin()) throw MemFault{addr, write};
    --it; if (addr >= it->second.end || !it->second.committed) throw MemFault{addr, write};
  }
  Node *n3 = own(root->ch[i3], 2); Node *n2 = own(n3->ch[i2], 1); Node *n1 = own(n2->ch[i1], 0);
  Page *p = (Page*)n1->ch[i0];
  if (!p) { p = page_new(); memset(p->d, 0, PG); n1->ch[i0] = p; }
  else if (p->ref > 1) {
    Page *c = page_new(); memcpy(c->d, p->d, PG); c->nsym = p->nsym;
    if (p->sym) { c->sym = sym_new(); memcpy(c->sym, p->sym, sizeof(Sym)); }
    p->ref--; p = c; n1->ch[i0] = p;
  }
  t.page = pg; t.p = p; t.w = true; return p;
}
static inline Expr *symbyte(u64 raw) { Expr *e = (Expr*)(raw & ~31ull); return mk_extract(e, (raw & 31) * 8, 8); }
static V load_slow(State &S, u64 addr, unsigned n) {
  u64 raws[16]; u8 bs[16]; bool any = false;
  for (unsigned i = 0; i < n; i++) {
    Page *p = mem_page(S, addr + i, false); unsigned o = (addr + i) & (PG - 1);
    bs[i] = p->d[o]; raws[i] = p->sym ? p->sym->raw[o] : 0; any |= raws[i] != 0;
  }
  if (!any) { 
    if (n <= 8) { u64 v = 0; for (unsigned i = 0; i < n; i++) v |= (u64)bs[i] << (8 * i); return VC(v); }
    u128 v = 0; for (unsigned i = 0; i < n; i++) v |= (u128)bs[i] << (8 * i); return V{0, mk_const(v, n * 8)};
  }
  if (raws[0] && (raws[0] & 31) == 0) {
    Expr *e = (Expr*)raws[0]; bool ok = e->w == n * 8;
    for (unsigned i = 1; ok && i < n; i++) ok = raws[i] == raws[0] + i;
    if (ok) return VE(e);
  }
  Expr *r = nullptr;
  for (unsigned i = 0; i < n; ) {
    Expr *b; unsigned k = 1;
    if (!raws[i]) { u128 v = bs[i]; while (i + k < n && !raws[i + k]) { v |= (u128)bs[i + k] << (8 * k); k++; } b = mk_const(v, 8 * k); }
    else { while (i + k < n && raws[i + k] == raws[i] + k) k++; Expr *e = (Expr*)(raws[i] & ~31ull); b = mk_extract(e, (raws[i] & 31) * 8, 8 * k); }
    r = r ? mk_concat(b, r) : b; i += k;
  }
  return VE(r);
}
V mem_load(State &S, u64 addr, unsigned n) {
  unsigned o = addr & (PG - 1);
  if (o + n <= PG && n <= 8) {
    Page *p = mem_page(S, addr, false);
    if (!p->sym) { u64 v = 0; switch (n) { case 1: return VC(p->d[o]); case 2: { u16 x; memcpy(&x, p->d + o, 2); return VC(x); } case 4: { u32 x; memcpy(&x, p->d + o, 4); return VC(x); } case 8: memcpy(&v, p->d + o, 8); return VC(v); default: memcpy(&v, p->d + o, n); return VC(v); } }
  }
  return load_slow(S, addr, n);
}
static inline void put_byte(Page *p, unsigned o, u8 v) {
  p->d[o] = v; if (p->sym && p->sym->raw[o]) { p->sym->raw[o] = 0; if (--p->nsym == 0) { sym_pool.push_back(p->sym); p->sym = nullptr; } }
}
static inline void put_sym(Page *p, unsigned o, u64 raw) {
  if (!p->sym) { p->sym = sym_new(); memset(p->sym, 0, sizeof(Sym)); p->nsym = 0; }
  if (!p->sym->raw[o]) p->nsym++;
  p->sym->raw[o] = raw; p->d[o] = 0xEE;
}
void mem_store(State &S, u64 addr, unsigned n, const V &v) {
  unsigned o = addr & (PG - 1);
  if (!v.e) {
    if (o + n <= PG) {
      Page *p = mem_page(S, addr, true);
      if (!p->sym) { switch (n) { case 1: p->d[o] = (u8)v.c; return; case 2: { u16 x = (u16)v.c; memcpy(p->d + o, &x, 2); return; } case 4: { u32 x = (u32)v.c; memcpy(p->d + o, &x, 4); return; } case 8: memcpy(p->d + o, &v.c, 8); return; default: break; } }
      for (unsigned i = 0; i < n; i++) put_byte(p, o + i, i < 8 ? (u8)(v.c >> (8 * i)) : 0);
      return;
    }
    mem_page(S, addr, true); mem_page(S, addr + n - 1, true);
    for (unsigned i = 0; i < n; i++) { Page *p = mem_page(S, addr + i, true); put_byte(p, (addr + i) & (PG - 1), i < 8 ? (u8)(v.c >> (8 * i)) : 0); }
    return;
  }
  Expr *e = v.e; if (e->w != n * 8) e = mk_zext(e, n * 8);
  mem_page(S, addr, true); if (o + n > PG) mem_page(S, addr + n - 1, true);
  if (is_c(e)) { u128 x = e->cv(); for (unsigned i = 0; i < n; i++) { Page *p = mem_page(S, addr + i, true); put_byte(p, (addr + i) & (PG - 1), (u8)(x >> (8 * i))); } return; }
  for (unsigned i = 0; i < n; i++) {
    Page *p = mem_page(S, addr + i, true); unsigned q = (addr + i) & (PG - 1);
    if (e->op == O_CONCAT) { Expr *b = mk_extract(e, 8 * i, 8); if (is_c(b)) { put_byte(p, q, (u8)b->clo); continue; } }
    put_sym(p, q, (u64)e | i);
  }
}
void mem_copy(State &S, u64 dst, u64 src, u64 n) {
  if (n == 0) return;
  if (dst > src && dst < src + n) { // backwards overlapping (memmove)
    std::vector<u8> d; std::vector<Expr*> s; mem_get(S, src, n, d, s); File f; f.d = d; f.s = s; mem_put(S, dst, f, 0, n); return;
  }
  while (n) {
    unsigned so = src & (PG - 1), dd = dst & (PG - 1); u64 k = std::min<u64>(n, std::min(PG - so, PG - dd));
    Page *d = mem_page(S, dst, true); Page *s = mem_page(S, src, false); d = mem_page(S, dst, true);
    if (!s->sym && !d->sym) memmove(d->d + dd, s->d + so, k);
    else for (u64 i = 0; i < k; i++) { u64 raw = s->sym ? s->sym->raw[so + i] : 0; if (raw) put_sym(d, dd + i, raw); else put_byte(d, dd + i, s->d[so + i]); }
    n -= k; src += k; dst += k;
  }
}
void mem_set(State &S, u64 dst, const V &b, u64 n) {
  while (n) {
    unsigned dd = dst & (PG - 1); u64 k = std::min<u64>(n, PG - dd);
    Page *d = mem_page(S, dst, true);
    if (!b.e) { if (!d->sym) memset(d->d + dd, (u8)b.c, k); else for (u64 i = 0; i < k; i++) put_byte(d, dd + i, (u8)b.c); }
    else { Expr *e = mk_extract(b.e, 0, 8); for (u64 i = 0; i < k; i++) put_sym(d, dd + i, (u64)e); }
    n -= k; dst += k;
  }
}
u64 mem_rc(State &S, u64 a, unsigned n) { V v = mem_load(S, a, n); if (v.e) v = VC(concretize(S, v, n * 8)); return v.c; }
u8 mem_r8(State &S, u64 a) { return (u8)mem_rc(S, a, 1); }
void mem_w(State &S, u64 a, const void *p, u64 n) { const u8 *q = (const u8*)p; while (n) { unsigned o = a & (PG - 1); u64 k = std::min<u64>(n, PG - o); Page *d = mem_page(S, a, true); if (!d->sym) memcpy(d->d + o, q, k); else for (u64 i = 0; i < k; i++) put_byte(d, o + i, q[i]); a += k; q += k; n -= k; } }
static std::map<u64, Region> &regs_mut(State &S) { if (S.mem.regions.use_count() > 1) S.mem.regions = std::make_shared<std::map<u64, Region>>(*S.mem.regions); return *S.mem.regions; }
void mem_map(State &S, u64 a, u64 n, u8 kind, bool committed) {
  auto &R = regs_mut(S); R[a] = Region{a + n, committed, kind};
}
void mem_unmap(State &S, u64 a) {
  auto &R = regs_mut(S); auto it = R.find(a); if (it == R.end()) return;
  u64 e = it->second.end; R.erase(it);
  // drop present pages
  if (S.mem.root->ref > 1) { void *slot = S.mem.root; own(slot, 3); S.mem.root = (Node*)slot; }
  for (u64 pg = a >> 12; pg < (e + PG - 1) >> 12; ) {
    unsigned i3 = (pg >> 27) & 511, i2 = (pg >> 18) & 511, i1 = (pg >> 9) & 511, i0 = pg & 511;
    if (!S.mem.root->ch[i3]) { pg = ((pg >> 27) + 1) << 27; continue; }
    Node *n3 = own(S.mem.root->ch[i3], 2); if (!n3->ch[i2]) { pg = ((pg >> 18) + 1) << 18; continue; }
    Node *n2 = own(n3->ch[i2], 1); if (!n2->ch[i1]) { pg = ((pg >> 9) + 1) << 9; continue; }
    Node *n1 = own(n2->ch[i1], 0); if (n1->ch[i0]) { page_unref((Page*)n1->ch[i0]); n1->ch[i0] = nullptr; }
    pg++;
  }
  tlb_flush();
}
std::string mem_cstr(State &S, u64 a) { std::string s; for (;;) { u8 c = mem_r8(S, a++); if (!c) break; s += (char)c; if (s.size() > (1 << 20)) break; } return s; }
void mem_get(State &S, u64 a, u64 n, std::vector<u8> &d, std::vector<Expr*> &s) {
  d.resize(n); s.clear(); u64 i = 0;
  while (i < n) {
    unsigned o = (a + i) & (PG - 1); u64 k = std::min<u64>(n - i, PG - o); Page *p = mem_page(S, a + i, false);
    memcpy(d.data() + i, p->d + o, k);
    if (p->sym) for (u64 j = 0; j < k; j++) if (p->sym->raw[o + j]) { if (s.empty()) s.assign(n, nullptr); s[i + j] = symbyte(p->sym->raw[o + j]); }
    i += k;
  }
}
void mem_put(State &S, u64 a, const File &f, u64 off, u64 n) {
  if (f.s.empty()) { mem_w(S, a, f.d.data() + off, n); return; }
  for (u64 i = 0; i < n; i++) { Expr *e = f.s[off + i]; mem_store(S, a + i, 1, e ? VE(e) : VC(f.d[off + i])); }
}
static Page *find_page(Mem &m, u64 pg) { Node *n = (Node*)m.root->ch[(pg >> 27) & 511]; if (n) n = (Node*)n->ch[(pg >> 18) & 511]; if (n) n = (Node*)n->ch[(pg >> 9) & 511]; return n ? (Page*)n->ch[pg & 511] : nullptr; }
// make [lo,hi) of S equal to src: share the pages that src has, drop the others
void mem_share_range(State &S, Mem &src, u64 lo, u64 hi) {
  if (S.mem.root->ref > 1) { void *slot = S.mem.root; own(slot, 3); S.mem.root = (Node*)slot; }
  for (u64 pg = lo >> 12; pg < (hi + PG - 1) >> 12; pg++) {
    Page *want = find_page(src, pg), *have = find_page(S.mem, pg); if (want == have) continue;
    Node *n3 = own(S.mem.root->ch[(pg >> 27) & 511], 2); Node *n2 = own(n3->ch[(pg >> 18) & 511], 1); Node *n1 = own(n2->ch[(pg >> 9) & 511], 0);
    if (have) page_unref(have); if (want) want->ref++; n1->ch[pg & 511] = want;
  }
  tlb_flush();
}
