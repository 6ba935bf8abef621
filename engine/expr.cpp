#include "expr.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <emmintrin.h>

std::vector<VarInfo> g_vars;
std::vector<Expr*> g_var_exprs;
u32 g_next_id = 1;

// ---------- allocation and hash-consing ----------
static char *arena_p, *arena_e;
static Expr *alloc_expr() {
  if (arena_p + sizeof(Expr) > arena_e) {
    size_t sz = 4 << 20; arena_p = (char*)aligned_alloc(4096, sz); arena_e = arena_p + sz;
  }
  Expr *e = (Expr*)arena_p; arena_p += sizeof(Expr); return e;
}
static Expr **tab; static u32 tab_n, tab_cap;
static u32 hmix(u64 h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return (u32)h; }
static Expr *node(Op op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, u32 aux = 0, u64 clo = 0, u64 chi = 0) {
  u64 h = op * 0x9E3779B97F4A7C15ULL + w * 0x1000193;
  h = h * 31 + (a ? a->id : 0); h = h * 0x100000001b3ULL + (b ? b->id : 0); h = h * 0x100000001b3ULL + (c ? c->id : 0);
  h = h * 0x100000001b3ULL + aux; h = h * 0x100000001b3ULL + clo; h = h * 0x100000001b3ULL + chi;
  u32 hh = hmix(h);
  if (tab_n * 2 >= tab_cap) {
    u32 nc = tab_cap ? tab_cap * 2 : 1 << 16; Expr **nt = (Expr**)calloc(nc, sizeof(Expr*));
    for (u32 i = 0; i < tab_cap; i++) if (tab[i]) { u32 j = tab[i]->hash & (nc - 1); while (nt[j]) j = (j + 1) & (nc - 1); nt[j] = tab[i]; }
    free(tab); tab = nt; tab_cap = nc;
  }
  u32 i = hh & (tab_cap - 1);
  while (Expr *e = tab[i]) {
    if (e->hash == hh && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->aux == aux && e->clo == clo && e->chi == chi) return e;
    i = (i + 1) & (tab_cap - 1);
  }
  Expr *e = alloc_expr();
  e->op = op; e->w = w; e->nvars_hint = 0; e->id = g_next_id++; e->hash = hh; e->aux = aux; e->clo = clo; e->chi = chi; e->a = a; e->b = b; e->c = c;
  tab[i] = e; tab_n++;
  return e;
}

Expr *mk_const(u128 v, unsigned w) {
  v &= maskw(w);
  return node(O_CONST, w, nullptr, nullptr, nullptr, 0, (u64)v, (u64)(v >> 64));
}
Expr *mk_var(const std::string &name, unsigned w) {
  g_vars.push_back({name, (u8)w});
  Expr *e = node(O_VAR, w, nullptr, nullptr, nullptr, (u32)g_vars.size() - 1);
  g_var_exprs.push_back(e);
  return e;
}
Expr *mk_var_idx(u32 i) { return g_var_exprs[i]; }

// ---------- helpers ----------
static inline bool all_ones(Expr *e) { return is_c(e) && e->cv() == maskw(e->w); }
static void pieces_of(Expr *e, std::vector<Expr*> &out) { // most significant first
  while (e->op == O_CONCAT) { out.push_back(e->a); e = e->b; }
  out.push_back(e);
}
// -1 unknown, 0/1 known
static int known_msb(Expr *e) {
  if (is_c(e)) return (int)((e->cv() >> (e->w - 1)) & 1);
  if (e->op == O_CONCAT) return known_msb(e->a);
  if (e->op == O_ITE) { int x = known_msb(e->b), y = known_msb(e->c); if (x == y) return x; }
  return -1;
}
static unsigned const_top(Expr *e) { // width of constant top piece
  if (is_c(e)) return e->w;
  if (e->op == O_CONCAT && is_c(e->a)) return e->a->w;
  return 0;
}

// ---------- linear normal form ----------
struct Lin { std::vector<std::pair<Expr*, u128>> t; u128 c = 0; bool over = false; };
static void lin_add(Lin &L, Expr *e, u128 k) {
  for (auto &p : L.t) if (p.first == e) { p.second += k; return; }
  if (L.t.size() > 24) L.over = true;
  L.t.push_back({e, k});
}
static void lin_collect(Lin &L, Expr *e, u128 k, int depth) {
  if (L.over) return;
  if (is_c(e)) { L.c += k * e->cv(); return; }
  if (depth < 40) switch (e->op) {
    case O_ADD: lin_collect(L, e->a, k, depth + 1); lin_collect(L, e->b, k, depth + 1); return;
    case O_NEG: lin_collect(L, e->a, (u128)0 - k, depth + 1); return;
    case O_NOT: if (e->w > 1) { lin_collect(L, e->a, (u128)0 - k, depth + 1); L.c -= k; return; } break;
    case O_MUL: if (is_c(e->b)) { lin_collect(L, e->a, k * e->b->cv(), depth + 1); return; } break;
    case O_CONCAT: {
      Expr *lo = e; while (lo->op == O_CONCAT) lo = lo->b;
      if (is_c(lo, 0) && lo->w < e->w && e->b == lo) { // concat(P, 0_k)
        Expr *P = e->a; unsigned sh = lo->w;
        if (P->op == O_EXTRACT && P->aux == 0 && P->a->w == e->w) { lin_collect(L, P->a, k << sh, depth + 1); return; }
        lin_add(L, mk_zext(P, e->w), k << sh); return;
      }
      break;
    }
    default: break;
  }
  lin_add(L, e, k);
}
static Expr *mk_shl_c(Expr *x, unsigned k) {
  if (k == 0) return x; if (k >= x->w) return mk_const(0, x->w);
  return mk_concat(mk_extract(x, 0, x->w - k), mk_const(0, k));
}
static Expr *lin_build(Lin &L, unsigned w) {
  u128 M = maskw(w); L.c &= M;
  std::vector<std::pair<Expr*, u128>> ts;
  for (auto &p : L.t) { p.second &= M; if (p.second) ts.push_back(p); }
  if (ts.empty()) return mk_const(L.c, w);
  std::sort(ts.begin(), ts.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; });
  if (ts.size() == 1 && ts[0].second == M && L.c == M) return node(O_NOT, w, ts[0].first);
  Expr *r = nullptr;
  for (auto &p : ts) {
    Expr *t; u128 k = p.second; u128 nk = ((u128)0 - k) & M;
    bool pow2 = (k & (k - 1)) == 0, npow2 = (nk & (nk - 1)) == 0;
    auto lg = [](u128 v) { unsigned n = 0; while (v > 1) v >>= 1, n++; return n; };
    if (k == 1) t = p.first;
    else if (pow2) t = mk_shl_c(p.first, lg(k));
    else if (npow2) { t = mk_shl_c(p.first, lg(nk)); t = is_c(t) ? mk_neg(t) : node(O_NEG, w, t); }
    else t = node(O_MUL, w, p.first, mk_const(k, w));
    r = r ? node(O_ADD, w, r, t) : t;
  }
  if (L.c) r = node(O_ADD, w, r, mk_const(L.c, w));
  return r;
}
// is there carry-free or-combination: a + b with disjoint pieces (concat zero patterns)
static bool disjoint_bits(Expr *a, Expr *b, int budget = 12) {
  if (is_c(a, 0) || is_c(b, 0)) return true;
  if (budget <= 0) return false;
  if (a->op != O_CONCAT && b->op != O_CONCAT) return false;
  if (a->op != O_CONCAT) std::swap(a, b);
  // split at a's top boundary
  unsigned lw = a->b->w;
  if (b->op == O_CONCAT || is_c(b)) {
    Expr *bh = mk_extract(b, lw, a->a->w), *bl = mk_extract(b, 0, lw);
    return disjoint_bits(a->a, bh, budget - 1) && disjoint_bits(a->b, bl, budget - 1);
  }
  // b not splittable: a must be all zero -> no
  return false;
}

Expr *mk_add(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (is_c(a) && is_c(b)) return mk_const(a->cv() + b->cv(), w);
  if (is_c(a, 0)) return b; if (is_c(b, 0)) return a;
  if (w == 1) return mk_xor(a, b);
  if ((a->op == O_CONCAT || b->op == O_CONCAT) && disjoint_bits(a, b)) return mk_or(a, b);
  if (is_c(a)) std::swap(a, b);
  if (is_c(b) && a->op == O_CONCAT && w <= 64) { // {const, x} + (c << width of x)
    Expr *hi = a->a, *lo = a->b; if (is_c(hi) && !(b->clo & ((1ull << lo->w) - 1))) return mk_concat(mk_const(hi->clo + (b->clo >> lo->w), hi->w), lo);
  }
  Lin L; lin_collect(L, a, 1, 0); lin_collect(L, b, 1, 0);
  if (L.over) { if (a->id > b->id) std::swap(a, b); if (is_c(a)) std::swap(a, b); return node(O_ADD, w, a, b); }
  return lin_build(L, w);
}
Expr *mk_neg(Expr *a) {
  if (is_c(a)) return mk_const((u128)0 - a->cv(), a->w);
  if (a->w == 1) return a;
  Lin L; lin_collect(L, a, (u128)0 - 1, 0);
  if (L.over) return node(O_NEG, a->w, a);
  return lin_build(L, a->w);
}
Expr *mk_sub(Expr *a, Expr *b) {
  if (a == b) return mk_const(0, a->w);
  if (is_c(b)) return mk_add(a, mk_const((u128)0 - b->cv(), a->w));
  if (a->w == 1) return mk_xor(a, b);
  Lin L; lin_collect(L, a, 1, 0); lin_collect(L, b, (u128)0 - 1, 0);
  if (L.over) return node(O_ADD, a->w, a, node(O_NEG, a->w, b));
  return lin_build(L, a->w);
}
Expr *mk_mul(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (is_c(a)) std::swap(a, b);
  if (is_c(a)) return mk_const(a->cv() * b->cv(), w);
  if (w == 1) return mk_and(a, b);
  if (is_c(b)) {
    if (is_c(b, 0)) return b; if (is_c(b, 1)) return a;
    Lin L; lin_collect(L, a, b->cv(), 0);
    if (!L.over) return lin_build(L, w);
    return node(O_MUL, w, a, b);
  }
  if (a->id > b->id) std::swap(a, b);
  return node(O_MUL, w, a, b);
}
static bool pow2c(Expr *e, unsigned &k) {
  if (!is_c(e)) return false; u128 v = e->cv(); if (!v || (v & (v - 1))) return false;
  k = 0; while (v > 1) v >>= 1, k++; return true;
}
static unsigned zext_inner(Expr *e) { // significant low bits
  if (e->op == O_CONCAT && is_c(e->a, 0)) return e->b->w;
  if (is_c(e)) { unsigned n = 0; u128 v = e->cv(); while (v) v >>= 1, n++; return n ? n : 1; }
  return e->w;
}
static unsigned sext_inner(Expr *e) { // width of the value as a signed number
  if (e->op == O_SEXT) return e->a->w;
  if (e->op == O_CONCAT && is_c(e->a, 0)) return e->b->w + 1 <= e->w ? e->b->w + 1 : e->w;
  if (is_c(e)) { unsigned n = 1; s128 v = sx128(e->cv(), e->w); while (n < e->w && sx128((u128)v, n) != v) n++; return n; }
  return e->w;
}
Expr *mk_udiv(Expr *a, Expr *b) {
  unsigned w = a->w; unsigned k;
  if (is_c(b, 0)) return mk_const(maskw(w), w);
  if (is_c(a) && is_c(b)) return mk_const(a->cv() / b->cv(), w);
  if (pow2c(b, k)) return mk_lshr(a, mk_const(k, w));
  unsigned m = std::max(zext_inner(a), zext_inner(b));
  if (m < w) return mk_zext(mk_udiv(mk_extract(a, 0, m), mk_extract(b, 0, m)), w); // divisor nonzero preserved; b==0 gives differing ones-extension, callers guard zero
  return node(O_UDIV, w, a, b);
}
Expr *mk_urem(Expr *a, Expr *b) {
  unsigned w = a->w; unsigned k;
  if (is_c(b, 0)) return a;
  if (is_c(a) && is_c(b)) return mk_const(a->cv() % b->cv(), w);
  if (pow2c(b, k)) return k == 0 ? mk_const(0, w) : mk_zext(mk_extract(a, 0, k), w);
  unsigned m = std::max(zext_inner(a), zext_inner(b));
  if (m < w) return mk_zext(mk_urem(mk_extract(a, 0, m), mk_extract(b, 0, m)), w);
  return node(O_UREM, w, a, b);
}
Expr *mk_sdiv(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (is_c(b, 1)) return a;
  if (is_c(a) && is_c(b)) {
    s128 y = sx128(b->cv(), w), x = sx128(a->cv(), w);
    if (y == 0) return mk_const(x < 0 ? 1 : maskw(w), w);
    if (y == -1) return mk_neg(a);
    return mk_const((u128)(x / y), w);
  }
  if (known_msb(a) == 0 && known_msb(b) == 0) return mk_udiv(a, b);
  unsigned m = std::max(sext_inner(a), sext_inner(b)) + 1; // +1: MIN / -1
  if (m < w && m <= 64 && !is_c(b, maskw(w))) {
    unsigned mm = m <= 9 ? 9 : m <= 17 ? 17 : m <= 33 ? 33 : m;
    if (mm < w) return mk_sext(mk_sdiv(mk_extract(a, 0, mm), mk_extract(b, 0, mm)), w);
  }
  return node(O_SDIV, w, a, b);
}
Expr *mk_srem(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (is_c(b, 1) || all_ones(b)) return mk_const(0, w);
  if (is_c(a) && is_c(b)) {
    s128 y = sx128(b->cv(), w), x = sx128(a->cv(), w);
    if (y == 0) return a; return mk_const((u128)(x % y), w);
  }
  if (known_msb(a) == 0 && known_msb(b) == 0) return mk_urem(a, b);
  unsigned m = std::max(sext_inner(a), sext_inner(b));
  if (m < w) {
    unsigned mm = m <= 8 ? 8 : m <= 9 ? 9 : m <= 16 ? 16 : m <= 17 ? 17 : m <= 32 ? 32 : m <= 33 ? 33 : m;
    if (mm < w) return mk_sext(mk_srem(mk_extract(a, 0, mm), mk_extract(b, 0, mm)), w);
  }
  return node(O_SREM, w, a, b);
}

// ---------- bitwise ----------
static Expr *bit_atom(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (is_c(a)) std::swap(a, b);
  if (is_c(a)) { u128 x = a->cv(), y = b->cv(); return mk_const(op == O_AND ? x & y : op == O_OR ? x | y : x ^ y, w); }
  if (op == O_AND) {
    if (a == b) return a; if (is_c(b, 0)) return b; if (all_ones(b)) return a;
    if ((a->op == O_NOT && a->a == b) || (b->op == O_NOT && b->a == a)) return mk_const(0, w);
  } else if (op == O_OR) {
    if (a == b) return a; if (is_c(b, 0)) return a; if (all_ones(b)) return b;
    if ((a->op == O_NOT && a->a == b) || (b->op == O_NOT && b->a == a)) return mk_const(maskw(w), w);
  } else {
    if (a == b) return mk_const(0, w); if (is_c(b, 0)) return a; if (all_ones(b)) return mk_not(a);
    if ((a->op == O_NOT && a->a == b) || (b->op == O_NOT && b->a == a)) return mk_const(maskw(w), w);
    if (a->op == O_NOT && b->op == O_NOT) return bit_atom(O_XOR, a->a, b->a);
    if (a->op == O_NOT) return mk_not(bit_atom(O_XOR, a->a, b));
    if (b->op == O_NOT) return mk_not(bit_atom(O_XOR, a, b->a));
    if (a->op == O_XOR && (a->a == b)) return a->b;
    if (a->op == O_XOR && (a->b == b)) return a->a;
    if (b->op == O_XOR && (b->a == a)) return b->b;
    if (b->op == O_XOR && (b->b == a)) return b->a;
    if (is_c(b) && a->op == O_XOR && is_c(a->b)) return bit_atom(O_XOR, a->a, mk_const(a->b->cv() ^ b->cv(), w));
  }
  if (w == 1 && op == O_AND) {
    // absorption a & (a & x)
    if (a->op == O_AND && (a->a == b || a->b == b)) return a;
    if (b->op == O_AND && (b->a == a || b->b == a)) return b;
    // a & ~(a & x) = a & ~x
    auto nn = [&](Expr *p, Expr *q) -> Expr* {
      if (q->op == O_NOT && q->a->op == O_AND) {
        Expr *r = q->a; if (r->a == p) return mk_and(p, mk_not(r->b)); if (r->b == p) return mk_and(p, mk_not(r->a));
        Expr *np = mk_not(p); if (r->a == np || r->b == np) return p;
      }
      return nullptr;
    };
    if (Expr *r = nn(a, b)) return r; if (Expr *r = nn(b, a)) return r;
  }
  if (!is_c(b) && a->id > b->id) std::swap(a, b);
  return node(op, w, a, b);
}
static Expr *bitop(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a == b) return op == O_XOR ? mk_const(0, w) : a;
  bool ca = is_c(a), cb = is_c(b);
  if (ca && cb) return bit_atom(op, a, b);
  if (w == 1) {
    if (op == O_OR) return mk_not(mk_and(mk_not(a), mk_not(b)));
    return bit_atom(op, a, b);
  }
  if (ca) { std::swap(a, b); std::swap(ca, cb); }
  // trivial identities first
  if (cb) {
    if (is_c(b, 0)) return op == O_AND ? b : a;
    if (all_ones(b)) return op == O_AND ? a : op == O_OR ? b : mk_not(a);
  }
  bool split = a->op == O_CONCAT || b->op == O_CONCAT;
  std::vector<unsigned> cuts; // low bit positions where a new piece starts
  if (split || (cb && op != O_XOR)) {
    std::set<unsigned> cs; cs.insert(0);
    auto addp = [&](Expr *e) { unsigned pos = e->w; std::vector<Expr*> ps; pieces_of(e, ps); for (auto p : ps) { pos -= p->w; cs.insert(pos); } };
    addp(a); addp(b);
    if (cb && op != O_XOR) {
      u128 v = b->cv(); unsigned runs = 0;
      for (unsigned i = 1; i < w; i++) if (((v >> i) & 1) != ((v >> (i - 1)) & 1)) { cs.insert(i); runs++; }
      if (runs > 20 && !split) return bit_atom(op, a, b);
    }
    if (cs.size() <= 40 && cs.size() > 1) cuts.assign(cs.begin(), cs.end());
  }
  if (cuts.empty()) return bit_atom(op, a, b);
  Expr *r = nullptr;
  for (size_t i = 0; i < cuts.size(); i++) {
    unsigned lo = cuts[i], hi = i + 1 < cuts.size() ? cuts[i + 1] : w;
    Expr *pa = mk_extract(a, lo, hi - lo), *pb = mk_extract(b, lo, hi - lo), *p;
    if (pa->w == 1 && op == O_OR) p = mk_or(pa, pb); else p = bit_atom(op, pa, pb);
    r = r ? mk_concat(p, r) : p;
  }
  return r;
}
Expr *mk_and(Expr *a, Expr *b) { return bitop(O_AND, a, b); }
Expr *mk_or(Expr *a, Expr *b) { return bitop(O_OR, a, b); }
Expr *mk_xor(Expr *a, Expr *b) { return bitop(O_XOR, a, b); }
Expr *mk_not(Expr *a) {
  if (is_c(a)) return mk_const(~a->cv(), a->w);
  if (a->op == O_NOT) return a->a;
  if (a->w > 1) {
    if (a->op == O_CONCAT) { return mk_concat(mk_not(a->a), mk_not(a->b)); }
    if (a->op == O_SEXT) return mk_sext(mk_not(a->a), a->w);
    if (a->op == O_ADD || a->op == O_NEG) { Lin L; lin_collect(L, a, (u128)0 - 1, 0); if (!L.over) { L.c -= 1; return lin_build(L, a->w); } }
    if (a->op == O_ITE && (is_c(a->b) || is_c(a->c))) return mk_ite(a->a, mk_not(a->b), mk_not(a->c));
  }
  return node(O_NOT, a->w, a);
}
Expr *mk_shl(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (is_c(b)) {
    u128 k = b->cv(); if (k >= w) return mk_const(0, w); if (k == 0) return a;
    if (is_c(a)) return mk_const(a->cv() << (unsigned)k, w);
    if (a->op == O_ADD || a->op == O_NEG || a->op == O_MUL) return mk_mul(a, mk_const((u128)1 << (unsigned)k, w));
    return mk_shl_c(a, (unsigned)k);
  }
  if (is_c(a, 0)) return a;
  return node(O_SHL, w, a, b);
}
Expr *mk_lshr(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (is_c(b)) {
    u128 k = b->cv(); if (k >= w) return mk_const(0, w); if (k == 0) return a;
    return mk_concat(mk_const(0, (unsigned)k), mk_extract(a, (unsigned)k, w - (unsigned)k));
  }
  if (is_c(a, 0)) return a;
  return node(O_LSHR, w, a, b);
}
Expr *mk_ashr(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (known_msb(a) == 0) return mk_lshr(a, b);
  if (is_c(b)) {
    u128 k = b->cv(); if (k >= w) k = w - 1; if (k == 0) return a;
    return mk_sext(mk_extract(a, (unsigned)k, w - (unsigned)k), w);
  }
  return node(O_ASHR, w, a, b);
}

// ---------- concat / extract / extensions ----------
struct ExCache { Expr *e; u32 key; Expr *r; };
static ExCache excache[1 << 16];
static Expr *extract_raw(Expr *e, unsigned lo, unsigned w);
Expr *mk_extract(Expr *e, unsigned lo, unsigned w) {
  if (w == e->w) return e;
  if (is_c(e)) return mk_const(e->cv() >> lo, w);
  u32 key = lo | (w << 8);
  ExCache &c = excache[(e->id * 2654435761u ^ key * 40503u) >> 16];
  if (c.e == e && c.key == key) return c.r;
  Expr *r = extract_raw(e, lo, w);
  c.e = e; c.key = key; c.r = r;
  return r;
}
static Expr *extract_raw(Expr *e, unsigned lo, unsigned w) {
  switch (e->op) {
    case O_EXTRACT: return mk_extract(e->a, e->aux + lo, w);
    case O_CONCAT: {
      unsigned lw = e->b->w;
      if (lo >= lw) return mk_extract(e->a, lo - lw, w);
      if (lo + w <= lw) return mk_extract(e->b, lo, w);
      return mk_concat(mk_extract(e->a, 0, lo + w - lw), mk_extract(e->b, lo, lw - lo));
    }
    case O_SEXT: {
      unsigned iw = e->a->w;
      if (lo + w <= iw) return mk_extract(e->a, lo, w);
      if (lo >= iw) return mk_sext(mk_extract(e->a, iw - 1, 1), w);
      return mk_sext(mk_extract(e->a, lo, iw - lo), w);
    }
    case O_ADD: if (lo == 0) return mk_add(mk_extract(e->a, 0, w), mk_extract(e->b, 0, w)); break;
    case O_NEG: if (lo == 0) return mk_neg(mk_extract(e->a, 0, w)); break;
    case O_MUL: if (lo == 0) return mk_mul(mk_extract(e->a, 0, w), mk_extract(e->b, 0, w)); break;
    case O_AND: return mk_and(mk_extract(e->a, lo, w), mk_extract(e->b, lo, w));
    case O_OR: return mk_or(mk_extract(e->a, lo, w), mk_extract(e->b, lo, w));
    case O_XOR: return mk_xor(mk_extract(e->a, lo, w), mk_extract(e->b, lo, w));
    case O_NOT: return mk_not(mk_extract(e->a, lo, w));
    case O_ITE: if (is_c(e->b) || is_c(e->c)) return mk_ite(e->a, mk_extract(e->b, lo, w), mk_extract(e->c, lo, w)); break;
    default: break;
  }
  return node(O_EXTRACT, w, e, nullptr, nullptr, lo);
}
static Expr *concat2(Expr *hi, Expr *lo) { // hi is an atom (not CONCAT); lo anything
  unsigned w = hi->w + lo->w;
  Expr *first = lo->op == O_CONCAT ? lo->a : lo; // adjacent piece
  Expr *rest = lo->op == O_CONCAT ? lo->b : nullptr;
  Expr *merged = nullptr;
  if (is_c(hi) && is_c(first)) merged = mk_const((hi->cv() << first->w) | first->cv(), hi->w + first->w);
  else if (hi->op == O_EXTRACT && hi->aux >= first->w && !is_c(first)) {
    if (mk_extract(hi->a, hi->aux - first->w, first->w) == first) merged = mk_extract(hi->a, hi->aux - first->w, hi->w + first->w);
  }
  if (!merged && rest && hi->op == O_EXTRACT && hi->aux >= lo->w && !is_c(first)) {
    if (mk_extract(hi->a, hi->aux - lo->w, lo->w) == lo) return mk_extract(hi->a, hi->aux - lo->w, w);
  }
  if (!merged && !is_c(first) && !is_c(hi)) {
    // sign extension: hi is a sign fill of first
    Expr *bit = hi->w == 1 ? hi : (hi->op == O_SEXT && hi->a->w == 1 ? hi->a : nullptr);
    if (bit && bit->op != O_CONST && (hi->w > 1 || first->op == O_SEXT || true)) {
      if (mk_extract(first, first->w - 1, 1) == bit && !(hi->w == 1 && hi->op == O_EXTRACT && false)) merged = mk_sext(first, first->w + hi->w);
    }
    // hi = sext of a wider tail of the same value: sext(extract(x,k..)) adjacent to extract(x, ..)
    if (!merged && hi->op == O_SEXT && hi->a->op == O_EXTRACT && hi->a->aux >= first->w) {
      Expr *in = hi->a;
      if (mk_extract(in->a, in->aux - first->w, first->w) == first) merged = mk_sext(mk_extract(in->a, in->aux - first->w, in->w + first->w), hi->w + first->w);
    }
    if (!merged && hi->op == O_ITE && first->op == O_ITE && hi->a == first->a)
      merged = mk_ite(hi->a, mk_concat(hi->b, first->b), mk_concat(hi->c, first->c));
    if (!merged && hi->op == O_NOT && first->op == O_NOT) { // ~x : ~y -> ~(x:y) when x:y merge
      Expr *m = mk_concat(hi->a, first->a); if (m->op != O_CONCAT) merged = mk_not(m);
    }
    if (!merged && (hi->op == O_AND || hi->op == O_OR || hi->op == O_XOR) && hi->op == first->op) {
      for (int s = 0; s < 2 && !merged; s++) {
        Expr *x = s ? first->b : first->a, *y = s ? first->a : first->b;
        Expr *m1 = mk_concat(hi->a, x); if (m1->op == O_CONCAT) continue;
        Expr *m2 = mk_concat(hi->b, y); if (m2->op == O_CONCAT) continue;
        merged = mk_extract(bitop(hi->op, m1, m2), 0, hi->w + first->w);
      }
    }
  }
  if (!merged && hi->op == O_ITE && is_c(first) && is_c(hi->b) && is_c(hi->c) && 0) merged = nullptr;
  if (merged) {
    if (!rest) return merged;
    return mk_concat(merged, rest);
  }
  return node(O_CONCAT, w, hi, lo);
}
Expr *mk_concat(Expr *hi, Expr *lo) {
  if (is_c(hi) && is_c(lo)) return mk_const((hi->cv() << lo->w) | lo->cv(), hi->w + lo->w);
  if (hi->op == O_CONCAT) {
    std::vector<Expr*> ps; pieces_of(hi, ps);
    Expr *r = lo; for (size_t i = ps.size(); i-- > 0;) r = concat2(ps[i], r);
    return r;
  }
  return concat2(hi, lo);
}
Expr *mk_zext(Expr *e, unsigned w) {
  if (w == e->w) return e; if (w < e->w) return mk_extract(e, 0, w);
  return mk_concat(mk_const(0, w - e->w), e);
}
Expr *mk_sext(Expr *e, unsigned w) {
  if (w == e->w) return e; if (w < e->w) return mk_extract(e, 0, w);
  if (is_c(e)) return mk_const((u128)sx128(e->cv(), e->w), w);
  if (known_msb(e) == 0) return mk_zext(e, w);
  if (known_msb(e) == 1) return mk_concat(mk_const(~(u128)0, w - e->w), e);
  if (e->op == O_SEXT) return mk_sext(e->a, w);
  return node(O_SEXT, w, e);
}
Expr *mk_ite(Expr *c, Expr *a, Expr *b) {
  if (is_c(c)) return c->clo ? a : b;
  if (a == b) return a;
  if (c->op == O_NOT) { std::swap(a, b); c = c->a; }
  unsigned w = a->w;
  if (a->op == O_ITE && a->a == c) a = a->b;
  if (b->op == O_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (w == 1) {
    if (is_c(a)) return a->clo ? mk_or(c, b) : mk_and(mk_not(c), b);
    if (is_c(b)) return b->clo ? mk_or(mk_not(c), a) : mk_and(c, a);
    return mk_or(mk_and(c, a), mk_and(mk_not(c), b));
  }
  if (is_c(a) && is_c(b)) {
    u128 d = a->cv() ^ b->cv();
    if (d == maskw(w)) { if (is_c(b, 0)) return mk_sext(c, w); if (is_c(a, 0)) return mk_sext(mk_not(c), w); }
    // strip agreeing top bits
    unsigned n = w; while (n > 0 && !((d >> (n - 1)) & 1)) n--;
    if (n < w) return mk_concat(mk_const(a->cv() >> n, w - n), mk_ite(c, mk_const(a->cv(), n), mk_const(b->cv(), n)));
  }
  return node(O_ITE, w, c, a, b);
}

// ---------- predicates ----------
Expr *mk_eq(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a == b) return mk_bool(true);
  if (is_c(a)) std::swap(a, b);
  if (is_c(a)) return mk_bool(a->cv() == b->cv());
  if (w == 1) {
    if (is_c(b)) return b->clo ? a : mk_not(a);
    return mk_not(mk_xor(a, b));
  }
  if (is_c(b)) {
    switch (a->op) {
      case O_CONCAT: {
        unsigned lw = a->b->w;
        Expr *h = mk_eq(a->a, mk_const(b->cv() >> lw, a->a->w)); if (is_c(h, 0)) return h;
        Expr *l = mk_eq(a->b, mk_const(b->cv(), lw));
        return mk_and(h, l);
      }
      case O_NOT: return mk_eq(a->a, mk_const(~b->cv(), w));
      case O_NEG: return mk_eq(a->a, mk_const((u128)0 - b->cv(), w));
      case O_SEXT: {
        u128 v = b->cv(); unsigned iw = a->a->w;
        if ((u128)sx128(v, iw) != (u128)sx128(v, w) ) return mk_bool(false);
        return mk_eq(a->a, mk_const(v, iw));
      }
      case O_XOR: if (is_c(a->b)) return mk_eq(a->a, mk_const(a->b->cv() ^ b->cv(), w)); 
                  if (is_c(b, 0)) return mk_eq(a->a, a->b); break;
      case O_ITE:
        if (is_c(a->b) || is_c(a->c)) return mk_ite(a->a, mk_eq(a->b, b), mk_eq(a->c, b));
        break;
      case O_ADD: {
        if (is_c(a->b)) return mk_eq(a->a, mk_const(b->cv() - a->b->cv(), w));
        if (is_c(b, 0)) {
          if (a->b->op == O_NEG && a->a->op != O_ADD) return mk_eq(a->a, a->b->a);
          if (a->a->op == O_NEG && a->b->op != O_ADD) return mk_eq(a->b, a->a->a);
        }
        break;
      }
      default: break;
    }
  } else {
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w) return mk_and(mk_eq(a->a, b->a), mk_eq(a->b, b->b));
    if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mk_eq(a->a, b->a);
    if (a->op == O_NOT && b->op == O_NOT) return mk_eq(a->a, b->a);
    if (a->op == O_CONCAT && b->op == O_CONCAT && is_c(a->a) && is_c(b->a)) { // differing zero tops
      unsigned k = std::min(a->a->w, b->a->w);
      return mk_and(mk_eq(mk_extract(a, w - k, k), mk_extract(b, w - k, k)), mk_eq(mk_extract(a, 0, w - k), mk_extract(b, 0, w - k)));
    }
    if (a->op == O_ADD || b->op == O_ADD) {
      Lin L; lin_collect(L, a, 1, 0); lin_collect(L, b, (u128)0 - 1, 0);
      if (!L.over) {
        size_t nz = 0; u128 M = maskw(w); for (auto &p : L.t) if (p.second & M) nz++;
        if (nz == 0) return mk_bool((L.c & M) == 0);
        if (nz < L.t.size() || (nz == 1)) { // something cancelled
          Expr *d = lin_build(L, w);
          if (!(d->op == O_ADD && !is_c(d->b) && nz > 2)) return mk_eq(d, mk_const(0, w));
        }
      }
    }
  }
  if (!is_c(b) && a->id > b->id) std::swap(a, b);
  return node(O_EQ, 1, a, b);
}
Expr *mk_ult(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a == b) return mk_bool(false);
  if (is_c(a) && is_c(b)) return mk_bool(a->cv() < b->cv());
  if (is_c(b, 0)) return b->w == 1 ? b : mk_bool(false);
  if (all_ones(a)) return mk_bool(false);
  if (w == 1) return mk_and(mk_not(a), b);
  if (is_c(b, 1)) return mk_eq(a, mk_const(0, w));
  if (is_c(a, 0)) return mk_not(mk_eq(b, a));
  if (all_ones(b)) return mk_not(mk_eq(a, b));
  unsigned ta = const_top(a), tb = const_top(b);
  if (ta && tb) {
    unsigned k = std::min(ta, tb);
    u128 x = mk_extract(a, w - k, k)->cv(), y = mk_extract(b, w - k, k)->cv();
    if (x != y) return mk_bool(x < y);
    return mk_ult(mk_extract(a, 0, w - k), mk_extract(b, 0, w - k));
  }
  if (a->op == O_ITE && is_c(b) && (is_c(a->b) && is_c(a->c))) return mk_ite(a->a, mk_ult(a->b, b), mk_ult(a->c, b));
  if (b->op == O_ITE && is_c(a) && (is_c(b->b) && is_c(b->c))) return mk_ite(b->a, mk_ult(a, b->b), mk_ult(a, b->c));
  if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mk_ult(a->a, b->a);
  if (is_c(b)) { // power of two bound: a < 2^k  <=> top bits zero
    unsigned k; if (pow2c(b, k)) return mk_eq(mk_extract(a, k, w - k), mk_const(0, w - k));
  }
  if (is_c(a)) { u128 v = a->cv() + 1; if ((v & (v - 1)) == 0 && v <= maskw(w)) { unsigned k = 0; while (v > 1) v >>= 1, k++; return mk_not(mk_eq(mk_extract(b, k, w - k), mk_const(0, w - k))); } }
  return node(O_ULT, 1, a, b);
}
Expr *mk_slt(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a == b) return mk_bool(false);
  if (is_c(a) && is_c(b)) return mk_bool(sx128(a->cv(), w) < sx128(b->cv(), w));
  if (w == 1) return mk_and(a, mk_not(b));
  if (is_c(b, 0)) return mk_extract(a, w - 1, 1);
  if (all_ones(a)) return mk_not(mk_extract(b, w - 1, 1));
  int ma = known_msb(a), mb = known_msb(b);
  if (ma >= 0 && mb >= 0) { if (ma == mb) return mk_ult(a, b); return mk_bool(ma == 1); }
  unsigned sa = sext_inner(a), sb = sext_inner(b);
  unsigned m = std::max(sa, sb);
  if (m < w && (a->op == O_SEXT || b->op == O_SEXT)) {
    bool pure = (a->op == O_SEXT || is_c(a)) && (b->op == O_SEXT || is_c(b));
    if (pure && a->op == O_SEXT && is_c(b) && sb > sa) { // constant outside of the range
      return mk_bool(sx128(b->cv(), w) > 0);
    }
    if (pure && b->op == O_SEXT && is_c(a) && sa > sb) return mk_bool(sx128(a->cv(), w) < 0);
    return mk_slt(mk_extract(a, 0, m), mk_extract(b, 0, m));
  }
  if (a->op == O_ITE && is_c(b) && (is_c(a->b) && is_c(a->c))) return mk_ite(a->a, mk_slt(a->b, b), mk_slt(a->c, b));
  if (b->op == O_ITE && is_c(a) && (is_c(b->b) && is_c(b->c))) return mk_ite(b->a, mk_slt(a, b->b), mk_slt(a, b->c));
  if (is_c(b, ((u128)1 << (w - 1)))) return mk_bool(false);            // x < MIN
  if (is_c(a, maskw(w - 1))) return mk_bool(false);                     // MAX < x
  if (is_c(b, 1)) return mk_or(mk_extract(a, w - 1, 1), mk_eq(a, mk_const(0, w)));
  if (is_c(a, 0)) return mk_and(mk_not(mk_extract(b, w - 1, 1)), mk_not(mk_eq(b, a)));
  return node(O_SLT, 1, a, b);
}

// ---------- uninterpreted functions (floating point arithmetic) ----------
static float asf(u128 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static double asd(u128 v) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
static u128 fr(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static u128 dr(double f) { u64 x; memcpy(&x, &f, 8); return x; }
// Characters of a number handed to strtod: a chain of applications that names an interned string, then its value.
static std::map<std::pair<u64, u8>, u64> g_strid; static std::vector<std::string> g_strs;
static u64 str_append(u64 h, u8 c) { auto k = std::make_pair(h, c); auto it = g_strid.find(k); if (it != g_strid.end()) return it->second; std::string s; if (h >= 4096 && h - 4096 < g_strs.size()) s = g_strs[h - 4096]; s += (char)c; g_strs.push_back(s); return g_strid[k] = 4096 + g_strs.size() - 1; }
static u64 str_value(u64 h) { double d = h >= 4096 && h - 4096 < g_strs.size() ? strtod(g_strs[h - 4096].c_str(), nullptr) : 0; u64 r; memcpy(&r, &d, 8); return r; }
u128 fold_uf(u32 id, unsigned w, u128 a, u128 b, u128 c, bool &ok) { if (id == 0x40e0) { ok = true; return str_append((u64)a, (u8)b); } if (id == 0x40e1) { ok = true; return str_value((u64)a); }
  ok = true; unsigned kind = id & 0xff, aw = (id >> 8) & 0xff;
  switch (kind) {
    case UF_FADD: return aw == 32 ? fr(asf(a) + asf(b)) : dr(asd(a) + asd(b));
    case UF_FSUB: return aw == 32 ? fr(asf(a) - asf(b)) : dr(asd(a) - asd(b));
    case UF_FMUL: return aw == 32 ? fr(asf(a) * asf(b)) : dr(asd(a) * asd(b));
    case UF_FDIV: return aw == 32 ? fr(asf(a) / asf(b)) : dr(asd(a) / asd(b));
    case UF_FSQRT: return aw == 32 ? fr(sqrtf(asf(a))) : dr(sqrt(asd(a)));
    case UF_SITOFP: { s64 x = sx64((u64)a, aw); return w == 32 ? fr((float)x) : dr((double)x); }
    case UF_UITOFP: { u64 x = (u64)a & mask64(aw); return w == 32 ? fr((float)x) : dr((double)x); }
    case UF_FPTOSI: {
      if (aw == 32) { __m128 v = _mm_set_ss(asf(a)); if (w <= 32) return (u32)_mm_cvttss_si32(v) & mask64(w); return (u64)_mm_cvttss_si64(v); }
      __m128d v = _mm_set_sd(asd(a)); if (w <= 32) return (u32)_mm_cvttsd_si32(v) & mask64(w); return (u64)_mm_cvttsd_si64(v);
    }
    case UF_FPTOUI: {
      double d = aw == 32 ? (double)asf(a) : asd(a); if (!(d > -1.0)) return ((u64)(s64)d) & mask64(w); if (d >= 18446744073709551616.0) return 0; return (u64)d & mask64(w);
    }
    case UF_FPTRUNC: return fr((float)asd(a));
    case UF_FPEXT: return dr((double)asf(a));
  }
  ok = false; return 0;
}
Expr *mk_uf(u32 id, unsigned w, Expr *a, Expr *b, Expr *c) {
  if (is_c(a) && (!b || is_c(b)) && (!c || is_c(c))) {
    bool ok; u128 v = fold_uf(id, w, a->cv(), b ? b->cv() : 0, c ? c->cv() : 0, ok);
    if (ok) return mk_const(v, w);
  }
  u32 k = id & 0xff;
  if (k == UF_FSUB && is_c(b)) return mk_uf(UF_FADD | (id & ~0xffu), w, a, mk_const(b->cv() ^ ((u128)1 << (w - 1)), w)); // x - c and x + (-c) are the same operation
  if ((k == UF_FADD || k == UF_FMUL) && b && a->id > b->id) std::swap(a, b);
  return node(O_UF, w, a, b, c, id);
}
Expr *fp_isnan(Expr *a) {
  unsigned w = a->w; unsigned m = w == 32 ? 23 : 52;
  Expr *ex = mk_extract(a, m, w - 1 - m), *mant = mk_extract(a, 0, m);
  return mk_and(mk_eq(ex, mk_const(maskw(w - 1 - m), w - 1 - m)), mk_not(mk_eq(mant, mk_const(0, m))));
}
Expr *fp_uno(Expr *a, Expr *b) { return mk_or(fp_isnan(a), fp_isnan(b)); }
static Expr *fp_iszero(Expr *a) { return mk_eq(mk_extract(a, 0, a->w - 1), mk_const(0, a->w - 1)); }
Expr *fp_oeq(Expr *a, Expr *b) {
  return mk_and(mk_not(fp_uno(a, b)), mk_or(mk_eq(a, b), mk_and(fp_iszero(a), fp_iszero(b))));
}
Expr *fp_olt(Expr *a, Expr *b) {
  unsigned w = a->w;
  Expr *sa = mk_extract(a, w - 1, 1), *sb = mk_extract(b, w - 1, 1);
  Expr *ma = mk_extract(a, 0, w - 1), *mb = mk_extract(b, 0, w - 1);
  Expr *bothz = mk_and(fp_iszero(a), fp_iszero(b));
  Expr *lt = mk_ite(sa, mk_ite(sb, mk_ult(mb, ma), mk_bool(true)), mk_ite(sb, mk_bool(false), mk_ult(ma, mb)));
  return mk_and(mk_and(mk_not(fp_uno(a, b)), mk_not(bothz)), lt);
}

// ---------- evaluation ----------
static std::vector<u128> ev_val; static std::vector<u32> ev_gen; static u32 ev_cur;
static const Model *ev_m;
static bool ev_uf;
static u128 eval_rec(Expr *e) {
  if (e->op == O_CONST) return e->cv();
  if (e->op == O_VAR) return ev_m->get(e->aux) & maskw(e->w);
  if (ev_gen.size() <= e->id) { size_t n = std::max<size_t>(g_next_id + 1024, ev_gen.size() * 2); ev_gen.resize(n, 0); ev_val.resize(n); }
  if (ev_gen[e->id] == ev_cur) return ev_val[e->id];
  u128 r = 0, M = maskw(e->w), x, y;
  switch (e->op) {
    case O_ADD: r = eval_rec(e->a) + eval_rec(e->b); break;
    case O_NEG: r = (u128)0 - eval_rec(e->a); break;
    case O_MUL: r = eval_rec(e->a) * eval_rec(e->b); break;
    case O_UDIV: x = eval_rec(e->a); y = eval_rec(e->b); r = y ? x / y : ~(u128)0; break;
    case O_UREM: x = eval_rec(e->a); y = eval_rec(e->b); r = y ? x % y : x; break;
    case O_SDIV: { s128 p = sx128(eval_rec(e->a), e->w), q = sx128(eval_rec(e->b), e->w); r = q == 0 ? (p < 0 ? 1 : ~(u128)0) : q == -1 ? (u128)0 - (u128)p : (u128)(p / q); break; }
    case O_SREM: { s128 p = sx128(eval_rec(e->a), e->w), q = sx128(eval_rec(e->b), e->w); r = q == 0 ? (u128)p : q == -1 ? 0 : (u128)(p % q); break; }
    case O_AND: r = eval_rec(e->a) & eval_rec(e->b); break;
    case O_OR: r = eval_rec(e->a) | eval_rec(e->b); break;
    case O_XOR: r = eval_rec(e->a) ^ eval_rec(e->b); break;
    case O_NOT: r = ~eval_rec(e->a); break;
    case O_SHL: x = eval_rec(e->a); y = eval_rec(e->b); r = y >= e->w ? 0 : x << (unsigned)y; break;
    case O_LSHR: x = eval_rec(e->a); y = eval_rec(e->b); r = y >= e->w ? 0 : x >> (unsigned)y; break;
    case O_ASHR: x = eval_rec(e->a); y = eval_rec(e->b); { unsigned k = y >= e->w ? e->w - 1 : (unsigned)y; r = (u128)(sx128(x, e->w) >> k); } break;
    case O_CONCAT: r = (eval_rec(e->a) << e->b->w) | eval_rec(e->b); break;
    case O_EXTRACT: r = eval_rec(e->a) >> e->aux; break;
    case O_SEXT: r = (u128)sx128(eval_rec(e->a), e->a->w); break;
    case O_ITE: r = eval_rec(e->a) ? eval_rec(e->b) : eval_rec(e->c); break;
    case O_EQ: r = eval_rec(e->a) == eval_rec(e->b); break;
    case O_ULT: r = eval_rec(e->a) < eval_rec(e->b); break;
    case O_SLT: r = sx128(eval_rec(e->a), e->a->w) < sx128(eval_rec(e->b), e->b->w); break;
    case O_UF: { bool ok; r = fold_uf(e->aux, e->w, eval_rec(e->a), e->b ? eval_rec(e->b) : 0, e->c ? eval_rec(e->c) : 0, ok); ev_uf = true; break; }
    default: break;
  }
  r &= M;
  if (ev_gen.size() <= e->id) { ev_gen.resize(g_next_id + 1024, 0); ev_val.resize(g_next_id + 1024); }
  ev_gen[e->id] = ev_cur; ev_val[e->id] = r;
  return r;
}
static const Model *ev_last; static u64 ev_last_stamp;
u128 Evaluator::eval(Expr *e) {
  // one generation per evaluator object (memo.size()==0 on the first call)
  if (memo.empty()) { ev_cur++; memo[0] = ev_cur; } 
  else if ((u32)memo[0] != ev_cur) { ev_cur++; memo[0] = ev_cur; }
  ev_m = m; ev_uf = false; u128 r = eval_rec(e); uf_seen |= ev_uf; return r;
}

// ---------- variable sets ----------
static std::vector<const std::vector<u32>*> vs_tab;
static std::map<std::vector<u32>, std::vector<u32>*> vs_intern;
static std::vector<u8> uf_tab;
static const std::vector<u32> vs_empty;
const std::vector<u32> &vars_of(Expr *e) {
  if (e->op == O_CONST) return vs_empty;
  if (vs_tab.size() <= e->id) { vs_tab.resize(g_next_id + 1024, nullptr); uf_tab.resize(g_next_id + 1024, 0); }
  if (vs_tab[e->id]) return *vs_tab[e->id];
  std::vector<u32> r; u8 uf = e->op == O_UF;
  if (e->op == O_VAR) r.push_back(e->aux);
  else {
    Expr *ch[3] = {e->a, e->b, e->c};
    for (auto x : ch) if (x) {
      const std::vector<u32> &s = vars_of(x); if (x->op != O_CONST && x->id < uf_tab.size()) uf |= uf_tab[x->id];
      if (r.empty()) r = s; else if (!s.empty() && &s != nullptr) { std::vector<u32> t; std::set_union(r.begin(), r.end(), s.begin(), s.end(), std::back_inserter(t)); r.swap(t); }
    }
  }
  auto it = vs_intern.find(r); std::vector<u32> *p;
  if (it != vs_intern.end()) p = it->second; else { p = new std::vector<u32>(r); vs_intern[r] = p; }
  if (vs_tab.size() <= e->id) { vs_tab.resize(g_next_id + 1024, nullptr); uf_tab.resize(g_next_id + 1024, 0); }
  vs_tab[e->id] = p; uf_tab[e->id] = uf;
  return *p;
}
bool has_uf(Expr *e) { vars_of(e); return e->op != O_CONST && uf_tab[e->id]; }

std::string to_str(Expr *e, int d) {
  char buf[128];
  static const char *names[] = {"const","var","add","neg","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","concat","extract","sext","ite","eq","ult","slt","uf"};
  if (e->op == O_CONST) { snprintf(buf, sizeof buf, "0x%llx:%d", (unsigned long long)e->clo, e->w); return buf; }
  if (e->op == O_VAR) return g_vars[e->aux].name;
  if (d <= 0) return "...";
  std::string s = "("; s += names[e->op];
  if (e->op == O_EXTRACT) { snprintf(buf, sizeof buf, "[%d+%d]", e->aux, e->w); s += buf; }
  else if (e->op == O_UF) { snprintf(buf, sizeof buf, "#%x", e->aux); s += buf; }
  else { snprintf(buf, sizeof buf, ":%d", e->w); s += buf; }
  if (e->a) s += " " + to_str(e->a, d - 1);
  if (e->b) s += " " + to_str(e->b, d - 1);
  if (e->c) s += " " + to_str(e->c, d - 1);
  return s + ")";
}
