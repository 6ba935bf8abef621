// Hash-consed bit-vector expressions with a canonicalising simplifier.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64;
typedef unsigned __int128 u128; typedef __int128 s128;

enum Op : u8 {
  O_CONST, O_VAR,
  O_ADD, O_NEG, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_NOT, O_SHL, O_LSHR, O_ASHR,
  O_CONCAT, O_EXTRACT, O_SEXT, O_ITE,
  O_EQ, O_ULT, O_SLT,
  O_UF, // uninterpreted function: aux = function id, up to three arguments
};

struct alignas(32) Expr {
  Op op; u8 w; u16 nvars_hint; u32 id; u32 hash; u32 aux; // aux: extract lo / var index / uf id
  u64 clo, chi;
  Expr *a, *b, *c;
  u128 cv() const { return ((u128)chi << 64) | clo; }
};

enum UF : u32 { UF_FADD=1, UF_FSUB, UF_FMUL, UF_FDIV, UF_FSQRT, UF_SITOFP, UF_UITOFP, UF_FPTOSI, UF_FPTOUI, UF_FPTRUNC, UF_FPEXT, UF_MISC=64 };
// UF aux = kind | (argwidth<<8) | (extra<<16)

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~(u64)0 : (((u64)1 << w) - 1); }
static inline s64 sx64(u64 v, unsigned w) { return w >= 64 ? (s64)v : (s64)(v << (64 - w)) >> (64 - w); }
static inline s128 sx128(u128 v, unsigned w) { return w >= 128 ? (s128)v : (s128)(v << (128 - w)) >> (128 - w); }

struct VarInfo { std::string name; u8 w; };
extern std::vector<VarInfo> g_vars;
extern std::vector<Expr*> g_var_exprs;
extern u32 g_next_id;

Expr *mk_const(u128 v, unsigned w);
Expr *mk_var(const std::string &name, unsigned w);
Expr *mk_var_idx(u32 idx);
Expr *mk_add(Expr *a, Expr *b);
Expr *mk_neg(Expr *a);
Expr *mk_sub(Expr *a, Expr *b);
Expr *mk_mul(Expr *a, Expr *b);
Expr *mk_udiv(Expr *a, Expr *b);
Expr *mk_sdiv(Expr *a, Expr *b);
Expr *mk_urem(Expr *a, Expr *b);
Expr *mk_srem(Expr *a, Expr *b);
Expr *mk_and(Expr *a, Expr *b);
Expr *mk_or(Expr *a, Expr *b);
Expr *mk_xor(Expr *a, Expr *b);
Expr *mk_not(Expr *a);
Expr *mk_shl(Expr *a, Expr *b);
Expr *mk_lshr(Expr *a, Expr *b);
Expr *mk_ashr(Expr *a, Expr *b);
Expr *mk_concat(Expr *hi, Expr *lo);
Expr *mk_extract(Expr *e, unsigned lo, unsigned w);
Expr *mk_zext(Expr *e, unsigned w);
Expr *mk_sext(Expr *e, unsigned w);
Expr *mk_ite(Expr *c, Expr *a, Expr *b);
Expr *mk_eq(Expr *a, Expr *b);
Expr *mk_ult(Expr *a, Expr *b);
Expr *mk_slt(Expr *a, Expr *b);
Expr *mk_uf(u32 id, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr);
static inline Expr *mk_ule(Expr *a, Expr *b) { return mk_not(mk_ult(b, a)); }
static inline Expr *mk_sle(Expr *a, Expr *b) { return mk_not(mk_slt(b, a)); }
static inline bool is_c(Expr *e) { return e->op == O_CONST; }
static inline bool is_c(Expr *e, u128 v) { return e->op == O_CONST && e->cv() == v; }
static inline Expr *mk_bool(bool b) { return mk_const(b, 1); }

std::string to_str(Expr *e, int depth = 6);
u128 fold_uf(u32 id, unsigned w, u128 a, u128 b, u128 c, bool &ok);

// FP comparison as exact bit-vector formulas
Expr *fp_isnan(Expr *a);
Expr *fp_oeq(Expr *a, Expr *b);
Expr *fp_olt(Expr *a, Expr *b);
Expr *fp_uno(Expr *a, Expr *b);

// evaluation under an assignment (var idx -> value); missing = 0
struct Model { std::vector<u64> v; u64 get(u32 i) const { return i < v.size() ? v[i] : 0; } };
struct Evaluator {
  const Model *m; std::unordered_map<u32, u128> memo;
  std::unordered_map<std::string,u64> *ufm=nullptr;
  bool uf_seen=false;
  Evaluator(const Model *m) : m(m) {}
  u128 eval(Expr *e);
};
const std::vector<u32> &vars_of(Expr *e);
bool has_uf(Expr *e);
