// hsx: symbolic executor core structures.
#pragma once
#include "expr.h"
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <functional>
#include <set>

struct V { u64 c; Expr *e; };  // concrete value, or expression when e != nullptr
static inline V VC(u64 c) { return V{c, nullptr}; }
static inline V VE(Expr *e) { if (is_c(e) && e->w <= 64) return V{e->clo, nullptr}; return V{0, e}; }
static inline Expr *EX(const V &v, unsigned w) { if (v.e) { return v.e->w == w ? v.e : mk_zext(v.e, w); } return mk_const(v.c, w); }

// ---------------- memory ----------------
enum { PG = 4096 };
struct Sym { u64 raw[PG]; };               // per byte: Expr* | byte index within the expression (low 5 bits), 0 = concrete
struct Page { u32 ref; u32 nsym; Sym *sym; u8 d[PG]; };
struct Node { u32 ref; void *ch[512]; };
struct Region { u64 end; u8 committed; u8 kind; }; // kind: 1 image/global, 2 stack, 3 heap, 4 virtualalloc, 5 harness
extern u64 g_live_pages;
struct Fault { int kind; u64 addr; };

struct Mem {
  Node *root;
  std::shared_ptr<std::map<u64, Region>> regions;
};
struct TlbE { u64 page; Page *p; bool w; };
enum { TLBN = 1024 };
extern TlbE g_tlb[TLBN];
void tlb_flush();

// ---------------- IR ----------------
enum IOp : u8 {
  I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
  I_ICMP, I_ZEXT, I_SEXT, I_TRUNC, I_MOVE, I_SELECT, I_LOAD, I_STORE, I_GEPC, I_GEP1, I_GEPN, I_ALLOCA,
  I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_CALLX, I_CALLI, I_UNREACH,
  I_FADD, I_FSUB, I_FMUL, I_FDIV, I_FNEG, I_FCMP, I_SITOFP, I_UITOFP, I_FPTOSI, I_FPTOUI, I_FPTRUNC, I_FPEXT,
  I_CMPXCHG, I_ARMW, I_INTRIN, I_NOP, I_BAD, I_FREEZE,
};
struct PhiCopy { u32 dst; s32 src; };
struct Edge { u32 target; u32 nphi; PhiCopy *phi; };
struct SwitchInfo { Edge def; std::vector<u64> vals; std::vector<Edge> edges; std::unordered_map<u64, u32> idx; };
struct GepIdx { s32 op; u8 w; s64 scale; };
struct Func;
struct CallInfo { Func *f; std::vector<s32> args; std::vector<u8> aw; s32 callee; bool vararg; int ext; };
struct Instr {
  u8 op, w, w2, sub;
  u32 dst; s32 a, b, c;
  u64 imm;
  void *p;
  Edge *e0, *e1;
  u32 line; bool racy; u32 point; // accesses memory that one thread writes after another accessed it
};
struct Module;
struct Func {
  std::string name; Module *m; u32 idx; u64 addr; bool defined;
  std::vector<Instr> code; u32 nregs; u32 nargs; std::vector<u8> argw; std::vector<u8> argf; bool vararg; u8 retw; bool retf;
  bool visited; u64 calls; bool sret;
  void *llvm;
  int ext; // handler index for externals
};
struct Module {
  std::string name; std::vector<V> K; std::vector<Func*> funcs; u64 gbase, gend; 
  std::map<std::string, u64> globals; std::map<std::string, u64> gsize;
};
extern std::vector<Module*> g_modules;
extern std::vector<Func*> g_funcs;
extern std::map<std::string, Func*> g_func_by_name; // defined functions only
static const u64 FUNC_BASE = 0x7f0000000000ull;
static inline Func *func_at(u64 a) { if (a < FUNC_BASE || (a & 15)) return nullptr; u64 i = (a - FUNC_BASE) >> 4; return i < g_funcs.size() ? g_funcs[i] : nullptr; }

// ---------------- x86 state ----------------
struct XF { u8 kind; u8 w; V a, b, r; V zf, sf, cf, of, pf; }; // lazily evaluated flags (kind says how to derive them)
struct X86 {
  V r[16]; V x[16][2]; V xh[16][2]; u64 rip; XF f; V df; 
  u64 ret_sentinel; u64 cpu_addr; u64 rsp0; u64 steps; u64 budget; u64 watched;
};

// ---------------- threads and state ----------------
enum FKind : u8 { FK_IR, FK_X86, FK_COMPILE, FK_CB };
struct Frame {
  Func *f; u32 pc; u32 rbase; u64 sp; u64 va; s32 retdst; u8 kind; u8 retw; u32 xi; u64 aux; u64 aux2; u64 aux3;
  std::vector<V> *unused;
};
struct Thread {
  std::vector<Frame> fr; std::vector<V> regs; u64 sp; u64 stack_lo; std::vector<X86> x; int status; // 0 run, 1 wait, 2 done
  u32 wait_handle; int id; u32 handle;
};
struct File { std::vector<u8> d; std::vector<Expr*> s; };
struct Handle { int kind; std::string path; std::shared_ptr<File> f; u64 pos; std::vector<std::string> list; size_t li; std::string pat; int flag; bool manual; };
enum { H_FREE, H_FILE_R, H_FILE_W, H_STDOUT, H_FIND, H_EVENT, H_THREAD, H_REG, H_STDERR };
struct OS {
  std::map<std::string, std::shared_ptr<File>> vfs; std::vector<Handle> h; u32 last_error; u64 tick; u64 va_next; u64 heap_next;
  std::string cmdline; u64 cmdline_addr; std::vector<std::string> written;
  u64 wait_count = 0;
};
struct Note { std::string name; std::vector<u8> d; std::vector<Expr*> s; int kind; };
struct State {
  Mem mem; std::vector<Thread> th; int cur;
  std::vector<Expr*> cons; std::shared_ptr<Model> model;
  std::shared_ptr<OS> os;
  std::vector<std::shared_ptr<Note>> notes;
  std::vector<u32> trail; // choices made on this path
  std::vector<s64> forced; size_t forced_i; // pending forced choices (for re-execution after a fork / replay)
  u64 harness_next; u64 budget; u64 steps; u64 compile_mark; 
  u32 nsym; // symbolic variables created on this path (by name)
  std::vector<u32> symvars; std::vector<std::string> symnames;
  s64 task; int preempt_left; u64 depth; bool sched_on; u64 slice; u64 quantum, part_m, part_r, points; std::vector<u32> pcount; // schedule exploration: fairness quantum; at most about part_m choices per instruction (0: count only), part_r shifts the ones taken
  int last_fault; u64 last_fault_addr; u64 watch_lo = 0, watch_hi = 0; Func *watch_fn = nullptr;
};

OS &os_mut(State &S);

// exceptions used for control transfer inside one instruction
struct PathEnd { int kind; };      // path finished / infeasible
struct EngineError { std::string msg; };
struct MemFault { u64 addr; bool write; };

// memory api
void mem_init(Mem &m);
void mem_clone(Mem &dst, const Mem &src);
void mem_free(Mem &m);
Page *mem_page(State &S, u64 addr, bool write);
V mem_load(State &S, u64 addr, unsigned bytes);
void mem_store(State &S, u64 addr, unsigned bytes, const V &v);
void mem_copy(State &S, u64 dst, u64 src, u64 n);
void mem_set(State &S, u64 dst, const V &b, u64 n);
u8 mem_r8(State &S, u64 a); u64 mem_rc(State &S, u64 a, unsigned n); // concretising is an error
void mem_w(State &S, u64 a, const void *p, u64 n);
void mem_map(State &S, u64 a, u64 n, u8 kind, bool committed = true);
void mem_unmap(State &S, u64 a);
std::string mem_cstr(State &S, u64 a);
void mem_get(State &S, u64 a, u64 n, std::vector<u8> &d, std::vector<Expr*> &s);
void mem_put(State &S, u64 a, const File &f, u64 off, u64 n);

// solver api
enum Sat { UNSAT, SAT, UNK };
struct Stats {
  u64 queries = 0, sat = 0, unsat = 0, unk = 0, cache_hits = 0, model_hits = 0, syntactic = 0; double solver_s = 0, max_q = 0;
  u64 paths = 0, forks = 0, ir_instr = 0, x86_instr = 0, checks = 0, checks_trivial = 0, checks_solver = 0, violations = 0, undecided = 0, infeasible = 0, compiles = 0, calls = 0, tasks = 0, spurious = 0, truncated = 0, reach = 0;
};
extern Stats ST;
Sat solve(const std::vector<Expr*> &cons, Expr *extra, const Model *base, Model *out);
extern unsigned g_solver_timeout_ms;

// executor
struct Exec;
extern State *g_cur;
V sym_strtod(State &S, u64 p, u64 &len);
bool decide(State &S, Expr *cond);                 // forks when both sides are feasible
u64 concretize(State &S, const V &v, unsigned w, int limit = 1 << 20);  // forks over values
void add_constraint(State &S, Expr *c);
State *state_clone(State &S);
void state_free(State *S);
void push_state(State *S);
void report_violation(State &S, const std::string &msg, Model *m);
void do_check(State &S, Expr *cond, const std::string &msg);
void run_state(State *S);

// win
typedef bool (*ExtFn)(State &S, CallInfo *ci, V *args, unsigned n, V &ret); // return false: do not advance (instruction re-executed / control moved)
int ext_index(const std::string &name);
bool ext_call(int idx, State &S, CallInfo *ci, V *args, unsigned n, V &ret);
const char *ext_name(int idx);

// x86
void x86_step_loop(State &S);
void x86_enter(State &S, u64 cpu, u64 target, u64 budget);

static inline Thread &cur_thread(State &S) { return S.th[S.cur]; }
void push_frame(State &S, Func *f, const V *args, unsigned n, s32 retdst, u64 va);
void do_return(State &S, V r);
void compile_finish(State &S, s64 code, int kind, u64 info);
void schedule_point(State &S, int kind);
bool load_module(const std::string &path, const std::string &name);
void init_globals(State &S);
void handle_fault(State &S, int kind, u64 addr);
struct Cfg { bool verbose = false, trace = false; std::string prop, outdir, module_bc; double deadline = 1e18; std::vector<s64> forced; bool replay = false; std::map<std::string,u64> replay_vals; s64 only_task = -1; u64 max_paths = ~0ull; int max_viol = 3; std::string root_dir; std::vector<std::string> args; u64 task_budget=0; u64 task_seconds=0; };
extern Cfg CFG;
double now_s();
enum { FAULT_NONE, FAULT_AV, FAULT_DIV, FAULT_UNREACH, FAULT_BUDGET, FAULT_TRAP, FAULT_BADINS, FAULT_DEADLOCK, FAULT_ALIGN, FAULT_STACK };
