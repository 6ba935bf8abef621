// Interface between the harnesses and the symbolic executor.
#pragma once
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
typedef signed char s8; typedef short s16; typedef int s32; typedef long long s64; typedef u64 uptr;
u64 hs_sym(const char *name, u32 bits);
u32 hs_choice(u32 n);
u64 hs_strtod(const char *s); // bits of the double
u32 hs_task(u32 n);
void hs_assume(int c);
void hs_check(int c, const char *msg);
void hs_check_mem(const void *a, const void *b, u64 n, const char *msg);
void hs_reach(const char *label);
void hs_sample(const void *p, u64 n);
void hs_note(const char *name, const void *p, u64 n);
__attribute__((noreturn)) void hs_skip(void);
__attribute__((noreturn)) void hs_fail(const char *msg);
__attribute__((noreturn)) void hs_error(const char *msg);
void hs_puts(const char *s); void hs_putx(u64 v);
u64 hs_conc(u64 v); int hs_is_sym(u64 v); u64 hs_select(u64 c, u64 a, u64 b);
void *hs_alloc(u64 n); void *hs_map_at(u64 addr, u64 n); void hs_unmap(void *p);
void hs_load_host(const char *name, const char *host); void hs_dump(void);
void hs_file(const char *name, const void *p, u64 n); void hs_file_del(const char *name); u64 hs_file_size(const char *name); void hs_file_get(const char *name, void *p, u64 n);
u64 hs_stdout(void *p, u64 cap);
void *hs_func(const char *name);
u32 hs_last_fault(void); u64 hs_fault_addr(void); u64 hs_steps(void); void hs_budget(u64 n); void hs_sched(u64 preemptions, u64 quantum, u64 m, u64 r); u64 hs_points(u64 k);
int hs_arg(u32 i, char *buf);
u64 hs_invoke(void *fn, u64 *slots, u32 n);
u64 hs_invoke_fp(void *fn, u64 *slots, u32 n);
struct cpu { u64 gpr[16]; u64 rflags, rip; u8 xmm[16][16]; };
enum { RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI, R8, R9, R10, R11, R12, R13, R14, R15 };
int hs_call(struct cpu *c, u64 rip, u64 budget);
void hs_watch(u64 lo, u64 hi, void (*watch_fn)(struct cpu *)); // watch_fn runs before every instruction of compiled code in [lo, hi)
int hs_compile(const char *cmdline, u64 budget);
enum { FAULT_NONE, FAULT_AV, FAULT_DIV, FAULT_UNREACH, FAULT_BUDGET, FAULT_TRAP, FAULT_BADINS, FAULT_DEADLOCK, FAULT_ALIGN, FAULT_STACK };
