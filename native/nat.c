// Native replay: runs a harness as machine code against the real compiler (under wine) and the real code it emits,
// with the values and choices of a trace or counterexample recorded by the symbolic executor.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <errno.h>
#include <dirent.h>
#include <strings.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t s64;
#define MS __attribute__((ms_abi))
enum { FAULT_NONE, FAULT_AV, FAULT_DIV, FAULT_UNREACH, FAULT_BUDGET, FAULT_TRAP, FAULT_BADINS, FAULT_DEADLOCK, FAULT_ALIGN, FAULT_STACK };
static void die(const char *m, const char *n) { printf("ERROR %s %s\n", m, n ? n : ""); fflush(stdout); _exit(3); }
// ---- recorded values ----
static s64 g_task = -1; static u32 g_choice[65536]; static int g_nchoice, g_ichoice; static struct { char n[256]; u64 v; } *g_var; static int g_nvar; static char g_msgs[2048];
static struct { char n[256]; u64 h; } g_outh[64]; static int g_nouth; static const char *g_work, *g_exe; static char g_names[4096][64]; static int g_nnames;
static char *g_args[32]; static int g_nargs; static int g_checks;
// ---- symbols ----
static struct sym { char n[512]; u64 a; } *g_sym; static int g_nsym;
static int g_symhash[1 << 18]; // index + 1
static int *sym_slot(const char *n) { u32 h = 2166136261u; for (const char *c = n; *c; c++) h = (h ^ (u8)*c) * 16777619u; for (h &= (1 << 18) - 1;; h = (h + 1) & ((1 << 18) - 1)) if (!g_symhash[h] || !strcmp(g_sym[g_symhash[h] - 1].n, n)) return &g_symhash[h]; }
static u64 find_symbol(const char *n) { int *s = sym_slot(n); return *s ? g_sym[*s - 1].a : 0; }
static void add_symbol(const char *n, u64 a) { if (strlen(n) > 511 || g_nsym >= 200000) die("symbol table", n); int *s = sym_slot(n); if (*s) return; *s = g_nsym + 1; if (!(g_nsym & g_nsym - 1)) g_sym = realloc(g_sym, (g_nsym ? 2 * g_nsym : 1) * sizeof *g_sym); strncpy(g_sym[g_nsym].n, n, 511); g_sym[g_nsym].n[511] = 0; g_sym[g_nsym++].a = a; }
// ---- files ----
static void vpath(char *out, const char *n) { // name inside the scratch directory
  char t[1024]; snprintf(t, sizeof t, "%s", n); for (char *c = t; *c; c++) if (*c == '\\') *c = '/';
  if (t[0] == 'Z' && t[1] == ':') snprintf(out, 2048, "%s", t + 2); else snprintf(out, 2048, "%s/%s", g_work, t);
  struct stat st; if (stat(out, &st)) { // case-insensitive in the last component
    char *sl = strrchr(out, '/'); *sl = 0; DIR *d = opendir(out); *sl = '/'; if (d) { struct dirent *e; while ((e = readdir(d))) if (!strcasecmp(e->d_name, sl + 1)) { strcpy(sl + 1, e->d_name); break; } closedir(d); } }
}
static void mkdirs(const char *p) { char t[2048]; strcpy(t, p); for (char *c = t + strlen(g_work) + 1; *c; c++) if (*c == '/') { *c = 0; mkdir(t, 0777); *c = '/'; } }
static u8 *slurp(const char *p, u64 *n) { FILE *f = fopen(p, "rb"); if (!f) return NULL; fseek(f, 0, SEEK_END); *n = ftell(f); rewind(f); u8 *b = malloc(*n + 1); *n = fread(b, 1, *n, f); fclose(f); b[*n] = 0; return b; }
// ---- harness interface ----
MS static u64 hs_sym(const char *name, u32 bits) {
  char nm[256]; snprintf(nm, sizeof nm, "%s", name); int k = 0; for (;;) { int hit = 0; for (int i = 0; i < g_nnames; i++) if (!strcmp(g_names[i], nm)) { hit = 1; break; } if (!hit) break; snprintf(nm, sizeof nm, "%s#%d", name, ++k); }
  if (g_nnames < 4096) snprintf(g_names[g_nnames++], 64, "%s", nm);
  u64 m = bits >= 64 ? ~0ull : (1ull << bits) - 1; for (int i = 0; i < g_nvar; i++) if (!strcmp(g_var[i].n, nm)) return g_var[i].v & m; return 0;
}
MS static u64 hs_strtod(const char *s) { double d = strtod(s, NULL); u64 v; memcpy(&v, &d, 8); return v; }
MS static u32 hs_choice(u32 n) { if (g_ichoice < g_nchoice) return g_choice[g_ichoice++]; return 0; }
MS static u32 hs_task(u32 n) { return g_task < 0 ? 0 : g_task; }
static void finish(int rc) { fflush(stdout); _exit(rc); }
MS static void hs_assume(int c) { if (!c) { printf("ASSUME-FALSE\n"); finish(4); } }
MS static void hs_check(int c, const char *msg) { g_checks++; if (!c) { printf("REPRODUCED %s\n", msg); finish(1); } }
MS static void hs_check_mem(const void *a, const void *b, u64 n, const char *msg) { hs_check(!memcmp(a, b, n), msg); }
MS static void hs_reach(const char *l) {}
MS static void hs_sample(const void *p, u64 n) {}
MS static void hs_note(const char *nm, const void *p, u64 n) {}
MS static void hs_skip(void) { printf("SKIPPED\n"); finish(0); }
MS static void hs_fail(const char *m) { hs_check(0, m); }
MS static void hs_error(const char *m) { die("harness:", m); }
MS static void hs_puts(const char *s) { fputs(s, stderr); }
MS static void hs_putx(u64 v) { fprintf(stderr, "0x%llx", (unsigned long long)v); }
MS static u64 hs_conc(u64 v) { return v; }
MS static int hs_is_sym(u64 v) { return 0; }
MS static u64 hs_select(u64 c, u64 a, u64 b) { return c ? a : b; }
static u64 g_next = 0x300000000000ull;
MS static void *hs_alloc(u64 k) { u64 sz = (k + 4095) / 4096 * 4096 + 4096, p = g_next; g_next += sz + 4 * 4096; void *q = mmap((void*)p, sz, 7, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0); if (q != (void*)p) die("mmap", "alloc"); return (void*)(p + ((sz - k) & ~15ull)); }
MS static void *hs_map_at(u64 a, u64 n) { void *q = mmap((void*)a, (n + 4095) & ~4095ull, 7, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0); if (q != (void*)a) die("mmap", "map_at"); return q; }
MS static void hs_unmap(void *p) { }
MS static void hs_file(const char *name, const void *p, u64 n) { char t[2048]; vpath(t, name); mkdirs(t); FILE *f = fopen(t, "wb"); if (!f) die("hs_file", t); fwrite(p, 1, n, f); fclose(f); }
MS static void hs_file_del(const char *name) { char t[2048]; vpath(t, name); unlink(t); }
MS static u64 hs_file_size(const char *name) { char t[2048]; vpath(t, name); struct stat st; return stat(t, &st) ? ~0ull : (u64)st.st_size; }
MS static void hs_file_get(const char *name, void *p, u64 n) { char t[2048]; vpath(t, name); u64 k; u8 *b = slurp(t, &k); if (!b) die("hs_file_get", name); memcpy(p, b, k < n ? k : n); free(b); }
MS static u64 hs_stdout(void *p, u64 cap) { char t[2048]; snprintf(t, sizeof t, "%s/.stdout", g_work); u64 k; u8 *b = slurp(t, &k); if (!b) return 0; if (p) memcpy(p, b, k < cap ? k : cap); free(b); return k; }
MS static void hs_load_host(const char *name, const char *host) { u64 k; u8 *b = slurp(host, &k); if (!b) die("hs_load_host", host); char t[2048]; vpath(t, name); mkdirs(t); FILE *f = fopen(t, "wb"); fwrite(b, 1, k, f); fclose(f); free(b); }
MS static void hs_dump(void) {}
MS static int hs_arg(u32 i, char *buf) { if (i >= (u32)g_nargs) { *buf = 0; return 0; } strcpy(buf, g_args[i]); return 1; }
MS static u64 hs_steps(void) { return 0; } MS static void hs_budget(u64 n) {} MS static void hs_sched(u32 n) {}
static u32 g_fault; static u64 g_faultaddr;
MS static u32 hs_last_fault(void) { return g_fault; } MS static u64 hs_fault_addr(void) { return g_faultaddr; }
// ---- callbacks: code under test calls cb_* functions with its register file ----
struct cpu { u64 gpr[16]; u64 rflags, rip; u8 xmm[16][16]; };
struct cb { struct cpu c; u64 fn; };
__asm__(".text\n.globl cb_enter\ncb_enter:\n" // r11 = handler, original r11 is lost (volatile); return address on the stack
  "  pushfq\n  cld\n  subq $400, %rsp\n"
  "  movq %rax, 0(%rsp)\n movq %rcx, 8(%rsp)\n movq %rdx, 16(%rsp)\n movq %rbx, 24(%rsp)\n movq %rbp, 40(%rsp)\n movq %rsi, 48(%rsp)\n movq %rdi, 56(%rsp)\n"
  "  movq %r8, 64(%rsp)\n movq %r9, 72(%rsp)\n movq %r10, 80(%rsp)\n movq %r11, 88(%rsp)\n movq %r12, 96(%rsp)\n movq %r13, 104(%rsp)\n movq %r14, 112(%rsp)\n movq %r15, 120(%rsp)\n"
  "  leaq 408(%rsp), %rax\n movq %rax, 32(%rsp)\n movq 400(%rsp), %rax\n movq %rax, 128(%rsp)\n movq 408(%rsp), %rax\n movq %rax, 136(%rsp)\n"
  "  movups %xmm0, 144(%rsp)\n movups %xmm1, 160(%rsp)\n movups %xmm2, 176(%rsp)\n movups %xmm3, 192(%rsp)\n movups %xmm4, 208(%rsp)\n movups %xmm5, 224(%rsp)\n movups %xmm6, 240(%rsp)\n movups %xmm7, 256(%rsp)\n movups %xmm8, 272(%rsp)\n movups %xmm9, 288(%rsp)\n movups %xmm10, 304(%rsp)\n movups %xmm11, 320(%rsp)\n movups %xmm12, 336(%rsp)\n movups %xmm13, 352(%rsp)\n movups %xmm14, 368(%rsp)\n movups %xmm15, 384(%rsp)\n"
  "  movq %rsp, %rcx\n movq %r11, %rdx\n movq %rsp, %rbx\n subq $64, %rsp\n andq $-16, %rsp\n call cb_run\n movq %rbx, %rsp\n"
  "  movups 144(%rsp), %xmm0\n movups 160(%rsp), %xmm1\n movups 176(%rsp), %xmm2\n movups 192(%rsp), %xmm3\n movups 208(%rsp), %xmm4\n movups 224(%rsp), %xmm5\n movups 240(%rsp), %xmm6\n movups 256(%rsp), %xmm7\n movups 272(%rsp), %xmm8\n movups 288(%rsp), %xmm9\n movups 304(%rsp), %xmm10\n movups 320(%rsp), %xmm11\n movups 336(%rsp), %xmm12\n movups 352(%rsp), %xmm13\n movups 368(%rsp), %xmm14\n movups 384(%rsp), %xmm15\n"
  "  movq 0(%rsp), %rax\n movq 8(%rsp), %rcx\n movq 16(%rsp), %rdx\n movq 24(%rsp), %rbx\n movq 40(%rsp), %rbp\n movq 48(%rsp), %rsi\n movq 56(%rsp), %rdi\n"
  "  movq 64(%rsp), %r8\n movq 72(%rsp), %r9\n movq 80(%rsp), %r10\n movq 88(%rsp), %r11\n movq 96(%rsp), %r12\n movq 104(%rsp), %r13\n movq 112(%rsp), %r14\n movq 120(%rsp), %r15\n"
  "  addq $400, %rsp\n popfq\n ret\n");
extern char cb_enter[];
__attribute__((used)) MS void cb_run(struct cpu *c, u64 fn) {
  u64 rsp = c->gpr[4]; u64 before[8]; // rsp as seen by the callee: at the return address
  ((MS void (*)(struct cpu*))fn)(c); (void)rsp; (void)before;
}
static u8 *g_thunk; static int g_nthunk;
static u64 make_thunk(u64 fn) { u8 *p = g_thunk + 32 * g_nthunk++; p[0] = 0x49; p[1] = 0xbb; memcpy(p + 2, &fn, 8); p[10] = 0xff; p[11] = 0x25; p[12] = p[13] = p[14] = p[15] = 0; u64 t = (u64)cb_enter; memcpy(p + 16, &t, 8); return (u64)p; }
MS static void *hs_func(const char *name) { u64 a = find_symbol(name); if (!a) return 0; if (!strncmp(name, "cb_", 3)) { static struct { char n[64]; u64 t; } c[256]; static int n; for (int i = 0; i < n; i++) if (!strcmp(c[i].n, name)) return (void*)c[i].t; if (n < 256) { snprintf(c[n].n, 64, "%s", name); c[n].t = make_thunk(a); return (void*)c[n++].t; } } return (void*)a; }
// ---- calls into the code under test ----
__asm__(".text\n.globl ht_call\nht_call:\n" // ht_call(cpu*, rip, save) sysv
  " pushq %rbx\n pushq %rbp\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n pushq %rdi\n movq %rsp, g_hostsp(%rip)\n"
  " movq %rsi, g_target(%rip)\n movq %rdi, %rax\n"
  " movups 144(%rax), %xmm0\n movups 160(%rax), %xmm1\n movups 176(%rax), %xmm2\n movups 192(%rax), %xmm3\n movups 208(%rax), %xmm4\n movups 224(%rax), %xmm5\n movups 240(%rax), %xmm6\n movups 256(%rax), %xmm7\n movups 272(%rax), %xmm8\n movups 288(%rax), %xmm9\n movups 304(%rax), %xmm10\n movups 320(%rax), %xmm11\n movups 336(%rax), %xmm12\n movups 352(%rax), %xmm13\n movups 368(%rax), %xmm14\n movups 384(%rax), %xmm15\n"
  " movq 8(%rax), %rcx\n movq 16(%rax), %rdx\n movq 24(%rax), %rbx\n movq 32(%rax), %rsp\n movq 40(%rax), %rbp\n movq 48(%rax), %rsi\n movq 56(%rax), %rdi\n movq 64(%rax), %r8\n movq 72(%rax), %r9\n movq 80(%rax), %r10\n movq 88(%rax), %r11\n movq 96(%rax), %r12\n movq 104(%rax), %r13\n movq 112(%rax), %r14\n movq 120(%rax), %r15\n movq 0(%rax), %rax\n"
  " cmpb $0, g_tf(%rip)\n je 1f\n movq %rax, g_rax(%rip)\n pushfq\n popq %rax\n orq $0x100, %rax\n pushq %rax\n movq g_rax(%rip), %rax\n popfq\n"
  "1: call *g_target(%rip)\nht_call_from:\n"
  " movq %rax, g_rax(%rip)\n movq %rsp, g_rsp(%rip)\n movq g_hostsp(%rip), %rsp\n popq %rax\n"
  " movq %rcx, 8(%rax)\n movq %rdx, 16(%rax)\n movq %rbx, 24(%rax)\n movq %rbp, 40(%rax)\n movq %rsi, 48(%rax)\n movq %rdi, 56(%rax)\n movq %r8, 64(%rax)\n movq %r9, 72(%rax)\n movq %r10, 80(%rax)\n movq %r11, 88(%rax)\n movq %r12, 96(%rax)\n movq %r13, 104(%rax)\n movq %r14, 112(%rax)\n movq %r15, 120(%rax)\n"
  " movq g_rsp(%rip), %rcx\n movq %rcx, 32(%rax)\n movq g_rax(%rip), %rcx\n movq %rcx, 0(%rax)\n pushfq\n popq %rcx\n movq %rcx, 128(%rax)\n cld\n"
  " movups %xmm0, 144(%rax)\n movups %xmm1, 160(%rax)\n movups %xmm2, 176(%rax)\n movups %xmm3, 192(%rax)\n movups %xmm4, 208(%rax)\n movups %xmm5, 224(%rax)\n movups %xmm6, 240(%rax)\n movups %xmm7, 256(%rax)\n movups %xmm8, 272(%rax)\n movups %xmm9, 288(%rax)\n movups %xmm10, 304(%rax)\n movups %xmm11, 320(%rax)\n movups %xmm12, 336(%rax)\n movups %xmm13, 352(%rax)\n movups %xmm14, 368(%rax)\n movups %xmm15, 384(%rax)\n"
  " popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbp\n popq %rbx\n ret\nht_call_end:\n"
  ".data\ng_tf: .byte 0\n.globl g_hostsp\ng_hostsp: .quad 0\n.globl g_tf\n.globl ht_call_from\n.globl ht_call_end\ng_target: .quad 0\ng_rax: .quad 0\ng_rsp: .quad 0\n.text\n");
extern u64 g_hostsp; extern char g_tf; void ht_call(struct cpu*, u64);
static sigjmp_buf *g_jb; static volatile int g_incall;
static u64 g_wlo, g_whi; static MS void (*g_wfn)(struct cpu *); extern char ht_call_end[]; void ht_call_from(void);
static void on_signal(int sig, siginfo_t *si, void *uc_) {
  ucontext_t *uc = uc_;
  if (sig == SIGTRAP && g_wfn && g_incall && si->si_code == TRAP_TRACE) { // single step
    greg_t *g = uc->uc_mcontext.gregs; u64 ip = g[REG_RIP];
    if (ip >= (u64)ht_call_from && ip < (u64)ht_call_end) { g[REG_EFL] &= ~0x100ll; return; }
    if (ip - g_wlo < g_whi - g_wlo) { struct cpu c; static const int m[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15}; for (int i = 0; i < 16; i++) c.gpr[i] = g[m[i]]; c.rip = ip; c.rflags = g[REG_EFL] & ~0x100ull; memcpy(c.xmm, uc->uc_mcontext.fpregs->_xmm, 256); g_wfn(&c); }
    return; }
  if (!g_incall || !g_jb) { printf("ERROR signal %d outside the code under test\n", sig); fflush(stdout); _exit(3); }
  g_faultaddr = (u64)si->si_addr; u64 rip = uc->uc_mcontext.gregs[REG_RIP]; int f = FAULT_AV;
  if (sig == SIGFPE) f = FAULT_DIV; else if (sig == SIGILL) f = FAULT_BADINS; else if (sig == SIGTRAP) f = FAULT_TRAP; else if (sig == SIGALRM) f = FAULT_BUDGET;
  else if (sig == SIGSEGV && si->si_code == SI_KERNEL && g_faultaddr == 0) { u8 *p = (u8*)rip; (void)p; f = FAULT_AV; }
  g_fault = f; siglongjmp(*g_jb, 1);
}
static void arm(int secs) { struct itimerval t = {{0, 0}, {secs, 0}}; setitimer(ITIMER_REAL, &t, NULL); }
MS static int hs_call(struct cpu *c, u64 rip, u64 budget) {
  sigjmp_buf jb, *old = g_jb; int oi = g_incall; u64 osp = g_hostsp; g_fault = 0;
  if (sigsetjmp(jb, 1)) { arm(0); g_jb = old; g_incall = oi; g_hostsp = osp; return g_fault; }
  g_jb = &jb; g_incall = 1; arm(8); ht_call(c, rip); arm(0); g_jb = old; g_incall = oi; g_hostsp = osp; return 0;
}
typedef MS u64 (*F24)(u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64);
static u64 invoke(u64 fn, u64 *s, u32 n, int fp) {
  struct cpu c; memset(&c, 0, sizeof c); u64 k = n < 4 ? 4 : n; u64 *st; static u8 *stack; if (!stack) stack = mmap(NULL, 1 << 20, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); static int depth; u64 top = (u64)stack + (1 << 20) - 65536 * depth - 512 - 8 * k; top &= ~15ull; st = (u64*)top; depth++;
  for (u32 i = 0; i < n; i++) st[i] = s[i]; static const u8 ord[4] = {1, 2, 8, 9}; for (u32 i = 0; i < 4 && i < n; i++) { c.gpr[ord[i]] = s[i]; memcpy(c.xmm[i], &s[i], 8); }
  c.gpr[4] = top; c.rflags = 2; int f = hs_call(&c, fn, 0); depth--; g_fault = f; if (f) return 0; u64 r; if (fp) memcpy(&r, c.xmm[0], 8); else r = c.gpr[0]; return r;
}
MS static void hs_watch(u64 lo, u64 hi, void *fn) { g_wlo = lo; g_whi = hi; g_wfn = fn; g_tf = fn != 0; }
MS static u64 hs_invoke(void *fn, u64 *s, u32 n) { return invoke((u64)fn, s, n, 0); }
MS static u64 hs_invoke_fp(void *fn, u64 *s, u32 n) { return invoke((u64)fn, s, n, 1); }
// ---- the compiler ----
static u64 fnv(const u8 *p, u64 n) { u64 h = 1469598103934665603ull; for (u64 i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull; return h; }
MS static int hs_compile(const char *cmd, u64 budget) {
  char *argv[256]; int n = 0; char *buf = strdup(cmd), *p = buf; argv[n++] = "wine"; argv[n++] = (char*)g_exe; int first = 1;
  while (*p && n < 250) { while (*p == ' ' || *p == '\t') p++; if (!*p) break; char *o = p, *s = p; int q = 0; while (*p && (q || (*p != ' ' && *p != '\t'))) { if (*p == '"') { q = !q; p++; } else *o++ = *p++; } if (*p) p++; *o = 0; if (!first) argv[n++] = s; first = 0; }
  argv[n] = NULL; char so[2048]; snprintf(so, sizeof so, "%s/.stdout", g_work);
  pid_t pid = fork();
  if (!pid) { setpgid(0, 0); if (chdir(g_work)) _exit(99); int fd = open(so, O_WRONLY | O_CREAT | O_TRUNC, 0666), nl = open("/dev/null", O_RDWR); dup2(nl, 0); dup2(fd, 1); dup2(nl, 2); for (int i = 3; i < 64; i++) close(i); execvp("wine", argv); _exit(99); }
  int st; for (int i = 0;; i++) { pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) break; if (i > 6000) { kill(-pid, SIGKILL); waitpid(pid, &st, 0); return -1000 - FAULT_BUDGET; } usleep(5000); }
  int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 5; if (rc == 99) die("wine", cmd);
  if (rc == 5) return -1000 - FAULT_AV; if (rc == 0x94) return -1000 - FAULT_DIV; if (rc == 3) return -1000 - FAULT_TRAP; if (rc == 0x1d) return -1000 - FAULT_BADINS; if (rc == 0xfd) return -1000 - FAULT_STACK;
  return rc;
}
// ---- loading COFF modules (clang output) ----
struct __attribute__((packed)) chdr { u16 m, ns; u32 t, sp, nsym; u16 o, f; }; struct __attribute__((packed)) csec { char n[8]; u32 vs, va, sz, ptr, rel, ln; u16 nr, nl; u32 fl; }; struct __attribute__((packed)) csym { union { char n[8]; u32 z[2]; }; u32 v; int16_t s; u16 t; u8 c, na; };
struct __attribute__((packed)) crel { u32 va, sym; u16 t; };
struct mod { u8 *f; u64 n; u64 *base; };
static u8 *g_low, *g_lowend; // module memory, below 2 GiB
static u64 low(u64 n) { u64 p = ((u64)g_low + 63) & ~63ull; if ((u8*)(p + n) > g_lowend) die("module memory", ""); g_low = (u8*)(p + n); return p; }
static void symname(struct mod *m, struct csym *s, char *o) { struct chdr *h = (void*)m->f; if (!s->z[0]) { snprintf(o, 512, "%s", (char*)m->f + h->sp + 18ull * h->nsym + s->z[1]); } else { memcpy(o, s->n, 8); o[8] = 0; } }
static void load1(struct mod *m, const char *path) {
  m->f = slurp(path, &m->n); if (!m->f) die("cannot read", path); struct chdr *h = (void*)m->f; struct csec *S = (void*)(m->f + 20); struct csym *Y = (void*)(m->f + h->sp); if (h->m != 0x8664) die("not an object file this loader knows", path); m->base = calloc(h->ns + 1, 8);
  for (int i = 0; i < h->ns; i++) { if (S[i].fl & 0x02000200 && (S[i].fl & 0x200 || S[i].fl & 0x02000000)) continue; m->base[i] = low(S[i].sz ? S[i].sz : 1); if (!(S[i].fl & 0x80) && S[i].ptr) memcpy((void*)m->base[i], m->f + S[i].ptr, S[i].sz); else memset((void*)m->base[i], 0, S[i].sz); }
  char nm[600]; for (u32 i = 0; i < h->nsym; i += 1 + Y[i].na) { struct csym *s = Y + i; if (s->c != 2 && s->c != 105) continue; symname(m, s, nm); if (s->s > 0 && m->base[s->s - 1]) add_symbol(nm, m->base[s->s - 1] + s->v); else if (s->s == 0 && s->v && s->c == 2) { if (!find_symbol(nm)) { u64 a = low(s->v); memset((void*)a, 0, s->v); add_symbol(nm, a); } } else if (s->s == -1) add_symbol(nm, s->v); }
}
static void link1(struct mod *m) {
  struct chdr *h = (void*)m->f; struct csec *S = (void*)(m->f + 20); struct csym *Y = (void*)(m->f + h->sp); char nm[600];
  for (int i = 0; i < h->ns; i++) { if (!m->base[i]) continue; struct crel *r = (void*)(m->f + S[i].rel); u32 nr = S[i].nr; if ((S[i].fl & 0x01000000) && nr == 0xffff) { nr = r->va - 1; r++; }
    for (u32 k = 0; k < nr; k++, r++) { struct csym *s = Y + r->sym; symname(m, s, nm); u64 a = 0; if (s->c == 2 || s->c == 105) a = find_symbol(nm); if (!a && s->s > 0) { if (!m->base[s->s - 1]) continue; a = m->base[s->s - 1] + s->v; }
      if (!a && !strncmp(nm, "__imp_", 6)) { u64 t = find_symbol(nm + 6); if (t) { a = low(8); *(u64*)a = t; add_symbol(nm, a); } }
      if (!a) { if (S[i].fl & 0x20000000 || 1) { extern char undef_stub[]; a = (u64)undef_stub; if (getenv("NAT_VERBOSE")) fprintf(stderr, "undefined %s\n", nm); } }
      u64 at = m->base[i] + r->va; switch (r->t) { case 1: *(u64*)at += a; break; case 2: case 3: *(u32*)at += (u32)a; break; case 4: case 5: case 6: case 7: case 8: case 9: *(u32*)at += (u32)(a - (at + 4 + r->t - 4)); break; case 10: *(u16*)at += s->s; break; case 11: *(u32*)at += s->v; break; default: die("relocation", nm); } } }
}
__asm__(".text\n.globl undef_stub\nundef_stub: ud2\n.globl chkstk_stub\nchkstk_stub: ret\n"); extern char chkstk_stub[];
MS static void *m_memcpy(void *d, const void *s, u64 n) { return memcpy(d, s, n); } MS static void *m_memmove(void *d, const void *s, u64 n) { return memmove(d, s, n); } MS static void *m_memset(void *d, int c, u64 n) { return memset(d, c, n); } MS static int m_memcmp(const void *d, const void *s, u64 n) { return memcmp(d, s, n); } MS static u64 m_strlen(const char *s) { return strlen(s); }
MS static double m_sqrt(double d) { return ({ double r; __asm__("sqrtsd %1, %0" : "=x"(r) : "x"(d)); r; }); }
static u64 near_thunk(u64 fn) { u8 *p = (u8*)low(16); p[0] = 0x49; p[1] = 0xbb; memcpy(p + 2, &fn, 8); p[10] = 0x41; p[11] = 0xff; p[12] = 0xe3; return (u64)p; }
int main(int argc, char **argv) {
  const char *dir = NULL, *entry = "diff_main"; char *objs[256]; int nobj = 0; 
  for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "--trace")) dir = argv[++i]; else if (!strcmp(argv[i], "--entry")) entry = argv[++i]; else if (!strcmp(argv[i], "--work")) g_work = argv[++i]; else if (!strcmp(argv[i], "--exe")) g_exe = argv[++i]; else if (!strcmp(argv[i], "--args")) { for (i++; i < argc && g_nargs < 32; i++) g_args[g_nargs++] = argv[i]; } else objs[nobj++] = argv[i]; }
  if (!dir || !g_work) die("usage", ""); syscall(158, 0x1001, 0x7b5000000000ull); /* gs base: the thread block a harness may map there */ FILE *f = fopen(dir, "r"); if (!f) die("no trace", dir); static char line[8192];
  while (fgets(line, sizeof line, f)) { unsigned long long v; long long t; char nm[300]; if (sscanf(line, "task %lld", &t) == 1) g_task = t; else if (sscanf(line, "choice %llu", &v) == 1) { if (g_nchoice < 65536) g_choice[g_nchoice++] = v; } else if (sscanf(line, "outhash %299s %llx", nm, &v) == 2) { if (g_nouth < 64) { strcpy(g_outh[g_nouth].n, nm); g_outh[g_nouth++].h = v; } }
    else if (!strncmp(line, "var ", 4)) { g_var = realloc(g_var, (g_nvar + 1) * sizeof *g_var); char *sp = strrchr(line, ' '); *sp = 0; snprintf(g_var[g_nvar].n, 256, "%s", line + 4); g_var[g_nvar++].v = strtoull(sp + 1, NULL, 10); } }
  fclose(f);
  u64 lowsz = 256u << 20; u64 lb; for (lb = 0x60000000; lb >= 0x10000000; lb -= 0x8000000) { g_low = mmap((void*)lb, lowsz, 7, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0); if (g_low == (void*)lb) break; } if (g_low != (void*)lb) die("mmap", "low"); g_lowend = g_low + lowsz; g_thunk = (u8*)low(32 * 512);
  struct { const char *n; void *f; } api[] = {
#define A(x) {#x, x}
    A(hs_sym), A(hs_strtod), A(hs_choice), A(hs_task), A(hs_assume), A(hs_check), A(hs_check_mem), A(hs_reach), A(hs_sample), A(hs_note), A(hs_skip), A(hs_fail), A(hs_error), A(hs_puts), A(hs_putx), A(hs_conc), A(hs_is_sym), A(hs_select), A(hs_alloc), A(hs_map_at), A(hs_unmap), A(hs_file), A(hs_file_del), A(hs_file_size), A(hs_file_get), A(hs_stdout), A(hs_load_host), A(hs_dump), A(hs_func), A(hs_last_fault), A(hs_fault_addr), A(hs_steps), A(hs_budget), A(hs_sched), A(hs_arg), A(hs_invoke), A(hs_invoke_fp), A(hs_call), A(hs_watch), A(hs_compile),
    {"memcpy", m_memcpy}, {"memmove", m_memmove}, {"memset", m_memset}, {"memcmp", m_memcmp}, {"strlen", m_strlen}, {"sqrt", m_sqrt}, {"__chkstk", chkstk_stub} };
  for (unsigned i = 0; i < sizeof api / sizeof *api; i++) add_symbol(api[i].n, near_thunk((u64)api[i].f)); { u64 a = low(8); *(u32*)a = 1; add_symbol("_fltused", a); }
  { u64 a = near_thunk((u64)chkstk_stub); u8 *p = (u8*)a; memcpy(p, "\xc3", 1); for (int i = 0; i < g_nsym; i++) if (!strcmp(g_sym[i].n, "__chkstk")) g_sym[i].a = a; }
  struct mod *M = calloc(nobj, sizeof *M); for (int i = 0; i < nobj; i++) load1(&M[i], objs[i]); for (int i = 0; i < nobj; i++) link1(&M[i]);
  stack_t ss = {.ss_sp = mmap(NULL, 1 << 20, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), .ss_size = 1 << 20}; sigaltstack(&ss, NULL);
  struct sigaction sa = {.sa_sigaction = on_signal, .sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER}; int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGALRM}; for (int i = 0; i < 6; i++) sigaction(sg[i], &sa, NULL);
  u64 e = find_symbol(entry); if (!e) die("no entry", entry);
  ((MS void (*)(void))e)();
  int bad = 0; for (int i = 0; i < g_nouth; i++) { char t[2048]; vpath(t, g_outh[i].n); u64 k; u8 *b = slurp(t, &k); if (!b || fnv(b, k) != g_outh[i].h) { printf("OUTPUT-DIFFERS %s\n", g_outh[i].n); bad = 1; } else printf("OUTPUT-SAME %s\n", g_outh[i].n); }
  printf("VALIDATED %d checks\n", g_checks); fflush(stdout); _exit(bad ? 5 : 0);
}
