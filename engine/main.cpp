// Driver: loads the modules, runs the harness up to hs_task, then explores every task in a forked child.
#include "core.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <algorithm>
#include <llvm-c/Disassembler.h>
#include <llvm-c/Target.h>
struct QSite { u64 n; double t; }; extern std::map<std::string, QSite> g_qsites;
struct TaskPoint { s64 n; };
extern std::vector<State*> g_work; extern Mem g_pristine; extern std::map<std::string, u64> g_reach, g_checks, g_undec; extern std::vector<std::string> g_samples;
extern std::map<u32, u64> g_x86_ops; extern std::map<std::string, u64> g_x86_unsupported;
static std::map<std::string, u64> g_errs; static std::vector<std::string> g_viol_json; static int g_viol_here; static u8 *g_shvis; static bool g_reproduced;
extern std::string g_cwd, g_modpath;

std::string mc_disasm(const u8 *p, unsigned n, unsigned *len) {
  static LLVMDisasmContextRef D; if (!D) { LLVMInitializeX86TargetInfo(); LLVMInitializeX86TargetMC(); LLVMInitializeX86Disassembler(); D = LLVMCreateDisasm("x86_64-pc-windows-msvc", nullptr, 0, nullptr, nullptr); if (D) LLVMSetDisasmOptions(D, LLVMDisassembler_Option_AsmPrinterVariant); }
  if (!D) { if (len) *len = 1; return "?"; }
  char buf[256]; size_t k = LLVMDisasmInstruction(D, (uint8_t*)p, n, 0, buf, sizeof buf); if (len) *len = k; if (!k) return ""; char *s = buf; while (*s == '\t' || *s == ' ') s++; for (char *q = s; *q; q++) if (*q == '\t') *q = ' '; return s;
}
static std::string jesc(const std::string &s) { std::string r = "\""; for (u8 c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

void mem_share_range(State &S, Mem &src, u64 lo, u64 hi); // mem.cpp

void report_violation(State &S, const std::string &msg, Model *m) {
  ST.violations++;
  if (CFG.replay) { printf("REPRODUCED %s\n", msg.c_str()); g_reproduced = true; 
    for (auto &f : S.os->vfs) if (f.second) { std::string p = f.first; for (auto &c : p) if (c == '/' || c == ':' || c == '<' || c == '>') c = '_'; FILE *o = fopen((CFG.outdir + "/final_" + p).c_str(), "wb"); if (o) { fwrite(f.second->d.data(), 1, f.second->d.size(), o); fclose(o); } }
    return; }
  { static std::map<std::string, int> seen; if (seen[msg]++) return; }
  if (g_viol_here++ >= CFG.max_viol) return;
  Evaluator E(m); std::string dir = CFG.outdir + "/v" + std::to_string(S.task < 0 ? 0 : S.task) + "_" + std::to_string(g_viol_here); mkdir(dir.c_str(), 0777);
  FILE *f = fopen((dir + "/replay.txt").c_str(), "w"); if (!f) return;
  fprintf(f, "task %lld\n", (long long)S.task); fprintf(f, "message %s\n", msg.c_str());
  for (u32 c : S.trail) fprintf(f, c >> 31 ? "sched %u\n" : "choice %u\n", c & 0x7fffffff);
  for (size_t i = 0; i < S.symvars.size(); i++) fprintf(f, "var %s %llu\n", S.symnames[i].c_str(), (unsigned long long)m->get(S.symvars[i]));
  fclose(f);
  std::string notes;
  int k = 0;
  for (auto &N : S.notes) {
    std::vector<u8> d = N->d; if (!N->s.empty()) for (size_t i = 0; i < d.size(); i++) if (N->s[i]) d[i] = (u8)E.eval(N->s[i]);
    std::string nm = N->name; for (auto &c : nm) if (c == '/' || c == ':' || c == '<' || c == '>' || c == '\\') c = '_';
    std::string p = dir + "/" + (N->kind ? "file_" : "note_") + nm; FILE *o = fopen(p.c_str(), "wb"); if (o) { fwrite(d.data(), 1, d.size(), o); fclose(o); }
    if (!N->kind && d.size() < 400) notes += (notes.empty() ? "" : ",") + jesc(nm) + ":" + jesc(std::string(d.begin(), d.end()));
  }
  auto so = S.os->vfs.find("<stdout>"); if (so != S.os->vfs.end() && so->second) { FILE *o = fopen((dir + "/stdout").c_str(), "wb"); if (o) { std::vector<u8> d = so->second->d; auto &s = so->second->s; if (!s.empty()) for (size_t i = 0; i < d.size(); i++) if (s[i]) d[i] = (u8)E.eval(s[i]); fwrite(d.data(), 1, d.size(), o); fclose(o); } }
  for (auto &w : S.os->written) { auto it = S.os->vfs.find(w); if (it == S.os->vfs.end() || !it->second) continue; std::vector<u8> d = it->second->d; auto &s = it->second->s; if (!s.empty()) for (size_t i = 0; i < d.size(); i++) if (s[i]) d[i] = (u8)E.eval(s[i]); std::string nm = w; for (auto &c : nm) if (c == '/' || c == ':') c = '_'; FILE *o = fopen((dir + "/out_" + nm).c_str(), "wb"); if (o) { fwrite(d.data(), 1, d.size(), o); fclose(o); } }
  g_viol_json.push_back("{\"msg\":" + jesc(msg) + ",\"dir\":" + jesc(dir) + ",\"task\":" + std::to_string(S.task) + ",\"notes\":{" + notes + "}}");
}
static std::string jmap(const std::map<std::string, u64> &m) { std::string r = "{"; for (auto &x : m) { if (r.size() > 1) r += ","; r += jesc(x.first) + ":" + std::to_string(x.second); } return r + "}"; }
static std::string jops() { std::map<std::string,u64> m; for (auto &x : g_x86_ops) { char b[16]; snprintf(b, 16, "%x", x.first); m[b] = x.second; } return jmap(m); }
static std::string result_json(s64 task, double t) {
  char b[2048]; snprintf(b, sizeof b, "{\"task\":%lld,\"time\":%.3f,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unk\":%llu,\"cache_hits\":%llu,\"solver_s\":%.3f,\"max_q\":%.3f,\"paths\":%llu,\"forks\":%llu,\"ir\":%llu,\"x86\":%llu,\"checks\":%llu,\"checks_trivial\":%llu,\"checks_solver\":%llu,\"violations\":%llu,\"infeasible\":%llu,\"compiles\":%llu,\"calls\":%llu,\"truncated\":%llu,\"syntactic\":%llu",
    (long long)task, t, (unsigned long long)ST.queries, (unsigned long long)ST.sat, (unsigned long long)ST.unsat, (unsigned long long)ST.unk, (unsigned long long)ST.cache_hits, ST.solver_s, ST.max_q, (unsigned long long)ST.paths, (unsigned long long)ST.forks, (unsigned long long)ST.ir_instr, (unsigned long long)ST.x86_instr, (unsigned long long)ST.checks, (unsigned long long)ST.checks_trivial, (unsigned long long)ST.checks_solver, (unsigned long long)ST.violations, (unsigned long long)ST.infeasible, (unsigned long long)ST.compiles, (unsigned long long)ST.calls, (unsigned long long)ST.truncated, (unsigned long long)ST.syntactic);
  std::string r = b; r += ",\"reach\":" + jmap(g_reach) + ",\"msgs\":" + jmap(g_checks) + ",\"undec\":" + jmap(g_undec) + ",\"errors\":" + jmap(g_errs) + ",\"x86ops\":" + jops() + ",\"samples\":["; 
  for (size_t i = 0; i < g_samples.size(); i++) r += (i ? "," : "") + jesc(g_samples[i]); r += "],\"viol\":["; for (size_t i = 0; i < g_viol_json.size(); i++) r += (i ? "," : "") + g_viol_json[i]; r += "]}\n"; return r;
}
static void append(const std::string &path, const std::string &s) { int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666); if (fd < 0) return; flock(fd, LOCK_EX); size_t k = 0; while (k < s.size()) { ssize_t w = write(fd, s.data() + k, s.size() - k); if (w <= 0) break; k += w; } close(fd); }
// A finished path with a model of its condition, to be run against the real compiler.
static int g_traces_want = 0, g_trace_every = 1, g_trace_off = 0; static u64 g_trace_seen = 0, g_trace_rng = 88172645463325252ull; static std::string g_cwd_base;
std::shared_ptr<Model> the_model(State &S);
static u64 fnv_bytes(const std::vector<u8> &d) { u64 h = 1469598103934665603ull; for (u8 b : d) h = (h ^ b) * 1099511628211ull; return h; }
static void write_trace(State &S) {
  if (CFG.replay || !g_traces_want || S.task < 0 || (S.task % g_trace_every) != g_trace_off) return;
  g_trace_seen++; g_trace_rng ^= g_trace_rng << 13; g_trace_rng ^= g_trace_rng >> 7; g_trace_rng ^= g_trace_rng << 17; if (g_trace_seen > 1 && g_trace_rng % g_trace_seen) return; // reservoir of one
  auto m = the_model(S); FILE *f = fopen((CFG.outdir + "/trace_" + std::to_string(S.task) + ".txt").c_str(), "w"); if (!f) return;
  fprintf(f, "task %lld\n", (long long)S.task); for (u32 c : S.trail) fprintf(f, c >> 31 ? "sched %u\n" : "choice %u\n", c & 0x7fffffff);
  for (size_t i = 0; i < S.symvars.size(); i++) fprintf(f, "var %s %llu\n", S.symnames[i].c_str(), (unsigned long long)m->get(S.symvars[i]));
  for (auto &w : S.os->written) { auto it = S.os->vfs.find(w); if (it == S.os->vfs.end() || !it->second || w.size() < 4 || w.substr(w.size() - 4) != ".obj") continue; std::vector<u8> d = it->second->d; Evaluator E(m.get()); auto &s = it->second->s; if (!s.empty()) for (size_t i = 0; i < d.size(); i++) if (s[i]) d[i] = (u8)E.eval(s[i]); fprintf(f, "outhash %s %llx\n", w.c_str(), (unsigned long long)fnv_bytes(d)); }
  fclose(f);
}
static double g_task_end = 1e18;
static void explore(State *S0) { // depth first
  g_work.push_back(S0); double t0 = now_s();
  while (!g_work.empty()) {
    State *S = g_work.back(); g_work.pop_back();
    try { run_state(S); }
    catch (PathEnd &p) { if (p.kind == 0 || p.kind == 4 || p.kind == 6) ST.paths++; if (p.kind == 0) { try { write_trace(*S); } catch (PathEnd &) {} catch (EngineError &) {} } }
    catch (EngineError &e) { g_errs[e.msg]++; if (CFG.verbose) fprintf(stderr, "[engine] %s\n", e.msg.c_str()); ST.truncated++; }
    state_free(S);
    if (now_s() > CFG.deadline || ST.paths >= CFG.max_paths) { if (!g_work.empty()) { ST.truncated += g_work.size(); g_undec["paths not explored before the time limit"] += g_work.size(); } break; }
  }
  for (auto *s : g_work) state_free(s); g_work.clear();
}
int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::string hlc, harness, entry = "main"; std::vector<std::string> refs; int jobs = 8; double secs = 1e9; std::string replay; s64 first = 0, maxtasks = -1;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--traces") { g_trace_every = atoi(nx().c_str()); g_trace_off = atoi(nx().c_str()); g_traces_want = 1; } else if (a == "--hlc") hlc = nx(); else if (a == "--mod") refs.push_back(nx()); else if (a == "--harness") harness = nx(); else if (a == "--entry") entry = nx(); else if (a == "--out") CFG.outdir = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--deadline") secs = atof(nx().c_str()); else if (a == "--task-seconds") CFG.task_seconds = atoi(nx().c_str()); else if (a == "--max-viol") CFG.max_viol = atoi(nx().c_str()); else if (a == "--replay") replay = nx(); else if (a == "--only-task") CFG.only_task = atoll(nx().c_str()); else if (a == "--root") CFG.root_dir = nx();
    else if (a == "--cwd") g_cwd = nx(); else if (a == "--modpath") g_modpath = nx(); else if (a == "--verbose") CFG.verbose = true; else if (a == "--trace") CFG.trace = true; else if (a == "--max-paths") CFG.max_paths = atoll(nx().c_str()); else if (a == "--solver-ms") g_solver_timeout_ms = atoi(nx().c_str()); else if (a == "--max-tasks") maxtasks = atoll(nx().c_str());
    else if (a == "--args") { for (i++; i < argc; i++) CFG.args.push_back(argv[i]); } else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; } }
  double t0 = now_s(), end = t0 + secs; 
  if (!replay.empty()) { CFG.replay = true; FILE *f = fopen((replay + "/replay.txt").c_str(), "r"); if (!f) { fprintf(stderr, "no replay file\n"); return 2; } char line[4096]; while (fgets(line, sizeof line, f)) { char nm[1024]; unsigned long long v; long long t; if (sscanf(line, "task %lld", &t) == 1) CFG.only_task = t; else if (sscanf(line, "choice %llu", &v) == 1 || sscanf(line, "sched %llu", &v) == 1) CFG.forced.push_back(v); else if (!strncmp(line, "var ", 4)) { char *sp = strrchr(line, ' '); std::string n(line + 4, sp); CFG.replay_vals[n] = strtoull(sp + 1, nullptr, 10); } } fclose(f); }
  State *S = new State(); S->os = std::make_shared<OS>(); S->os->h.resize(4); S->cur = 0; S->forced_i = 0; S->harness_next = 0x300000000000ull; S->budget = 1ull << 60; S->steps = 0; S->compile_mark = 0; S->nsym = 0; S->task = -1; S->preempt_left = 0; S->depth = 0; S->sched_on = false; S->slice = 0; S->quantum = 400000; S->part_m = 1; S->part_r = 0; S->points = 0; S->last_fault = 0; S->last_fault_addr = 0;
  mem_init(S->mem);
  try {
    if (!hlc.empty()) { if (!load_module(hlc, "hlc")) return 2; }
    for (auto &r : refs) if (!load_module(r, "ref")) return 2;
    if (!load_module(harness, "harness")) return 2;
    init_globals(*S);
    Thread T; T.id = 0; T.status = 0; T.wait_handle = 0; T.handle = 0; T.stack_lo = 0x7d0000000000ull; mem_map(*S, T.stack_lo, 0x4000000, 2); T.sp = T.stack_lo + 0x4000000 - 0x100; S->th.push_back(T);
    mem_init(g_pristine); mem_free(g_pristine); mem_clone(g_pristine, S->mem);
    auto it = g_func_by_name.find(entry); if (it == g_func_by_name.end()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    push_frame(*S, it->second, nullptr, 0, -1, 0);
  } catch (EngineError &e) { fprintf(stderr, "engine error: %s\n", e.msg.c_str()); return 2; }
  if (CFG.verbose) fprintf(stderr, "loaded in %.2fs, %zu functions\n", now_s() - t0, g_funcs.size());
  g_shvis = (u8*)mmap(nullptr, g_funcs.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string rf = CFG.outdir + "/results.jsonl";
  CFG.deadline = end;
  s64 ntasks = -1;
  try { run_state(S); } catch (TaskPoint &t) { ntasks = t.n; } catch (PathEnd &p) { ST.paths++; } catch (EngineError &e) { g_errs[e.msg]++; fprintf(stderr, "engine error: %s\n", e.msg.c_str()); }
  auto mark = [&]() { for (auto *f : g_funcs) if (f->visited) g_shvis[f->idx] = 1; };
  if (ntasks < 0) { // everything ran before hs_task (single task)
    if (!g_work.empty()) { State *x = g_work.back(); g_work.pop_back(); explore(x); }
    mark(); append(rf, result_json(-1, now_s() - t0)); 
  } else {
    if (!g_work.empty()) { fprintf(stderr, "harness forked before hs_task\n"); return 2; }
    ST = Stats(); g_errs.clear(); g_samples.clear();
    auto run_one = [&](s64 t) {
      double ts = now_s(); S->task = t; g_cwd += "/" + std::to_string(t); S->forced = CFG.forced; S->forced_i = 0; if (CFG.task_seconds && ts + CFG.task_seconds < CFG.deadline) CFG.deadline = ts + CFG.task_seconds;
      explore(S); mark(); append(rf, result_json(t, now_s() - ts));
    };
    if (CFG.only_task >= 0) { run_one(CFG.only_task); }
    else {
      std::map<pid_t, std::pair<s64, double>> kids; s64 next = first; if (maxtasks >= 0) ntasks = std::min(ntasks, maxtasks);
      while (next < ntasks || !kids.empty()) {
        while (next < ntasks && (int)kids.size() < jobs && now_s() < end) { s64 t = next++; fflush(stdout); fflush(stderr); pid_t p = fork(); if (p == 0) { run_one(t); fflush(stdout); fflush(stderr); _exit(0); } kids[p] = {t, now_s()}; }
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) { auto k = kids[p]; kids.erase(p); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) append(rf, "{\"task\":" + std::to_string(k.first) + ",\"crash\":" + std::to_string(st) + "}\n"); continue; }
        if (kids.empty() && now_s() >= end) break;
        for (auto &k : kids) if (now_s() > end + 15 || (CFG.task_seconds && now_s() > k.second.second + CFG.task_seconds + 25)) kill(k.first, SIGKILL);
        usleep(1000);
      }
      for (; next < ntasks; next++) append(rf, "{\"task\":" + std::to_string(next) + ",\"skipped\":1}\n");
    }
  }
  { std::string r = "{\"functions\":["; bool c = false; u64 tot = 0; for (auto *f : g_funcs) if (f->m == g_modules[0] && f->defined && !hlc.empty()) { tot++; if (g_shvis[f->idx]) { r += (c ? "," : "") + jesc(f->name); c = true; } } r += "],\"functions_total\":" + std::to_string(tot) + ",\"ntasks\":" + std::to_string(ntasks) + ",\"wall\":" + std::to_string(now_s() - t0) + "}\n"; append(rf, r); }
  if (CFG.verbose) fprintf(stderr, "%s", result_json(-1, now_s() - t0).c_str());
  if (getenv("HLC_QPROF")) { std::vector<std::pair<double, std::string>> v; for (auto &q : g_qsites) v.push_back({q.second.t, q.first + " n=" + std::to_string(q.second.n)}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%8.3f %s\n", v[i].first, v[i].second.c_str()); }
  if (CFG.replay) return g_reproduced ? 1 : 0;
  fflush(stdout); _exit(0);
}
