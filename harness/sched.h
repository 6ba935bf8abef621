// Explores thread schedules of the compiler: diff.h's cases with a command line that asks for several threads.
#pragma once
#include "diff.h"
static u32 argn(u32 i) { char b[64]; u64 v = 0; if (hs_arg(i, b)) num(b, &v); return v; }
static int files_and_compile(const struct casefile *cf, const char *threads) {
  int multi = 0; for (u32 i = 0; i < cf->len; i++) multi |= cf->src[i] < 4;
  if (multi) put_files((const u8*)cf->src, cf->len); else hs_file("a.c", cf->src, cf->len);
  static char cmd[512]; char *d = sapp(cmd, cf->cmd); d = sapp(d, " /thread_count "); sapp(d, threads); return hs_compile(cmd, 150000000);
}
static void verdict(const struct casefile *cf, int r, const char *what) {
  if (r == -1000 - FAULT_DEADLOCK) hs_fail(msg3(cf->name, what, "the threads of the compiler wait for each other"));
  if (r == -1000 - FAULT_BUDGET) hs_fail(msg3(cf->name, what, "the compiler did not terminate within the step bound"));
  if (r < 0) hs_fail(msg3(cf->name, what, "the compiler crashed"));
  if (cf->nfn ? r != 0 : r != 1) hs_fail(msg3(cf->name, what, cf->nfn ? "a valid program was rejected" : "an invalid program was accepted"));
  if (!cf->nfn) { hs_reach("rejected"); hs_check(hs_file_size("a.obj") == ~0ull, msg3(cf->name, what, "an object file was written for an invalid program")); return; }
  hs_reach("compiled"); struct img I; load_obj(&I, "a.obj");
  for (u32 k = 0; k < cf->nfn; k++) run_diff(&I, cf, &cf->fns[k]);
}
void sched_main(void) {
  u32 parts = argn(0), pre = argn(1), seed = argn(2), want = argn(3); // partitions per case, preemptions, partition offset, points taken per instruction
  static const u64 quanta[] = {400000, 3000, 30000, 800, 10000, 100000};
  u32 t = hs_task(ncases * parts); const struct casefile *cf = cases[t / parts]; u32 p = t % parts; const char *th = p % 3 == 2 ? "3" : "2";
  // conflicting accesses of the threads: from here on points where a thread may be preempted
  hs_sched(0, 900, 1, 0); int r = files_and_compile(cf, "2"); if (r < 0) verdict(cf, r, "two threads");
  hs_sched(0, 5000, 1, 0); r = files_and_compile(cf, "3"); if (r < 0) verdict(cf, r, "three threads");
  u64 q = quanta[(p + seed) % 6];
  hs_sched(1, q, 0, 0); r = files_and_compile(cf, th); if (r < 0) verdict(cf, r, "schedule"); // counts the points on the schedule that is varied
  { char b[96]; char *d = sappu(sapp(b, "instructions "), hs_points(0)); d = sappu(sapp(d, " points "), hs_points(1ull << 40)); sappu(sapp(d, " taken "), hs_points(want)); hs_note("points", b, slen(b)); } if (hs_points(0)) hs_reach("preemption points counted");
  hs_sched(pre, q, want, p * 3 + seed); r = files_and_compile(cf, th); hs_sched(0, 0, 1, 0); verdict(cf, r, "schedule");
}
