// Programs that break a constraint: rejected with an error at the right line, no output.
struct bad { char level; const char *src[2]; int (*cond)(const u32 *d, const u32 *l); u32 nctx; u8 ctx[32]; };
static u8 g_txt[40000]; static u32 g_n, g_line, g_at; static u32 d[8], l[8]; static u32 nd, nl; static u8 g_let; static u32 g_pick; static int g_havelet; static char g_o[20000];
static void ch(u8 c) { if (g_n >= sizeof g_txt) hs_error("text too long"); g_txt[g_n++] = c; if (c == '\n') g_line++; }
static void put(const char *s) { while (*s) ch(*s++); }
static void gap(const char *s) { // the construct itself
  char nm[4] = "d0"; u32 at = g_line; for (; *s; s++) { u8 c = *s;
    if (c == '@') { at = g_line; continue; } if (c == 1) c = '~';
    else if (c == '~' || c == 3) { if (nd > 7) hs_error("digits"); nm[0] = 'd'; nm[1] = '0' + nd; d[nd] = (u32)hs_sym(nm, 4); hs_assume(d[nd] < 10); if (c == 3) d[nd] = (u32)hs_conc(d[nd]); c = '0' + (u8)d[nd]; nd++; }
    else if (c == 2) { if (nl > 7) hs_error("letters"); nm[0] = 'l'; nm[1] = '0' + nl; l[nl] = (u32)hs_sym(nm, 8); { u32 k = 0; static const char pick[] = "abikntfxmz"; u32 ok = 0; for (; k < nletters && pick[k]; k++) ok |= l[nl] == (u8)pick[k]; hs_assume(ok); } c = (u8)l[nl]; nl++; }
    else if (c == '$') { if (!g_havelet) { g_havelet = 1; g_let = "qwertyukopasdfghjklzxcvbnm"[g_pick % 25]; } c = g_let; }
    ch(c); }
  g_at = at; }
static const char *forms[] = {"r = @;", "return @;", "if (@) r = 1;", "while (@) break;", "for (int i = 0; @; i++) break;", "do r = 2; while (@);", "switch (@) { case 1: r = 3; }", "g(@);", "ai[(@)] = 1;", "r = gci ? (@) : 2;", "r = gci ? 2 : (@);", "r = (1, (@));", "r = (@) + 1;", "r = sizeof (@);", "int q = (@);", "int q[2] = { 1, (@) };", "struct S q = { .b = (char)(@) };", "r = gci && (@);", "(void)(@);", "r += (@);", "r = !(@);", "g2((@), gs);", "r = (int){(@)};", "gv(\"\", (@));", "r = gci || (@);", "g(r) , (@);", "r = g((@)) * g(2);", "if (r) ; else r = (@);", "r = (r < (@));", "*gp = (@);"};
enum { nforms = sizeof forms / sizeof *forms };
static const char *filler[] = {"\n\n", "/* a\n b\n c */ int fil1;\n// d \\\n e\n#define MM(x, y) x \\\n   y\nint MM(fil2,\n = \n  3);\n", "#if 0\n#error\n#else\n\n#endif\nstatic const char fil3[] = \"a\\\n\\\nb\";\nint fil4(int a) {\n  return a\n   + 1; }\n", "#define OBJ 1 \\\n\n\nint fil5 = OBJ\n  ; int fil6 = OBJ;\n#undef OBJ\n"};
static void statement(const struct bad *B, const char *s, u32 form) {
  if (B->level == 's') { gap(s); return; }
  for (const char *f = forms[form]; *f; f++) if (*f == '@') gap(s); else ch(*f); }
static void body(const struct bad *B, const char *s, u32 ctx, u32 form) {
  u32 fn = ctx % 5;
  if (B->level == 'g') { gap(s); ch('\n'); return; }
  if (fn == 0) { put("int fff(int x) { int r = 0;\n"); statement(B, s, form); put("\nreturn r; }\n"); }
  if (fn == 1) { put("int fff(int x) { int r = 0; for (int k = 0; k < x; k++) {\n if (k > 3) { do { int z = k;\n"); statement(B, s, form); put(" x -= z; } while (x > 4); } }\nreturn r; }\n"); }
  if (fn == 2) { put("static int fff(int x) {\n int r = 0; "); statement(B, s, form); put(" return r; }\n"); }
  if (fn == 3) { put("int fff(int x) { int r = 0;\n switch (x) { case 777: r = 2; break; default: if (x) r = 4; else { "); if (B->level == 'e') statement(B, s, form); else { put("{ "); statement(B, s, form); put(" }"); } put(" }\n }\nreturn r; }\n"); }
  if (fn == 4) { put("int g3(int x) { if (x) return 1; return 2; }\nint fff(int x) { int r = g3(x); {\n\t{ "); statement(B, s, form); put(" }}\nreturn r; }\nint g4(int x) { return x; }\n"); }
}
static int has_error(u64 n, const char *file) {
  char want[40]; char *e = sapp(want, "/"); e = sapp(e, file); e = sapp(e, "("); u32 v = g_at, k = 0; char t[8]; do t[k++] = '0' + v % 10; while (v /= 10); while (k) *e++ = t[--k]; *e++ = ','; *e = 0; u32 m = (u32)(e - want);
  for (u64 i = 0; i + m < n; i++) { u32 j = 0; while (j < m && !hs_is_sym(g_o[i + j]) && g_o[i + j] == want[j]) j++; if (j < m) continue;
    u64 p = i + m; while (p < n && g_o[p] != ')') p++; p++; if (p + 3 < n && g_o[p] == ':' && g_o[p + 1] == ' ' && (g_o[p + 2] == 'E' || g_o[p + 2] == 'S')) return 1; }
  return 0; }
static const char *where(const char *name, const char *what) { static char b[1200]; char *e = sapp(sapp(b, what), ": "); u32 n = 0; for (u32 i = 0; i < g_n && n < 200; i++) { u8 c = g_txt[i]; (void)c; } e = sapp(e, name); *e = 0; return b; }
void bad_main(void) {
  u32 t = hs_task(nbads); const struct bad *B = &bads[t]; u32 w = hs_choice(B->cond ? 1 : 2); u32 x = B->ctx[w || B->cond ? hs_choice(B->nctx) : hs_choice(1)], place = x % 4, ctx = x / 4 % 5; g_pick = x; u32 form = B->nctx > 1 || B->level != 'e' ? x % nforms : x % 2;
  const char *s = B->src[w], *file = place == 1 ? "h.h" : place == 2 ? "b.c" : "a.c"; if (!s) hs_skip(); g_n = nd = nl = 0; g_line = 1; g_havelet = 0;
  hs_file("qk.h", "int qk;\n", 8); hs_file("ok.h", "", 0);
  if (B->level == 'p') { if (place) put(filler[ctx % 4]); gap(s); ch('\n'); if (place == 3) { put(filler[(ctx + 1) % 4]); } put("int z;\n"); }
  else { if (place == 3) put(filler[ctx % 4]); put(prelude); if (place) put(filler[(ctx + 1) % 4]); body(B, s, ctx, form); put("int z;\n"); }
  hs_file(file, g_txt, g_n); const char *cmd = "hlc.exe /obj /no_stdlib /quiet a.c";
  if (place == 1) { static const char m[] = "\n\n#include \"h.h\"\nint zz;\n"; hs_file("a.c", m, sizeof m - 1); }
  if (place == 2) { hs_file("a.c", "int za;\n", 8); cmd = "hlc.exe /obj /no_stdlib /quiet a.c b.c"; }
  hs_sample(g_txt, g_n); int r = hs_compile(cmd, 1ull << 31); u64 n = hs_stdout(g_o, sizeof g_o); if (n > sizeof g_o) n = sizeof g_o; hs_note("out", g_o, n < 1500 ? n : 1500); hs_note("src", g_txt, g_n);
  const char *nm = B->src[0]; static char note[600]; { char *e = note; for (u32 i = 0; nm[i] && i < 300; i++) *e++ = nm[i] < ' ' ? '~' : nm[i]; *e = 0; }
  int c = B->cond ? B->cond(d, l) : !w;
  if (c == 2) { hs_check(r >= 0, where(note, "the compiler crashed or hung")); return; }
  if (r < 0) hs_fail(where(note, "the compiler crashed or hung")); 
  if (r == 0) { hs_check(!c, where(note, "an invalid program was accepted")); hs_check(hs_file_size("a.obj") != ~0ull, where(note, "no object file for a valid program")); hs_reach("accepted"); return; }
  if (!w && !B->cond) { } hs_check(c, where(note, "a valid program was rejected"));
  hs_check(r == 1, where(note, "the exit code of an erroneous program is not one")); hs_check(hs_file_size("a.obj") == ~0ull, where(note, "an object file was written for an erroneous program"));
  hs_check(has_error(n, file), where(note, "no error message names the file and line at fault")); hs_reach("rejected");
}
