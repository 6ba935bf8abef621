// Options that must not change the code: option spellings with symbolic letters, prefixes, separators and values.
struct opt { const char *name; char kind; const char *val; }; // kind: '0' no value, 'v' value after = : or blank, 'j' short option, value also joined
struct prog { const char *name; const char *text; u32 len; const char *files; const char *obj; };
static u8 g_base[300000], g_obj[300000]; static u64 g_baselen; static char g_cmd[2048]; static u32 g_cl, g_nsym;
static u64 sym(u32 bits) { char nm[8] = "s00"; nm[1] = '0' + g_nsym / 10; nm[2] = '0' + g_nsym % 10; g_nsym++; return hs_sym(nm, bits); }
static void cb(u8 c) { if (g_cl >= sizeof g_cmd - 1) hs_error("command too long"); g_cmd[g_cl++] = c; g_cmd[g_cl] = 0; }
static void cs_(const char *s) { while (*s) cb(*s++); }
static u32 plan(u32 n);
static void name(const char *s, int fold, u32 at) { u32 lets = 1u << plan(8) | 1u << plan(8), cases = plan(65536); // letters in either case; a dash or underscore somewhere
  for (u32 i = 0; s[i]; i++) { if (i && i == at) cb('-' ^ (u8)(sym(1) * ('-' ^ '_'))); u8 c = s[i]; if (fold && ((c | 32) >= 'a' && (c | 32) <= 'z')) c ^= lets >> i & 1 ? (u8)(sym(1) << 5) : (cases >> i & 1) << 5; cb(c); }
}
static void value(const char *v, char *rec) { for (; *v; v++) { u8 c = *v; if (c == '#') { c = (u8)sym(8); hs_assume((u8)(c - '0') < 10); } else if (c == '%') c = '1' + plan(8); else if (c == '$') { c = (u8)sym(8); hs_assume((u8)(c - 'a') < 26); } if (rec) { *rec++ = c; *rec = 0; } cb(c); } }
static u32 g_plan; // the spelling: each use takes its choice from this number
static u32 plan(u32 n) { u32 r = g_plan % n; g_plan = g_plan / n + (g_plan % 7) * 1000003 + 5; return r; }
static void option(const struct opt *o, int spell) {
  u32 pre = spell ? plan(3) : 0, quote = spell ? plan(2) : 0; u32 len = slen(o->name);
  if (o->kind == '0') { if (quote) cb('"'); cs_(pre == 0 ? "/" : pre == 1 ? "-" : "--"); name(o->name, spell && 1, spell && len > 2 ? plan(2) * (len / 2) : 0); if (quote) cb('"'); return; }
  u32 sep = plan(o->kind == 'j' ? 4 : 3); // = : blank joined
  if (quote && sep != 2) cb('"'); cs_(pre == 0 ? "/" : pre == 1 ? "-" : "--"); name(o->name, spell && sep != 3, spell && len > 2 && sep != 3 ? plan(2) * (len / 2) : 0);
  if (sep == 0) cb('='); else if (sep == 1) cb(':'); else if (sep == 2) { cb(' '); if (quote) cb('"'); } value(o->val, 0); if (quote) cb('"');
}
static const char *omsg(const struct prog *P, const char *what) { static char b[1600]; sapp(sapp(sapp(sapp(b, P->name), ": "), what), ""); return b; }
static void files(const struct prog *P) { static char nm[64]; const char *s = P->text; u32 i = 0; cpy(nm, "a.c", 4); for (;;) { u32 j = i; while (j < P->len && s[j] != 1) j++; hs_file(nm, s + i, j - i); if (j >= P->len) return; i = j + 1; u32 k = 0; while (s[i] != '\n') nm[k++] = s[i++]; nm[k] = 0; i++; } }
static int run(void) { hs_sample(g_cmd, g_cl); return hs_compile(g_cmd, 1ull << 32); }
static void base(const struct prog *P) {
  files(P); g_cl = 0; cs_("hlc.exe /obj /no_stdlib /quiet "); cs_(P->files); int r = run(); if (r != 0) { static char o[300]; u64 n = hs_stdout(o, 250); o[n < 250 ? n : 250] = 0; hs_error(omsg(P, o)); }
  g_baselen = norm(P->obj, g_base, sizeof g_base); hs_file_del(P->obj);
}
static void same(const struct prog *P, int r, const char *obj, const char *what) {
  hs_check(r >= 0, omsg(P, "the compiler crashed or hung")); if (r != 0) { static char o[400]; u64 n = hs_stdout(o, 250); o[n < 250 ? n : 250] = 0; char *m = o; while (*m == '\n' || *m == '\r') m++; for (char *q = m; *q; q++) if (*q == '\n' || *q == '\r') { *q = 0; break; } static char b[900]; sapp(sapp(sapp(b, what), ": rejected: "), m); hs_fail(omsg(P, b)); }
  if (hs_file_size(obj) == ~0ull) { static char b[900]; sapp(sapp(b, what), ": no object file"); hs_fail(omsg(P, b)); }
  u64 n = norm(obj, g_obj, sizeof g_obj); static char b[900]; sapp(sapp(b, what), ": the object file differs"); hs_check(n == g_baselen, omsg(P, b)); hs_check_mem(g_obj, g_base, n, omsg(P, b)); hs_reach("compared");
}
// one option that does not matter, in every spelling
void neutral_main(void) {
  u32 t = hs_task(nprogs * nopts); const struct prog *P = &progs[t / nopts]; const struct opt *o = &opts[t % nopts]; base(P);
  g_plan = plans[t][hs_choice(nplans)]; g_cl = 0; cs_("hlc.exe "); u32 pos = plan(3); if (pos == 0) { option(o, 1); cb(' '); } cs_("/obj /no_stdlib "); if (pos == 1) { option(o, 1); cb(' '); } cs_("/quiet "); cs_(P->files); if (pos == 2) { cb(' '); option(o, 1); }
  same(P, run(), P->obj, o->name);
}
// the options every compile here uses, in every spelling; several options that do not matter
void combine_main(void) {
  u32 t = hs_task(nprogs * ncombos); const struct prog *P = &progs[t / ncombos]; base(P); const u8 *k = combos[t % ncombos]; g_plan = k[0] * 77 + k[1] * 1001 + t * 99991;
  static const struct opt b[] = {{"obj", '0', 0}, {"c", '0', 0}, {"nostdlib", '0', 0}, {"quiet", '0', 0}, {"nologo", '0', 0}};
  g_cl = 0; cs_("hlc.exe "); if (k[0] & 1) { cs_(P->files); cb(' '); }
  option(&b[k[1] & 1], (k[0] & 4) != 0); cb(' '); for (u32 i = 3; i < 3 + k[2]; i++) { option(&opts[k[i]], 0); cb(' '); } option(&b[2], (k[0] & 8) != 0); cb(' '); if (k[0] & 2) option(&b[3 + (k[1] >> 1 & 1)], 1); 
  if (!(k[0] & 1)) { cb(' '); cs_(P->files); }
  if (k[0] & 16) { hs_file("cmd.rsp", g_cmd + 8, g_cl - 8); g_cl = 8; g_cmd[8] = 0; cs_("@cmd.rsp"); }
  same(P, run(), P->obj, "several options");
}
// where the output goes
void out_main(void) {
  static const struct opt outs[] = {{"out", 'j', "q$.obj"}, {"o", 'j', "q$.obj"}, {"Fo", 'j', "q$.obj"}, {"Fe", 'j', "q$.obj"}, {"out", 'v', "q$"}};
  u32 t = hs_task(nprogs * 5); const struct prog *P = &progs[t / 5]; base(P); const struct opt *o = &outs[t % 5]; g_plan = t * 7919 + 100003 * hs_choice(nplans);
  g_cl = 0; cs_("hlc.exe /no_stdlib /obj /quiet "); u32 first = plan(2); if (first) { cs_(P->files); cb(' '); } 
  struct opt x = *o; static char v[16]; v[0] = 'q'; v[1] = 'a' + plan(3); sapp(v + 2, o->val + 2); x.val = v; option(&x, 1); if (!first) { cb(' '); cs_(P->files); }
  static char f[32]; sapp(f, v); if (!(o->val[2])) sapp(f + 2, ".obj"); same(P, run(), f, "output file");
}
// -D and #define
void define_main(void) {
  u32 t = hs_task(ndefs); const struct def *D = &defs[t]; static char def[64], arg[64]; static u8 text[4000]; u32 n = 0, d = 0, a = 0;
  for (const char *s = D->name; *s; s++) { u8 c = *s; if (c == '$') { c = (u8)sym(8); hs_assume((u8)(c - 'a') < 26); } def[d++] = c; } def[d] = 0; u32 dn = d;
  for (const char *s = D->val; *s; s++) { u8 c = *s; if (c == '~') { c = (u8)sym(8); hs_assume((u8)(c - '0') < 10); } else if (c == '?') { c = (u8)sym(8); hs_assume((u8)(c - '!') < 94 && c != '"' && c != '\\' && c != '\''); } arg[a++] = c; } arg[a] = 0;
  const struct prog *P = &(const struct prog){D->name, 0, 0, "a.c", "a.obj"};
  { const char *s = "#define "; while (*s) text[n++] = *s++; for (u32 i = 0; i < dn; i++) text[n++] = def[i]; text[n++] = ' '; if (D->kind == '1') text[n++] = '1'; for (u32 i = 0; i < a; i++) text[n++] = arg[i]; text[n++] = '\n'; }
  u32 body = n; for (const char *s = D->src; *s; s++) if (*s == '@') for (u32 i = 0; i < dn && def[i] != '('; i++) text[n++] = def[i]; else text[n++] = *s;
  hs_file("a.c", text, n); g_cl = 0; cs_("hlc.exe /obj /no_stdlib /quiet a.c"); int r = run(); if (r != 0) { static char o[300]; u64 k = hs_stdout(o, 250); o[k < 250 ? k : 250] = 0; hs_error(omsg(P, o)); }
  g_baselen = norm("a.obj", g_base, sizeof g_base); hs_file_del("a.obj");
  hs_file("a.c", text + body, n - body); g_cl = 0; cs_("hlc.exe /obj /no_stdlib /quiet "); g_plan = t * 7919 + 100003 * hs_choice(nplans); u32 pos = plan(2), pre = plan(3), sep = plan(2), q = plan(2) | D->quote; if (pos) cs_("a.c ");
  if (q && sep == 0) cb('"'); cs_(pre == 0 ? "/D" : pre == 1 ? "-D" : "--D"); if (sep == 1) { cb(' '); if (q) cb('"'); } for (u32 i = 0; i < dn; i++) cb(def[i]); if (D->kind != '1') cb('='); 
  for (u32 i = 0; i < a; i++) { if (arg[i] == '"') cb('\\'); cb(arg[i]); } if (q) cb('"'); if (!pos) cs_(" a.c"); else cb(' ');
  same(P, run(), "a.obj", "/D");
}
// -I and an include by path
void include_main(void) {
  u32 t = hs_task(8); const struct prog *P = &(const struct prog){"include", 0, 0, "a.c", "a.obj"}; u32 angle = t & 1, form = t >> 1 & 1, two = t >> 2;
  static char h1[] = "static int h = 0;\n", h2[] = "static long long h = 77;\n#define OTHER 1\n"; u8 d = (u8)sym(8); hs_assume((u8)(d - '0') < 10); h1[15] = d;
  hs_file("inc/h.h", h1, sizeof h1 - 1); hs_file("dir two/h.h", h2, sizeof h2 - 1); hs_file("inc/sub/k.h", "#include \"../h.h\"\nint k = 3;\n", 27 + 1);
  static const char *body = "int f(void) { return h + sizeof h; }\n"; static char s1[300], s2[300]; char *e;
  e = sapp(s1, form ? "#include \"inc/sub/k.h\"\n" : "#include \"inc/h.h\"\n"); sapp(e, body); e = sapp(s2, form ? (angle ? "#include <sub/k.h>\n" : "#include \"sub/k.h\"\n") : angle ? "#include <h.h>\n" : "#include \"h.h\"\n"); sapp(e, body);
  hs_file("a.c", s1, slen(s1)); g_cl = 0; cs_("hlc.exe /obj /no_stdlib /quiet a.c"); int r = run(); if (r != 0) { static char o[300]; u64 k = hs_stdout(o, 250); o[k < 250 ? k : 250] = 0; hs_error(omsg(P, o)); } g_baselen = norm("a.obj", g_base, sizeof g_base); hs_file_del("a.obj");
  hs_file("a.c", s2, slen(s2)); g_cl = 0; cs_("hlc.exe /obj /no_stdlib /quiet "); g_plan = t * 7919 + 100003 * hs_choice(3 * nplans); u32 pos = plan(2), pre = plan(3), sep = plan(4), slash = plan(3), q = plan(2); if (pos) cs_("a.c ");
  if (q && sep) cb('"'); cs_(pre == 0 ? "/I" : pre == 1 ? "-I" : "--I"); if (sep == 0) { cb(' '); if (q) cb('"'); } else if (sep == 2) cb('='); else if (sep == 3) cb(':'); cs_("inc"); if (slash == 1) cb('/'); else if (slash == 2 && !q) cb('\\'); if (q) cb('"');
  if (two) { static const struct opt o = {"I", 'j', "\"dir two\""}; cs_(" /I\"dir two\""); } if (!pos) cs_(" a.c"); 
  same(P, run(), "a.obj", "/I");
}
