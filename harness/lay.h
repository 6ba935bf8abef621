// Layout of the source text: the same tokens with other white space, comments, splices and line endings give the same object file.
// Pieces are tokens; the gap after a piece: ' ' any white space, at least one; '.' any white space, also none; 'D' / 'd' the same inside a directive (no newline);
// 'n' the end of a directive; 'x' nothing may be inserted except line splices; 's' inside a token: only line splices, '!' nothing at all.
struct piece { const char *t; char gap; };
struct layout { const char *name; const struct piece *p; u32 n; const char *cmd; const char *inc; u32 ninc; const u8 (*ranges)[2]; u32 nranges; const u16 *lines; u32 nlines; };
static u8 g_text[65536]; static u32 g_len; static u8 g_base[200000], g_obj[200000]; static u64 g_baselen;
static u8 g_b[4]; // shared symbolic bytes
static const char *g_nl = "\n";
static void tb(u8 b) { if (g_len >= sizeof g_text) hs_error("text too long"); g_text[g_len++] = b; }
static void ts(const char *s) { while (*s) { if (*s == '\n') { const char *q = g_nl; while (*q) tb(*q++); s++; } else tb(*s++); } }
enum { K_WS, K_WS2, K_COMMENT, K_LINE, K_SPLICE, K_SPLICE_CR, K_COMMENT_NL, K_LINE_SPLICED, K_STARS, K_QUOTES, K_CRLF, K_SLASHES, NKINDS };
static int allowed(char gap, u32 k) {
  if (gap == '!') return 0;
  if (gap == 's' || gap == 'x') return k == K_SPLICE || k == K_SPLICE_CR;
  if (gap == 'D' || gap == 'd' || gap == 'n') return k != K_LINE && k != K_LINE_SPLICED && k != K_CRLF && k != K_SLASHES || gap == 'n';
  return 1;
}
static void fill(char gap, u32 k) { // what is inserted at a gap of this kind
  int dir = gap == 'D' || gap == 'd'; int end = gap == 'n';
  switch (k) {
    case K_WS: tb(g_b[0]); break;
    case K_WS2: tb(g_b[0]); tb(g_b[1]); tb(' '); break;
    case K_COMMENT: ts("/*"); tb(g_b[2]); tb(g_b[3]); ts("*/"); break;
    case K_LINE: ts("//"); tb(g_b[2]); tb(g_b[3]); ts("\n"); break;
    case K_SPLICE: ts("\\\n"); break;
    case K_SPLICE_CR: tb('\\'); tb('\r'); tb('\n'); break;
    case K_COMMENT_NL: ts("/*"); tb(g_b[2]); tb('\n'); tb(g_b[3]); ts("*/"); break;
    case K_LINE_SPLICED: ts("// "); tb(g_b[2]); ts(" \\\n it's \" continued \n"); break;
    case K_STARS: ts("/***/ /**/ /* / * // */"); break;
    case K_QUOTES: ts("/* it's \" \\ */"); break;
    case K_CRLF: tb('\r'); tb('\n'); break;
    case K_SLASHES: ts("/////* \n"); break;
  }
}
static void defgap(char g) { if (g == ' ' || g == 'D') ts(" "); else if (g == 'n') ts("\n"); }
// gap number a (or every gap, a == -1) gets kind k
static void text(const struct layout *L, int a, u32 k, int a2, u32 k2) {
  g_len = 0;
  for (u32 i = 0; i < L->n; i++) {
    ts(L->p[i].t); char g = L->p[i].gap; int use = (a == -1 || a == (int)i) && allowed(g, k), use2 = a2 == (int)i && allowed(g, k2);
    if ((use || use2) && g_len && g_text[g_len - 1] == '/') tb(' ');
    if (use) fill(g, k); if (use2) fill(g, k2);
    if (g == 'n') { if (!(use && (k == K_LINE || k == K_CRLF || k == K_SLASHES || k == K_LINE_SPLICED))) defgap(g); }
    else if (!use || k == K_SPLICE || k == K_SPLICE_CR) defgap(g);
  }
}
static int ws(u8 b, char g) { return b == ' ' | b == '\t' | b == '\v' | b == '\f' | (g != 'd' & b == '\n'); }
static void symbolic(char g, u32 k) {
  if (k == K_WS || k == K_WS2) { g_b[0] = (u8)hs_sym("w0", 8); hs_assume(ws(g_b[0], g)); if (k == K_WS2) { g_b[1] = (u8)hs_sym("w1", 8); hs_assume(ws(g_b[1], g)); } }
  else if (k == K_COMMENT || k == K_COMMENT_NL || k == K_LINE || k == K_LINE_SPLICED) {
    g_b[2] = (u8)hs_sym("c0", 8); g_b[3] = (u8)hs_sym("c1", 8); hs_assume((g_b[2] != 0) & (g_b[3] != 0));
    if (k == K_COMMENT) hs_assume(!(g_b[2] == '*' & g_b[3] == '/'));
    if (k == K_COMMENT || k == K_COMMENT_NL) hs_assume((g_b[2] != '\r') & (g_b[3] != '\r') & !(g_b[2] == '\\' & g_b[3] == '\n') & (g_b[3] != '\\') & (g_b[2] != '\\' | k == K_COMMENT));
    if (k == K_LINE || k == K_LINE_SPLICED) hs_assume((g_b[2] != '\n') & (g_b[2] != '\r') & (g_b[3] != '\n') & (g_b[3] != '\r') & (g_b[3] != '\\'));
    if (g == 'd' && k == K_COMMENT) hs_assume(1);
  }
}
static const char *lmsg(const struct layout *L, const char *what, const char *kind) { static char b[400]; sapp(sapp(sapp(sapp(sapp(b, L->name), ": "), kind), ": "), what); return b; }
static void same(const struct layout *L, int r, const char *kind) {
  hs_check(r >= 0, lmsg(L, "the compiler crashed or hung", kind)); if (r != 0) { static char o[300]; u64 n = hs_stdout(o, 250); o[n < 250 ? n : 250] = 0; char *m = o; while (*m == '\n' || *m == '\r') m++; for (char *q = m; *q; q++) if (*q == '\n' || *q == '\r') { *q = 0; break; } hs_fail(lmsg(L, m, kind)); }
  u64 n = norm("a.obj", g_obj, sizeof g_obj); hs_check(n == g_baselen, lmsg(L, "the object file has another size", kind));
  hs_check_mem(g_obj, g_base, n, lmsg(L, "the object file differs", kind)); hs_reach("compared");
}
static const char *const kindname[] = {"white space", "white space", "a comment", "a line comment", "a line splice", "a line splice with CR LF", "a comment over two lines", "a spliced line comment", "comments of stars", "a comment with quotes", "CR LF", "a line comment of slashes"};
static void base(const struct layout *L) {
  text(L, -2, 0, -2, 0); hs_file("a.c", g_text, g_len); int r = hs_compile(L->cmd, 1ull << 32); if (r != 0) { static char o[300]; u64 n = hs_stdout(o, 250); o[n < 250 ? n : 250] = 0; hs_error(lmsg(L, o, "unchanged")); }
  g_baselen = norm("a.obj", g_base, sizeof g_base); hs_file_del("a.obj");
}
static u32 narg(u32 i) { char b[64]; u64 v = 0; if (hs_arg(i, b)) for (char *c = b; *c; c++) v = v * 10 + *c - '0'; return v; }
// one gap at a time: every gap of every program, every kind
void gaps_main(void) {
  u32 total = 0; for (u32 i = 0; i < nlayouts; i++) total += layouts[i].n;
  u32 part = narg(0) ? narg(0) : 1; u32 t = hs_task((total + part - 1) / part) * part + narg(1) % part; if (t >= total) hs_skip();
  const struct layout *L = layouts; while (t >= L->n) t -= L++->n;
  char g = L->p[t].gap; if (g == '!') hs_skip(); 
  base(L); u32 k = hs_choice(NKINDS); if (!allowed(g, k)) hs_skip();
  symbolic(g == 'D' ? 'd' : g == 'n' ? 'd' : g, k); text(L, t, k, -2, 0); hs_sample(g_text, g_len); hs_file("a.c", g_text, g_len); same(L, hs_compile(L->cmd, 1ull << 32), kindname[k]);
}
// the whole file: every gap filled alike, other line endings, byte order mark, no newline at the end, preprocessed first, lines moved into an included file
void whole_main(void) {
  u32 per = NKINDS + 5; u32 t = hs_task(nlayouts * per); const struct layout *L = &layouts[t / per]; u32 k = t % per; base(L);
  if (k < NKINDS) { symbolic('d', k); text(L, -1, k, -2, 0); hs_file("a.c", g_text, g_len); same(L, hs_compile(L->cmd, 1ull << 32), kindname[k]); return; }
  switch (k - NKINDS) {
    case 0: g_nl = "\r\n"; text(L, -2, 0, -2, 0); hs_file("a.c", g_text, g_len); same(L, hs_compile(L->cmd, 1ull << 32), "CR LF line endings"); break;
    case 1: { static u8 f[70000]; f[0] = 0xef; f[1] = 0xbb; f[2] = 0xbf; text(L, -2, 0, -2, 0); cpy(f + 3, g_text, g_len); hs_file("a.c", f, g_len + 3); same(L, hs_compile(L->cmd, 1ull << 32), "byte order mark"); break; }
    case 2: text(L, -2, 0, -2, 0); while (g_len && g_text[g_len - 1] == '\n') g_len--; if (hs_choice(2)) ts("// last line"); hs_file("a.c", g_text, g_len); same(L, hs_compile(L->cmd, 1ull << 32), "no newline at the end"); break;
    case 3: { // preprocess, then compile the output
      static char c[200]; sapp(c, "hlc.exe /P /Fib.i /no_stdlib /quiet a.c"); u32 kk = hs_choice(NKINDS + 1); if (kk < NKINDS) { symbolic('d', kk); text(L, -1, kk, -2, 0); hs_file("a.c", g_text, g_len); }
      int r = hs_compile(c, 1ull << 32); hs_check(r == 0, lmsg(L, "preprocessing failed", "/EP")); static u8 o[300000]; u64 n = hs_file_size("b.i"); if (n > sizeof o) hs_error("output too large"); hs_file_get("b.i", o, n); hs_file("a.c", o, n); same(L, hs_compile(L->cmd, 1ull << 32), "preprocessed first"); break; }
    default: { // the lines [a, b) of the file in a file of their own
      u32 i = hs_choice(L->nranges); text(L, -2, 0, -2, 0); static u8 f[70000], h[70000]; u32 line = 0, n = 0, m = 0; u32 a = L->ranges[i][0], b = L->ranges[i][1];
      for (u32 j = 0; j <= g_len; j++) { 
        if (line == a && (j == 0 || g_text[j - 1] == '\n') && m == 0) { const char *s = "#include \"inc.h\"\n"; while (*s) f[n++] = *s++; }
        if (j == g_len) break;
        if (line >= a && line < b) h[m++] = g_text[j]; else f[n++] = g_text[j]; if (g_text[j] == '\n') line++; }
      if (hs_choice(2) && m) m--; // without the newline at the end of the included file
      hs_file("a.c", f, n); hs_file("inc.h", h, m); same(L, hs_compile(L->cmd, 1ull << 32), "lines moved into an included file"); break; }
  }
}
