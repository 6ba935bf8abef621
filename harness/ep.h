static int idc(u8 b) { return (b >= '0' && b <= '9') || (b >= 'A' && b <= 'Z') || (b >= 'a' && b <= 'z') || b == '_' || b == '@' || b == '.'; }
static int pastes(u8 a, u8 b) {
  static const char t[] = "++--->+=-=<<>><=>===!=&&||*=/=%=&=|=^=..///*<:<%%:%>:>.0";
  for (u32 i = 0; t[i]; i += 2) if (t[i] == a && t[i + 1] == b) return 1; return 0;
}
struct norm { u8 *p; u32 n; };
static int directive(u8 *p, u64 n) { return n > 5 && p[0] == '#' && ((p[1] == 'l' && p[2] == 'i' && p[3] == 'n') || (p[1] == 'p' && p[2] == 'r' && p[3] == 'a')); }
static struct norm normalize(u8 *p, u64 n, int exact, int drop) { // whitespace is kept where it separates tokens that would fuse
  struct norm o = { hs_alloc(n + 1), 0 }; u8 str = 0; u32 i = 0; int bol = 1;
  while (i < n) {
    if (!str && bol && drop && directive(p + i, n - i)) { while (i < n && p[i] != '\n') i++; continue; }
    if (hs_is_sym(p[i])) { o.p[o.n++] = p[i++]; continue; }
    u8 b = p[i]; bol = 0;
    if (str) { if (b == '\\') { o.p[o.n++] = b; i++; o.p[o.n++] = p[i++]; continue; } if (b == str) str = 0; if (!exact && b == ' ') { i++; continue; } o.p[o.n++] = b; i++; continue; }
    if (b == ' ' || b == '\t' || b == '\n' || b == '\r' || b == '\f' || b == '\v') { if (b == '\n') bol = 1; i++;
      u32 j = i; while (j < n && !hs_is_sym(p[j]) && (p[j] == ' ' || p[j] == '\t' || p[j] == '\n' || p[j] == '\r')) { if (p[j] == '\n') bol = 1; j++; }
      i = j; if (i < n && bol && drop && directive(p + i, n - i)) continue;
      if (o.n && i < n) { u8 l = o.p[o.n - 1]; u8 r = p[i]; int li = hs_is_sym(l) || idc(l), ri = hs_is_sym(r) || idc(r); if ((li && ri) || (!hs_is_sym(l) && !hs_is_sym(r) && pastes(l, r))) o.p[o.n++] = ' '; }
      continue; }
    if (b == '"' || b == '\'') str = b;
    o.p[o.n++] = b; i++;
  }
  return o;
}
static u64 g_num[2]; static u8 g_chr[3], g_id[2];
static int marker(u8 *p) { static const char m[] = "753102461753102461752"; for (u32 k = 0; k < 21; k++) if (hs_is_sym(p[k]) || p[k] != m[k]) return 0; return !hs_is_sym(p[21]) && (p[21] == '6' || p[21] == '7'); }
static u32 subst(u8 *p, u32 n, int ids) { for (u32 i = 0; i < n; i++) {
    if (i + 22 <= n && marker(p + i)) { u64 v = g_num[p[i + 21] - '6']; for (u32 k = 0; k < 22; k++) p[i + k] = '0' | (u8)(v >> 3 * (21 - k) & 7); i += 21; }
    else if (p[i] >= 0x80 && p[i] < 0x83) p[i] = g_chr[p[i] - 0x80]; else if (p[i] >= 0xa0 && p[i] < 0xa2) p[i] = g_id[p[i] - 0xa0]; } return n; }
void main_(void) {
  u32 t = hs_task(sizeof cs / sizeof *cs); char nm[8] = "num0"; int uses[2] = {0, 0};
  for (u32 i = 0; i < 2; i++) { nm[3] = '0' + i; g_num[i] = hs_sym(nm, 64); }
  for (u32 i = 0; i < 3; i++) { char cn[8] = "chr0"; cn[3] = '0' + i; g_chr[i] = (u8)hs_sym(cn, 8); hs_assume(g_chr[i] >= 0x20 && g_chr[i] < 0x7f && g_chr[i] != '"' && g_chr[i] != '\\' && g_chr[i] != '\'' && g_chr[i] != ' ' && g_chr[i] != '?'); }
  for (u32 i = 0; i < cs[t].n; i++) { u8 b = cs[t].src[i]; if (b == 0xa0 || b == 0xa1) uses[b - 0xa0] = 1; }
  for (u32 i = 0; i < 2; i++) { char cn[8] = "id0"; cn[2] = '0' + i; g_id[i] = 'A'; if (uses[i]) { g_id[i] = (u8)hs_sym(cn, 8); hs_assume(g_id[i] >= 'A' && g_id[i] <= 'D'); } }
  u8 *src = hs_alloc(cs[t].n + 1); cpy(src, cs[t].src, cs[t].n); subst(src, cs[t].n, 1); hs_file("a.c", src, cs[t].n);
  int r = hs_compile("hlc.exe /P /Fia.i /no_stdlib /no_predefines /quiet a.c", 1ull << 34);
  if (r < 0) hs_fail("the preprocessor crashed"); if (r) hs_fail("a valid program was rejected");
  u64 n = hs_file_size("a.i"); if (n >= 1 << 16) hs_error("output too long"); u8 *out = hs_alloc(n + 1); hs_file_get("a.i", out, n);
  for (u32 i = 0; i < 2; i++) if (uses[i]) g_id[i] = (u8)hs_conc(g_id[i]);
  const char *ref = cs[t].refs[(g_id[0] - 'A') * 4 + (g_id[1] - 'A')]; u32 rn = slen(ref); u8 *rb = hs_alloc(rn + 1); cpy(rb, ref, rn); subst(rb, rn, 0);
  struct norm a = normalize(out, n, cs[t].exact, 1), b = normalize(rb, rn, cs[t].exact, 0); hs_note("source", src, cs[t].n); hs_note("got", a.p, a.n); hs_note("want", b.p, b.n);
  if (a.n != b.n) hs_fail("the expansion differs"); hs_check_mem(a.p, b.p, a.n, "the expansion differs"); hs_reach("expanded");
}
