// The operating system seen by the compiler: files, memory, console, registry, events, threads.
#include "core.h"
#include <dirent.h>
#include <sys/stat.h>
#include <strings.h>
#include <algorithm>
#include <cstdlib>
bool hs_call_ext(const std::string &name, State &S, CallInfo *ci, V *a, unsigned n, V &ret);
static std::vector<std::string> g_ext; static std::map<std::string, int> g_extmap;
int ext_index(const std::string &name) { auto it = g_extmap.find(name); if (it != g_extmap.end()) return it->second; int k = g_ext.size(); g_ext.push_back(name); g_extmap[name] = k; return k; }
const char *ext_name(int i) { return i >= 0 && i < (int)g_ext.size() ? g_ext[i].c_str() : "?"; }

std::string g_cwd = "/w", g_modpath = "/hlc"; static std::string cwd_win() { std::string r = "Z:" + g_cwd; for (auto &c : r) if (c == '/') c = '\\'; return r; }
// canonical key of a path: forward slashes, no "." or "..", relative to the working directory when below it
static std::string canon(const std::string &p0) {
  std::string p = p0; for (auto &c : p) if (c == '\\') c = '/';
  if (!(p.size() >= 2 && p[1] == ':')) { if (!p.empty() && p[0] == '/') p = "Z:" + p; else p = "Z:" + g_cwd + "/" + p; }
  std::vector<std::string> parts; size_t i = 2; std::string cur;
  for (; i <= p.size(); i++) { if (i == p.size() || p[i] == '/') { if (cur == "..") { if (!parts.empty()) parts.pop_back(); } else if (!cur.empty() && cur != ".") parts.push_back(cur); cur.clear(); } else cur += p[i]; }
  std::string r = "Z:"; for (auto &s : parts) r += "/" + s;
  std::string cw = "Z:" + g_cwd + "/"; if (r.size() > cw.size() && !strncasecmp(r.c_str(), cw.c_str(), cw.size())) return r.substr(cw.size());
  return r;
}
static std::string host_path(const std::string &key) { // "" when not on the host
  { std::string mp = "Z:" + g_modpath + "/"; if (key.rfind(mp, 0) == 0) return CFG.root_dir + "/" + key.substr(mp.size()); }
  if (key.rfind("Z:/opt/hlc/sdk", 0) == 0) return key.substr(2);
  return "";
}
static bool ci_eq(const std::string &a, const std::string &b) { return a.size() == b.size() && !strcasecmp(a.c_str(), b.c_str()); }
static std::string host_resolve(const std::string &h) { // case-insensitive lookup
  struct stat st; if (!stat(h.c_str(), &st)) return h;
  std::string cur; size_t i = 1; 
  while (i <= h.size()) { size_t j = h.find('/', i); if (j == std::string::npos) j = h.size(); std::string part = h.substr(i, j - i); std::string nx = cur + "/" + part;
    if (stat(nx.c_str(), &st)) { bool ok = false; if (DIR *d = opendir(cur.empty() ? "/" : cur.c_str())) { while (auto *e = readdir(d)) if (ci_eq(e->d_name, part)) { nx = cur + "/" + e->d_name; ok = true; break; } closedir(d); } if (!ok) return ""; }
    cur = nx; i = j + 1; }
  return cur;
}
static std::map<std::string, std::shared_ptr<File>> g_hostfiles;
static std::shared_ptr<File> host_file(const std::string &key) {
  auto it = g_hostfiles.find(key); if (it != g_hostfiles.end()) return it->second;
  std::shared_ptr<File> r; std::string h = host_path(key); if (!h.empty()) h = host_resolve(h); struct stat st;
  if (!h.empty() && !stat(h.c_str(), &st) && S_ISREG(st.st_mode)) { if (FILE *f = fopen(h.c_str(), "rb")) { r = std::make_shared<File>(); r->d.resize(st.st_size); size_t k = fread(r->d.data(), 1, st.st_size, f); r->d.resize(k); fclose(f); } }
  return g_hostfiles[key] = r;
}
static std::shared_ptr<File> vfs_find(State &S, const std::string &key) {
  auto it = S.os->vfs.find(key); if (it != S.os->vfs.end()) return it->second;
  for (auto &p : S.os->vfs) if (ci_eq(p.first, key)) return p.second;
  return host_file(key);
}
static bool vfs_isdir(State &S, const std::string &key) {
  if (key == "Z:" + g_cwd || key == "Z:" ) return true;
  std::string pre = key + "/"; for (auto &p : S.os->vfs) if (p.first.size() > pre.size() && !strncasecmp(p.first.c_str(), pre.c_str(), pre.size())) return true;
  std::string h = host_path(key + (key == "Z:" + g_modpath ? "/" : "")); if (!h.empty()) h = host_resolve(h); struct stat st; return !h.empty() && !stat(h.c_str(), &st) && S_ISDIR(st.st_mode);
}
static bool wild(const char *p, const char *s) {
  if (!*p) return !*s; if (*p == '*') { for (;; s++) { if (wild(p + 1, s)) return true; if (!*s) return false; } }
  if (!*s) return false; if (*p == '?' || tolower((u8)*p) == tolower((u8)*s)) return wild(p + 1, s + 1); return false;
}
struct Ent { std::string name; bool dir; u64 size; };
static std::vector<Ent> list_dir(State &S, const std::string &key) {
  std::map<std::string, Ent> m; std::string pre = key == "Z:" + g_cwd ? "" : key + "/";
  for (auto &p : S.os->vfs) { if (!p.second || p.first[0] == '<') continue; if (pre.empty()) { if (p.first.rfind("Z:", 0) == 0) continue; } else if (p.first.size() <= pre.size() || strncasecmp(p.first.c_str(), pre.c_str(), pre.size())) continue;
    std::string rest = p.first.substr(pre.size()); size_t sl = rest.find('/'); if (sl == std::string::npos) m[rest] = Ent{rest, false, p.second->d.size()}; else m[rest.substr(0, sl)] = Ent{rest.substr(0, sl), true, 0}; }
  std::string h = host_path(key + (key == "Z:" + g_modpath ? "/" : "")); if (!h.empty()) h = host_resolve(h);
  if (!h.empty()) if (DIR *d = opendir(h.c_str())) { while (auto *e = readdir(d)) { std::string nm = e->d_name; if (nm == "." || nm == "..") continue; struct stat st; if (stat((h + "/" + nm).c_str(), &st)) continue; if (!m.count(nm)) m[nm] = Ent{nm, S_ISDIR(st.st_mode), (u64)st.st_size}; } closedir(d); }
  std::vector<Ent> r; for (auto &x : m) r.push_back(x.second);
  std::sort(r.begin(), r.end(), [](const Ent &a, const Ent &b) { return strcasecmp(a.name.c_str(), b.name.c_str()) < 0; });
  return r;
}
static std::vector<Handle> g_dummy;
static u32 new_handle(State &S, Handle h) { OS &o = os_mut(S); o.h.push_back(h); return o.h.size() - 1; }
static void fill_find(State &S, u64 p, const std::string &enc) { // enc: flag byte + size + name
  bool dir = enc[0] == 'd'; size_t c = enc.find(':'); u64 size = strtoull(enc.c_str() + 1, nullptr, 10); std::string nm = enc.substr(c + 1);
  u8 buf[320]; memset(buf, 0, sizeof buf); u32 at = dir ? 0x10 : 0x20; memcpy(buf, &at, 4); u64 t = 132000000000000000ull; for (int i = 0; i < 3; i++) memcpy(buf + 4 + 8 * i, &t, 8);
  u32 hi = size >> 32, lo = (u32)size; memcpy(buf + 28, &hi, 4); memcpy(buf + 32, &lo, 4); strncpy((char*)buf + 44, nm.c_str(), 259); mem_w(S, p, buf, 320);
}
struct RegKey { const char *path; };
static const char *ROOTKEY = "SOFTWARE\\Microsoft\\Windows Kits\\Installed Roots";

// strtod is an uninterpreted function of the characters of the number when some of them are symbolic.
V sym_strtod(State &S, u64 p, u64 &len) {
  std::string sh; std::vector<V> b; bool any = false;
  for (;; p++) { V v = mem_load(S, p, 1); if (v.e) { bool d = decide(S, mk_and(mk_ule(mk_const('0', 8), EX(v, 8)), mk_ule(EX(v, 8), mk_const('9', 8)))); if (!d) v = VC(concretize(S, v, 8)); } if (v.e) any = true; if (!v.e && !(u8)v.c) break; sh += v.e ? '1' : (char)v.c; b.push_back(v); if (sh.size() > 400) throw EngineError{"strtod: long string"}; }
  char *e; double d = strtod(sh.c_str(), &e); len = e - sh.c_str(); any = false; for (u64 i = 0; i < len; i++) any |= b[i].e != nullptr;
  if (!any) { std::string t = sh.substr(0, len); for (u64 i = 0; i < len; i++) t[i] = (char)b[i].c; d = strtod(t.c_str(), nullptr); u64 r; memcpy(&r, &d, 8); return VC(r); }
  std::vector<u64> sy; for (u64 i = 0; i < len; i++) if (b[i].e) sy.push_back(i);
  if (sy.size() <= 1) { std::string t = sh.substr(0, len); for (u64 i = 0; i < len; i++) t[i] = (char)concretize(S, b[i], 8); double d = strtod(t.c_str(), nullptr); u64 r; memcpy(&r, &d, 8); return VC(r); }
  Expr *h = mk_const(len, 64); for (u64 i = 0; i < len; i++) h = mk_uf(0x40e0, 64, h, EX(b[i], 8)); return VE(mk_uf(0x40e1, 64, h));
}
bool ext_call(int idx, State &S, CallInfo *ci, V *a, unsigned n, V &ret) {
  const std::string &nm = g_ext[idx];
  if (nm[0] == 'h' && nm[1] == 's' && nm[2] == '_') return hs_call_ext(nm, S, ci, a, n, ret);
  auto C = [&](unsigned i) { return concretize(S, a[i], ci->aw[i]); };
  ret = VC(0); 
  static std::unordered_map<std::string, int> id; if (id.empty()) { const char *names[] = {"", "FindFirstFileA","FindNextFileA","FindClose","CloseHandle","GetSystemTime","SystemTimeToFileTime","GetLocalTime","GetCommandLineA","ExitProcess","malloc","CreateFileA","WriteFile","ReadFile","GetFileInformationByHandle","GetFileAttributesA","RegOpenKeyExA","RegQueryValueExA","RegEnumKeyExA","RegCloseKey","GetCurrentDirectoryA","GetModuleFileNameA","system","CreateEventA","SetEvent","ResetEvent","GetSystemInfo","GetStdHandle","GlobalAlloc","VirtualAlloc","VirtualFree","strtod","GetLastError","SetLastError","QueryPerformanceFrequency","QueryPerformanceCounter","IsDebuggerPresent","CreateThread","WaitForSingleObject","GetTickCount64","GetFileSizeEx","Sleep","DebugBreak","GetProcessId","GetCurrentProcessId","free","DeleteFileA","MoveFileA","VirtualProtect","OutputDebugStringA","GetFileTime","GetModuleHandleA","GetProcAddress","memcmp","memcpy","memset","memmove","strlen"}; for (int i = 1; i < (int)(sizeof names / sizeof *names); i++) id[names[i]] = i; }
  auto it = id.find(nm); if (it == id.end()) throw EngineError{"unmodelled external function " + nm};
  OS &os = *S.os; auto H = [&](u64 h) -> Handle * { OS &o = os_mut(S); return h < o.h.size() && o.h[h].kind != H_FREE ? &o.h[h] : nullptr; };
  switch (it->second) {
    case 1: { // FindFirstFileA
      std::string path = mem_cstr(S, C(0)); std::string q = path; for (auto &c : q) if (c == '\\') c = '/'; size_t sl = q.rfind('/'); std::string dir = sl == std::string::npos ? "." : q.substr(0, sl), pat = sl == std::string::npos ? q : q.substr(sl + 1);
      std::string dk = canon(dir); std::vector<std::string> out; bool star = pat.find_first_of("*?") != std::string::npos;
      if (star && vfs_isdir(S, dk)) for (const char *d : {".", ".."}) if (wild(pat == "*.*" ? "*" : pat.c_str(), d)) out.push_back(std::string("d0:") + d);
      for (auto &e : list_dir(S, dk)) if (wild(pat == "*.*" ? "*" : pat.c_str(), e.name.c_str())) out.push_back((e.dir ? "d" : "f") + std::to_string(e.size) + ":" + e.name);
      if (out.empty()) { os_mut(S).last_error = 2; ret = VC(~0ull); return true; }
      Handle h; h.kind = H_FIND; h.list = out; h.li = 1; fill_find(S, C(1), out[0]); ret = VC(new_handle(S, h)); return true; }
    case 2: { Handle *h = H(C(0)); if (!h || h->kind != H_FIND || h->li >= h->list.size()) { os_mut(S).last_error = 18; return true; } fill_find(S, C(1), h->list[h->li++]); ret = VC(1); return true; }
    case 3: case 4: { u64 hv = C(0); Handle *h = H(hv); if (h && h->kind != H_STDOUT && h->kind != H_THREAD && h->kind != H_EVENT) { h->kind = H_FREE; h->list.clear(); h->f.reset(); } ret = VC(1); return true; }
    case 5: case 7: { u16 t[8] = {2026, 9, 3, 17, 12, 34, 56, 0}; mem_w(S, C(0), t, 16); return true; }
    case 6: { u64 t = 132000000000000000ull; mem_w(S, C(1), &t, 8); ret = VC(1); return true; }
    case 8: ret = VC(os.cmdline_addr); return true;
    case 9: { V v = a[0]; u64 c = v.e ? concretize(S, v, 32) : v.c; compile_finish(S, (s64)(s32)(u32)c, 0, 0); return false; }
    case 10: case 28: { u64 k = C(nm == "malloc" ? 0 : 1); OS &o = os_mut(S); u64 sz = (k + 2 * PG - 1) / PG * PG; u64 p = o.va_next; o.va_next += sz + 0x10000; o.va_next &= ~0xffffull; mem_map(S, p, sz, 4); ret = VC(p); return true; }
    case 45: return true;
    case 11: { // CreateFileA
      std::string path = mem_cstr(S, C(0)); u32 acc = C(1), disp = C(4); std::string k = canon(path);
      if (acc & 0x40000000) {
        bool exists = vfs_find(S, k) != nullptr; if (vfs_isdir(S, k)) { os_mut(S).last_error = 5; ret = VC(~0ull); return true; }
        std::string par = k; size_t sl = par.rfind('/'); if (sl != std::string::npos && par.rfind("Z:", 0) == 0) { if (!vfs_isdir(S, par.substr(0, sl))) { os_mut(S).last_error = 3; ret = VC(~0ull); return true; } }
        else if (sl != std::string::npos && !vfs_isdir(S, par.substr(0, sl))) { os_mut(S).last_error = 3; ret = VC(~0ull); return true; }
        OS &o = os_mut(S); auto f = std::make_shared<File>(); o.vfs[k] = f; o.written.push_back(k); o.last_error = exists ? 183 : 0;
        Handle h; h.kind = H_FILE_W; h.f = f; h.path = k; h.pos = 0; ret = VC(new_handle(S, h)); return true;
      }
      auto f = vfs_find(S, k); if (!f) { os_mut(S).last_error = 2; ret = VC(~0ull); return true; }
      Handle h; h.kind = H_FILE_R; h.f = f; h.path = k; h.pos = 0; ret = VC(new_handle(S, h)); return true; }
    case 12: { // WriteFile
      u64 hv = C(0); Handle *h = H(hv); u64 p = C(1), k = C(2), pw = C(3); if (!h) { os_mut(S).last_error = 6; return true; }
      OS &o = os_mut(S); std::string key = h->kind == H_STDOUT ? "<stdout>" : h->path; auto &slot = o.vfs[key]; 
      auto nf = slot && slot.use_count() == 1 ? slot : (slot ? std::make_shared<File>(*slot) : std::make_shared<File>());
      std::vector<u8> d; std::vector<Expr*> s; if (k) mem_get(S, p, k, d, s); u64 old = nf->d.size();
      if (h->kind == H_STDOUT && CFG.trace) { std::string t(d.begin(), d.end()); if (!s.empty()) for (u64 i = 0; i < k; i++) if (s[i]) t[i] = '?'; fwrite(t.data(), 1, t.size(), stderr); }
      if (!s.empty() || !nf->s.empty()) { nf->s.resize(old, nullptr); if (s.empty()) s.assign(k, nullptr); nf->s.insert(nf->s.end(), s.begin(), s.end()); }
      nf->d.insert(nf->d.end(), d.begin(), d.end()); slot = nf; if (pw) mem_store(S, pw, 4, VC(k)); ret = VC(1); return true; }
    case 13: { // ReadFile
      u64 hv = C(0); Handle *h = H(hv); u64 p = C(1), k = C(2), pr = C(3); if (!h || h->kind != H_FILE_R) { os_mut(S).last_error = 6; return true; }
      u64 m = std::min<u64>(k, h->f->d.size() - h->pos); if (m) mem_put(S, p, *h->f, h->pos, m); h->pos += m; if (pr) mem_store(S, pr, 4, VC(m)); ret = VC(1); return true; }
    case 14: { Handle *h = H(C(0)); u64 p = C(1); if (!h || !h->f) { return true; } u8 b[52]; memset(b, 0, 52); u32 at = 0x20; memcpy(b, &at, 4); u64 t = 132000000000000000ull; for (int i = 0; i < 3; i++) memcpy(b + 4 + 8 * i, &t, 8); u64 sz = h->f->d.size(); u32 lo = sz, hi = sz >> 32; memcpy(b + 32, &hi, 4); memcpy(b + 36, &lo, 4); u32 links = 1; memcpy(b + 40, &links, 4);
      u64 id2 = 1469598103934665603ull; for (char c : h->path) id2 = (id2 ^ (u8)tolower(c)) * 1099511628211ull; memcpy(b + 44, &id2, 8); mem_w(S, p, b, 52); ret = VC(1); return true; }
    case 15: { std::string k = canon(mem_cstr(S, C(0))); if (vfs_isdir(S, k)) ret = VC(0x10); else if (vfs_find(S, k)) ret = VC(0x20); else { os_mut(S).last_error = 2; ret = VC(0xffffffffu); } return true; }
    case 16: { // RegOpenKeyExA
      u64 k = C(0); std::string sub = mem_cstr(S, C(1)); Handle h; h.kind = H_REG; 
      if (k == 0x80000002ull && ci_eq(sub, ROOTKEY)) h.path = "root"; else if (Handle *p = H(k)) { if (p->kind == H_REG && p->path == "root" && ci_eq(sub, "10.0.1.0\\Installed Options")) h.path = "opt"; else { ret = VC(2); return true; } } else { ret = VC(2); return true; }
      mem_store(S, C(4), 8, VC(new_handle(S, h))); return true; }
    case 17: { Handle *h = H(C(0)); std::string v = mem_cstr(S, C(1)); u64 pd = C(4), pl = C(5); if (h && h->path == "root" && v == "KitsRoot10") { const char *d = "Z:\\opt\\hlc\\sdk"; u32 l = strlen(d) + 1; mem_w(S, pd, d, l); mem_w(S, pl, &l, 4); return true; }
      if (h && h->path == "opt" && v == "OptionId.DesktopCPPx64") { u32 one = 1, l = 4; mem_w(S, pd, &one, 4); mem_w(S, pl, &l, 4); return true; } ret = VC(2); return true; }
    case 18: { Handle *h = H(C(0)); u32 i = C(1); if (!h || h->path != "root" || i > 0) { ret = VC(259); return true; } const char *d = "10.0.1.0"; u32 l = strlen(d); mem_w(S, C(2), d, l + 1); mem_w(S, C(3), &l, 4); return true; }
    case 19: { Handle *h = H(C(0)); if (h) h->kind = H_FREE; return true; }
    case 20: { u32 sz = C(0); u64 p = C(1); std::string cw = cwd_win(); const char *CWD = cw.c_str(); u32 l = strlen(CWD); if (sz <= l) { ret = VC(l + 1); return true; } mem_w(S, p, CWD, l + 1); ret = VC(l); return true; }
    case 21: { std::string ms = "Z:" + g_modpath + "/hlc.exe"; for (auto &c : ms) if (c == '/') c = '\\'; const char *m = ms.c_str(); u64 p = C(1); u32 sz = C(2), l = strlen(m); if (sz <= l) { mem_w(S, p, m, sz); ret = VC(sz); return true; } mem_w(S, p, m, l + 1); ret = VC(l); return true; }
    case 22: ret = VC(1); return true;
    case 23: { Handle h; h.kind = H_EVENT; h.manual = C(1); h.flag = C(2) != 0; ret = VC(new_handle(S, h)); return true; }
    case 24: { u64 hv = C(0); Handle *h = H(hv); if (h) { bool woke = false; for (auto &t : S.th) if (t.status == 1 && t.wait_handle == hv) { t.status = 0; t.wait_handle = 0xfffffffd; woke = true; if (!h->manual) break; } h->flag = h->manual || !woke; } ret = VC(1); return true; }
    case 25: { Handle *h = H(C(0)); if (h) h->flag = 0; ret = VC(1); return true; }
    case 26: { u8 b[48]; memset(b, 0, 48); u32 v = 4096; memcpy(b + 4, &v, 4); u64 q = 0x10000; memcpy(b + 8, &q, 8); q = 0x7ffffffeffffull; memcpy(b + 16, &q, 8); v = 1; memcpy(b + 24, &v, 4); memcpy(b + 32, &v, 4); v = 8664; memcpy(b + 36, &v, 4); v = 65536; memcpy(b + 40, &v, 4); mem_w(S, C(0), b, 48); return true; }
    case 27: { u32 w = C(0); OS &o = os_mut(S); int slot = w == 0xfffffff5u ? 1 : w == 0xfffffff4u ? 2 : 3; if (o.h.size() < 4) o.h.resize(4); o.h[slot].kind = H_STDOUT; ret = VC(slot); return true; }
    case 29: { // VirtualAlloc
      u64 p = C(0), k = C(1); u32 t = C(2); 
      if (p == 0) { OS &o = os_mut(S); p = o.va_next; u64 sz = (k + PG - 1) / PG * PG; o.va_next = (p + sz + 0x10000 + 0xffff) & ~0xffffull; if (o.va_next > 0x600000000000ull) { ret = VC(0); return true; } mem_map(S, p, sz, 4, (t & 0x1000) != 0); ret = VC(p); return true; }
      auto R = std::make_shared<std::map<u64, Region>>(*S.mem.regions); auto i2 = R->upper_bound(p);
      bool inside = i2 != R->begin(); if (inside) { --i2; inside = p < i2->second.end; }
      if (t & 0x2000) { if (inside) { ret = VC(0); return true; } u64 b = p & ~0xffffull; mem_map(S, b, (p + k - b + PG - 1) / PG * PG, 4, (t & 0x1000) != 0); ret = VC(b); return true; }
      u64 lo = p & ~0xfffull, hi = (p + k + PG - 1) & ~0xfffull; u64 cur = lo;
      while (cur < hi) {
        auto q = R->upper_bound(cur); if (q == R->begin()) { ret = VC(0); return true; } --q; if (cur >= q->second.end) { ret = VC(0); return true; }
        u64 rs = q->first, re = q->second.end; u8 kind = q->second.kind; if (q->second.committed) { cur = re; continue; }
        u64 ce = std::min(hi, re); bool merge = false;
        if (rs == cur && q != R->begin()) { auto pv = std::prev(q); if (pv->second.end == rs && pv->second.committed && pv->second.kind == kind) { R->erase(q); pv->second.end = ce; merge = true; } }
        if (!merge) { if (rs < cur) { q->second.end = cur; (*R)[cur] = Region{ce, 1, kind}; } else { q->second.end = ce; q->second.committed = 1; } }
        if (ce < re) (*R)[ce] = Region{re, 0, kind}; cur = ce;
      }
      S.mem.regions = R; tlb_flush(); ret = VC(p); return true; }
    case 30: { u64 p = C(0); for (;;) { auto q = S.mem.regions->find(p); if (q == S.mem.regions->end() || q->second.kind != 4) break; u64 e = q->second.end; mem_unmap(S, p); p = e; } ret = VC(1); return true; }
    case 31: { u64 len; V r = sym_strtod(S, C(0), len); u64 pe = C(1); if (pe) mem_store(S, pe, 8, VC(a[0].c + len)); ret = r; return true; }
    case 32: ret = VC(os.last_error); return true;
    case 33: os_mut(S).last_error = C(0); return true;
    case 34: { u64 f = 10000000; mem_w(S, C(0), &f, 8); ret = VC(1); return true; }
    case 35: { u64 t = os_mut(S).tick += 1000; mem_w(S, C(0), &t, 8); ret = VC(1); return true; }
    case 36: return true;
    case 37: { // CreateThread(attr, stack, fn, param, flags, id*)
      u64 fn = C(2); Func *f = func_at(fn); V prm = a[3]; u64 pid = C(5); if (!f || !f->defined) throw EngineError{"CreateThread: not a function"};
      Handle h; h.kind = H_THREAD; h.flag = S.th.size(); u32 hv = new_handle(S, h);
      Thread T; T.id = S.th.size(); T.status = 0; T.wait_handle = 0; T.handle = hv; T.stack_lo = 0x7e0000000000ull + 0x10000000ull * T.id; mem_map(S, T.stack_lo, 0x2000000, 2); T.sp = T.stack_lo + 0x2000000 - 0x100;
      S.th.push_back(T); int cur = S.cur; S.cur = T.id; push_frame(S, f, &prm, 1, -1, 0); S.cur = cur; if (pid) mem_store(S, pid, 4, VC(T.id + 100)); ret = VC(hv); return true; }
    case 38: { // WaitForSingleObject
      u64 hv = C(0); u32 to = C(1); Handle *h = H(hv); Thread &T = cur_thread(S);
      if (T.wait_handle == 0xfffffffd) { T.wait_handle = 0; return true; }
      bool sig = true; if (h && h->kind == H_EVENT) { sig = h->flag; if (sig && !h->manual) h->flag = 0; } else if (h && h->kind == H_THREAD) sig = S.th[h->flag].status == 2;
      if (sig) return true; if (to == 0) { ret = VC(0x102); return true; }
      T.status = 1; T.wait_handle = hv; schedule_point(S, 1); return false; }
    case 39: ret = VC(os_mut(S).tick += 10); return true;
    case 40: { Handle *h = H(C(0)); if (!h || !h->f) return true; u64 z = h->f->d.size(); mem_w(S, C(1), &z, 8); ret = VC(1); return true; }
    case 41: return true;
    case 42: handle_fault(S, FAULT_TRAP, 0); return false;
    case 43: case 44: ret = VC(77); return true;
    case 46: { std::string k = canon(mem_cstr(S, C(0))); os_mut(S).vfs.erase(k); ret = VC(1); return true; }
    case 48: ret = VC(1); return true; case 49: return true;
    case 53: { u64 x = C(0), y = C(1), k = C(2); for (u64 i = 0; i < k; i++) { V p = mem_load(S, x + i, 1), q = mem_load(S, y + i, 1); bool eq = p.e || q.e ? decide(S, mk_eq(EX(p, 8), EX(q, 8))) : p.c == q.c; if (!eq) { bool lt = p.e || q.e ? decide(S, mk_ult(EX(p, 8), EX(q, 8))) : p.c < q.c; ret = VC(lt ? (u32)-1 : 1); return true; } } return true; }
    case 54: case 56: mem_copy(S, C(0), C(1), C(2)); ret = a[0]; return true;
    case 55: mem_set(S, C(0), a[1], C(2)); ret = a[0]; return true;
    case 57: ret = VC(mem_cstr(S, C(0)).size()); return true;
  }
  throw EngineError{"unmodelled external function " + nm};
}
