#pragma once
// Everything in an object file except debug sections and file offsets.
static u64 norm(const char *name, u8 *o, u64 cap) {
  u64 n = hs_file_size(name), m = 0; static u8 f[400000]; if (n > sizeof f) hs_error("no object file or too large"); hs_file_get(name, f, n);
  struct coff_hdr *h = (struct coff_hdr*)f; struct coff_sec *sec = (struct coff_sec*)(f + 20); int dbg[64];
  cpy(o, f, 2); m = 2;
  for (u32 i = 0; i < h->nsec && i < 64; i++) {
    struct coff_sec *s = sec + i; char nm[9]; cpy(nm, s->name, 8); nm[8] = 0; dbg[i] = nm[0] == '.' && nm[1] == 'd' && nm[2] == 'e' && nm[3] == 'b'; 
    if (dbg[i]) continue; cpy(o + m, s->name, 8); m += 8; cpy(o + m, &s->flags, 4); m += 4;
    cpy(o + m, &s->size, 4); m += 4; if (m + s->size + s->nrel * 10 > cap - 100) hs_error("object too large");
    if (s->data) { cpy(o + m, f + s->data, s->size); m += s->size; } for (u32 j = 0; j < s->nrel; j++) { u8 *r = f + s->rel + j * 10, t[10]; u32 k = j, a, b; cpy(t, r, 10); cpy(&a, t, 4); for (; k; k--) { cpy(&b, o + m + (k - 1) * 10, 4); if (b <= a) break; cpy(o + m + k * 10, o + m + (k - 1) * 10, 10); } cpy(o + m + k * 10, t, 10); } // the order of the relocations means nothing
    m += s->nrel * 10; }
  u8 *st = f + h->symtab; for (u32 i = 0; i < h->nsym; i++) { struct coff_sym *s = (struct coff_sym*)(st + i * 18); u32 k = 1 + s->naux, d = s->sec > 0 && s->sec <= 64 && dbg[s->sec - 1]; if (!d) { cpy(o + m, s, 18); m += 18; cpy(o + m, s + 1, 18 * s->naux); m += 18 * s->naux; } i += k - 1; }
  u8 *str = st + h->nsym * 18; u32 sl; cpy(&sl, str, 4); cpy(o + m, str, sl); m += sl; return m;
}
