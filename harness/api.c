/* Unit api: the contracts of the public interface, executed on the whole library as
 * compiled (no stub), over enumerated histories of operations. Bounded: it stands in
 * for the composition of the layers, which is out of the verifier's reach in one piece.
 * The oracle is a ghost map from keys to data, and a reader of the file of its own. */
#define _GNU_SOURCE
#include "vp.h"
#include <stdarg.h>
#include <signal.h>
#include "ffdb_db.h"
#include "ffdb_pagepool.h"
#include "ffdb_page.h"
#include "ffdb_hash.h"
#define A(c, msg) VP_ASSERT(c, msg)
/* ---- faults and process end ---- */
static int f_kind, f_at, f_hit, f_armed; /* 1 read error, 2 short read, 3 write error, 4 short write, 5 every write from there fails */
static int tolerate_exit;
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_ftruncate(int, off_t);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
  if (f_armed && (f_kind == 1 || f_kind == 2) && f_at-- == 0) { f_hit = 1; if (f_kind == 1) { errno = EIO; return -1; } return __real_read(fd, b, n / 2); }
  return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
  if (fd > 2 && f_armed && f_kind >= 3) { if (f_at-- <= 0 && (f_kind == 5 || !f_hit)) { f_hit = 1; if (f_kind == 4) return __real_write(fd, b, n / 2); errno = ENOSPC; return -1; } }
  return __real_write(fd, b, n);
}
static int ended;
void __wrap_exit(int c) { if (!tolerate_exit) A(0, "[C01,C03,C04,C09,C10,C11,C12,C15,C16] the process is not ended on a sound database"); _Exit(0); }
void __wrap_abort(void) { if (!tolerate_exit) A(0, "[C01,C03,C04,C05,C09,C10,C11,C12,C14,C15,C16] the process is not ended on a sound database"); _Exit(0); }
static void on_abrt(int s) { _Exit(0); }
/* ---- ghost state ---- */
#define MAXK 3000
typedef struct { unsigned char *k; long kl; unsigned char *v; long vl; int seen; } ent;
static ent G[MAXK]; static int gn;
static unsigned char *g_ui; static unsigned g_uil; static int g_ui_set; static ffdb_config_info_t *g_cf; static int g_cf_set;
static FFDB_HASHINFO info; static char path[64]; static FFDB_DB *db; static unsigned bs; static int p_swap, p_weak, p_v5;
static unsigned weak(const void *k, unsigned n) { const unsigned char *p = k; return n ? p[n - 1] & 7 : 0; }
static int find(const unsigned char *k, long n) { for (int i = 0; i < gn; i++) if (G[i].kl == n && !memcmp(G[i].k, k, n)) return i; return -1; }
static unsigned rnd(unsigned n) { return n ? vp_u32() % n : 0; }
static unsigned char *bytes(long n) { unsigned char *p = malloc(n ? n : 1); if (n < 4096) { for (long i = 0; i < n; i++) p[i] = (unsigned char)vp_u32(); } else { unsigned long x = vp_u32() | 1; for (long i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; p[i] = x >> 24; } } return p; }
static ffdb_htab_t *HT(void) { return (ffdb_htab_t *)db->internal; }
/* nothing is held between operations; of two copies of a page the older one is clean (it is evicted first and never found) */
static void idle(int cursors)
{
  ffdb_htab_t *h = HT(); ffdb_bkt_t *b, *c; int n = 0;
  A(pthread_mutex_trylock(&h->lock) == 0, "[C14] the table's lock is free between operations"); pthread_mutex_unlock(&h->lock);
  A(pthread_mutex_trylock(&h->mp->lock) == 0, "[C14] the cache's lock is free between operations"); pthread_mutex_unlock(&h->mp->lock);
  static pgno_t seen[20000]; static char dty[20000]; int ns = 0;
  FFDB_CIRCLEQ_FOREACH(b, &h->mp->lqh, lq) {
    if (!cursors) A(b->ref == 0 && !(b->flags & FFDB_PAGE_PINNED), "[C14] no page stays pinned between operations");
    if (ns < 20000) { dty[ns] = (b->flags & FFDB_PAGE_DIRTY) != 0; seen[ns++] = b->pgno; }
  }
  for (int i = 0; i < ns && ns < 400; i++) for (int j = 0; j < i; j++) A(seen[i] != seen[j] || !dty[j], "[C11] an older copy of a page is never written");
}
static int openit(int flags)
{
  FFDB_HASHINFO i2 = info;
  if (flags == (O_RDWR | 0) && rnd(2)) { i2.bsize = 512 << rnd(4); i2.nbuckets = rnd(100); i2.userinfolen = rnd(3000); i2.numconfigs = rnd(30); }
  db = ffdb_dbopen(path, flags, 0644, ((flags & O_ACCMODE) == O_RDONLY && !p_weak && rnd(2)) ? 0 : &i2);
  return db ? 0 : -1;
}
static int put(int i_or_new, unsigned char *k, long kl, unsigned char *v, long vl, unsigned flag)
{
  FFDB_DBT K, V; unsigned char *kc = malloc(kl ? kl : 1), *vc = malloc(vl ? vl : 1); /* exactly as large as the caller says */
  memcpy(kc, k, kl); memcpy(vc, v, vl);
  K.data = kc; K.size = kl; V.data = vc; V.size = vl;
  int st = db->put(db, &K, &V, flag);
  A(!memcmp(kc, k, kl) && !memcmp(vc, v, vl), "[C01,C16] the caller's buffers are left alone");
  free(kc); free(vc);
  return st;
}
static int get(const unsigned char *k, long kl, unsigned char **out, long *n, int mode, long cap)
{
  FFDB_DBT K, V; unsigned char *kc = malloc(kl ? kl : 1); memcpy(kc, k, kl); K.data = kc; K.size = kl;
  V.data = 0; V.size = 0;
  if (mode) { V.data = malloc(cap ? cap : 1); V.size = cap; }
  void *mine = V.data;
  int st = db->get(db, &K, &V, 0);
  free(kc);
  if (st == 0) { if (mine) A(V.data == mine, "[C16] the caller's buffer is used"); *out = V.data; *n = V.size; } else { *out = 0; *n = 0; if (mine) free(mine); }
  return st;
}
static void check_get(int i, int mode)
{
  unsigned char *o; long n, cap = G[i].vl + (mode == 2 ? 1 + rnd(50) : 0);
  if (mode && cap == 0) mode = 0;
  int st = get(G[i].k, G[i].kl, &o, &n, mode, cap);
  A(st == 0, "[C01,C02,C03,C04,C06,C11,C15,C08,C05,C13] a stored key is found"); if (st) return;
  A(n == G[i].vl, "[C01,C03,C04,C06,C11,C15,C08,C05] a lookup returns the size that was stored");
  if (n == G[i].vl) A(!memcmp(o, G[i].v, n), "[C01,C03,C04,C06,C11,C15,C08,C05] a lookup returns the bytes that were stored");
  free(o);
}
static void check_all(void) { for (int i = 0; i < gn; i++) check_get(i, rnd(3)); }
static void do_over(void);
static int writable(void) { return (HT()->flags & O_ACCMODE) != O_RDONLY; }
static void check_cursor(int back, int withdata)
{
  ffdb_cursor_t *c = 0, *c2 = 0; FFDB_DBT K, V; int st, n = 0, own = rnd(2), n2 = 0, busy = rnd(2);
  A(db->cursor(db, &c, FFDB_KEY_CURSOR) == 0, "[C09] a cursor is made"); if (!c) return;
  if (rnd(3) == 0) A(db->cursor(db, &c2, FFDB_KEY_CURSOR) == 0, "[C09] a second cursor is made");
  for (int i = 0; i < gn; i++) G[i].seen = 0;
  unsigned mv = back ? FFDB_LAST : FFDB_FIRST; if (rnd(2)) mv = back ? FFDB_PREV : FFDB_NEXT;
  for (;;) {
    static unsigned char kb[1 << 20]; K.data = own ? kb : 0; K.size = own ? sizeof kb : 0; V.data = 0; V.size = 0;
    st = c->get(c, &K, withdata ? &V : 0, mv);
    if (st) break;
    int i = find(K.data, K.size);
    A(i >= 0, "[C09] a cursor returns stored keys only"); if (i < 0) break;
    A(!G[i].seen, "[C09,C04] a cursor returns no pair twice"); G[i].seen = 1; n++;
    if (withdata) { A(V.size == G[i].vl && !memcmp(V.data, G[i].v, V.size), "[C09] a cursor returns each key with its own datum"); free(V.data); }
    if (!own) free(K.data);
    mv = back ? FFDB_PREV : FFDB_NEXT;
    if (n > gn) break;
    if (rnd(16) == 0) { int j = rnd(gn); check_get(j, 0); }   /* lookups in between do not disturb it */
    if (busy && rnd(16) == 0 && writable()) do_over();          /* nor do replacements, nor another cursor */
    if (c2) { K.data = 0; K.size = 0; int s2 = c2->get(c2, &K, 0, back ? FFDB_NEXT : FFDB_PREV); A(s2 == 0, "[C09] a second cursor moves on its own"); if (s2 == 0) { A(find(K.data, K.size) >= 0, "[C09] a cursor returns stored keys only"); free(K.data); n2++; } }
  }
  if (c2) { K.data = 0; K.size = 0; A(c2->get(c2, &K, 0, back ? FFDB_NEXT : FFDB_PREV) == FFDB_NOT_FOUND && n2 == gn, "[C09] a second cursor returns every pair"); c2->close(c2); }
  A(st == FFDB_NOT_FOUND, "[C09] at the end a cursor reports that there is no more");
  A(n == gn, "[C09,C04,C15] a cursor returns every pair");
  K.data = 0; K.size = 0; V.data = 0; V.size = 0;
  st = c->get(c, &K, 0, back ? FFDB_PREV : FFDB_NEXT);
  A(st != 0, "[C09] beyond the end there is still no more");
  if (gn && rnd(2)) { K.data = 0; K.size = 0; st = c->get(c, &K, 0, FFDB_FIRST); A(st == 0, "[C09] a cursor can start again"); if (st == 0) { A(find(K.data, K.size) >= 0, "[C09] a cursor can start again"); free(K.data); } }
  c->close(c);
  idle(0);
}
/* buffers of the caller's: one that just holds key or datum is used, one that does not is refused */
static void cursor_bufs(void)
{
  ffdb_cursor_t *c = 0; FFDB_DBT K, V; int st, n = 0; static int ord[MAXK]; unsigned mv = FFDB_FIRST, fw = rnd(2);
  if (!gn) return;
  A(db->cursor(db, &c, FFDB_KEY_CURSOR) == 0, "[C09] a cursor is made"); if (!c) return;
  for (;;) { K.data = 0; K.size = 0; st = c->get(c, &K, 0, n ? (fw ? FFDB_NEXT : FFDB_PREV) : (fw ? FFDB_FIRST : FFDB_LAST)); if (st || n >= gn) break; ord[n] = find(K.data, K.size); free(K.data); if (ord[n] < 0) break; n++; }
  c->close(c);
  A(db->cursor(db, &c, FFDB_KEY_CURSOR) == 0, "[C09] a cursor is made"); if (!c) return;
  int stop = rnd(n), i;
  for (i = 0; i < n; i++) {
    ent *g = &G[ord[i]]; long kc = g->kl, vc = g->vl; int sk = 0, sv = 0;
    if (i == stop) { if (rnd(3) && kc > 1) { kc -= 1 + rnd(kc > 5 ? 4 : kc - 1); sk = 1; } else if (vc > 1) { vc -= 1 + rnd(vc > 5 ? 4 : vc - 1); sv = 1; } }
    else { if (rnd(2)) kc += rnd(9); if (rnd(2)) vc += rnd(9); }
    K.data = malloc(kc); K.size = kc; V.data = vc ? malloc(vc) : 0; V.size = vc; void *kb = K.data, *vb = V.data; memset(kb, 0xa5, kc); if (vb) memset(vb, 0xa5, vc);
    st = c->get(c, &K, &V, i ? (fw ? FFDB_NEXT : FFDB_PREV) : (fw ? FFDB_FIRST : FFDB_LAST));
    if (sk || sv) {
      A(st != 0 && st != FFDB_NOT_FOUND, "[C16] a cursor refuses a buffer that is too small");
      unsigned char d = 0; for (long x = 0; x < (sk ? kc : vc); x++) d |= ((unsigned char *)(sk ? kb : vb))[x] ^ 0xa5; A(d == 0, "[C16] a buffer that is too small is not written");
      free(kb); if (vb) free(vb); break;
    }
    A(st == 0, "[C09,C16] a cursor fills buffers that just hold key and datum"); if (st) break;
    A(K.data == kb && K.size == g->kl && !memcmp(kb, g->k, g->kl), "[C09,C16] a cursor returns the key in the caller's buffer");
    A((!vb || V.data == vb) && V.size == g->vl && !memcmp(V.data, g->v, g->vl), "[C09,C16] a cursor returns each key with its own datum");
    free(kb); free(V.data);
  }
  c->close(c); idle(0);
}
static void absent(void)
{
  unsigned char kb[300], *o; long n, kl = 1 + rnd(40);
  for (int i = 0; i < 300; i++) kb[i] = vp_u32();
  if (gn && rnd(3)) { /* something close to a stored key */
    int i = rnd(gn); kl = G[i].kl; if (kl > 280) kl = 280; memcpy(kb, G[i].k, kl);
    switch (rnd(4)) { case 0: if (kl > 1) kl--; break; case 1: kl++; kb[kl - 1] = rnd(2) ? 0 : vp_u32(); break; case 2: kb[rnd(kl)] ^= 1 << rnd(8); break; default: kb[kl - 1] ^= 0x80; }
  }
  if (find(kb, kl) >= 0) return;
  int st = get(kb, kl, &o, &n, 0, 0);
  A(st == FFDB_NOT_FOUND, "[C02] a key that was never stored is not found");
}
static long pick_key(void) { unsigned r = rnd(20); return r < 14 ? 1 + rnd(24) : r < 18 ? 1 + rnd(bs / 4) : r == 18 ? (long)bs - 59 : (long)bs - 59 - rnd(20); }
static long pick_val(void)
{
  switch (rnd(12)) { case 0: return 0; case 1: return rnd(8); case 2: return bs - 52 + rnd(9) - 4; case 3: return bs - 32 + rnd(9) - 4; case 4: return 2 * bs - 84 + rnd(60) - 30; case 5: return rnd(6 * bs);
    case 6: return bs * (1 + rnd(3)) - rnd(80); case 7: { /* around what is left on the current data page */
      return rnd(bs); } default: return rnd(60); }
}
static void do_put(void)
{
  if (gn >= MAXK) return;
  long kl = pick_key(), vl = pick_val(); unsigned char *k = bytes(kl), *v = bytes(vl);
  if (rnd(3) == 0) for (long i = 0; i < kl; i++) k[i] = i & 1; /* keys of few bytes: many common prefixes */
  if (find(k, kl) >= 0) { free(k); free(v); return; }
  unsigned nk = HT()->hdr.nkeys;
  int st = put(-1, k, kl, v, vl, rnd(2) ? FFDB_NOOVERWRITE : 0);
  A(st == 0, "[C01] inserting a new pair within the limits succeeds");
  A(HT()->hdr.nkeys == nk + 1, "[C03] a new key is counted once");
  if (st) return;
  G[gn].k = k; G[gn].kl = kl; G[gn].v = v; G[gn].vl = vl; gn++;
}
static void do_over(void)
{
  if (!gn) return;
  int i = rnd(gn); long vl; unsigned r = rnd(6); unsigned nk = HT()->hdr.nkeys;
  vl = r == 0 ? G[i].vl : r == 1 ? G[i].vl + 1 : r == 2 ? G[i].vl + rnd(2 * bs) : rnd(G[i].vl + 1);
  unsigned char *v = bytes(vl);
  if (rnd(3) == 0) { int st = put(i, G[i].k, G[i].kl, v, vl, FFDB_NOOVERWRITE); A(st != 0, "[C03] overwriting is refused when the caller forbids it"); free(v); }
  else {
    int st = put(i, G[i].k, G[i].kl, v, vl, 0);
    if (vl <= G[i].vl) { A(st == 0, "[C03] replacing by a datum that is not longer succeeds"); if (st == 0) { free(G[i].v); G[i].v = v; G[i].vl = vl; } }
    else { A(st != 0, "[C03] replacing by a longer datum is refused"); free(v); }
  }
  A(HT()->hdr.nkeys == nk, "[C03] the number of keys does not change when one is replaced");
  check_get(i, 0);
}
static void do_refuse(void)
{
  unsigned nk = HT()->hdr.nkeys; unsigned char *o; long n; int st;
  switch (rnd(4)) {
  case 0: { long kl = bs - 58 + rnd(200); unsigned char *k = bytes(kl), v = 1; st = put(-1, k, kl, &v, 1, 0); A(st != 0, "[C16] a key that fits no page is refused"); free(k); break; }
  case 1: { unsigned char k = 1, v = 1; st = put(-1, &k, 1, &v, 1, 3); A(st != 0, "[C03] an unknown flag is refused"); break; }
  case 2: { if (!gn) return; int i = rnd(gn); if (G[i].vl < 2) return; st = get(G[i].k, G[i].kl, &o, &n, 1, 1 + rnd(G[i].vl - 1)); A(st != 0 && st != FFDB_NOT_FOUND, "[C16] a result buffer that is too small is refused"); break; }
  default: { FFDB_DBT K, V; static char big[8]; K.data = big; K.size = 3; V.data = big; V.size = FFDB_MAX_DATASIZE + 1 + rnd(5); st = db->put(db, &K, &V, 0); A(st != 0, "[C16] a datum over the limit is refused"); break; }
  }
  A(HT()->hdr.nkeys == nk, "[C03,C16] a refused operation adds nothing");
}
static unsigned uimax, ncf;
static void check_info(void)
{
  unsigned len = uimax; unsigned char *b = malloc(uimax + 1); memset(b, 0xee, uimax + 1);
  A(ffdb_max_user_info_len(db) == uimax, "[C10,C06] the space reserved for user information is kept");
  A(ffdb_num_configs(db) == ncf, "[C10,C06] the number of configurations is kept");
  if (g_ui_set) {
    A(ffdb_get_user_info(db, b, &len) == 0, "[C10,C06] user information is readable");
    A(len == g_uil && !memcmp(b, g_ui, len), "[C10,C06,C08] user information is returned unchanged");
    A(b[uimax] == 0xee, "[C16] nothing is written behind the caller's buffer");
    if (g_uil) { unsigned char *s = malloc(g_uil); len = g_uil; A(ffdb_get_user_info(db, s, &len) == 0 && len == g_uil && !memcmp(s, g_ui, len), "[C10,C16] user information is returned into a buffer that just holds it"); free(s); }
    if (g_uil > 1) { unsigned char *s = malloc(g_uil - 1); len = g_uil - 1; A(ffdb_get_user_info(db, s, &len) != 0, "[C10,C16] a buffer too small for the user information is refused"); free(s); }
  }
  if (g_cf_set) {
    ffdb_all_config_info_t all; memset(&all, 0, sizeof all);
    A(ffdb_get_all_configs(db, &all) == 0 && (unsigned)all.numconfigs == ncf, "[C10,C06] all configurations are readable");
    if (all.allconfigs) { A(!memcmp(all.allconfigs, g_cf, ncf * sizeof *g_cf), "[C10,C06,C08] configurations are returned unchanged"); free(all.allconfigs); }
    ffdb_config_info_t one; int i = rnd(ncf); memset(&one, 0, sizeof one);
    A(ffdb_get_config(db, g_cf[i].config, &one) == 0 && !memcmp(&one, &g_cf[i], sizeof one), "[C10] one configuration is returned unchanged");
    A(ffdb_get_config(db, 1000000, &one) != 0, "[C10] a configuration that does not exist is not returned");
  }
  free(b);
}
static void rnd_cf(ffdb_config_info_t *c, int i) { memset(c, 0, sizeof *c); c->config = 7 * i + 3; c->index = i; c->inserted = rnd(2); c->type = rnd(3); c->mtime = (int)vp_u32(); for (unsigned j = 0; j < rnd(128); j++) c->fname[j] = 'a' + rnd(26); }
static void do_info(void)
{
  switch (rnd(5)) {
  case 0: { unsigned l = rnd(3) == 0 ? uimax : rnd(uimax + 1); unsigned char *b = bytes(l); A(ffdb_set_user_info(db, b, l) == 0, "[C10] user information that fits is accepted"); free(g_ui); g_ui = b; g_uil = l; g_ui_set = 1; break; }
  case 1: { unsigned l = uimax + 1 + rnd(100); unsigned char *b = bytes(l); A(ffdb_set_user_info(db, b, l) != 0, "[C10] user information that does not fit is refused"); free(b); break; }
  case 2: { ffdb_all_config_info_t all; all.numconfigs = ncf; all.allconfigs = malloc(ncf * sizeof *g_cf); for (unsigned i = 0; i < ncf; i++) rnd_cf(&all.allconfigs[i], i);
      A(ffdb_set_all_configs(db, &all) == 0, "[C10] configurations are accepted"); free(g_cf); g_cf = all.allconfigs; g_cf_set = 1; break; }
  case 3: if (g_cf_set) { ffdb_config_info_t c; int i = rnd(ncf); rnd_cf(&c, i); A(ffdb_set_config(db, &c) == 0, "[C10] a configuration is updated"); g_cf[i] = c; } break;
  default: { ffdb_all_config_info_t all; ffdb_config_info_t c; all.numconfigs = ncf + 1; all.allconfigs = calloc(ncf + 1, sizeof c); A(ffdb_set_all_configs(db, &all) != 0, "[C10] too many configurations are refused"); free(all.allconfigs);
      memset(&c, 0, sizeof c); c.index = ncf + rnd(5); c.config = 7 * c.index + 3; A(ffdb_set_config(db, &c) != 0, "[C10] a configuration that does not fit is refused"); }
  }
  check_info();
}
/* ---- a reader of the file of its own ---- */
static unsigned char *F; static long fsz; static int fbig;
static unsigned r32(const unsigned char *p) { return fbig ? (unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3] : (unsigned)p[3] << 24 | p[2] << 16 | p[1] << 8 | p[0]; }
static unsigned r16(const unsigned char *p) { return fbig ? p[0] << 8 | p[1] : p[1] << 8 | p[0]; }
static unsigned h32(unsigned o) { return (unsigned)F[o] << 24 | F[o + 1] << 16 | F[o + 2] << 8 | F[o + 3]; }
static void slurp(void) { FILE *f = fopen(path, "rb"); fseek(f, 0, SEEK_END); fsz = ftell(f); rewind(f); free(F); F = malloc(fsz + 1); if (fread(F, 1, fsz, f) != (size_t)fsz) _Exit(92); fclose(f); }
static unsigned char *use; /* what each page is used for */
static int claim(unsigned p, int what, int share)
{
  if ((long)(p + 1) * bs > fsz) { A(0, "[C05,C06,C15,C12] every page in use lies inside the file"); return 0; }
  A(use[p] == 0 || (share && use[p] == what), "[C05,C04,C15] no page serves two purposes"); 
  int r = use[p] == 0; use[p] = what; return r;
}
static unsigned log2u(unsigned n) { unsigned i = 0, l = 1; while (l < n) { l <<= 1; i++; } return i; }
#define HO(f) ((unsigned)offsetof(ffdb_hashhdr_t, f))
static void fsck(void)
{
  slurp(); 
  A(h32(HO(magic)) == FFDB_HASHMAGIC && h32(HO(version)) == (p_v5 ? FFDB_VERSION_5 : FFDB_VERSION) && h32(HO(bsize)) == bs, "[C06,C08] the description on disk is in its fixed byte order");
  unsigned lo = h32(HO(lorder)); fbig = lo == BIG_ENDIAN; A(fbig == p_swap, "[C08,C06] the file's byte order is recorded");
  unsigned mb = h32(HO(max_bucket)), ov = h32(HO(ovfl_point)), mv = h32(HO(num_moved_pages)), sp[NCACHED], fp[NCACHED], np = fsz / bs, keys = 0;
  for (int i = 0; i < NCACHED; i++) { sp[i] = h32(HO(spares) + 4 * i); fp[i] = h32(HO(free_pages) + 4 * i); }
  A(fsz % bs == 0, "[C06,C12] the file consists of whole pages");
  use = calloc(np + 1, 1);
  unsigned up = F[HO(uinfo_page)] << 8 | F[HO(uinfo_page) + 1], un = F[HO(uinfo_npages)] << 8 | F[HO(uinfo_npages) + 1], cp = F[HO(cfig_page)] << 8 | F[HO(cfig_page) + 1], cn = F[HO(cfig_npages)] << 8 | F[HO(cfig_npages) + 1];
  claim(0, 'H', 0);
  for (unsigned i = 0; i < un; i++) claim(up + i, 'U', 0);
  for (unsigned i = 0; i < cn; i++) claim(cp + i, 'C', 0);
  unsigned char *map = calloc(fsz, 1); /* bytes of data pages in use */
  for (unsigned b = 0; b <= mb; b++) {
    unsigned s = log2u(b + 1), p = b ? b - (1u << (s - 1)) + sp[s] : sp[0];
    if (b == 0) p = sp[0];
    int first = 1, hops = 0; unsigned prev = 0xffffffff;
    while (p != 0xffffffff && hops++ < 100000) {
      if (first && (long)(p + 1) * bs > fsz) break; /* a bucket that was never written */
      if (!claim(p, first ? 'B' : 'O', 0)) break;
      unsigned char *q = F + (long)p * bs;
      if (first && r32(q + 12) != FFDB_PAGE_MAGIC) break; /* never written */
      A(r32(q + 12) == FFDB_PAGE_MAGIC && r32(q) == p && r16(q + 18) == HASH_BUCKET_PAGE, "[C04,C08,C15] a bucket's pages are bucket pages and know where they are");
      if (r16(q + 18) != HASH_BUCKET_PAGE) break;
      unsigned n = r16(q + 16); keys += n;
      for (unsigned i = 0; i < n; i++) {
        unsigned ko = r32(q + 28 + 12 * i), kl = r32(q + 32 + 12 * i), dof = r32(q + 36 + 12 * i);
        A(ko < bs && ko + kl <= bs && dof + 16 <= ko, "[C16,C08] keys lie inside their page"); if (!(ko < bs && ko + kl <= bs && dof + 16 <= bs)) continue;
        int g = find(q + ko, kl); A(g >= 0, "[C04,C02,C03] only stored keys are in the file"); if (g < 0) continue;
        /* walk its datum */
        unsigned dp = r32(q + dof), off = r32(q + dof + 4), dl = r32(q + dof + 8); long left = dl, at = 0; int h2 = 0;
        A(dl == G[g].vl && off + 20 <= bs, "[C01,C06] the stored size is on disk"); if (dl != G[g].vl || off + 20 > bs) continue;
        unsigned pos = off;
        while (h2++ < 100000) {
          claim(dp, 'D', 1); if ((long)(dp + 1) * bs > fsz) break;
          unsigned char *d = F + (long)dp * bs;
          A(r32(d + 12) == FFDB_PAGE_MAGIC && r16(d + 18) == HASH_DATA_PAGE && r32(d) == dp, "[C08,C15,C05] a datum's pages are data pages and know where they are");
          if (h2 == 1) { A(r32(d + pos) == dl && r32(d + pos + 4) == (p_v5 ? DATA_VALID_5 : DATA_VALID_6) && r32(d + pos + 12) == p && r32(d + pos + 16) == i, "[C04,C15,C08] a datum on disk belongs to its key");
            for (unsigned x = pos; x < pos + 20; x++) { A(!map[(long)dp * bs + x], "[C05] no two data share bytes"); map[(long)dp * bs + x] = 1; } pos += 20; }
          long cl = bs - pos < left ? bs - pos : left;
          A(!memcmp(d + pos, G[g].v + at, cl), "[C06,C01,C11,C12] the stored bytes are on disk");
          for (long x = 0; x < cl; x++) { A(!map[(long)dp * bs + pos + x], "[C05] no two data share bytes"); map[(long)dp * bs + pos + x] = 1; }
          left -= cl; at += cl; pos = 32; if (left <= 0) break;
          dp = r32(d + 8);
        }
      }
      if (!first) A(1, "");
      prev = p; p = r32(q + 8); first = 0;
    }
  }
  A(keys == (unsigned)gn && h32(HO(nkeys)) == (unsigned)gn, "[C03,C04,C06] the file holds every key once");
  /* the description and the lists name a free page by where it is while the database is in use: where the pages were moved at close, it is found where it was moved to */
  unsigned fm = sp[ov + 1] - mv, to = mb + 1 - (1u << (log2u(mb + 2) - 1)) + sp[log2u(mb + 2)];
#define TR(x) (mv && (x) >= fm && (x) < fm + mv ? to + ((x) - fm) : (x))
  for (unsigned l = 0; l < NCACHED; l++) {
    unsigned p = fp[l]; int hops = 0; if (p != 0xffffffff) p = TR(p);
    while (p != 0xffffffff && hops++ < 100000) {
      if (!claim(p, 'F', 0)) break;
      unsigned char *q = F + (long)p * bs;
      A(r32(q + 12) == FFDB_PAGE_MAGIC && r16(q + 18) == HASH_FREE_PAGE && r32(q) == p, "[C05,C15,C08] a free list is on free list pages");
      if (r16(q + 18) != HASH_FREE_PAGE) break;
      for (unsigned i = 0; i < r16(q + 16); i++) { unsigned e = r32(q + 28 + 4 * i);
        A(e < (sp[ov + 1] ? sp[ov + 1] : sp[ov]) && e > 0, "[C05,C15] free pages lie inside the file"); if (TR(e) >= np) continue;
        claim(TR(e), 'X', 0); }
      p = r32(q + 8);
    }
  }
  A(mb == 0 || (ov == log2u(mb + 1)), "[C04,C06] the table size on disk is consistent");
  if (sp[ov + 1]) for (unsigned p = sp[ov + 1] - mv; p < np; p++) A(!use[p], "[C05,C15] nothing in use lies behind the allocation mark");
  free(use); free(map);
}
static void check_ro(void)
{
  static const int RX[4] = {0, O_CREAT, O_NONBLOCK, O_CREAT | O_NONBLOCK}; /* read-only is the access mode, whatever else is asked for */
  slurp(); unsigned char *F0 = F; long n0 = fsz; F = 0;
  A(openit(O_RDONLY | RX[rnd(4)]) == 0, "[C06,C13] a closed database can be opened read-only"); if (!db) return;
  check_all(); for (int i = 0; i < 5; i++) absent(); check_info(); check_cursor(rnd(2), rnd(2)); cursor_bufs();
  unsigned char k[3] = {1, 2, 3}; A(put(-1, k, 3, k, 3, 0) != 0, "[C13] insert into a read-only database is refused");
  if (gn) { int i = rnd(gn); unsigned char *v = bytes(G[i].vl); A(put(i, G[i].k, G[i].kl, v, G[i].vl, 0) != 0, "[C13] replacing in a read-only database is refused"); free(v); check_get(i, 0); }
  A(ffdb_set_user_info(db, k, 3) != 0, "[C13] user information of a read-only database cannot be set");
  if (g_cf_set) { ffdb_config_info_t c = g_cf[0]; c.mtime ^= 1; A(ffdb_set_config(db, &c) != 0, "[C13] a configuration of a read-only database cannot be set");
    ffdb_all_config_info_t all; all.numconfigs = ncf; all.allconfigs = malloc(ncf * sizeof c); memcpy(all.allconfigs, g_cf, ncf * sizeof c); all.allconfigs[0].mtime ^= 1; A(ffdb_set_all_configs(db, &all) != 0, "[C13] configurations of a read-only database cannot be set"); free(all.allconfigs); }
  if (rnd(2)) db->sync(db, 0);
  idle(0);
  A(db->close(db) == 0, "[C13,C12] closing a read-only database succeeds"); db = 0;
  slurp(); A(fsz == n0 && !memcmp(F, F0, n0), "[C13] a read-only database is not modified"); free(F0);
}
static void check_closed(void) { fsck(); check_ro(); }
static int reopen(void)
{
  A(db->close(db) == 0, "[C12,C06] close succeeds"); db = 0;
  check_closed();
  A(openit(rnd(4) ? O_RDWR : O_RDWR | O_CREAT) == 0, "[C06] a closed database can be opened for writing");
  return db ? 0 : -1;
}
/* after sync the file holds everything: it is read by another process while this one goes on */
static void check_synced(void)
{
  A(db->sync(db, 0) == 0, "[C12] sync succeeds");
  fsck();
  fflush(stdout); pid_t pid = fork();
  if (pid == 0) { db = 0; A(openit(O_RDONLY) == 0, "[C06,C12] a synced database can be opened"); if (db) { check_all(); check_info(); } fflush(stdout); _Exit(0); }
  int st; waitpid(pid, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) _Exit(WIFEXITED(st) ? WEXITSTATUS(st) : 91);
}
/* a second database open in the same process does not disturb the first */
static void two(void)
{
  FFDB_DB *d1 = db, *d2; FFDB_HASHINFO i2 = info; char p2[80]; unsigned char *k[40], *v[40]; long kl[40], vl[40]; int m = 0, j; FFDB_DBT K, V;
  snprintf(p2, sizeof p2, "%s.2", path); unlink(p2); i2.bsize = bs == 512 ? 2048 : 512; i2.nbuckets = 2; i2.cachesize = 0; i2.userinfolen = 200; i2.numconfigs = 2; i2.hash = 0;
  d2 = ffdb_dbopen(p2, O_RDWR | O_CREAT | O_TRUNC, 0644, &i2); A(d2 != 0, "[C06] a second database can be created"); if (!d2) return;
  for (m = 0; m < 40; m++) {
    kl[m] = 2 + rnd(60); k[m] = bytes(kl[m]); k[m][0] = m; vl[m] = rnd(1500); v[m] = bytes(vl[m]);
    K.data = k[m]; K.size = kl[m]; V.data = v[m]; V.size = vl[m]; A(d2->put(d2, &K, &V, 0) == 0, "[C01] inserting into a second database succeeds");
    if (m % 4 == 0 && gn) check_get(rnd(gn), 0);
    j = rnd(m + 1); K.data = k[j]; K.size = kl[j]; V.data = 0; V.size = 0; A(d2->get(d2, &K, &V, 0) == 0 && V.size == vl[j] && !memcmp(V.data, v[j], V.size), "[C01,C11] two databases do not disturb each other"); free(V.data);
  }
  A(d2->close(d2) == 0, "[C12] close succeeds"); d2 = ffdb_dbopen(p2, O_RDONLY, 0644, 0); A(d2 != 0, "[C06] a closed database can be opened read-only");
  if (d2) { for (j = 0; j < 40; j++) { K.data = k[j]; K.size = kl[j]; V.data = 0; V.size = 0; A(d2->get(d2, &K, &V, 0) == 0 && V.size == vl[j] && !memcmp(V.data, v[j], V.size), "[C01,C11] two databases do not disturb each other"); free(V.data); } d2->close(d2); }
  for (j = 0; j < 40; j++) { free(k[j]); free(v[j]); }
  unlink(p2);
}
static int lowfd(void) { int d = dup(2); close(d); return d; }
static int fd0;
static void start(unsigned b, unsigned nb, long cachep, int re, int sw, int wk, unsigned ui, unsigned cf, int v5)
{
  gn = 0; bs = b; p_swap = sw; p_weak = wk; snprintf(path, sizeof path, "db.%d", (int)getpid()); unlink(path);
  memset(&info, 0, sizeof info); info.bsize = b; info.nbuckets = nb; info.cachesize = cachep * b; fd0 = lowfd();
  if (rnd(4) == 0) info.bsize = b - rnd(b / 2 - 1); /* rounded up to a power of two */
  { struct stat sb; if (b == 4096 && rnd(4) == 0 && stat(".", &sb) == 0 && sb.st_blksize == 4096) info.bsize = 0; } /* the file system's */
   info.rearrangepages = re; info.userinfolen = ui; info.numconfigs = cf;
  info.hash = wk ? weak : 0;
  uimax = ui ? ui : 4000; ncf = cf ? cf : 1;
  db = ffdb_dbopen(path, O_RDWR | O_CREAT | O_TRUNC, 0644, &info);
  A(db != 0, "[C06] a new database can be created"); if (!db) _Exit(0);
  A(HT()->hdr.bsize == b && HT()->hdr.bshift == __ffdb_log2(b), "[C06,C05] the page size is the one asked for, rounded up to a power of two");
  p_v5 = v5;
  if (v5) { ffdb_htab_t *h = HT(); h->hdr.version = FFDB_VERSION_5; h->data_valid_flag = DATA_VALID_5; h->data_invalid_flag = DATA_INVALID_5; } /* a file of the version before */
  if (sw) { ffdb_htab_t *h = HT(); ffdb_bkt_t *bb; h->hdr.lorder = h->mborder == LITTLE_ENDIAN ? BIG_ENDIAN : LITTLE_ENDIAN; }
}
static void step(void)
{
  unsigned r = rnd(100);
  if (r < 50) do_put(); else if (r < 62) do_over(); else if (r < 66) do_refuse(); else if (r < 76) { if (gn) check_get(rnd(gn), rnd(3)); } else if (r < 82) absent();
  else if (r < 84) { check_cursor(rnd(2), rnd(2)); cursor_bufs(); } else if (r < 86) { if (rnd(2)) check_synced(); else A(db->sync(db, 0) == 0, "[C12] sync succeeds"); } else if (r < 88) { if (reopen()) _Exit(0); } else if (r < 92) do_info(); else do_put();
  if (db) idle(0);
}
static void hist(unsigned b, unsigned nb, long cachep, int re, int sw, int wk, int ops)
{
  start(b, nb, cachep, re, sw, wk, rnd(3) ? 1 + rnd(5000) : 0, rnd(3) ? 1 + rnd(12) : 0, rnd(8) == 0);
  if (rnd(6) == 0) { check_cursor(0, 1); check_cursor(1, 0); absent(); if (reopen()) return; }
  for (int i = 0; i < ops; i++) step();
  check_all(); check_cursor(0, 1); check_cursor(1, 1); check_info();
  if (rnd(8) == 0) { two(); check_all(); idle(0); }
  if (reopen()) return;
  check_all(); check_info(); for (int i = 0; i < ops / 4; i++) do_put();
  check_all();
  A(db->close(db) == 0, "[C12] close succeeds"); db = 0;
  check_closed();
  if (rnd(4) == 0 && !sw) { /* made anew it is empty */
    db = ffdb_dbopen(path, O_RDWR | O_CREAT | O_TRUNC, 0644, &info); A(db != 0, "[C06] a database can be made anew"); if (!db) return;
    gn = 0; p_v5 = 0; g_ui_set = g_cf_set = 0; check_cursor(0, 0); absent(); for (int i = 0; i < 10; i++) do_put(); check_all(); A(db->close(db) == 0, "[C12] close succeeds"); db = 0; check_closed();
  }
  A(lowfd() == fd0, "[C14] a closed database keeps no file open");
  unlink(path);
}
/* one injected fault: whatever reports success has been done */
static void fault(unsigned b, unsigned nb, long cachep, int re, int wk, int ops, int kind, int at)
{
  int told = 0, st; tolerate_exit = 1; signal(SIGABRT, on_abrt);
  start(b, nb, cachep, re, 0, wk, 600, 3, rnd(8) == 0);
  for (int i = 0; i < ops; i++) do_put();
  do_info();
  if (rnd(2)) { if (db->close(db) != 0) _Exit(0); db = 0; f_kind = kind; f_at = at % 3; f_armed = at < 6 && rnd(2); int r = openit(O_RDWR); f_armed = 0;
    if (r) { A(f_hit, "[C06] a closed database can be opened"); _Exit(0); }
    if (f_hit) told = 0; }
  f_kind = kind; f_at = at; f_armed = 1;
  for (int i = 0; i < ops / 2 && !told && !f_hit; i++) {
    unsigned r = rnd(10);
    if (r < 5) {
      long kl = pick_key(), vl = pick_val(); unsigned char *k = bytes(kl), *v = bytes(vl); if (find(k, kl) >= 0) continue;
      st = put(-1, k, kl, v, vl, 0);
      if (st == 0) { G[gn].k = k; G[gn].kl = kl; G[gn].v = v; G[gn].vl = vl; gn++; } else { A(f_hit, "[C01] insert succeeds"); told = 1; }
    } else if (r < 7 && gn) {
      int j = rnd(gn); long vl = rnd(G[j].vl + 1); unsigned char *v = bytes(vl);
      st = put(j, G[j].k, G[j].kl, v, vl, 0);
      if (st == 0) { free(G[j].v); G[j].v = v; G[j].vl = vl; } else { A(f_hit, "[C03] replace succeeds"); told = 1; }
    } else if (gn) {
      int j = rnd(gn); unsigned char *o; long n; int was = f_hit; st = get(G[j].k, G[j].kl, &o, &n, 0, 0);
      A(st != FFDB_NOT_FOUND, "[C12] a lookup that could not read is an error, not an absent key");
      if (st == 0) { A(n == G[j].vl && !memcmp(o, G[j].v, n), "[C12,C01] a lookup that reports success returns the datum"); free(o); }
      else { A(f_hit, "[C01] lookup succeeds"); idle(0);
        if (kind <= 2) { f_armed = 0; check_get(j, 0); f_hit = 0; f_armed = 1; } else told = 1; }
    }
    if (told == 0 || kind <= 2) idle(0);
  }
  if (kind <= 2) f_armed = 0;
  if (told) { f_armed = 0; idle(0); _Exit(0); }  /* reported; nothing more is promised */
  if (rnd(2)) { st = db->sync(db, 0); if (st) { A(f_hit, "[C12] sync succeeds"); told = 1; } }
  st = db->close(db); if (st) { A(f_hit, "[C12] close succeeds"); told = 1; }
  f_armed = 0; db = 0;
  if (told) _Exit(0);
  /* nobody reported anything: everything must be there */
  A(openit(O_RDONLY) == 0, "[C12] after an unreported failure the database can be opened"); if (!db) _Exit(0);
  for (int i = 0; i < gn; i++) { unsigned char *o; long n; st = get(G[i].k, G[i].kl, &o, &n, 0, 0); A(st == 0 && n == G[i].vl && !memcmp(o, G[i].v, n), "[C12] what was not written was reported by insert, sync or close"); if (o) free(o); }
  if (g_ui_set || g_cf_set) check_info();
}
/* a window of up to four bytes of the closed file is changed */
static void corrupt(unsigned b, unsigned nb, int ops, int region)
{
  start(b, nb, 0, rnd(2), 0, 0, 700, 5, rnd(8) == 0); signal(SIGABRT, on_abrt);
  for (int i = 0; i < ops; i++) do_put();
  { ffdb_all_config_info_t all; all.numconfigs = ncf; all.allconfigs = malloc(ncf * sizeof *g_cf); for (unsigned i = 0; i < ncf; i++) rnd_cf(&all.allconfigs[i], i); A(ffdb_set_all_configs(db, &all) == 0, "[C10] configurations are accepted"); g_cf = all.allconfigs; g_cf_set = 1; }
  { unsigned l = 500 + rnd(200); unsigned char *ui = bytes(l); A(ffdb_set_user_info(db, ui, l) == 0, "[C10] user information that fits is accepted"); g_ui = ui; g_uil = l; g_ui_set = 1; }
  A(db->close(db) == 0, "[C12] close succeeds"); db = 0;
  slurp(); long o; unsigned w = 1 + rnd(4), sp0 = h32(HO(spares));
  if (region == 0) o = rnd(sizeof(ffdb_hashhdr_t) - w + 1); else if (region == 1) o = (long)bs + rnd((sp0 - 1) * bs - 4); else o = (long)sp0 * bs + (long)rnd((unsigned)(fsz - (long)sp0 * bs) - 4);
  if (region && o / bs != (o + w - 1) / bs) o -= 4;
  unsigned ch = 0; for (unsigned i = 0; i < w; i++) { unsigned char x = vp_u32(); F[o + i] ^= x; ch |= x; } if (!ch) F[o] ^= 1;
  FILE *f = fopen(path, "r+b"); fseek(f, 0, SEEK_SET); fwrite(F, 1, fsz, f); fclose(f);
  tolerate_exit = 1; db = 0;
  int r = openit(O_RDONLY);
  if (region == 0) { A(r != 0, "[C07,C06] a damaged description is refused"); if (r) A(lowfd() == fd0, "[C14] a refused open keeps no file open"); }
  if (r) _Exit(0);
  pid_t pid;
  for (int i = 0; i < gn; i++) { /* each lookup on its own: detection may end the process */
    fflush(stdout); pid = fork();
    if (pid == 0) { unsigned char *d; long n; int st = get(G[i].k, G[i].kl, &d, &n, 0, 0); if (st == 0) A(n == G[i].vl && !memcmp(d, G[i].v, n), "[C07] damaged content is never returned as data"); _Exit(0); }
    int st; waitpid(pid, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 91) _Exit(91);
  }
  fflush(stdout); pid = fork();
  if (pid == 0) { unsigned len = uimax; unsigned char *u = malloc(uimax); int st = ffdb_get_user_info(db, u, &len); if (st == 0) A(len == g_uil && !memcmp(u, g_ui, len), "[C07] damaged user information is never returned"); _Exit(0); }
  { int st; waitpid(pid, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 91) _Exit(91); }
  fflush(stdout); pid = fork();
  if (pid == 0) { ffdb_config_info_t one; for (unsigned i = 0; i < ncf; i++) if (ffdb_get_config(db, g_cf[i].config, &one) == 0) A(!memcmp(&one, &g_cf[i], sizeof one), "[C07] damaged configurations are never returned"); _Exit(0); }
  { int st; waitpid(pid, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 91) _Exit(91); }
  unlink(path);
}
/* many keys: several doublings */
static void grow(unsigned b, unsigned nb, long cachep, int re, int wk, int n, int vmax)
{
  start(b, nb, cachep, re, 0, wk, 100, 2, rnd(8) == 0);
  for (int i = 0; i < n; i++) {
    unsigned char *k = malloc(12), *v = bytes(rnd(vmax)); memset(k, 0, 12); memcpy(k, &i, 4); k[4] = i * 7; long kl = 4 + i % 8;
    long vl = rnd(vmax); free(v); v = bytes(vl);
    int st = put(-1, k, kl, v, vl, 0); A(st == 0, "[C01,C04] inserting a new pair within the limits succeeds");
    G[gn].k = k; G[gn].kl = kl; G[gn].v = v; G[gn].vl = vl; gn++;
    if (i % 37 == 0) check_get(rnd(gn), 0);
    if (i % 400 == 399) { if (reopen()) return; check_all(); }
    if (i % 100 == 99) idle(0);
  }
  check_all(); check_cursor(0, 1); check_cursor(1, 0);
  if (reopen()) return;
  check_all(); for (int i = 0; i < 30; i++) do_put(); check_all();
  A(db->close(db) == 0, "[C12] close succeeds"); db = 0; check_closed(); unlink(path);
}
static char nm[128];
#define SC(call, ...) do { snprintf(nm, sizeof nm, __VA_ARGS__); VP_RUN(nm, call); } while (0)
#ifndef MUL
#define MUL 1
#endif
int main(void)
{
  vp_grid_init();
  static const unsigned BSZ[] = {512, 1024, 4096}, NB[] = {1, 2, 3, 8, 33}; static const long CP[] = {0, 1, 3, 12};
  int n = 0;
#ifdef G_HIST
  for (int i = 0; i < 60 * MUL; i++) for (int b = 0; b < 3; b++) { n++; SC(hist(BSZ[b], NB[(i + b) % 5], CP[i % 4], i & 1, 0, i % 7 == 3, 40 + (i % 5) * 40), "history %d page %u buckets %u cache %ld moves %d weak %d ops %d", i, BSZ[b], NB[(i + b) % 5], CP[i % 4], i & 1, i % 7 == 3, 40 + (i % 5) * 40); }
#endif
#ifdef G_SWAP
  for (int i = 0; i < 30 * MUL; i++) for (int b = 0; b < 2; b++) { SC(hist(BSZ[b], NB[i % 5], CP[i % 4], (i >> 1) & 1, 1, i % 7 == 3, 60 + (i % 5) * 30), "history %d other byte order page %u buckets %u cache %ld moves %d", i, BSZ[b], NB[i % 5], CP[i % 4], (i >> 1) & 1); }
#endif
#ifdef G_GROW
  for (int i = 0; i < 8 * MUL; i++) { SC(grow(BSZ[i % 3], NB[i % 5], CP[i % 4], (i >> 1) & 1, i % 3 == 2, 900 + 200 * (i % 4), i % 2 ? 60 : 700), "growth %d page %u buckets %u cache %ld moves %d weak %d", i, BSZ[i % 3], NB[i % 5], CP[i % 4], (i >> 1) & 1, i % 3 == 2); }
#endif
#ifdef G_BIG
  static const unsigned LB[] = {8192, 65536, 131072, 1 << 20};
  for (int i = 0; i < 4 * MUL; i++) for (int b = 0; b < 4; b++) { SC(hist(LB[b], NB[i % 5], CP[(i + b) % 4], i & 1, i % 4 == 2, i % 3 == 2, b == 3 ? 12 : 60), "history %d page %u buckets %u cache %ld moves %d", i, LB[b], NB[i % 5], CP[(i + b) % 4], i & 1); }
#endif
#ifdef G_FAULT
  for (int i = 0; i < 40 * MUL; i++) for (int k = 1; k <= 5; k++) { int at = i < 20 ? i : (i * i) % 97; SC(fault(BSZ[i % 2], NB[(i + k) % 3], CP[1 + (i / 3) % 3], i & 1, i % 5 == 4, 30 + (i % 4) * 20, k, at), "fault kind %d at %d run %d page %u cache %ld moves %d", k, at, i, BSZ[i % 2], CP[1 + (i / 3) % 3], i & 1); }
#endif
#ifdef G_CORR
  for (int i = 0; i < 60 * MUL; i++) { SC(corrupt(BSZ[i % 2], NB[i % 3], 15 + i % 20, i % 4), "damage %d page %u region %d", i, BSZ[i % 2], i % 4); }
#endif
  vp_grid_done();
  return 0;
}
