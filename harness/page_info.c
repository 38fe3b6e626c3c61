/* Unit page_info: user information and configurations on their pages. ffdb_set_uinfo,
 * ffdb_get_uinfo, ffdb_set_configs, ffdb_get_configs, ffdb_set_config_info, ffdb_get_config_info,
 * with the page cache by contract. Enumerated: lengths, numbers of pages and entries, page size,
 * faults. Symbolic: every byte stored. */
#ifndef BS
#define BS 64
#endif
#define NP 8
#include "pg.h"
unsigned int _ffdb_call_hash(ffdb_htab_t *h, const void *k, unsigned int n) { VP_ASSERT(0, "[C10] no key is hashed here"); return 0; }
#define UMAX 320
static unsigned char A[UMAX + 8], O[UMAX + 8], A2[UMAX + 8];
static unsigned other;
/* pages 1.. of the given type, a page in front of them and one behind that are not to be touched */
static void lay(unsigned type, int np)
{
  vp_reset(); H.hdr.bsize = BS; H.hdr.version = 6;
  int s = vp_page(1); VP_RAND_PAGE(s); vp_hdr(s, HASH_BUCKET_PAGE, INVALID_PGNO, INVALID_PGNO, 0, BS - 1);
  for (int i = 0; i < np; i++) { s = vp_page(2 + i); VP_RAND_PAGE(s); vp_hdr(s, type, INVALID_PGNO, INVALID_PGNO, 0, 0); if (type == HASH_UINFO_PAGE) USER_DATA_LEN(vp_D[s]) = 0; }
  s = vp_page(2 + np); VP_RAND_PAGE(s); vp_hdr(s, HASH_BUCKET_PAGE, INVALID_PGNO, INVALID_PGNO, 0, BS - 1);
}
static void kept(unsigned type, int np)
{
  VP_ASSERT(!vp_wr[0] && !vp_wr[np + 1], "[C10,C01] no page outside the area is changed");
  VP_ASSERT(vp_nused == np + 2, "[C10,C05] no page is added");
  for (int i = 1; i <= np; i++) { unsigned char *p = (unsigned char *)vp_D[i]; VP_ASSERT(CURR_PGNO(p) == (unsigned)i + 1 && TYPE(p) == type && PAGE_SIGN(p) == FFDB_PAGE_MAGIC, "[C10,C08,C06] an information page keeps its header"); }
}
/* two values in turn, lengths a then b; read back into a buffer of size b + d */
static void uinfo(int np, unsigned a, unsigned b, int d, int fs, int fg)
{
  lay(HASH_UINFO_PAGE, np); H.hdr.uinfo_page = 2; H.hdr.uinfo_npages = np; unsigned room = np ? np * (BS - PAGE_OVERHEAD) - 4 : 0, len; int r;
  for (unsigned i = 0; i < a; i++) A[i] = vp_u8();
  for (unsigned i = 0; i < b; i++) A2[i] = vp_u8();
  if (a != b) { r = ffdb_set_uinfo(&H, A, a); VP_ASSERT(r == 0, "[C10] user information that fits is stored"); }
  if (fs >= 0) vp_fail_get = vp_gets + fs;
  r = ffdb_set_uinfo(&H, A2, b);
  vp_fail_get = -1;
  VP_NO_PINS("[C14] storing user information releases every page, also when it fails");
  kept(HASH_UINFO_PAGE, np);
  if (vp_get_failed) { VP_ASSERT(r != 0, "[C12] storing that could not get a page fails"); return; }
  VP_ASSERT(r == 0, "[C10] user information that fits is stored");
  for (unsigned i = 0; i < b + 8; i++) O[i] = vp_u8();
  unsigned char g[8]; for (int i = 0; i < 8; i++) g[i] = O[b + i]; for (unsigned i = 0; i < b; i++) A[i] = O[i];
  len = b + d; for (int i = 0; i < vp_nused; i++) vp_wr[i] = 0;
  if (fg >= 0) vp_fail_get = vp_gets + fg;
  r = ffdb_get_uinfo(&H, O, &len);
  vp_fail_get = -1;
  VP_NO_PINS("[C14] reading user information releases every page, also when it fails");
  for (int i = 0; i < vp_nused; i++) VP_ASSERT(!vp_wr[i], "[C13,C10] reading changes no page");
  unsigned x = 0; for (int i = 0; i < 8; i++) x |= g[i] ^ O[b + i];
  VP_ASSERT(x == 0, "[C16,C10] nothing is written behind the value");
  if (vp_get_failed) { VP_ASSERT(r != 0, "[C12] reading that could not get a page fails"); return; }
  if (d < 0) { VP_ASSERT(r != 0, "[C16,C10] a buffer that is too small is refused"); x = 0; for (unsigned i = 0; i < b; i++) x |= O[i] ^ A[i]; VP_ASSERT(x == 0, "[C16] a buffer that is too small is not written"); return; }
  VP_ASSERT(r == 0 && len == b, "[C10] user information comes back with its length");
  x = 0; for (unsigned i = 0; i < b; i++) x |= O[i] ^ A2[i];
  VP_ASSERT(x == 0, "[C10] user information comes back as stored");
}
#define CMAX 10
static ffdb_config_info_t CI[CMAX], CO[CMAX + 1], C1;
static int same(const ffdb_config_info_t *a, const ffdb_config_info_t *b) { unsigned x = 0; const unsigned char *p = (const unsigned char *)a, *q = (const unsigned char *)b; for (unsigned i = 0; i < sizeof *a; i++) x |= p[i] ^ q[i]; return x == 0; }
/* the numbers of configurations: all different */
static int cnum(int i) { return 100 + ((i * 7) ^ 5); }
static void configs(int np, int n, int who, int op, int fs, int fg)
{
  lay(HASH_CONFIG_PAGE, np); H.hdr.cfig_page = 2; H.hdr.cfig_npages = np; H.hdr.num_cfigs = n;
  for (int i = 0; i < n; i++) { for (unsigned j = 0; j < sizeof CI[i]; j++) ((unsigned char *)&CI[i])[j] = vp_u8(); CI[i].config = cnum(i); CI[i].index = i; }
  ffdb_all_config_info_t all; all.numconfigs = n; all.allconfigs = CI;
  if (op == 0 && fs >= 0) vp_fail_get = vp_gets + fs;
  int r = ffdb_set_configs(&H, &all);
  VP_NO_PINS("[C14] storing configurations releases every page, also when it fails"); kept(HASH_CONFIG_PAGE, np);
  if (vp_get_failed) { VP_ASSERT(r != 0, "[C12] storing that could not get a page fails"); return; }
  VP_ASSERT(r == 0, "[C10] configurations are stored"); vp_fail_get = -1;
  if (op == 1 || op == 2) { /* replace one; op 2: one that is not there */
    for (unsigned j = 0; j < sizeof C1; j++) ((unsigned char *)&C1)[j] = vp_u8();
    C1.config = op == 1 ? cnum(who) : who & 1 ? 9999 : cnum(who); C1.index = op == 1 ? who : who & 1 ? who : n + 3;
    if (fs >= 0) vp_fail_get = vp_gets + fs;
    r = ffdb_set_config_info(&H, &C1); vp_fail_get = -1;
    VP_NO_PINS("[C14] replacing a configuration releases every page, also when it fails"); kept(HASH_CONFIG_PAGE, np);
    if (vp_get_failed) { VP_ASSERT(r != 0, "[C12] storing that could not get a page fails"); vp_get_failed = 0; }
    else if (op == 2) VP_ASSERT(r != 0, "[C10] a configuration that is not there cannot be replaced");
    else { VP_ASSERT(r == 0, "[C10] a configuration is replaced"); CI[who] = C1; }
  }
  for (int i = 0; i < vp_nused; i++) vp_wr[i] = 0;
  if (op == 3) { /* one by its number */
    ffdb_config_info_t keep; for (unsigned j = 0; j < sizeof C1; j++) ((unsigned char *)&C1)[j] = vp_u8(); keep = C1;
    if (fg >= 0) vp_fail_get = vp_gets + fg;
    r = ffdb_get_config_info(&H, (unsigned)cnum(who), &C1); vp_fail_get = -1;
    VP_NO_PINS("[C14] reading a configuration releases every page, also when it fails");
    if (vp_get_failed) VP_ASSERT(r != 0, "[C12] reading that could not get a page fails");
    else if (who < n) { VP_ASSERT(r == 0, "[C10] a configuration is found by its number"); VP_ASSERT(same(&C1, &CI[who]), "[C10] a configuration comes back as stored"); }
    else VP_ASSERT(r != 0, "[C10] a configuration that is not there is not found");
    for (int i = 0; i < vp_nused; i++) VP_ASSERT(!vp_wr[i], "[C13,C10] reading changes no page");
    return;
  }
  ffdb_config_info_t guard; for (unsigned j = 0; j < sizeof guard; j++) ((unsigned char *)&guard)[j] = vp_u8(); for (int i = 0; i <= n; i++) CO[i] = guard;
  all.allconfigs = CO; all.numconfigs = n;
  if (fg >= 0) vp_fail_get = vp_gets + fg;
  r = ffdb_get_configs(&H, &all); vp_fail_get = -1;
  VP_NO_PINS("[C14] reading configurations releases every page, also when it fails");
  for (int i = 0; i < vp_nused; i++) VP_ASSERT(!vp_wr[i], "[C13,C10] reading changes no page");
  VP_ASSERT(same(&CO[n], &guard), "[C16,C10] nothing is written behind the configurations");
  if (vp_get_failed) { VP_ASSERT(r != 0, "[C12] reading that could not get a page fails"); return; }
  VP_ASSERT(r == 0, "[C10] configurations are read");
  for (int i = 0; i < n; i++) VP_ASSERT(same(&CO[i], &CI[i]), "[C10] configurations come back as stored, in order");
}
#ifdef __CPROVER__
#define NM(...)
#else
static char nm[128];
#define NM(...) snprintf(nm, sizeof nm, __VA_ARGS__)
#endif
static void UI(int np, unsigned a, unsigned b, int d, int fs, int fg) { NM("user information on %d pages: %u then %u bytes, buffer %+d, fail %d %d", np, a, b, d, fs, fg); VP_RUN(nm, { uinfo(np, a, b, d, fs, fg); }); }
static void CF(int np, int n, int who, int op, int fs, int fg) { NM("%d configurations on %d pages, number %d op %d fail %d %d", n, np, who, op, fs, fg); VP_RUN(nm, { configs(np, n, who, op, fs, fg); }); }
#define PER ((BS - PAGE_OVERHEAD) / (int)sizeof(ffdb_config_info_t))
static void grid(void)
{
  for (int np = 1; np <= 4; np++) { int room = np * (BS - PAGE_OVERHEAD) - 4; if (room > UMAX) break;
    for (int b = 0; b <= room; b++) { for (int d = -1; d <= 6; d++) if (b + d >= 0) UI(np, (unsigned)(room - b), (unsigned)b, d, -1, -1); UI(np, 0, (unsigned)b, b ? -b : 0, -1, -1); for (int f = 0; f < np; f++) { UI(np, 5, (unsigned)b, 0, f, -1); UI(np, 5, (unsigned)b, 0, -1, f); } } }
  if (PER > 0) for (int n = 0; n <= CMAX - 1; n++) { int np = (n + PER - 1) / PER; if (np > NP - 2) break;
    for (int who = 0; who < (n ? n : 1); who++) { for (int op = 0; op < 4; op++) { if (op == 1 && !n) continue; CF(np, n, who, op, -1, -1); for (int f = 0; f < np; f++) { CF(np, n, who, op, f, -1); CF(np, n, who, op, -1, f); } } CF(np, n, n + who, 3, -1, -1); } }
}
int main(void)
{
  VP_GRID_INIT();
#ifdef VP_NATIVE_GRID
  grid();
#else
  SCEN
#endif
  VP_GRID_DONE();
  VP_REACH("page_info end");
  return 0;
}
