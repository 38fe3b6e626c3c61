/* Unit page_add: ffdb_add_pair / ffdb_get_item (with everything they call in
 * ffdb_page.c) over an arbitrary well-formed key page and data page.
 * Enumerated: free position S on the data page, datum size, key size, free list.
 * Symbolic: every byte of key, datum, pages; checksum value; page contents. */
#ifndef BS
#define BS 128
#endif
#define NP 8
#define VMAX 400
#define VP_OWN_MALLOC VMAX
#include "pg.h"
unsigned int _ffdb_call_hash(ffdb_htab_t *h, const void *k, unsigned int n) { return 0; }
static unsigned char V[VMAX], V2[VMAX], K[BS], OUT[VMAX];
#define KPG 40
#define DPG 51
#define FPG 45
static int kp, dp, f45, f46, f47;
static int ver = 6; static unsigned old_len; static unsigned char oldv[BS], oldk[8];

/* look entry `idx` of key page kpg up and compare with data */
static void expect_get(unsigned kpg, unsigned idx, const unsigned char *v, unsigned n, int mode)
{
  FFDB_DBT key, out; ffdb_hent_t it;
  key.data = K; key.size = 1;
  if (mode == 0) { out.data = OUT + (VMAX - n); out.size = n; }            /* exact buffer */
  else if (mode == 1) { out.data = OUT + (VMAX - n - 1); out.size = n + 1; } /* larger buffer */
  else { out.data = 0; out.size = 0; }
  if (mode == 0 && n == 0) { out.data = 0; out.size = 0; mode = 2; }
  it.pagep = vp_take(kpg); it.pgno = kpg; it.pgndx = idx; it.bucket = 0;
  vp_crc_calls = 0;
  int st = ffdb_get_item(&H, &key, &out, &it, 1);
  VP_ASSERT(st == 0, "[C01,C03] lookup of a stored pair succeeds");
  VP_ASSERT((unsigned)out.size == n, "[C01,C03] lookup reports the stored size");
  VP_ASSERT(vp_crc_n == n && (n == 0 || vp_crc_from == out.data), "[C07] the whole datum is checksummed on lookup");
  unsigned diff = 0;
  for (unsigned i = 0; i < n; i++) diff |= (unsigned)(((unsigned char *)out.data)[i] ^ v[i]);
  VP_ASSERT(diff == 0, "[C01,C03] lookup returns the stored bytes");
  if (mode == 2) vp_heap_live = 0;
  VP_NO_PINS("[C14] lookup releases every page");
}

static void setup(unsigned s, int fl)
{
  unsigned char *k, *d;
  vp_reset();
  H.hdr.bsize = BS; H.hdr.version = ver; H.data_valid_flag = ver == 5 ? DATA_VALID_5 : DATA_VALID_6; H.data_invalid_flag = ver == 5 ? DATA_INVALID_5 : DATA_INVALID_6;
  H.hdr.ovfl_point = 3; H.hdr.spares[4] = 52; H.curr_dpage = DPG; H.hdr.free_pages[3] = INVALID_PGNO;
  kp = vp_page(KPG); dp = vp_page(DPG);
  VP_RAND_PAGE(kp); VP_RAND_PAGE(dp);
  k = (unsigned char *)vp_D[kp]; d = (unsigned char *)vp_D[dp];
  vp_hdr(kp, HASH_BUCKET_PAGE, INVALID_PGNO, INVALID_PGNO, 0, BS - 1);
  vp_hdr(dp, HASH_DATA_PAGE, INVALID_PGNO, INVALID_PGNO, 0, s);
  FIRST_DATA_POS(d) = (s == 0) ? BIG_PAGE_OVERHEAD : s;
  old_len = 0;
  if (s == 0 || s >= 52) {
    /* one datum already there, belonging to entry 0 of the key page */
    ffdb_data_header_t *h = BIG_DATA_HEADER(d, BIG_PAGE_OVERHEAD);
    old_len = s ? s - 52 - (s % 8 == 4 && s > 52 ? 1 : 0) : BS - 52;
    FIRST_DATA_POS(d) = BIG_PAGE_OVERHEAD; NUM_ENT(d) = 1;
    h->len = old_len; h->status = H.data_valid_flag; h->next = s; h->key_page = KPG; h->key_idx = 0;
    for (unsigned i = 0; i < old_len; i++) { oldv[i] = vp_u8(); ((unsigned char *)h)[BIG_DATA_OVERHEAD + i] = oldv[i]; }
    /* its entry: a 5 byte key */
    KEY_OFF(k, 0) = BS - 5; KEY_LEN(k, 0) = 5; DATAP_OFF(k, 0) = BS - 24; NUM_ENT(k) = 1; OFFSET(k) = BS - 25;
    ffdb_datap_t *dt = DATAP(k, 0);
    dt->first = DPG; dt->offset = BIG_PAGE_OVERHEAD; dt->len = old_len; dt->chksum = VP_CRC_OF(old_len);
    for (int i = 0; i < 5; i++) { oldk[i] = vp_u8(); k[BS - 5 + i] = oldk[i]; }
  }
  if (fl) {
    f45 = vp_page(FPG); VP_RAND_PAGE(f45);
    H.hdr.free_pages[3] = FPG;
    vp_hdr(f45, HASH_FREE_PAGE, INVALID_PGNO, INVALID_PGNO, fl == 1 ? 2 : 0, 0);
    if (fl == 1) {
      unsigned char *f = (unsigned char *)vp_D[f45];
      FREE_PAGE(f, 0) = 46; FREE_PAGE(f, 1) = 47;
      f46 = vp_page(46); VP_RAND_PAGE(f46); f47 = vp_page(47); VP_RAND_PAGE(f47);
      vp_hdr(f46, HASH_DELETED_PAGE, 7, 9, 0, 3); vp_hdr(f47, HASH_DELETED_PAGE, 7, 9, 0, 3);
    }
  }
}

static void check_pages(unsigned vs)
{
  /* every page reachable from the new datum is a well-formed data page, linked both ways,
   * and the last one is where the next datum goes */
  unsigned char *k = (unsigned char *)vp_D[kp];
  unsigned n = NUM_ENT(k);
  ffdb_datap_t *dt = DATAP(k, n - 1);
  unsigned p = dt->first, cnt = 0, prev = 0;
  int seen_last = 0, i = -1;
  while (cnt < NP) {
    i = vp_slot(p);
    VP_ASSERT(i >= 0, "[C01] the datum's pages exist"); VP_ASSUME(i >= 0);
    VP_ASSERT(vp_wf_data(i), "[C01,C08,C15] data pages stay well formed");
    unsigned char *d = (unsigned char *)vp_D[i];
    if (cnt > 0) VP_ASSERT(PREV_PGNO(d) == prev, "[C15] data pages are linked backwards");
    prev = p; cnt++;
    if (NEXT_PGNO(d) == INVALID_PGNO) { seen_last = 1; break; }
    p = NEXT_PGNO(d);
  }
  VP_ASSERT(seen_last, "[C01] the chain of data pages ends");
  VP_ASSERT(H.curr_dpage == p, "[C01,C05] the next datum goes to the last data page");
  VP_ASSERT(vp_wf_key(kp), "[C01,C08] key page stays well formed");
  ffdb_data_header_t *h = BIG_DATA_HEADER(vp_D[vp_slot(dt->first)], vp_poff(dt));
  VP_ASSERT(h->key_page == KPG && h->key_idx == n - 1, "[C04,C15] a datum knows its key");
  VP_ASSERT(vp_plen(dt) == vs && vp_hlen(h) == vs, "[C01] stored size");
}

static void run(unsigned s, unsigned vs, unsigned ks, int fl, int fail, int v2)
{
  setup(s, fl);
  unsigned n0 = NUM_ENT(vp_D[kp]), sp0 = H.hdr.spares[4];
  FFDB_DBT key, val; ffdb_hent_t it;
  for (unsigned i = 0; i < vs; i++) V[VMAX - vs + i] = vp_u8();
  for (unsigned i = 0; i < ks; i++) K[BS - ks + i] = vp_u8();
  key.data = K + (BS - ks); key.size = ks; val.data = V + (VMAX - vs); val.size = vs;
  it.pagep = vp_take(KPG); it.pgno = KPG; it.bucket = 0; it.pgndx = n0; it.data_chksum = VP_CRC_OF(vs);
  VP_ASSUME(PAIRFITS(it.pagep, &key, &val));
  if (fail >= 0 && v2 < 0) { vp_fail_get = vp_gets + fail; vp_exit_ok = 1; }
  int st = ffdb_add_pair(&H, &key, &val, &it, 0);
  VP_NO_PINS("[C14] insert releases every page, also when it fails");
  vp_fail_get = -1;
  unsigned char *k = (unsigned char *)vp_D[kp];
  if (vp_get_failed) {
    vp_get_failed = 0;
    VP_ASSERT(st != 0, "[C12] an insert that could not get a page fails");
    VP_ASSERT(NUM_ENT(k) == n0, "[C03,C12] a failed insert leaves no entry");
    if (n0) expect_get(KPG, 0, oldv, old_len, 1);
    return;
  }
  VP_ASSERT(st == 0, "[C01] insert of a pair that fits succeeds");
  VP_ASSERT(NUM_ENT(k) == n0 + 1, "[C01] insert adds one entry");
  VP_ASSERT(KEY_LEN(k, n0) == ks, "[C01,C02] key size stored");
  for (unsigned i = 0; i < ks; i++)
    VP_ASSERT(k[KEY_OFF(k, n0) + i] == K[BS - ks + i], "[C01,C02] key bytes stored");
  check_pages(vs);
  VP_ASSERT(H.hdr.spares[4] >= sp0, "[C05] allocation only moves forward");
  for (int i = 0; i < NP; i++)
    VP_ASSERT(!vp_used[i] || vp_no[i] < H.hdr.spares[4], "[C05] every page in use lies below the allocation mark");
  if (fl == 1) { /* a page handed out is no longer free */
    unsigned char *f = (unsigned char *)vp_D[f45]; unsigned char *q;
    if (H.hdr.free_pages[3] == FPG) {
      VP_ASSERT(TYPE(f) == HASH_FREE_PAGE && NUM_ENT(f) <= 2, "[C05] free list stays a free list");
      for (unsigned e = 0; e < NUM_ENT(f); e++)
        VP_ASSERT(TYPE(vp_D[vp_slot(FREE_PAGE(f, e))]) == HASH_DELETED_PAGE, "[C05] a page in use is not listed free");
    } else VP_ASSERT(H.hdr.free_pages[3] == INVALID_PGNO, "[C05] an emptied free list is gone");
  }
  int mode = (int)((s / 4 + vs) % 3);
  expect_get(KPG, n0, V + (VMAX - vs), vs, mode);
  /* frame: what was there before is untouched */
  if (n0) {
    expect_get(KPG, 0, oldv, old_len, 1);
    VP_ASSERT(KEY_LEN(k, 0) == 5, "[C01,C02] other keys untouched");
    for (int i = 0; i < 5; i++) VP_ASSERT(k[KEY_OFF(k, 0) + i] == oldk[i], "[C01,C02] other keys untouched");
  }
  if (v2 < 0) return;
  /* replace by something not longer, then try something longer */
  for (int i = 0; i < v2; i++) V2[VMAX - v2 + i] = vp_u8();
  FFDB_DBT val2; val2.data = V2 + (VMAX - v2); val2.size = v2;
  it.pagep = vp_take(KPG); it.pgno = KPG; it.pgndx = n0; it.data_chksum = VP_CRC_OF(v2);
  if (fail >= 0) { vp_fail_get = vp_gets + fail; vp_get_failed = 0; }
  unsigned sp1 = H.hdr.spares[4], fp1 = H.hdr.free_pages[3], cd1 = H.curr_dpage;
  st = ffdb_add_pair(&H, &key, &val2, &it, 1);
  vp_fail_get = -1;
  VP_NO_PINS("[C14] replace releases every page");
  VP_ASSERT(NUM_ENT(k) == n0 + 1, "[C03] replacing adds no entry");
  VP_ASSERT(H.hdr.spares[4] == sp1 && H.hdr.free_pages[3] == fp1 && H.curr_dpage == cd1, "[C03,C05] replacing takes no page");
  if (vp_get_failed) { VP_ASSERT(st != 0, "[C12] a replace that could not get a page fails"); if (n0) expect_get(KPG, 0, oldv, old_len, 1); return; }
  if ((unsigned)v2 > vs) {
    VP_ASSERT(st != 0, "[C03] replacing by a longer datum is refused");
    check_pages(vs);
    expect_get(KPG, n0, V + (VMAX - vs), vs, 1);
    if (n0) expect_get(KPG, 0, oldv, old_len, 1);
    return;
  }
  VP_ASSERT(st == 0, "[C03] replacing by a datum that is not longer succeeds");
  check_pages(v2);
  expect_get(KPG, n0, V2 + (VMAX - v2), v2, 1);
  if (n0) expect_get(KPG, 0, oldv, old_len, 1);
}
/* lookups that must be refused: too small a buffer, damaged datum, a page that cannot be had */
static void refuse(unsigned s, unsigned vs, int kind, int fail)
{
  setup(s, 0);
  FFDB_DBT key, val, out; ffdb_hent_t it; unsigned n0 = NUM_ENT(vp_D[kp]);
  for (unsigned i = 0; i < vs; i++) V[VMAX - vs + i] = vp_u8();
  K[0] = vp_u8(); key.data = K; key.size = 1; val.data = V + (VMAX - vs); val.size = vs;
  it.pagep = vp_take(KPG); it.pgno = KPG; it.bucket = 0; it.pgndx = n0; it.data_chksum = VP_CRC_OF(vs);
  VP_ASSUME(PAIRFITS(it.pagep, &key, &val));
  int st = ffdb_add_pair(&H, &key, &val, &it, 0);
  VP_ASSERT(st == 0, "[C01] insert of a pair that fits succeeds");
  it.pagep = vp_take(KPG); it.pgno = KPG; it.pgndx = n0;
  if (kind == 0 && vs < 2) kind = 3;
  if (kind == 0) { /* buffer one byte too small */
    unsigned char c = vp_u8(); OUT[VMAX - 1] = c;
    out.size = vs - 1; out.data = OUT + (VMAX - vs); for (unsigned i = VMAX - vs; i < VMAX; i++) OUT[i] = c;
    st = ffdb_get_item(&H, &key, &out, &it, 1);
    VP_ASSERT(st != 0, "[C16] a result buffer that is too small is refused");
    unsigned d = 0; for (unsigned i = VMAX - vs; i < VMAX; i++) d |= OUT[i] ^ c;
    VP_ASSERT(d == 0, "[C16] a buffer that is too small is not written");
  } else if (kind == 1) { /* stored checksum differs from what the bytes give */
    unsigned x = vp_u32(); VP_ASSUME(x != 0);
    vp_crc_key ^= x; out.data = 0; out.size = 0; vp_crc_calls = 0; vp_heap_live = 0;
    int own = fail; if (own) { out.data = OUT + VMAX - vs; out.size = vs; } if (vs == 0) { out.data = 0; out.size = 0; own = 0; }
    st = ffdb_get_item(&H, &key, &out, &it, 1);
    VP_ASSERT(st != 0, "[C07] a datum whose checksum does not match is not returned");
    VP_ASSERT(!vp_heap_live, "[C14] a failed lookup keeps no memory");
    vp_crc_key ^= x;
  } else if (kind == 2) {
    vp_fail_get = vp_gets + fail; out.data = 0; out.size = 0; vp_heap_live = 0;
    st = ffdb_get_item(&H, &key, &out, &it, 1);
    vp_fail_get = -1;
    if (vp_get_failed) { VP_ASSERT(st != 0, "[C12] a lookup that could not get a page fails"); VP_ASSERT(!vp_heap_live, "[C14] a failed lookup keeps no memory"); }
    else VP_ASSERT(st == 0, "[C01] lookup of a stored pair succeeds");
    vp_heap_live = 0;
  } else {           /* the page stays with the caller when asked to */
    out.data = 0; out.size = 0; vp_heap_live = 0;
    st = ffdb_get_item(&H, &key, &out, &it, 0);
    VP_ASSERT(st == 0 && vp_pin[kp] == 1 && it.pagep == (void *)vp_M[kp], "[C09,C14] the key page stays with the caller when asked to");
    ffdb_release_item(&H, &it);
    vp_heap_live = 0;
  }
  VP_NO_PINS("[C14] a lookup releases every page, also when it fails");
  expect_get(KPG, n0, V + (VMAX - vs), vs, 1);
}
static void R(unsigned s, unsigned vs, unsigned ks, int fl, int fail, int v2)
{
#ifndef __CPROVER__
  char nm[96]; snprintf(nm, sizeof nm, "run v%d s%u size%u key%u fl%d fail%d repl%d", ver, s, vs, ks, fl, fail, v2);
#endif
  VP_RUN(nm, { vp_crc_key = vp_u32(); VP_ASSUME(vp_crc_key > 0xffff); run(s, vs, ks, fl, fail, v2); });
}
static void F(unsigned s, unsigned vs, int kind, int fail)
{
#ifndef __CPROVER__
  char nm[96]; snprintf(nm, sizeof nm, "refuse v%d s%u size%u kind%d fail%d", ver, s, vs, kind, fail);
#endif
  VP_RUN(nm, { vp_crc_key = vp_u32(); VP_ASSUME(vp_crc_key > 0xffff); refuse(s, vs, kind, fail); });
}
static void grid(void)
{
  static const unsigned S[] = {0,32,36,40,52,56,60,64,72,80,84,88,92,96,100,104}; /* reachable: a full page (0), or room for a header and more */
  for (unsigned i = 0; i < sizeof S / sizeof *S; i++) {
    unsigned s = S[i];
    for (unsigned v = 0; v <= 300; v++) R(s, v, 1 + v % 20, v % 5 == 0 ? 1 : v % 7 == 0 ? 2 : 0, -1, -1);
    for (unsigned v = 0; v <= 300; v += 7) { R(s, v, 3, 0, -1, v); R(s, v, 3, 0, -1, v / 2); R(s, v, 3, 0, -1, 0); R(s, v, 3, 0, -1, v + 1); if (v > 40) { R(s, v, 3, 0, -1, v - 20); R(s, v, 3, 0, -1, v - 37); } R(s, v, 3, 0, -1, v + 50); }
    for (int f = 0; f < 5; f++) for (unsigned v = 1; v <= 300; v += 43) { R(s, v, 3, 0, f, -1); R(s, v, 3, 1, f, -1); R(s, v, 3, 0, f, v); F(s, v, 2, f); }
    for (unsigned v = 1; v <= 300; v += 11) { F(s, v, 0, 0); F(s, v, 1, 0); F(s, v, 1, 1); F(s, v, 3, 0); }
    F(s, 0, 1, 0);
    ver = 5; for (unsigned v = 0; v <= 300; v += 5) { R(s, v, 3, 0, -1, -1); R(s, v, 3, 0, -1, v / 2); R(s, v, 3, 0, -1, v + 3); } ver = 6;
  }
}
int main(void)
{
  VP_GRID_INIT();
#ifdef VP_NATIVE_GRID
  grid();
#else
  SCEN
#endif
  VP_GRID_DONE();
  VP_REACH("page_add end");
  return 0;
}
