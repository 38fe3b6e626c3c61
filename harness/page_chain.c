/* Unit page_chain: buckets as chains of key pages. ffdb_find_item, ffdb_add_ovflpage,
 * ffdb_split_bucket, ffdb_cursor_find_by_key with everything they call in ffdb_page.c.
 * Enumerated: number of pages and entries, key sizes, which keys move, direction, faults.
 * Symbolic: key bytes, data pointers' checksums, data, page contents. */
#ifndef BS
#define BS 128
#endif
#define NP 20
#define VMAX 64
#define VP_OWN_MALLOC 256
#define VP_OWN_CRC
#include "pg.h"
#define NEWDATA(cur) ((cur) ? (cur) + 1 : 60)
#define NEWOVFL npg++
#include "chain.h"
static void begin(unsigned maxb, int fl)
{
  vp_reset(); gn = 0; dcur = 0;
  H.hdr.bsize = BS; H.hdr.version = 6; H.data_valid_flag = DATA_VALID_6; H.data_invalid_flag = DATA_INVALID_6; H.h_compare = vp_compare;
  for (unsigned s = 0; s < NCACHED; s++) { H.hdr.spares[s] = 0; H.hdr.free_pages[s] = INVALID_PGNO; }
  H.hdr.spares[0] = 10; H.hdr.spares[1] = 12; H.hdr.spares[2] = 14; H.hdr.spares[3] = 80;
  H.hdr.max_bucket = maxb; H.hdr.ovfl_point = __ffdb_log2(maxb + 1); H.hdr.high_mask = (1u << H.hdr.ovfl_point) - 1; H.hdr.low_mask = H.hdr.high_mask >> 1;
  if (H.hdr.ovfl_point == 1) { H.hdr.spares[2] = 80; H.hdr.spares[3] = 0; }
  if (H.hdr.ovfl_point == 0) { H.hdr.spares[1] = 80; H.hdr.spares[2] = H.hdr.spares[3] = 0; }
  H.curr_dpage = 60; npg = 20;
  for (int i = 0; i < 8; i++) nchain[i] = 0;
}
/* ---- split: bucket `ob` of pages given by (n, kl, st) triples moves the keys in mask to bucket nb -------- */
static void split(unsigned maxb, int np, int n, unsigned kl, unsigned st, unsigned mask, int fl, int fail)
{
  begin(maxb, fl); unsigned nb = maxb, ob = maxb & H.hdr.low_mask;
  for (int i = 0; i < np; i++) kpage(ob, n, kl + KST * (unsigned)i, st);
  int s = vp_page(bpage(nb)); VP_RAND_PAGE(s); vp_hdr(s, HASH_BUCKET_PAGE, INVALID_PGNO, INVALID_PGNO, 0, BS - 1); /* as ffdb_new_page leaves it */
  unsigned L = H.hdr.ovfl_point;
  if (fl) { int f = vp_page(70); VP_RAND_PAGE(f); vp_hdr(f, HASH_FREE_PAGE, INVALID_PGNO, INVALID_PGNO, fl - 1, 0); H.hdr.free_pages[L] = 70;
    for (int k = 0; k < fl - 1; k++) { FREE_PAGE(vp_D[f], k) = 71 + k; int q = vp_page(71 + k); VP_RAND_PAGE(q); vp_hdr(q, HASH_DELETED_PAGE, 7, 9, 0, 3); } }
  for (int g = 0; g < gn; g++) G[g].nb = (mask >> g) & 1 ? nb : ob;
  static unsigned buf[NW]; H.split_buf = (void *)buf;
  unsigned sp0 = H.hdr.spares[L + 1];
  if (fail >= 0) { vp_fail_get = fail; vp_exit_ok = 1; }
  int r = ffdb_split_bucket(&H, ob, nb, fl & 1);
  vp_fail_get = -1; vp_exit_ok = 0;
  VP_NO_PINS("[C14] a split releases every page, also when it fails");
  if (vp_get_failed) { VP_ASSERT(r != 0, "[C12] a split that could not get a page fails"); return; }
  VP_ASSERT(r == 0, "[C04] a split succeeds");
  for (int i = 0; i < 128; i++) owner[i] = 0;
  check_chain(ob, 1); check_chain(nb, 1); all_seen(); check_data(); check_free();
  VP_ASSERT(H.hdr.spares[L + 1] >= sp0, "[C05] allocation only moves forward");
  for (int i = 0; i < vp_nused; i++) VP_ASSERT(vp_no[i] < H.hdr.spares[L + 1], "[C05] every page in use lies below the allocation mark");
}
/* ---- find, and adding an overflow page -------------------------------------------------- */
static void find(int np, int n, unsigned kl, unsigned st, int who, int how, int fail)
{
  begin(0, 0); unsigned b = 0;
  for (int i = 0; i < np; i++) kpage(b, n, kl + KST * (unsigned)i, st);
  if (who >= gn) who = gn ? who % gn : 0;
  unsigned char K[KMAX + 2]; FFDB_DBT k, v; ffdb_hent_t it; unsigned ks;
  if (gn == 0) { how = 1; G[0].kl = kl; G[0].k[0] = 1; for (unsigned i = 1; i < kl; i++) G[0].k[i] = KB(i); }
  ks = G[who].kl; for (unsigned i = 0; i < ks; i++) K[i] = G[who].k[i];
  
#ifdef __CPROVER__
  unsigned at = 0, x = 0;
#else
  unsigned at = how == 1 && gn ? vp_range(0, ks - 1) : 0, x = how == 1 && gn ? 1 + vp_u8() % 255 : 0;
#endif
  if (how == 1 && gn) { if (ks == 1 || at == 0) K[0] = 200; else K[at] ^= x; }  /* one byte differs */
  if (how == 2 && ks > 1) ks--; else if (how == 2) { how = 3; }
  if (how == 3) { K[ks] = vp_u8(); ks++; }                                                                /* a byte less, a byte more */
  k.data = K; k.size = ks; static unsigned char vb[4]; v.data = vb; v.size = vp_u32() & 3; int withv = how & 1;
  for (int i = 0; i < 4; i++) vb[i] = vp_u8();
  it.bucket = b; it.pagep = 0; it.status = 77; it.pgno = 0; it.pgndx = 99;
  if (fail >= 0) vp_fail_get = fail;
  int r = ffdb_find_item(&H, &k, withv ? &v : 0, &it);
  vp_fail_get = -1;
  if (vp_get_failed) { VP_ASSERT(r != 0, "[C12] a search that could not get a page fails"); VP_NO_PINS("[C14] a search that fails holds no page"); return; }
  VP_ASSERT(r == 0, "[C02] a search ends");
  VP_ASSERT(it.pagep != 0, "[C14] a search holds the page it ended on"); VP_ASSUME(it.pagep != 0);
  int s = vp_slot_of(it.pagep); VP_ASSERT(s >= 0 && vp_pin[s < 0 ? 0 : s] == 1, "[C14] a search holds exactly the page it ended on"); VP_ASSUME(s >= 0);
  for (int i = 0; i < vp_nused; i++) VP_ASSERT(vp_pin[i] == (i == s), "[C14] a search holds exactly the page it ended on");
  VP_ASSERT(it.pgno == vp_no[s], "[C02,C14] a search knows the page it ended on");
  VP_ASSERT(it.data_chksum == (withv ? __ffdb_crc32_checksum(0, vb, v.size) : 0), "[C07] the new datum is checksummed as a whole");
  if (how == 0) {
    VP_ASSERT(it.status == ITEM_OK, "[C02] a stored key is found");
    VP_ASSERT(it.pgno == G[who].page && it.pgndx == G[who].idx, "[C02] the entry found is the key's own");
  } else {
    VP_ASSERT(it.status == ITEM_NO_MORE, "[C02] a key that was never stored is not found");
    VP_ASSERT(it.pgno == chain[b][nchain[b] - 1], "[C01,C02] a new key goes behind the last page");
  }
  ffdb_release_item(&H, &it);
  VP_NO_PINS("[C14] releasing an item releases its page");
  for (int i = 0; i < 128; i++) owner[i] = 0;
  if (gn) { check_chain(b, 1); all_seen(); check_data(); }
}
static void addov(int np, int n, unsigned kl, unsigned nk, unsigned nd, int fl, int fail)
{
  begin(0, 0); unsigned b = 0, L = 0;
  for (int i = 0; i < np; i++) kpage(b, n, kl + KST * (unsigned)i, KST == 4 ? 0 : 1);
  if (fl) { int f = vp_page(70); VP_RAND_PAGE(f); vp_hdr(f, HASH_FREE_PAGE, INVALID_PGNO, INVALID_PGNO, fl - 1, 0); H.hdr.free_pages[L] = 70;
    for (int k = 0; k < fl - 1; k++) { FREE_PAGE(vp_D[f], k) = 71 + k; int q = vp_page(71 + k); VP_RAND_PAGE(q); vp_hdr(q, HASH_DELETED_PAGE, 7, 9, 0, 3); } }
  /* the new pair is ghost number gn */
  int g = gn; unsigned lastno = chain[b][nchain[b] - 1]; FFDB_DBT k, v; ffdb_hent_t it;
  G[g].k[0] = g + 1; for (unsigned i = 1; i < nk; i++) G[g].k[i] = KB(i); for (unsigned i = 0; i < nd; i++) G[g].v[i] = vp_u8();
  G[g].kl = nk; G[g].dl = nd; G[g].nb = G[g].b = b; G[g].seen = 0; k.data = G[g].k; k.size = nk; v.data = G[g].v; v.size = nd; G[g].chk = __ffdb_crc32_checksum(0, G[g].v, nd);
  it.pagep = vp_take(lastno); it.pgno = lastno; it.bucket = b; it.status = ITEM_NO_MORE; it.pgndx = NUM_ENT(it.pagep); it.data_chksum = G[g].chk;
  if (fail >= 0) { vp_fail_get = vp_gets + fail; vp_exit_ok = 1; }
  int r = ffdb_add_ovflpage(&H, &k, &v, &it);
  vp_fail_get = -1; vp_exit_ok = 0;
  VP_NO_PINS("[C14] adding an overflow page releases every page, also when it fails");
  for (int i = 0; i < 128; i++) owner[i] = 0;
  if (vp_get_failed) { VP_ASSERT(r != 0, "[C12] an insert that could not get a page fails"); check_chain(b, 1); all_seen(); check_data(); return; }
  VP_ASSERT(r == 0, "[C01] insert of a pair that fits succeeds");
  /* where its datum went: the new key page says so */
  unsigned nw = NEXT_PGNO(vp_D[vp_slot(lastno)]); int s = vp_slot(nw);
  VP_ASSERT(nw != INVALID_PGNO && s >= 0 && nw != lastno, "[C01] the new page is linked to its bucket"); VP_ASSUME(s >= 0 && nw != lastno);
  VP_ASSERT(NUM_ENT(vp_D[s]) == 1, "[C01,C02] the new page holds the new key"); VP_ASSUME(NUM_ENT(vp_D[s]) == 1);
  ffdb_datap_t *d = DATAP(vp_D[s], 0); G[g].dpage = d->first; G[g].doff = GET_PGOFFSET(d->offset); gn++;
  VP_ASSUME(vp_slot(G[g].dpage) >= 0 && G[g].doff <= BS - 20 - nd);
  check_chain(b, 1); all_seen(); check_data(); check_free();
  for (int i = 0; i < vp_nused; i++) VP_ASSERT(vp_no[i] < H.hdr.spares[L + 1], "[C05] every page in use lies below the allocation mark");
}
/* ---- cursor: buckets 0..maxb, bucket b with (shape >> 4b) & 3 pages of up to ((shape >> (4b+2)) & 3) + 1 pairs ---- */
static void cursor(unsigned maxb, unsigned shape, int dir, int withdata, int fail, int small)
{
  begin(maxb, 0);
  for (unsigned b = 0; b <= maxb; b++) {
    int np = (shape >> (4 * b)) & 3, n = ((shape >> (4 * b + 2)) & 3) + 1;
    if (!np) { int s = vp_page(bpage(b)); VP_RAND_PAGE(s); vp_hdr(s, HASH_BUCKET_PAGE, INVALID_PGNO, INVALID_PGNO, 0, BS - 1); }
    for (int i = 0; i < np; i++) kpage(b, n, KST == 4 ? 4 + (b + i) % 2 * 4 : 2 + (b + i) % 3, KST);
  }
  for (int i = 0; i < vp_nused; i++) vp_wr[i] = 0;
  ffdb_crs_t c; FFDB_DBT k, v; unsigned char kb[KMAX], vb[8]; int r = 0, cnt = 0;
  c.item.pagep = 0; c.item.status = ITEM_CLEAN;
  if (fail >= 0) vp_fail_get = fail;
  for (int step = 0; step <= gn + 1; step++) {
    unsigned fl = dir == 0 ? (step ? FFDB_NEXT : FFDB_FIRST) : (step ? FFDB_PREV : FFDB_LAST);
    k.data = kb; k.size = KMAX; v.data = vb; v.size = 8;
    int tight = small > 0 && step == small - 1 && step < gn;
    if (tight) { k.size = 1; }
    int p0 = 0; for (int i = 0; i < vp_nused; i++) p0 += vp_pin[i];
    r = ffdb_cursor_find_by_key(&H, &c, &k, withdata ? &v : 0, fl);
    int pn = 0; for (int i = 0; i < vp_nused; i++) pn += vp_pin[i];
    VP_ASSERT(pn == (c.item.pagep ? 1 : 0), "[C14] a cursor holds its current page and no other");
    if (vp_get_failed) { VP_ASSERT(r != 0 && r != FFDB_NOT_FOUND, "[C12] a cursor that could not get a page fails");
      r = ffdb_cursor_find_by_key(&H, &c, &k, withdata ? &v : 0, dir ? FFDB_PREV : FFDB_NEXT); VP_ASSERT(c.item.pagep != 0 || r != 0, "[C09,C16] a cursor without a page returns nothing"); if (c.item.pagep) ffdb_release_item(&H, &c.item); break; }
    if (tight) { VP_ASSERT(r != 0, "[C16] a key buffer that is too small is refused"); VP_ASSERT(r != FFDB_NOT_FOUND, "[C09] a refused move is not the end"); return; }
    if (step >= gn) { VP_ASSERT(r == FFDB_NOT_FOUND, "[C09] a cursor that returned every pair reports that there is no more"); VP_ASSERT(c.item.pagep == 0, "[C14] a cursor at its end holds no page"); continue; }
    VP_ASSERT(r == 0, "[C09] a cursor does not stop early"); VP_ASSUME(r == 0);
    int g = gfind(kb, (unsigned)k.size);
    VP_ASSERT(g >= 0, "[C09] a cursor returns only stored keys"); VP_ASSUME(g >= 0);
    VP_ASSERT(!G[g].seen, "[C09] a cursor returns no pair twice"); G[g].seen = 1; cnt++;
    if (withdata) { VP_ASSERT((unsigned)v.size == G[g].dl, "[C09,C01] a cursor returns a key's own datum"); unsigned d = 0; for (unsigned j = 0; j < G[g].dl; j++) d |= vb[j] ^ G[g].v[j]; VP_ASSERT(d == 0, "[C09,C01] a cursor returns a key's own datum"); }
  }
  if (!vp_get_failed) for (int g = 0; g < gn; g++) VP_ASSERT(G[g].seen, "[C09] a cursor returns every pair");
  VP_NO_PINS("[C14] a cursor at its end, or released, holds no page");
  for (int i = 0; i < vp_nused; i++) VP_ASSERT(!vp_wr[i], "[C13,C09] a cursor changes no page");
}
#ifdef __CPROVER__
#define NM(...)
#else
static char nm[128];
#define NM(...) snprintf(nm, sizeof nm, __VA_ARGS__)
#endif
#define PRE vp_crc_key = vp_u32()
static void SPLIT(unsigned mb, int np, int n, unsigned kl, unsigned st, unsigned mask, int fl, int fail) { NM("split to %u: %d pages of %d keys of %u+%u mask %x list %d fail %d", mb, np, n, kl, st, mask, fl, fail); VP_RUN(nm, { PRE; split(mb, np, n, kl, st, mask, fl, fail); }); }
static void FIND(int np, int n, unsigned kl, unsigned st, int who, int how, int fail) { NM("find %d pages of %d keys of %u+%u key %d how %d fail %d", np, n, kl, st, who, how, fail); VP_RUN(nm, { PRE; find(np, n, kl, st, who, how, fail); }); }
static void ADDOV(int np, int n, unsigned kl, unsigned nk, unsigned nd, int fl, int fail) { NM("overflow behind %d pages of %d keys of %u, key %u data %u list %d fail %d", np, n, kl, nk, nd, fl, fail); VP_RUN(nm, { PRE; addov(np, n, kl, nk, nd, fl, fail); }); }
static void CURS(unsigned mb, unsigned shape, int dir, int wd, int fail, int small) { NM("cursor %u buckets shape %x dir %d data %d fail %d small %d", mb + 1, shape, dir, wd, fail, small); VP_RUN(nm, { PRE; cursor(mb, shape, dir, wd, fail, small); }); }
static void grid(void)
{
  for (unsigned mb = 1; mb <= 3; mb++) for (int np = 0; np <= 4; np++) for (int n = 1; n <= 3; n++) for (unsigned kl = 1; kl <= 60; kl += (kl < 6 ? 1 : 9)) for (unsigned st = 0; st < 2; st++) for (int fl = 0; fl < 4; fl++)
    for (unsigned m = 0; m < 12; m++) { static const unsigned M[12] = {0, 0xffffff, 0x555555, 0xaaaaaa, 0x333333, 0xcccccc, 0x0f0f0f, 1, 0x800, 0x9249, 0xfffffe, 0x3f}; if (!np && n > 1) continue; SPLIT(mb, np, n, kl, st, M[m], fl, -1); if (kl == 2 || kl == 15) for (int f = 0; f < 12; f++) if (m < 4) SPLIT(mb, np, n, kl, st, M[m], fl, f); }
  for (int np = 1; np <= 4; np++) for (int n = 0; n <= 3; n++) { if (!n && np > 1) continue; for (unsigned kl = 1; kl <= 60; kl += (kl < 6 ? 1 : 9)) for (unsigned st = 0; st < 2; st++) for (int who = 0; who < 12; who++) for (int how = 0; how < 4; how++) { if (kl + st * 3 + 4 > 68) continue; FIND(np, n, kl, st, who, how, -1); if (who < 2) for (int f = 0; f < np; f++) FIND(np, n, kl, st, who, how, f); } }
  for (int np = 1; np <= 4; np++) for (int n = 1; n <= 3; n++) for (unsigned kl = 1; kl <= 40; kl += 9) for (unsigned nk = 1; nk <= 69; nk += 4) for (unsigned nd = 0; nd < 4; nd++) for (int fl = 0; fl < 4; fl++) { ADDOV(np, n, kl, nk, nd, fl, -1); if (nk < 6) for (int f = 0; f < 5; f++) ADDOV(np, n, kl, nk, nd, fl, f); }
  for (unsigned mb = 0; mb <= 3; mb++) for (unsigned sh = 0; sh < 1u << (4 * (mb + 1)); sh += (mb < 2 ? 1 : mb == 2 ? 3 : 29)) for (int dir = 0; dir < 2; dir++) { CURS(mb, sh, dir, sh & 1, -1, 0); if (sh % 5 == 0) { for (int f = 0; f < 9; f++) CURS(mb, sh, dir, 1, f, 0); CURS(mb, sh, dir, 0, -1, 1); CURS(mb, sh, dir, 1, -1, 3); } }
}
int main(void)
{
  VP_GRID_INIT();
#ifdef VP_NATIVE_GRID
  grid();
#else
  SCEN
#endif
  VP_GRID_DONE();
  VP_REACH("page_chain end");
  return 0;
}
