/* Unit page_move: closing moves the last pages of the file into unused buckets' places, opening
 * moves them back. ffdb_rearrage_pages_on_close, ffdb_rearrage_pages_on_open, _ffdb_move_pages and
 * what they call, ffdb_reduce_filesize, with the page cache by contract.
 * Enumerated: table size, number and kinds of pages behind the buckets, shapes, faults.
 * Symbolic: keys, data, checksums. */
#ifndef BS
#define BS 128
#endif
#define NP 24
#define VMAX 64
#define VP_OWN_MALLOC 256
#define VP_OWN_CRC
#include "vp.h"
#define ftruncate(f, n) vp_trunc((f), (n))
static int vp_trunc(int f, long n);
#include "pg.h"
#undef ftruncate
static long vp_len; static int vp_ntrunc;
static int vp_trunc(int f, long n) { vp_len = n; vp_ntrunc++; return 0; }
static unsigned tail, low, lowend; static int ndata;
static unsigned newno(void) { return low < lowend ? low++ : tail++; }
#define NEWDATA(cur) (ndata++, newno())
#define NEWOVFL newno()
#include "chain.h"
static unsigned L, fun, full;  /* level, first unused bucket's page, page of the last bucket of the level */
static void spacer(void)   /* a data page filled by the middle of a datum that starts before it */
{
  if (!dcur || vp_nused >= NP - 6) return;
  unsigned prev = dcur; dcur = NEWDATA(dcur); dslot = vp_page(dcur); VP_RAND_PAGE(dslot); vp_hdr(dslot, HASH_DATA_PAGE, prev, INVALID_PGNO, 0, 32);
  FIRST_DATA_POS(vp_D[dslot]) = 0; HIGHEST_FREE(vp_D[dslot]) = 0; NEXT_PGNO(vp_D[vp_slot(prev)]) = dcur; dpos = BS;
}
static void freelist(int n, int dead)
{
  for (int i = 0; i < n && vp_nused < NP - 5; i++) {
    unsigned no = tail++; int f = vp_page(no); VP_RAND_PAGE(f); vp_hdr(f, HASH_FREE_PAGE, INVALID_PGNO, H.hdr.free_pages[L], 0, 0);
    if (H.hdr.free_pages[L] != INVALID_PGNO) PREV_PGNO(vp_D[vp_slot(H.hdr.free_pages[L])]) = no;
    H.hdr.free_pages[L] = no;
    if (i == 0) for (int k = 0; k < dead && vp_nused < NP - 5; k++) { unsigned q = tail++; int s = vp_page(q); VP_RAND_PAGE(s); vp_hdr(s, HASH_DELETED_PAGE, 7, 9, 0, 3); FREE_PAGE(vp_D[f], NUM_FREE_PAGES(vp_D[f])) = q; NUM_FREE_PAGES(vp_D[f])++; }
  }
}
/* every data page hangs in one list, in the order of its data */
static void check_list(void)
{
  int n = 0, last = -1, heads = 0; unsigned no = INVALID_PGNO;
  for (int i = 0; i < vp_nused; i++) if (vp_used[i] && TYPE(vp_D[i]) == HASH_DATA_PAGE) { n++; if (PREV_PGNO(vp_D[i]) == INVALID_PGNO) { heads++; no = vp_no[i]; } }
  VP_ASSERT(n == ndata, "[C15,C01] no data page is lost or duplicated by a move");
  VP_ASSERT(heads == (ndata > 0), "[C15] the data pages form one list");
  unsigned prev = INVALID_PGNO; n = 0;
  while (no != INVALID_PGNO && n <= ndata) {
    int s = vp_slot(no); VP_ASSERT(s >= 0 && TYPE(vp_D[s < 0 ? 0 : s]) == HASH_DATA_PAGE, "[C15,C01] data pages are linked to data pages"); VP_ASSUME(s >= 0);
    unsigned char *p = (unsigned char *)vp_D[s]; unsigned at = FIRST_DATA_POS(p);
    VP_ASSERT(CURR_PGNO(p) == no && PREV_PGNO(p) == prev, "[C15] data pages are linked backwards and know their number");
    for (unsigned k = 0; k < NUM_ENT(p); k++) {
      int f = -1; for (int g = 0; g < gn; g++) if (G[g].dpage == no && G[g].doff == at) f = g;
      VP_ASSERT(f > last, "[C15,C01] data pages keep their order"); last = f; at = BIG_DATA_HEADER(p, at)->next;
    }
    prev = no; no = NEXT_PGNO(p); n++;
  }
  VP_ASSERT(n == ndata, "[C15] the list holds every data page");
}
static void check_all(unsigned end)
{
  for (int i = 0; i < 128; i++) owner[i] = 0;
  /* where the keys say their data are now */
  for (unsigned b = 0; b <= H.hdr.max_bucket; b++) {
    int n = 0;
    for (unsigned no = bpage(b); no != INVALID_PGNO && n < 12; n++) { int s = vp_slot(no); if (s < 0) break; unsigned char *p = (unsigned char *)vp_D[s]; for (unsigned i = 0; i < NUM_ENT(p) && i < 6; i++) { int g = gfind(p + KEY_OFF(p, i), KEY_LEN(p, i)); if (g >= 0) { unsigned f = DATAP(p, i)->first; VP_ASSERT(vp_slot(f) >= 0 && TYPE(vp_D[vp_slot(f) < 0 ? 0 : vp_slot(f)]) == HASH_DATA_PAGE, "[C15,C01] a key's datum is on a data page"); VP_ASSUME(vp_slot(f) >= 0); G[g].dpage = f; } } no = NEXT_PGNO(p); }
    check_chain(b, 1);
  }
  all_seen(); check_data(); check_list();
  for (int i = 0; i < vp_nused; i++) if (vp_used[i] && (TYPE(vp_D[i]) == HASH_DATA_PAGE || TYPE(vp_D[i]) == HASH_BUCKET_PAGE)) {
    VP_ASSERT(vp_no[i] < end, "[C15,C06] every page in use lies inside the file");
    if (TYPE(vp_D[i]) == HASH_BUCKET_PAGE) VP_ASSERT(owner[vp_no[i]] == 1, "[C15] no copy of a moved page stays behind");
  }
}
static void move(unsigned lv, unsigned unused, unsigned nlow, unsigned shape, int nfree, int dead, int ver, int mid, int fail, int fail2)
{
  vp_reset(); gn = 0; dcur = 0; ndata = 0; dpos = 0; L = lv; vp_hole_lo = vp_hole_hi = 0; vp_ntrunc = 0; vp_len = -1;
  H.hdr.bsize = BS; H.hdr.version = ver; H.data_valid_flag = ver > 5 ? DATA_VALID_6 : DATA_VALID_5; H.data_invalid_flag = ver > 5 ? DATA_INVALID_6 : DATA_INVALID_5; H.h_compare = vp_compare;
  hib = ver == 7 ? 0x2a00000 : 0; if (ver == 7) H.hdr.version = 6;
  for (unsigned s = 0; s < NCACHED; s++) { H.hdr.spares[s] = 0; H.hdr.free_pages[s] = INVALID_PGNO; }
  H.hdr.spares[0] = 3; H.hdr.spares[1] = 4; H.hdr.spares[2] = 5 + (L == 2 ? nlow : 0); H.hdr.spares[3] = L == 3 ? 7 + nlow : 0; if (L == 1) { H.hdr.spares[2] = 0; H.hdr.spares[1] = 4 + nlow; }
  low = L == 1 ? 4 : L == 2 ? 5 : 7; lowend = low + nlow;
  H.hdr.high_mask = (1u << L) - 1; H.hdr.low_mask = H.hdr.high_mask >> 1; H.hdr.ovfl_point = L; H.hdr.max_bucket = H.hdr.high_mask - unused; H.hdr.num_moved_pages = 0;
  fun = bpage(H.hdr.high_mask) - unused + 1; full = bpage(H.hdr.high_mask); tail = full + 1;
  for (int i = 0; i < 8; i++) nchain[i] = 0;
  unsigned nb = H.hdr.max_bucket + 1;
  for (unsigned r = 0; r < 3; r++) for (unsigned b = 0; b < nb; b++) {  /* chains grow in turn, so pages of several kinds mix */
    unsigned c = (shape >> (3 * (b % 4))) & 7, np = c & 3; if (np == 0) np = 1;
    if (r >= np) continue;
    int n = c == 0 ? 0 : 1 + (int)((c >> 2) + r) % 2; if (r && !n) n = 1; if (b > 3 && r == 0) n = (int)(shape & 1);
    if (vp_nused >= NP - 7 && r) continue;
    kpage(b, n, 4, 0);
    if (mid & 1 && r == 1) spacer();
    if (mid & 2 && r == 1 && b == 0) freelist(1, 1);
  }
  if (mid & 4) spacer();
  if (nfree) freelist(nfree, dead);
  H.hdr.spares[L + 1] = tail;
  if (!ndata) return; /* pages are only allocated for pairs, and every pair has a datum */
  /* the places of unused buckets were never written */
  for (unsigned no = fun; no <= full; no++) { int s = vp_page(no); vp_empty(s, no); }
  for (; low < lowend; low++) { int s = vp_page(low); vp_empty(s, low); }
  unsigned used = tail - 1 - full, mv = used < unused ? used : unused, sp = H.hdr.spares[L + 1];
  if (used == 0) H.hdr.spares[L + 1] = sp = 0; /* nothing allocated on the last level yet */
  check_all(tail);
  if (fail >= 0) { vp_fail_get = fail; }
  int r = ffdb_rearrage_pages_on_close(&H);
  vp_fail_get = -1;
  VP_NO_PINS("[C14] moving pages on close releases every page, also when it fails");
  if (vp_get_failed) { VP_ASSERT(r != 0, "[C12] a move that could not get a page fails"); VP_ASSERT(H.hdr.num_moved_pages == 0, "[C12,C15] a failed move is not recorded as done"); return; }
  VP_ASSERT(r == 0, "[C15] moving pages on close succeeds");
  if (sp == 0) { VP_ASSERT(H.hdr.num_moved_pages == 0, "[C15] nothing to move, nothing moved"); return; }
  unsigned moved = H.hdr.num_moved_pages;
  VP_ASSERT(moved <= mv, "[C15] pages are moved only into unused buckets' places"); 
  VP_ASSERT(moved == mv, "[C15] closing shrinks the file by every page that fits");
  check_all(sp - moved);
  ffdb_reduce_filesize(&H);
  VP_ASSERT(moved ? vp_ntrunc == 1 && vp_len == (long)(sp - moved) * BS : vp_ntrunc == 0, "[C15,C06] the file is cut behind its last page");
  /* next session: only what the file holds */
  for (int i = 0; i < vp_nused; i++) { if (vp_used[i] && vp_no[i] >= sp - moved) { vp_used[i] = 0; } }
  for (int i = 0; i < vp_nused; i++) if (!vp_used[i]) { /* compact: slots of cut pages are given back */
    int j = vp_nused - 1; while (j > i && !vp_used[j]) j--; vp_nused = j + (vp_used[j] ? 1 : 0); if (j <= i) { vp_nused = i; break; }
    vp_no[i] = vp_no[j]; vp_used[i] = 1; vp_used[j] = 0; for (int w = 0; w < NW; w++) vp_D[i][w] = vp_D[j][w]; vp_nused = j; }
  H.curr_dpage = INVALID_PGNO; vp_gets = 0; vp_hole_lo = sp - moved; vp_hole_hi = sp;
  if (fail2 >= 0) { vp_fail_get = fail2; vp_exit_ok = 1; }
  r = ffdb_rearrage_pages_on_open(&H);
  vp_fail_get = -1; vp_exit_ok = 0;
  VP_NO_PINS("[C14] moving pages back releases every page, also when it fails");
  if (vp_get_failed) { if (H.hdr.num_moved_pages) VP_ASSERT(r != 0, "[C12] a move back that could not get a page fails"); return; }
  VP_ASSERT(r == 0 && H.hdr.num_moved_pages == 0, "[C15] moving pages back succeeds");
  check_all(sp);
  for (int i = 0; i < vp_nused; i++) if (vp_used[i] && vp_no[i] >= fun && vp_no[i] <= full) {
    VP_ASSERT(TYPE(vp_D[i]) == HASH_DELETED_PAGE, "[C15,C05] the places of unused buckets are empty again");
  }
  { int n = 0; unsigned no = H.hdr.free_pages[L], prev = INVALID_PGNO; int dn = 0; /* the free list as it was */
    while (no != INVALID_PGNO && n < 6) { int s = vp_slot(no); VP_ASSERT(s >= 0 && TYPE(vp_D[s < 0 ? 0 : s]) == HASH_FREE_PAGE, "[C15,C05] a free list is on free list pages"); VP_ASSUME(s >= 0);
      VP_ASSERT(PREV_PGNO(vp_D[s]) == prev && CURR_PGNO(vp_D[s]) == no, "[C15,C05] free list pages are linked backwards"); VP_ASSERT(owner[no] == 0, "[C05,C15] a page in use is not listed free"); owner[no] = 2;
      for (unsigned k = 0; k < NUM_FREE_PAGES(vp_D[s]) && k < 4; k++) { unsigned e = FREE_PAGE(vp_D[s], k); VP_ASSERT(e < 128 && owner[e < 128 ? e : 0] == 0, "[C05,C15] a page in use is not listed free"); owner[e < 128 ? e : 0] = 2; dn++; }
      n++; prev = no; no = NEXT_PGNO(vp_D[s]); }
    int tot = 0; for (int i = 0; i < vp_nused; i++) if (vp_used[i] && TYPE(vp_D[i]) == HASH_FREE_PAGE) tot++;
    VP_ASSERT(n == tot, "[C15] no copy of a moved page stays behind"); }
  /* and closing again */
  r = ffdb_rearrage_pages_on_close(&H);
  VP_ASSERT(r == 0 && H.hdr.num_moved_pages == mv, "[C15] moving pages on close succeeds");
  VP_NO_PINS("[C14] moving pages on close releases every page, also when it fails");
  check_all(sp - mv);
}
/* every description: the file is cut behind the last page in use, wherever in the file that is */
static void u_cut(unsigned l, unsigned sh)
{
  unsigned sp = vp_u32(), mv = vp_u32(); if (vp_grid) mv %= sp | 1;
  VP_ASSUME(mv < sp && sp < 0xf0000000u);
  H.hdr.bsize = 1u << sh; H.hdr.ovfl_point = l; H.hdr.spares[l + 1] = sp; H.hdr.num_moved_pages = mv; H.fp = 5; vp_ntrunc = 0; vp_len = -1;
  ffdb_reduce_filesize(&H);
  VP_ASSERT(vp_ntrunc == 0 || vp_len >= (long)(sp - mv) * (1L << sh), "[C15] the file is never cut below the last page in use");
  VP_ASSERT(mv == 0 ? vp_ntrunc == 0 : vp_ntrunc == 1 && vp_len == (long)(sp - mv) * (1L << sh), "[C15,C06] the file is cut behind its last page");
}
#ifdef __CPROVER__
#define NM(...)
#else
static char nm[160];
#define NM(...) snprintf(nm, sizeof nm, __VA_ARGS__)
#endif
static void MV(unsigned lv, unsigned un, unsigned nl, unsigned sh, int nf, int dead, int ver, int mid, int f, int f2)
{ NM("level %u unused %u low %u shape %x free %d dead %d version %d mid %d fail %d %d", lv, un, nl, sh, nf, dead, ver, mid, f, f2); VP_RUN(nm, { vp_crc_key = vp_u32(); move(lv, un, nl, sh, nf, dead, ver, mid, f, f2); }); }
static int vp_ncut;
static void CUT(unsigned l, unsigned sh) { NM("cut level %u no %d", l, vp_ncut); if (vp_grid) vp_ncut++; VP_RUN(nm, u_cut(l, sh)); }
static void grid(void)
{
  for (unsigned i = 0; i < 2000; i++) CUT(i % 30, 9 + i % 12);
  static const unsigned S[] = {0x249, 0x492, 0x6db, 0xfff, 0, 1, 2, 3, 7, 0x1b, 0x38, 0x53, 0x9a, 0xd1, 0x124, 0x2b3, 0x3ff, 0x5a5, 0x777, 0x8d2, 0xabc, 0xe07, 0xf3f, 0x666};
  for (unsigned lv = 1; lv <= 3; lv++) for (unsigned un = 0; un < 1u << (lv - 1); un++) for (unsigned nl = 0; nl < 3; nl++) for (unsigned si = 0; si < 24; si++) for (int nf = 0; nf < 3; nf++) for (int dead = 0; dead < (nf ? 3 : 1); dead++) for (int mid = 0; mid < 8; mid++) {
    MV(lv, un, nl, S[si], nf, dead, 5 + (int)(si + nf + mid) % 3, mid, -1, -1);
    if ((si + mid) % 4 == 0 && un) for (int f = 0; f < 14; f++) { MV(lv, un, nl, S[si], nf, dead, 6, mid, f, -1); MV(lv, un, nl, S[si], nf, dead, 6, mid, -1, f); }
  }
}
int main(void)
{
  VP_GRID_INIT();
#ifdef VP_NATIVE_GRID
  grid();
#else
  SCEN
#endif
  VP_GRID_DONE();
  VP_REACH("page_move end");
  return 0;
}
