/* Unit page_alloc: where pages come from and go to. BUCKET_TO_PAGE (through
 * ffdb_get_page), _ffdb_data_page, _ffdb_ovfl_page, _ffdb_reuse_free_ovflpage,
 * _ffdb_free_ovflpage (through ffdb_delete_page), and the length encoding.
 * u_*: every table (every level, every spares[], every counter), no bound.
 * pop/push: free lists of every enumerated shape, page numbers symbolic. */
#ifndef BS
#define BS 64
#endif
#define NP 10
#include "pg.h"
unsigned int _ffdb_call_hash(ffdb_htab_t *h, const void *k, unsigned int n) { return 0; }
/* ---- every table ---------------------------------------------------------------------- */
static unsigned NB(unsigned s) { return s ? 1u << (s - 1) : 1u; }
/* The levels' bucket pages do not overlap: spares[t] >= spares[s] + (buckets of s) for s < t <= L.
 * From one level to the next this is what allocation maintains (u_alloc); u_lemma is the induction step. */
static void any_table(unsigned L, int order)
{
  H.hdr.bsize = BS; H.hdr.version = 6;
  for (unsigned s = 0; s < NCACHED; s++) { H.hdr.spares[s] = 0; H.hdr.free_pages[s] = INVALID_PGNO; }
  if (vp_grid) { unsigned long c = vp_range(1, 1u << 20); for (unsigned s = 0; s <= L; s++) { H.hdr.spares[s] = (unsigned)c; c += NB(s); c += vp_range(0, 1u << 24); } VP_ASSUME(c < 0xfffffff0ul); }
  else {
    for (unsigned s = 0; s <= L; s++) { H.hdr.spares[s] = vp_u32(); VP_ASSUME(H.hdr.spares[s] >= 1 && H.hdr.spares[s] < 0xf0000000u && H.hdr.spares[s] + NB(s) < 0xfffffff0u); }
    if (order) for (unsigned t = 1; t <= L; t++) for (unsigned s = order == 2 ? t - 1 : 0; s < t; s++) VP_ASSUME((unsigned long)H.hdr.spares[t] >= (unsigned long)H.hdr.spares[s] + NB(s));
  }
  H.hdr.ovfl_point = L; H.hdr.high_mask = (unsigned)((1ul << L) - 1); H.hdr.low_mask = H.hdr.high_mask >> 1;
  H.hdr.max_bucket = vp_range(L ? H.hdr.low_mask + 1 : 0, H.hdr.high_mask);
}
static void u_lemma(void)
{
  unsigned a = vp_u32(), b = vp_u32(), c = vp_u32(), s = vp_range(0, 29), t = vp_range(0, 30);
  VP_ASSUME(s < t && (unsigned long)b >= (unsigned long)a + NB(s) && (unsigned long)c >= (unsigned long)b + NB(t));
  VP_ASSERT((unsigned long)c >= (unsigned long)a + NB(s) && (unsigned long)c >= (unsigned long)b + NB(t), "[C05] levels in order one by one are in order altogether");
  VP_REACH("lemma");
}
static unsigned page_of(unsigned b)
{ pgno_t p = 0; vp_reset(); vp_fail_get = 0; vp_want_no = 0; (void)ffdb_get_page(&H, b, HASH_BUCKET_PAGE, 0, &p); vp_fail_get = -1;
  VP_ASSERT(vp_want_no == p, "[C05] the page asked for is the page reported"); return p; }
static void u_map(unsigned L)
{
  any_table(L, 1);
  unsigned a = vp_range(0, H.hdr.max_bucket), b = vp_range(0, H.hdr.max_bucket);
  VP_ASSUME(a != b);
  unsigned pa = page_of(a), pb = page_of(b);
  VP_ASSERT(pa != pb, "[C05,C04] different buckets live on different pages");
  VP_ASSERT(pa >= H.hdr.spares[0], "[C05] a bucket is no description, user or configuration page");
  unsigned s = __ffdb_log2(a + 1);
  VP_ASSERT(pa >= H.hdr.spares[s] && pa - H.hdr.spares[s] < NB(s), "[C05] a bucket lies in its level's range");
  unsigned m = H.hdr.max_bucket; if (m < H.hdr.high_mask) { H.hdr.max_bucket = m + 1; VP_ASSERT(page_of(a) == pa, "[C04,C05] growing moves no bucket"); }
#ifndef NOMAP
  VP_REACH("map");
#endif
}
/* a new page for data or overflow, nothing on the free list */
static void u_alloc(unsigned L)
{
  any_table(L, 0);
  unsigned first = H.hdr.spares[L] + NB(L), fresh = vp_bool(), isovfl = vp_bool(), isnew = vp_bool(), isovfl2 = vp_bool();
  VP_ASSUME(first < 0xffffff00u);
  unsigned sp0 = 0;
  if (fresh) { H.hdr.spares[L + 1] = 0; H.curr_dpage = INVALID_PGNO; }
  else { sp0 = vp_range(first + 1, 0xffffffe0u); H.hdr.spares[L + 1] = sp0; H.curr_dpage = vp_range(1, sp0 - 1); }
  unsigned cd0 = H.curr_dpage; int reuse = 7;
  unsigned m[NCACHED]; for (unsigned s = 0; s < NCACHED; s++) m[s] = H.hdr.spares[s];
  vp_reset();
  unsigned p = isovfl ? _ffdb_ovfl_page(&H, &reuse) : _ffdb_data_page(&H, isnew, &reuse);
  VP_ASSERT(reuse == 0, "[C05] nothing is reused from an empty free list");
  VP_ASSERT(H.curr_dpage != INVALID_PGNO && H.hdr.spares[L + 1] > H.curr_dpage, "[C05] the current data page lies below the allocation mark");
  for (unsigned s = 0; s < NCACHED; s++) if (s != L + 1) VP_ASSERT(H.hdr.spares[s] == m[s], "[C05,C06] allocation leaves the other levels alone");
  VP_ASSERT(H.hdr.spares[L + 1] > first, "[C05] the next level starts behind this one");
  if (!fresh) VP_ASSERT(H.hdr.spares[L + 1] >= sp0 && H.hdr.spares[L + 1] - sp0 <= 1, "[C05] allocation only moves forward, page by page");
  if (!isovfl && !isnew) {
    if (!fresh) VP_ASSERT(p == cd0 && H.curr_dpage == cd0, "[C01,C05] data continue on the current data page");
    else VP_ASSERT(p >= first && p == H.curr_dpage, "[C05] a level's first data page is no bucket page");
  } else {
    VP_ASSERT(p >= first && p < H.hdr.spares[L + 1], "[C05] a new page is no bucket page and lies below the allocation mark");
    if (!fresh) VP_ASSERT(p >= sp0, "[C05] a new page was not in use");
    else if (isovfl) VP_ASSERT(p != H.curr_dpage, "[C05] an overflow page is not the page data will go to");
    if (isovfl) { if (!fresh) VP_ASSERT(H.curr_dpage == cd0, "[C01,C05] an overflow page does not become the data page"); }
    else VP_ASSERT(H.curr_dpage == p, "[C01,C05] a new data page is where data continue");
  }
  unsigned sp1 = H.hdr.spares[L + 1];
  unsigned q = isovfl2 ? _ffdb_ovfl_page(&H, &reuse) : _ffdb_data_page(&H, 1, &reuse);
  VP_ASSERT(q != p && q >= sp1 && q < H.hdr.spares[L + 1], "[C05] no page is handed out twice");
  VP_ASSERT(vp_gets == 0, "[C05] an empty free list is not read");
  VP_REACH("alloc");
}
/* a freed overflow page goes to the list of the level it lies in; that list is empty */
static void u_free_level(unsigned L)
{
  any_table(L, 1);
  vp_reset();
  unsigned o = vp_range(H.hdr.spares[0], 0xffffffe0u), lv = vp_range(0, L); if (vp_grid) for (unsigned s = 0; s <= L; s++) if (o >= H.hdr.spares[s]) lv = s;
  VP_ASSUME(o >= H.hdr.spares[lv] && (lv == L || o < H.hdr.spares[lv + 1]));
  int i = vp_page(o); VP_RAND_PAGE(i); vp_hdr(i, HASH_BUCKET_PAGE, 77, 78, 3, 40);
  vp_one = 1; pgno_t t; void *mem = ffdb_get_page(&H, o, HASH_OVFL_PAGE, 0, &t);
  vp_cut = 1; int dl = ffdb_delete_page(&H, mem, HASH_OVFL_PAGE, vp_bool()); vp_one = vp_cut = 0;
  VP_ASSERT(dl == 0, "[C12] a page is freed");
  for (unsigned s = 0; s < NCACHED; s++) VP_ASSERT(H.hdr.free_pages[s] == (s == lv ? o : INVALID_PGNO), "[C05] a freed page is listed once, in its own level");
  unsigned char *d = (unsigned char *)vp_D[i];
  VP_ASSERT(CURR_PGNO(d) == o && TYPE(d) == HASH_FREE_PAGE && NUM_FREE_PAGES(d) == 0 && NEXT_PGNO(d) == INVALID_PGNO && PREV_PGNO(d) == INVALID_PGNO && PAGE_SIGN(d) == FFDB_PAGE_MAGIC, "[C05,C15,C08] the first freed page becomes an empty list");
  VP_NO_PINS("[C14] freeing a page releases it");
  VP_REACH("free_level");
}
/* the length of a datum, up to 40 bits, and its place on the page share two words */
static void u_len(void)
{
  unsigned long n = vp_u64() & 0xffffffffffUL; unsigned o = vp_u32() & 0xfffff;
  unsigned w = vp_bool() ? o : (o | (vp_u32() & 0x0ff00000)), l = (unsigned)n;
  INSERT_LEN_TO_PGOFFSET((long)n, w);
  VP_ASSERT(REAL_DATA_LEN(l, w) == (long)n, "[C01,C03] every length up to 40 bits is read back");
  VP_ASSERT(GET_PGOFFSET(w) == o, "[C01,C03] the place of a datum is read back");
  unsigned st = (vp_bool() ? DATA_VALID_6 : DATA_INVALID_6), s0 = st; if (vp_bool()) st |= vp_u32() & 0x0ff00000;
  INSERT_LEN_TO_STATUS((long)n, st);
  VP_ASSERT(REAL_DATA_LEN(l, st) == (long)n && GET_STATUS(st) == s0, "[C01,C03] length and status of a datum are read back");
  unsigned v = vp_u32() & 0x7ffffff0, v0; v += vp_range(0, 15); v0 = v; ALIGN_ADDR(v);
  VP_ASSERT(v >= v0 && v - v0 < 4 && v % 4 == 0, "[C01,C16] addresses are aligned upwards");
  v = v0; ALIGN_DATAP_OFFSET_VAL(v); VP_ASSERT(v <= v0 && v0 - v < 4 && v % 4 == 0, "[C01,C16] data pointers are aligned downwards");
  VP_REACH("len");
}
/* ---- free lists ------------------------------------------------------------------------- */
#define MAXF (BS / 4 - 7 - 1)     /* entries of one list page */
#define LV 3
static unsigned fno[3] = {41, 45, 43}; static int fs[3]; static unsigned ent[3][BS]; static int cnt[3]; static int nch;
static void mk_list(int n, int a, int b, int c)
{
  vp_reset(); H.hdr.bsize = BS; H.hdr.version = 6; H.hdr.ovfl_point = LV;
  for (unsigned s = 0; s < NCACHED; s++) { H.hdr.spares[s] = s < 5 ? 10u * (s + 1) : 0; H.hdr.free_pages[s] = INVALID_PGNO; }
  H.hdr.spares[4] = 90; H.hdr.high_mask = 7; H.hdr.low_mask = 3; H.hdr.max_bucket = 5; H.curr_dpage = 60;
  cnt[0] = a; cnt[1] = b; cnt[2] = c; nch = n;
  for (int i = 0; i < n; i++) { fs[i] = vp_page(fno[i]); VP_RAND_PAGE(fs[i]); vp_hdr(fs[i], HASH_FREE_PAGE, i ? fno[i - 1] : INVALID_PGNO, i + 1 < n ? fno[i + 1] : INVALID_PGNO, cnt[i], 0);
    for (int k = 0; k < cnt[i]; k++) { ent[i][k] = vp_range(46, 89); FREE_PAGE(vp_D[fs[i]], k) = ent[i][k]; } }
  if (n) H.hdr.free_pages[LV] = fno[0];
}
/* the list is: pages l[0..n), page l[i] with the entries e[i][0..c[i]) */
static void is_list(int n, int i0, const char *unused)
{
  VP_ASSERT(H.hdr.free_pages[LV] == (n > i0 ? fno[i0] : INVALID_PGNO), "[C05] the free list starts where the description says");
  for (int i = i0; i < n; i++) {
    unsigned char *p = (unsigned char *)vp_D[fs[i]];
    VP_ASSERT(CURR_PGNO(p) == fno[i] && TYPE(p) == HASH_FREE_PAGE && PAGE_SIGN(p) == FFDB_PAGE_MAGIC, "[C05,C15] a free list is on free list pages");
    VP_ASSERT(NEXT_PGNO(p) == (i + 1 < n ? fno[i + 1] : INVALID_PGNO), "[C05,C15] a free list is linked forwards");
    VP_ASSERT(PREV_PGNO(p) == (i > i0 ? fno[i - 1] : INVALID_PGNO), "[C05,C15] a free list is linked backwards, only to its own pages");
    VP_ASSERT(NUM_FREE_PAGES(p) == (unsigned)cnt[i], "[C05] a page is listed free once");
    unsigned d = 0; for (int k = 0; k < cnt[i]; k++) d |= FREE_PAGE(p, k) ^ ent[i][k];
    VP_ASSERT(d == 0, "[C05] the other free pages stay listed");
  }
}
static void others(void) { for (unsigned s = 0; s < NCACHED; s++) if (s != LV) VP_ASSERT(H.hdr.free_pages[s] == INVALID_PGNO, "[C05] other levels' lists are left alone"); }
static void pop(int n, int a, int b, int c, int how)
{
  mk_list(n, a, b, c); int reuse = 0;
  unsigned p = how ? _ffdb_ovfl_page(&H, &reuse) : _ffdb_data_page(&H, 1, &reuse);
  VP_NO_PINS("[C14] taking a page releases the free list"); others();
  VP_ASSERT(H.hdr.spares[4] == (n ? 90u : 91u), "[C05] a free page is taken before a new one");
  VP_ASSERT(reuse == (n ? 1 : 0), "[C05] a reused page is known to be one");
  VP_ASSERT(H.curr_dpage == (how ? 60u : p), "[C01,C05] a new data page is where data continue");
  if (!n) { VP_ASSERT(p == 90, "[C05] a new page lies behind all others"); return; }
  /* which one is free to choose, as long as it leaves the list */
  int w = -1, i0 = 0;
  if (p == fno[0] && cnt[0] == 0) { i0 = 1; }
  else {
    for (int i = 0; i < n && w < 0; i++) for (int k = 0; k < cnt[i]; k++) if (ent[i][k] == p && NUM_FREE_PAGES(vp_D[fs[i]]) == (unsigned)cnt[i] - 1) { w = i; ent[i][k] = ent[i][cnt[i] - 1]; cnt[i]--; break; }
    VP_ASSERT(w >= 0, "[C05] a page that is handed out was free and is listed no more");
  }
  is_list(n, i0, "");
}
static void push(int n, int a, int b, int c)
{
  mk_list(n, a, b, c);
  unsigned o = 46 + (unsigned)(n * 7 + a * 3 + b); int i = vp_page(o); VP_RAND_PAGE(i); vp_hdr(i, HASH_BUCKET_PAGE, 77, 78, 3, 40);
  pgno_t t; void *mem = ffdb_get_page(&H, o, HASH_OVFL_PAGE, 0, &t);
  int r = ffdb_delete_page(&H, mem, HASH_OVFL_PAGE, 0);
  VP_ASSERT(r == 0, "[C12] a page is freed"); VP_NO_PINS("[C14] freeing a page releases it"); others();
  unsigned char *d = (unsigned char *)vp_D[i]; int room = -1;
  for (int k = n - 1; k >= 0; k--) if (cnt[k] < MAXF) room = k;
  if (room < 0) { fs[n] = i; fno[n] = o; cnt[n] = 0; is_list(n + 1, 0, ""); return; }
  ent[room][cnt[room]++] = o; is_list(n, 0, "");
  VP_ASSERT(CURR_PGNO(d) == o && TYPE(d) == HASH_DELETED_PAGE, "[C05,C15] a freed page no longer looks like one in use");
}
/* the data page that is found at open: the last of the last chain */
static void last(int n, int at)
{
  vp_reset(); H.hdr.bsize = BS; H.hdr.version = 6;
  int s[8]; static const unsigned ty[6] = {HASH_BUCKET_PAGE, HASH_DATA_PAGE, HASH_FREE_PAGE, HASH_DELETED_PAGE, HASH_DATA_PAGE, HASH_BUCKET_PAGE};
  for (int i = 0; i < n; i++) { s[i] = vp_page(30 + i); VP_RAND_PAGE(s[i]); unsigned t = ty[(i + at) % 6]; unsigned nx = vp_range(31, 200);
    if (i == at) { t = HASH_DATA_PAGE; nx = INVALID_PGNO; } else if (i > at && t != HASH_DATA_PAGE && i % 2) nx = INVALID_PGNO;
    vp_hdr(s[i], t, 12, nx, 1, 40); }
  pgno_t r = ffdb_last_data_page(&H, 30 + n - 1);
  VP_ASSERT(r == 30u + at, "[C05,C06,C01] new data continue on the last data page");
  VP_NO_PINS("[C14] looking for the last data page releases every page");
}
#ifdef __CPROVER__
#define RUN4(f, ...) f(__VA_ARGS__)
#define NM(...) 
#else
static char nm[128];
#define NM(...) snprintf(nm, sizeof nm, __VA_ARGS__)
#endif
static void POP(int n, int a, int b, int c, int h) { NM("pop %d pages %d %d %d how %d", n, a, b, c, h); VP_RUN(nm, { fno[0] = 41; fno[1] = 45; fno[2] = 43; pop(n, a, b, c, h); }); }
static void PUSH(int n, int a, int b, int c) { NM("push %d pages %d %d %d", n, a, b, c); VP_RUN(nm, { fno[0] = 41; fno[1] = 45; fno[2] = 43; push(n, a, b, c); }); }
static void LAST(int n, int at) { NM("last of %d at %d", n, at); VP_RUN(nm, { last(n, at); }); }
static void grid(void)
{
  for (int h = 0; h < 2; h++) { POP(0, 0, 0, 0, h); for (int a = 0; a <= MAXF; a++) { POP(1, a, 0, 0, h); for (int b = 0; b <= MAXF; b++) { POP(2, a, b, 0, h); for (int c = 0; c <= MAXF; c += 2) POP(3, a, b, c, h); } } }
  for (int a = 0; a <= MAXF; a++) { PUSH(1, a, 0, 0); for (int b = 0; b <= MAXF; b++) PUSH(2, a, b, 0); } PUSH(0, 0, 0, 0);
  for (int n = 1; n <= 7; n++) for (int at = 0; at < n; at++) LAST(n, at);
#ifndef __CPROVER__
  for (unsigned L = 0; L <= 27; L++) for (int r = 0; r < 60; r++) {
    NM("map level %u #%d", L, r); VP_RUN(nm, { u_map(L); }); NM("alloc level %u #%d", L, r); VP_RUN(nm, { u_alloc(L); }); NM("free level %u #%d", L, r); VP_RUN(nm, { u_free_level(L); }); }
  for (int r = 0; r < 2000; r++) { NM("len #%d", r); VP_RUN(nm, { u_len(); }); }
#endif
}
int main(void)
{
  VP_GRID_INIT();
#ifdef VP_NATIVE_GRID
  grid();
#else
  SCEN
#endif
  VP_GRID_DONE();
  VP_REACH("page_alloc end");
  return 0;
}
