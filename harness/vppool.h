/* Contract of the page cache as the page layer may rely on it (assumed here,
 * discharged on ffdb_pagepool.c by the pagepool units):
 *  - get pins the page and yields its latest committed content;
 *  - while pinned, memory is the caller's; after the last put it is not
 *    (the stub scrambles it: any later access reads garbage);
 *  - what was changed while no holder marked the page dirty is lost;
 *  - get of a page that was never written succeeds only with CREATE and then
 *    yields 32 zero bytes followed by whatever was there;
 *  - any get may fail (returns non-zero), if the unit lets it. */
#ifndef VPPOOL_H
#define VPPOOL_H
#ifndef BS
#define BS 512
#endif
#ifndef NP
#define NP 6
#endif
#define NW (BS/4)
#define VP_POISON 0x5a5a5a5aU
#define VP_OLD(j) (0xc3c5a791U + 0x01010101U * (unsigned)(j)) /* old content: makes no sense as page fields */
#define VP_MAXP 24
static unsigned M0[NW], M1[NW], M2[NW], M3[NW], M4[NW], M5[NW], M6[NW], M7[NW], M8[NW], M9[NW], M10[NW], M11[NW], M12[NW], M13[NW], M14[NW], M15[NW], M16[NW], M17[NW], M18[NW], M19[NW], M20[NW], M21[NW], M22[NW], M23[NW];
static unsigned D0[NW], D1[NW], D2[NW], D3[NW], D4[NW], D5[NW], D6[NW], D7[NW], D8[NW], D9[NW], D10[NW], D11[NW], D12[NW], D13[NW], D14[NW], D15[NW], D16[NW], D17[NW], D18[NW], D19[NW], D20[NW], D21[NW], D22[NW], D23[NW];
static unsigned *const vp_M[VP_MAXP] = {M0,M1,M2,M3,M4,M5,M6,M7,M8,M9,M10,M11,M12,M13,M14,M15,M16,M17,M18,M19,M20,M21,M22,M23};
static unsigned *const vp_D[VP_MAXP] = {D0,D1,D2,D3,D4,D5,D6,D7,D8,D9,D10,D11,D12,D13,D14,D15,D16,D17,D18,D19,D20,D21,D22,D23};
static unsigned vp_no[VP_MAXP];       /* page number of slot i */
static int vp_used[VP_MAXP];          /* slot holds a page that exists */
static int vp_pin[VP_MAXP], vp_dirty[VP_MAXP], vp_wr[VP_MAXP]; /* pins; dirty since get; ever committed */
static int vp_nused;             /* slots handed out */
static int vp_gets, vp_puts;
static int vp_fail_get = -1;     /* the get (counted from 0) that fails, -1: none */
static int vp_get_failed;
static int vp_deleted[VP_MAXP];
static unsigned vp_want_no;      /* the page last asked for */

static void vp_empty(int k, unsigned no); static int vp_is_empty(int k);
static unsigned vp_hole_lo, vp_hole_hi; /* pages behind the end of the file, which read as empty pages */
static int vp_cut;               /* no page may be asked for here */
static int vp_one;               /* the only page there is is the one in slot 0 */
static int vp_slot(unsigned no)
{ if (vp_one) { VP_ASSERT(vp_no[0] == no, "[C05] no other page is touched"); return 0; }
  for (int i = 0; i < NP; i++) if (vp_used[i] && vp_no[i] == no) return i; return -1; }
static int vp_slot_of(const void *mem)
{ if (vp_one) { VP_ASSERT(mem == (const void *)vp_M[0], "[C14] only a page that is held is put back"); return 0; }
  for (int i = 0; i < NP; i++) if (mem == (const void *)vp_M[i]) return i; return -1; }
/* declare an existing page; content is then written through vp_D */
static int vp_page(unsigned no)
{ int i = vp_nused++; vp_used[i] = 1; vp_no[i] = no; return i; }

int ffdb_pagepool_get_page(ffdb_pagepool_t *p, pgno_t *no, unsigned int flags, void **mem)
{
  if (vp_cut) { VP_ASSERT(0, "[C05] no other page is touched"); VP_ASSUME(0); }
  int i = vp_slot(*no);
  vp_want_no = *no;
  if (vp_gets++ == vp_fail_get) { vp_get_failed = 1; return EIO; }
  if (i < 0 && *no >= vp_hole_lo && *no < vp_hole_hi) { VP_ASSUME(vp_nused < NP); i = vp_page(*no); vp_empty(i, *no); }
  if (i < 0) {
    if (!(flags & FFDB_PAGE_CREATE)) {
      VP_ASSERT(0, "[C01,C05,C09,C15] only pages that exist are asked for without create");
      return ENOENT;
    }
    VP_ASSUME(vp_nused < NP);          /* the unit's page budget */
    i = vp_page(*no);
    for (int j = 0; j < NW; j++) vp_D[i][j] = j < 8 ? 0 : VP_OLD(j);
  }
  if (vp_pin[i] == 0) {
    for (int j = 0; j < NW; j++) vp_M[i][j] = vp_D[i][j];
    vp_dirty[i] = 0;
  }
  vp_pin[i]++;
  *mem = vp_M[i];
  return 0;
}
int ffdb_pagepool_put_page(ffdb_pagepool_t *p, void *mem, unsigned int flags)
{
  int i = vp_slot_of(mem);
  vp_puts++;
  VP_ASSERT(i >= 0 && vp_pin[i < 0 ? 0 : i] > 0, "[C14] only a page that is held is put back");
  VP_ASSUME(i >= 0 && vp_pin[i] > 0);
  if (flags & FFDB_PAGE_DIRTY) vp_dirty[i] = 1;
  if (--vp_pin[i] == 0) {
    if (vp_dirty[i]) { vp_wr[i] = 1; for (int j = 0; j < NW; j++) vp_D[i][j] = vp_M[i][j]; }
    for (int j = 0; j < NW; j++) vp_M[i][j] = VP_POISON;
  }
  return 0;
}
int ffdb_pagepool_new_page(ffdb_pagepool_t *p, pgno_t *no, unsigned int flags, void **mem)
{
  if (vp_gets++ == vp_fail_get) { vp_get_failed = 1; return EIO; }
  int i = vp_slot(*no);
  if (i < 0) { VP_ASSUME(vp_nused < NP); i = vp_page(*no); }
  VP_ASSERT(vp_pin[i] == 0, "[C05] a new page is not in use");
  for (int j = 0; j < NW; j++) { vp_M[i][j] = vp_D[i][j] = j < 8 ? 0 : VP_OLD(j); }
  vp_pin[i] = 1; vp_dirty[i] = 0;
  *mem = vp_M[i];
  return 0;
}
/* move: the held page now lives under another number; its old place is empty */
int ffdb_pagepool_change_page(ffdb_pagepool_t *p, void *mem, pgno_t newno)
{
  int i = vp_slot_of(mem);
  VP_ASSERT(i >= 0 && vp_pin[i < 0 ? 0 : i] == 1, "[C14,C15] only a page held once is moved");
  VP_ASSUME(i >= 0 && vp_pin[i] == 1);
  int k = vp_slot(newno); unsigned old = vp_no[i];
  if (k >= 0 && k != i) VP_ASSERT(vp_pin[k] == 0 && vp_is_empty(k), "[C15] no page is moved over one that holds something");
  if (k < 0) { VP_ASSUME(vp_nused < NP); k = vp_page(old); }
  vp_no[i] = newno;
  if (k != i) { /* the old place now reads as an empty page */
    vp_no[k] = old;
    vp_empty(k, old);
  }
  vp_pin[i] = 0; vp_wr[i] = 1;
  for (int j = 0; j < NW; j++) { vp_D[i][j] = vp_M[i][j]; vp_M[i][j] = VP_POISON; }
  return 0;
}
int ffdb_pagepool_delete(ffdb_pagepool_t *p, void *mem)
{
  int i = vp_slot_of(mem);
  VP_ASSERT(i >= 0 && vp_pin[i < 0 ? 0 : i] == 1, "[C14] only a page held once is deleted");
  VP_ASSUME(i >= 0 && vp_pin[i] == 1);
  vp_pin[i] = 0; vp_deleted[i] = 1;
  for (int j = 0; j < NW; j++) vp_M[i][j] = VP_POISON;
  return 0;
}
#define VP_NO_PINS(msg) do { for (int vpi = 0; vpi < NP; vpi++) VP_ASSERT(vp_pin[vpi] == 0, msg); } while (0)
#endif
