/* Common part of the units that take filehash/ffdb_page.c: the real file is
 * included below, byte for byte, from the tree under check. */
#ifndef PG_H
#define PG_H
#include "vp.h"
#include "ffdb_db.h"
#include "ffdb_pagepool.h"
#include "vppool.h"
#include "vpmem.h"
static void vp_exit(int c);
#define exit(c) vp_exit(c)
#define abort() vp_exit(134)
#ifdef VP_OWN_MALLOC
static void *vp_malloc(size_t n);
static void vp_free(void *p);
#define malloc(n) vp_malloc(n)
#define free(p) vp_free(p)
#endif
#ifdef __CPROVER__
#pragma CPROVER check push
#pragma CPROVER check enable "pointer"
#pragma CPROVER check enable "bounds"
#endif
#include "ffdb_page.c"
#ifdef __CPROVER__
#pragma CPROVER check pop
#endif
#undef exit
#undef abort
static int vp_exit_ok, vp_exited;   /* the scenario lets the code end the process */
static void vp_exit(int c) { vp_exited = 1; if (!vp_exit_ok) VP_ASSERT(0, "[C01,C03,C04,C09,C10,C11,C12,C15,C16] the process is not ended on a sound database"); VP_ASSUME(0); }
#ifdef VP_OWN_MALLOC
#undef malloc
#undef free
static unsigned char vp_heap[VP_OWN_MALLOC];
static int vp_heap_live, vp_malloc_fail, vp_malloc_n; static size_t vp_heap_req;
static void *vp_malloc(size_t n)
{ vp_malloc_n++; if (vp_malloc_fail) return 0;
  VP_ASSERT(!vp_heap_live, "[C14] one result buffer per lookup"); VP_ASSUME(n <= VP_OWN_MALLOC);
  vp_heap_live = 1; vp_heap_req = n; return vp_heap; }
static void vp_free(void *p)
{ VP_ASSERT(p == (void *)vp_heap && vp_heap_live, "[C16] only a live buffer is freed"); vp_heap_live = 0; }
#endif

/* contract of the checksum: a function of the bytes covered (units fun_crc, fun_crc_det).
 * The stub returns a token that depends on how many bytes a chain of calls covered
 * and records the range, so that "what is covered" is an obligation here. */
static unsigned vp_crc_key = 0x1234567;
static const unsigned char *vp_crc_from, *vp_crc_to; static long vp_crc_n; static unsigned vp_crc_calls;
#define VP_CRC_OF(n) (vp_crc_key ^ (unsigned)(n))
#ifndef VP_OWN_CRC
unsigned int __ffdb_crc32_checksum(unsigned int crc, const unsigned char *buf, long len)
{
  if (vp_crc_calls == 0 || crc == 0) { vp_crc_from = buf; vp_crc_n = 0; }
  if (crc != 0 && crc != VP_CRC_OF(vp_crc_n)) { vp_crc_n = -1000000; } /* not a continuation */
  vp_crc_calls++;
  vp_crc_n += len; vp_crc_to = buf + len;
  return VP_CRC_OF(vp_crc_n);
}
#endif
/* contract of __ffdb_log2 (unit fun_log2): smallest i with 2^i >= n */
unsigned int __ffdb_log2(unsigned int num)
{ unsigned i, l = 1; for (i = 0; l < num && i < 32; l <<= 1, i++) ; return i; }

static ffdb_htab_t H;
static void *vp_take(unsigned no)
{ pgno_t p = no; void *m = 0; int r = ffdb_pagepool_get_page(0, &p, 0, &m); VP_ASSUME(r == 0); return m; }
static void vp_reset(void)
{
  for (int i = 0; i < VP_MAXP; i++) { vp_used[i] = vp_pin[i] = vp_dirty[i] = vp_wr[i] = vp_deleted[i] = 0; vp_no[i] = 0; }
  vp_nused = 0; vp_gets = vp_puts = 0; vp_fail_get = -1; vp_get_failed = 0; vp_crc_calls = 0;
}
/* a page that was never written, or whose content moved away, as reading it yields it */
static void vp_empty(int k, unsigned no)
{
  for (int j = 0; j < NW; j++) vp_D[k][j] = 0;
  CURR_PGNO(vp_D[k]) = no; PREV_PGNO(vp_D[k]) = NEXT_PGNO(vp_D[k]) = INVALID_PGNO; TYPE(vp_D[k]) = HASH_DELETED_PAGE; PAGE_SIGN(vp_D[k]) = FFDB_PAGE_MAGIC;
}
static int vp_is_empty(int k) { return TYPE(vp_D[k]) == HASH_DELETED_PAGE || TYPE(vp_D[k]) == 0; }
/* whatever a page held before: arbitrary bytes that make no sense as page fields */
#define VP_RAND_PAGE(i) do { for (int vpj = 0; vpj < NW; vpj++) vp_D[i][vpj] = 0xc3c5a791U + 0x01010101U * (unsigned)vpj; } while (0)
static void vp_hdr(int i, unsigned type, unsigned prev, unsigned next, unsigned num, unsigned off)
{
  unsigned char *p = (unsigned char *)vp_D[i];
  CURR_PGNO(p) = vp_no[i]; PREV_PGNO(p) = prev; NEXT_PGNO(p) = next; PAGE_SIGN(p) = FFDB_PAGE_MAGIC;
  NUM_ENT(p) = num; TYPE(p) = type; OFFSET(p) = off;
}
/* sizes and offsets as the file's version stores them */
static long vp_hlen(const ffdb_data_header_t *h) { return H.hdr.version > 5 ? (long)REAL_DATA_LEN(h->len, h->status) : (long)h->len; }
static int vp_hvalid(const ffdb_data_header_t *h) { return (H.hdr.version > 5 ? GET_STATUS(h->status) : h->status) == (unsigned)H.data_valid_flag; }
static long vp_plen(const ffdb_datap_t *d) { return H.hdr.version > 5 ? (long)REAL_DATA_LEN(d->len, d->offset) : (long)d->len; }
static unsigned vp_poff(const ffdb_datap_t *d) { return H.hdr.version > 5 ? GET_PGOFFSET(d->offset) : d->offset; }
/* A data page is well formed: its items lie one after another, in bounds, aligned;
 * the last one's end is the free position (or the page is full). */
static int vp_wf_data(int i)
{
  unsigned char *p = (unsigned char *)vp_D[i];
  unsigned pos = FIRST_DATA_POS(p), n = NUM_ENT(p);
  if (CURR_PGNO(p) != vp_no[i] || TYPE(p) != HASH_DATA_PAGE || PAGE_SIGN(p) != FFDB_PAGE_MAGIC) return 0;
  for (unsigned k = 0; k < n; k++) {
    if (pos < BIG_PAGE_OVERHEAD || pos % 4 || pos + BIG_DATA_OVERHEAD > BS) return 0;
    ffdb_data_header_t *h = BIG_DATA_HEADER(p, pos);
    long len = vp_hlen(h);
    if (!vp_hvalid(h)) return 0;
    if (h->next) {
      if (h->next % 4 || h->next < pos + BIG_DATA_OVERHEAD + len || h->next + BIG_DATA_OVERHEAD > BS) return 0;
    } else if (k + 1 != n) return 0;
    pos = h->next;
  }
  if (HIGHEST_FREE(p) != pos) return 0;
  return pos == 0 || (pos >= BIG_PAGE_OVERHEAD && pos % 4 == 0 && pos + BIG_DATA_OVERHEAD <= BS);
}
/* A key page is well formed: keys and data pointers lie inside it, disjoint, below
 * the entry table, downwards from the end. */
static int vp_wf_key(int i)
{
  unsigned char *p = (unsigned char *)vp_D[i];
  unsigned n = NUM_ENT(p), top = BS, low = PAGE_OVERHEAD + n * PAIR_OVERHEAD;
  if (CURR_PGNO(p) != vp_no[i] || TYPE(p) != HASH_BUCKET_PAGE || PAGE_SIGN(p) != FFDB_PAGE_MAGIC) return 0;
  for (unsigned k = 0; k < n; k++) {
    unsigned ko = KEY_OFF(p, k), kl = KEY_LEN(p, k), dof = DATAP_OFF(p, k);
    if (kl > BS || ko > top || ko + kl > top || ko < low) return 0;
    if (dof % 4 || dof + sizeof(ffdb_datap_t) > ko || dof < low || dof > BS) return 0;
    top = dof;
  }
  return OFFSET(p) + 1 == top;
}
#endif
