/* Unit huge: insert, replace and lookup of data beyond 4 GiB, on the compiled page layer
 * over the page cache contract. Sparse memory (mostly zero pages, a mark in every MiB)
 * keeps it small. Executions only: no verifier can unroll this. */
#define _GNU_SOURCE
#include "vp.h"
#include <sys/mman.h>
#include "ffdb_db.h"
#include "ffdb_pagepool.h"
#ifndef BS
#define BS (1u << 20)
#endif
static void h_exit(int c) { VP_ASSERT(0, "[C01,C03,C16] the process is not ended on a sound database"); _Exit(92); }
#define REG (0x260000000UL)
static unsigned char *region(size_t n) { unsigned char *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) vp_skip("address space", __FILE__, __LINE__); return p; }
/* copy, but leave a block alone that is equal already */
static void *sp_copy(void *d, const void *s, size_t n)
{
  unsigned char *a = d; const unsigned char *b = s;
  if (n < 65536 || (a < b + n && b < a + n)) return memmove(d, s, n);
  while (n) { size_t k = 4096 - ((size_t)a & 4095); if (k > n) k = n; if (memcmp(a, b, k)) memcpy(a, b, k); a += k; b += k; n -= k; }
  return d;
}
static int live; static unsigned char *live_p; static size_t live_n;
static void *h_malloc(size_t n) { if (n < (1u << 21)) return malloc(n); live++; live_n = n; live_p = region((n + 8191) & ~4095UL); mprotect(live_p + ((n + 4095) & ~4095UL), 4096, PROT_NONE); return live_p; }
static void h_free(void *p) { if (p && p == live_p) { live--; munmap(live_p, (live_n + 8191) & ~4095UL); live_p = 0; } else free(p); }
#define exit(c) h_exit(c)
#define abort() h_exit(134)
#define memcpy(d, s, n) sp_copy(d, s, n)
#define memmove(d, s, n) sp_copy(d, s, n)
#define malloc(n) h_malloc(n)
#define free(p) h_free(p)
#include "ffdb_page.c"
#undef exit
#undef abort
#undef memcpy
#undef memmove
#undef malloc
#undef free
/* ---- contracts below ---- */
static const unsigned char *c_from; static long c_n;
#define TOK(n) (0x13570000u + (unsigned)(n) * 2654435761u + (unsigned)((unsigned long)(n) >> 32))
unsigned int __ffdb_crc32_checksum(unsigned int crc, const unsigned char *buf, long len) { if (crc == 0) { c_from = buf; c_n = 0; } c_n += len; return TOK(c_n); }
unsigned int __ffdb_log2(unsigned int num) { unsigned i, l = 1; for (i = 0; l < num && i < 32; l <<= 1, i++) ; return i; }
unsigned int _ffdb_call_hash(ffdb_htab_t *h, const void *k, unsigned int n) { return 0; }
#define NM 8
#define MAXNO (1u << 13)
static unsigned char *M[NM], *store; static unsigned mno[NM]; static int pin[NM], dirty[NM]; static char *exists;
static int pins(void) { int n = 0; for (int i = 0; i < NM; i++) n += pin[i]; return n; }
static int slot(unsigned no) { for (int i = 0; i < NM; i++) if (pin[i] && mno[i] == no) return i; return -1; }
int ffdb_pagepool_get_page(ffdb_pagepool_t *p, pgno_t *no, unsigned int flags, void **mem)
{
  int i = slot(*no);
  VP_ASSERT(*no < MAXNO, "[C01,C05] pages are taken in order");
  if (i < 0) {
    for (i = 0; i < NM && pin[i]; i++) ;
    VP_ASSERT(i < NM, "[C14] pages are released as they are done with");
    if (!exists[*no]) { VP_ASSERT(flags & FFDB_PAGE_CREATE, "[C01,C05] only pages that exist are asked for without create"); if (!(flags & FFDB_PAGE_CREATE)) return ENOENT; exists[*no] = 1; memset(store + (size_t)*no * BS, 0, 32); }
    mno[i] = *no; sp_copy(M[i], store + (size_t)*no * BS, BS); dirty[i] = 0;
  }
  pin[i]++; *mem = M[i]; return 0;
}
int ffdb_pagepool_put_page(ffdb_pagepool_t *p, void *mem, unsigned int flags)
{
  int i; for (i = 0; i < NM && M[i] != mem; i++) ;
  VP_ASSERT(i < NM && pin[i] > 0, "[C14] only a page that is held is put back"); if (i == NM || !pin[i]) return 0;
  if (flags & FFDB_PAGE_DIRTY) dirty[i] = 1;
  if (--pin[i] == 0 && dirty[i]) sp_copy(store + (size_t)mno[i] * BS, M[i], BS);
  return 0;
}
int ffdb_pagepool_new_page(ffdb_pagepool_t *p, pgno_t *no, unsigned int flags, void **mem) { exists[*no] = 0; return ffdb_pagepool_get_page(p, no, FFDB_PAGE_CREATE, mem); }
int ffdb_pagepool_change_page(ffdb_pagepool_t *p, void *mem, pgno_t n) { VP_ASSERT(0, "[C01] no page is moved"); return 0; }
int ffdb_pagepool_delete(ffdb_pagepool_t *p, void *mem) { VP_ASSERT(0, "[C01] no page is deleted"); return 0; }
/* ---- scenarios ---- */
static ffdb_htab_t H; static unsigned char *src, *out;
#define KPG 40
#define DPG 51
static void *take(unsigned no) { pgno_t p = no; void *m = 0; ffdb_pagepool_get_page(0, &p, 0, &m); return m; }
static void fill(unsigned char *v, long n) { for (long o = 0; o < n; o += 1 << 20) { long x = o + vp_u32() % (1 << 20); if (x < n) v[x] = 1 + vp_u32() % 255; } if (n) { v[0] = 7; v[n - 1] = 9; } }
static void lookup(unsigned idx, const unsigned char *v, long n, int mode)
{
  FFDB_DBT key, o; ffdb_hent_t it; memset(&it, 0, sizeof it); key.data = "k"; key.size = 1;
  if (mode == 0) { o.data = 0; o.size = 0; } else { madvise(out, REG, MADV_DONTNEED); o.data = out; o.size = n + (mode == 2 ? 100 : 0); if (n == 0) { o.data = 0; o.size = 0; } }
  it.pagep = take(KPG); it.pgno = KPG; it.pgndx = idx; c_n = -1;
  int st = ffdb_get_item(&H, &key, &o, &it, 1);
  VP_ASSERT(st == 0, "[C01,C03] lookup of a stored pair succeeds"); if (st) return;
  VP_ASSERT(o.size == n, "[C01,C03] lookup reports the stored size");
  VP_ASSERT(c_n == n && (n == 0 || c_from == o.data), "[C07] the whole datum is checksummed on lookup");
  for (long i = 0; i < n; ) { long k = n - i > (1 << 20) ? 1 << 20 : n - i; VP_ASSERT(!memcmp((char *)o.data + i, v + i, k), "[C01,C03] lookup returns the stored bytes"); i += k; }
  if (mode == 0 && o.data) h_free(o.data);
  VP_ASSERT(pins() == 0, "[C14] lookup releases every page");
}
static int add(unsigned idx, unsigned char *v, long n, int replace)
{
  FFDB_DBT key, val; ffdb_hent_t it; memset(&it, 0, sizeof it);
  char kb[8] = "abcdefg"; kb[0] += idx; key.data = kb; key.size = 7; val.data = v; val.size = n;
  it.pagep = take(KPG); it.pgno = KPG; it.pgndx = idx; it.data_chksum = TOK(n);
  int st = ffdb_add_pair(&H, &key, &val, &it, replace);
  VP_ASSERT(pins() == 0, "[C14] insert releases every page, also when it fails");
  return st;
}
static void too_small(unsigned idx, long n)
{
  FFDB_DBT key, o; ffdb_hent_t it; memset(&it, 0, sizeof it); key.data = "k"; key.size = 1; static unsigned char tiny[64]; memset(tiny, 3, sizeof tiny);
  o.data = tiny; o.size = (n & 0xffffffffL) < 60 ? (n & 0xffffffffL) + 1 : 60; if (o.size >= n) o.size = n - 1;
  it.pagep = take(KPG); it.pgno = KPG; it.pgndx = idx;
  int st = ffdb_get_item(&H, &key, &o, &it, 1);
  VP_ASSERT(st != 0, "[C16] a result buffer that is too small is refused");
  for (int i = 0; i < 64; i++) VP_ASSERT(tiny[i] == 3, "[C16] a buffer that is too small is not written");
}
static void huge(long before, long n, long r1)
{
  static unsigned char sm[200]; for (int i = 0; i < 200; i++) sm[i] = 1 + i;
  src = region(REG); out = region(REG); store = region((size_t)MAXNO * BS); exists = (char *)region(MAXNO);
  for (int i = 0; i < NM; i++) M[i] = region(BS);
  memset(&H, 0, sizeof H);
  H.hdr.bsize = BS; H.hdr.version = 6; H.data_valid_flag = DATA_VALID_6; H.data_invalid_flag = DATA_INVALID_6;
  H.hdr.ovfl_point = 3; H.hdr.spares[4] = 52; H.curr_dpage = DPG; H.hdr.free_pages[3] = INVALID_PGNO;
  unsigned char *k = store + (size_t)KPG * BS, *d = store + (size_t)DPG * BS; exists[KPG] = exists[DPG] = 1;
  CURR_PGNO(k) = KPG; PREV_PGNO(k) = NEXT_PGNO(k) = INVALID_PGNO; PAGE_SIGN(k) = FFDB_PAGE_MAGIC; TYPE(k) = HASH_BUCKET_PAGE; NUM_ENT(k) = 0; OFFSET(k) = BS - 1;
  CURR_PGNO(d) = DPG; PREV_PGNO(d) = NEXT_PGNO(d) = INVALID_PGNO; PAGE_SIGN(d) = FFDB_PAGE_MAGIC; TYPE(d) = HASH_DATA_PAGE; NUM_ENT(d) = 0; HIGHEST_FREE(d) = BIG_PAGE_OVERHEAD; FIRST_DATA_POS(d) = BIG_PAGE_OVERHEAD;
  fill(src, n);
  VP_ASSERT(add(0, sm, before, 0) == 0, "[C01] insert of a pair that fits succeeds");
  VP_ASSERT(add(1, src, n, 0) == 0, "[C01] insert of a pair that fits succeeds");
  VP_ASSERT(add(2, sm, 150, 0) == 0, "[C01] insert of a pair that fits succeeds");
  lookup(1, src, n, n % 3); lookup(0, sm, before, 2); lookup(2, sm, 150, 1); too_small(1, n);
  /* a longer one, also one whose length looks short in 32 bits, is refused */
  VP_ASSERT(add(0, src, (1L << 32) + before / 2, 1) != 0, "[C03] replacing by a longer datum is refused");
  VP_ASSERT(add(1, src, n + 1, 1) != 0, "[C03] replacing by a longer datum is refused");
  VP_ASSERT(add(1, src, n + (1L << 32), 1) != 0, "[C03] replacing by a longer datum is refused");
  lookup(0, sm, before, 1); if (n < (1L << 31)) lookup(1, src, n, 0);
  if (r1 >= 0) {
    if (r1) src[r1 - 1] = 77;
    src[0] = 78;
    VP_ASSERT(add(1, src, r1, 1) == 0, "[C03] replacing by a datum that is not longer succeeds");
    lookup(1, src, r1, 1); lookup(0, sm, before, 2); lookup(2, sm, 150, 0);
    VP_ASSERT(add(1, src, r1 + 1, 1) != 0, "[C03] replacing by a longer datum is refused");
  }
}
#define SC(b, n, r) do { char nm[96]; snprintf(nm, sizeof nm, "page %u, datum of %ld bytes after one of %ld, replaced by %ld", BS, (long)(n), (long)(b), (long)(r)); VP_RUN(nm, huge(b, n, r)); } while (0)
int main(void)
{
  vp_grid_init();
  const long G4 = 1L << 32, G2 = 1L << 31;
  SC(100, G4 + 5, 90); SC(33, G4 + 40, G4 + 3); SC(0, G4, G4 - 1); SC(7, G4 - 1, 3); SC(100, G2 + 3, 11); SC(4, G2 - 1, 0); SC(60, G4 + G2, G4 + 1); SC(199, G4 + G4 / 4 + 17, G4 + 50);
  vp_grid_done();
  return 0;
}
