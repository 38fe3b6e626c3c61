/* Common part of the units that take filehash/ffdb_hash.c. Everything below it is
 * replaced by its contract: ffdb_page.c (discharged by the page_* units), the page
 * cache (pool_* units), the checksum and the hash (fun_* units), and the operating
 * system (assumed: any call may fail or come up short). */
#ifndef HA_H
#define HA_H
#include "vp.h"
#include "ffdb_db.h"
#include "ffdb_pagepool.h"
#include "ffdb_page.h"
#include "ffdb_hash.h"
#include "ffdb_hash_func.h"

/* ---- operating system ---- */
#define FILESZ 512
static unsigned char vp_file[FILESZ]; static long vp_pos;
static int vp_exists, vp_open_fails, vp_read_short, vp_write_short, vp_stat_fails;
static int vp_oflags, vp_opened, vp_closed, vp_writes, vp_reads, vp_blksize = 4096;
static unsigned vp_wfrom, vp_wto;
static int vp_stat(const char *f, struct stat *b)
{ if (!vp_exists) { errno = ENOENT; return -1; } if (vp_stat_fails) { errno = EACCES; return -1; }
  b->st_blksize = vp_blksize; b->st_size = FILESZ; return 0; }
static int vp_fstat(int fd, struct stat *b) { b->st_blksize = vp_blksize; b->st_size = FILESZ; return 0; }
static int vp_open(const char *f, int fl, int m)
{ vp_oflags = fl; if (vp_open_fails) { errno = EACCES; return -1; } vp_opened++; vp_exists = 1; return 7; }
static int vp_close(int fd) { vp_closed++; return 0; }
static long vp_lseek(int fd, long o, int w) { if (w == SEEK_SET) vp_pos = o; else if (w == SEEK_CUR) vp_pos += o; else vp_pos = FILESZ + o; return vp_pos; }
static long vp_read(int fd, void *b, size_t n)
{ unsigned char *d = b; vp_reads++; if (vp_read_short) return (long)n - 1; for (size_t i = 0; i < n; i++) d[i] = vp_file[vp_pos + i]; vp_pos += n; return n; }
static long vp_write(int fd, const void *b, size_t n)
{ const unsigned char *s = b; vp_writes++; if (vp_write_short) { if (vp_write_short == 2) { errno = EIO; return -1; } return (long)n - 1; }
  for (size_t i = 0; i < n; i++) vp_file[vp_pos + i] = s[i]; vp_wfrom = vp_pos; vp_pos += n; vp_wto = vp_pos; return n; }
static long vp_pread(int fd, void *b, size_t n, long o) { vp_pos = o; return vp_read(fd, b, n); }
static long vp_pwrite(int fd, const void *b, size_t n, long o) { vp_pos = o; return vp_write(fd, b, n); }
static int vp_ftruncate(int fd, long l) { vp_writes++; return 0; }
static int vp_fcntl(int fd, int c, int a) { return 0; }
/* ---- locks ---- */
static int vp_held; static void *vp_lockp;
static int vp_lock(pthread_mutex_t *m)
{ VP_ASSERT(!vp_held, "[C14] a lock is not taken twice"); vp_held = 1; vp_lockp = m; return 0; }
static int vp_unlock(pthread_mutex_t *m)
{ VP_ASSERT(vp_held && vp_lockp == (void *)m, "[C14] only the lock that is held is released"); vp_held = 0; return 0; }
static int vp_lockinit(pthread_mutex_t *m) { return 0; }
static int vp_lockfini(pthread_mutex_t *m) { vp_held = 0; return 0; }
static int vp_exited;
#ifdef __CPROVER__
static void vp_exit(int c) { vp_exited = 1; VP_ASSUME(0); }
#else
static void vp_exit(int c) { printf("VP-EXIT %d\n", c); _Exit(0); }
#endif
#define stat(a,b) vp_stat(a,b)
#define fstat(a,b) vp_fstat(a,b)
#define open(a,b,c) vp_open(a,b,c)
#define read vp_read
#define write vp_write
#define pread vp_pread
#define pwrite vp_pwrite
#define lseek vp_lseek
#define ftruncate vp_ftruncate
#define fcntl(a,b,c) vp_fcntl(a,b,c)
#define exit(c) vp_exit(c)
#define abort() vp_exit(134)
#define pthread_mutex_lock vp_lock
#define pthread_mutex_unlock vp_unlock
#define pthread_mutex_init(m,a) vp_lockinit(m)
#define pthread_mutex_destroy(m) vp_lockfini(m)
/* close() of the descriptor; the database's own close is a struct member */
#define close(x) vp_close(x)
#ifdef __CPROVER__
#define fprintf(...) ((void)0)
#pragma CPROVER check push
#pragma CPROVER check enable "pointer"
#pragma CPROVER check enable "bounds"
#endif
#include "ffdb_hash.c"
#ifdef __CPROVER__
#pragma CPROVER check pop
#undef fprintf
#endif
#undef stat
#undef fstat
#undef open
#undef read
#undef write
#undef pread
#undef pwrite
#undef lseek
#undef ftruncate
#undef fcntl
#undef exit
#undef abort
#undef close

/* ---- contracts of the layers below ---- */
static unsigned KPW[16]; static int vp_pins; /* the key page found by find_item: header words only */
static int vp_ro;                            /* the handle under check is read-only */
static unsigned vp_hashval;                  /* ghost: hash of the key under check */
static const void *vp_hkey; static long vp_hlen; static int vp_hcheck;
static unsigned vp_hash(const void *k, unsigned n)
{ if (vp_hcheck) VP_ASSERT((k == vp_hkey && (long)n == vp_hlen) || n == sizeof(CHARKEY), "[C02] the caller's whole key is hashed"); return vp_hashval; }
static int vp_cmp(const FFDB_DBT *a, const FFDB_DBT *b) { return 1; }
unsigned int (*__ffdb_default_hash)(const void *, unsigned int) = vp_hash;
int (*__ffdb_default_cmp)(const FFDB_DBT *, const FFDB_DBT *) = vp_cmp;
unsigned int __ffdb_log2(unsigned int num)
{
#define VP_L(i) if (num <= (1u << i)) return i;
  VP_L(0) VP_L(1) VP_L(2) VP_L(3) VP_L(4) VP_L(5) VP_L(6) VP_L(7) VP_L(8) VP_L(9) VP_L(10) VP_L(11) VP_L(12) VP_L(13) VP_L(14) VP_L(15)
  VP_L(16) VP_L(17) VP_L(18) VP_L(19) VP_L(20) VP_L(21) VP_L(22) VP_L(23) VP_L(24) VP_L(25) VP_L(26) VP_L(27) VP_L(28) VP_L(29) VP_L(30) VP_L(31)
  return 32;
}
static unsigned vp_crcval; static const void *vp_crcp; static long vp_crcn; static int vp_crc_init_done, vp_crc_calls;
void __ffdb_crc32_init(void) { vp_crc_init_done = 1; }
unsigned int __ffdb_crc32_checksum(unsigned int c, const unsigned char *b, long n)
{ VP_ASSERT(vp_crc_init_done, "[C07] the checksum is set up before it is used"); vp_crc_calls++; vp_crcp = b; vp_crcn = n; return c == 0 ? vp_crcval : ~vp_crcval; }

static ffdb_htab_t *vp_h;   /* the handle under check */
/* results chosen by the environment */
static int r_find, r_status, r_get, r_add, r_ovfl, r_new, r_split, r_sync, r_close_re, r_open_re, r_cfg, r_page_fail = -1, r_create, r_openfd;
static int n_find, n_get, n_add, n_ovfl, n_new, n_split, n_sync, n_poolclose, n_close_re, n_open_re, n_reduce, n_cfgset, n_cfgget, n_rel, n_getpage, n_putdirty, n_last, n_curs;
static int a_replace, vp_sync_before_close, vp_ro_dirty;
static unsigned a_new, a_split_old, a_split_new;
static void (*vp_on_new)(unsigned), (*vp_on_split)(unsigned, unsigned);

int ffdb_find_item(ffdb_htab_t *h, FFDB_DBT *k, FFDB_DBT *v, ffdb_hent_t *it)
{
  n_find++;
  VP_ASSERT(it->bucket <= h->hdr.max_bucket, "[C02,C04] only existing buckets are searched");
  VP_ASSERT(it->bucket == _ffdb_call_hash(h, k->data, (unsigned)k->size), "[C02] the key's own bucket is searched");
  if (r_find) { it->status = ITEM_ERROR; it->pagep = 0; return -1; }
  it->pagep = KPW; it->pgno = 17; it->pgndx = 3; it->status = r_status; vp_pins++;
  return 0;
}
#define NEEDPIN(it) VP_ASSERT(vp_pins == 1 && (it)->pagep == (void *)KPW, "[C14] the page found is still held")
int ffdb_release_item(ffdb_htab_t *h, ffdb_hent_t *it) { NEEDPIN(it); n_rel++; vp_pins--; it->pagep = 0; return 0; }
int ffdb_get_item(ffdb_htab_t *h, const FFDB_DBT *k, FFDB_DBT *v, ffdb_hent_t *it, int fp)
{ n_get++; NEEDPIN(it); VP_ASSERT(it->status == ITEM_OK, "[C02] only an item that was found is read"); if (fp) vp_pins--; return r_get ? -1 : 0; }
int ffdb_add_pair(ffdb_htab_t *h, FFDB_DBT *k, const FFDB_DBT *v, ffdb_hent_t *it, int rep)
{
  n_add++; a_replace = rep; NEEDPIN(it); vp_pins--;
  VP_ASSERT(vp_held, "[C14] the table is locked while it is changed");
  VP_ASSERT(!vp_ro, "[C13] a read-only database is not changed");
  VP_ASSERT(rep ? it->status == ITEM_OK : it->status == ITEM_NO_MORE, "[C03] a key is added only if absent and replaced only if present");
  if (!rep) VP_ASSERT(PAIRFITS(KPW, k, v), "[C01,C16] a pair is added to a page only if it fits");
  return r_add ? -1 : 0;
}
int ffdb_add_ovflpage(ffdb_htab_t *h, FFDB_DBT *k, const FFDB_DBT *v, ffdb_hent_t *it)
{
  n_ovfl++; NEEDPIN(it); vp_pins--;
  VP_ASSERT(vp_held, "[C14] the table is locked while it is changed");
  VP_ASSERT(!vp_ro, "[C13] a read-only database is not changed");
  VP_ASSERT(it->status == ITEM_NO_MORE, "[C03] a key is added only if absent");
  VP_ASSERT(PAIRSIZE(k, v) <= (size_t)h->hdr.bsize - PAGE_OVERHEAD, "[C16] a key that fits no page is refused");
  return r_ovfl ? -1 : 0;
}
int ffdb_new_page(ffdb_htab_t *h, pgno_t a, unsigned t)
{ n_new++; a_new = a; VP_ASSERT(!vp_ro, "[C13] a read-only database is not changed"); if (vp_on_new) vp_on_new(a); return r_new ? EIO : 0; }
int ffdb_split_bucket(ffdb_htab_t *h, unsigned o, unsigned n, int d)
{ n_split++; a_split_old = o; a_split_new = n; VP_ASSERT(vp_held, "[C14] the table is locked while it is changed"); if (vp_on_split) vp_on_split(o, n); return r_split ? -1 : 0; }
static unsigned vp_ipage[8];
void *ffdb_get_page(ffdb_htab_t *h, pgno_t a, unsigned t, unsigned f, pgno_t *p)
{ *p = a; if (n_getpage++ == r_page_fail) return 0; vp_pins++; return vp_ipage; }
int ffdb_put_page(ffdb_htab_t *h, void *m, unsigned t, int dirty)
{ VP_ASSERT(vp_pins > 0, "[C14] only a page that is held is put back"); vp_pins--;
  if (dirty) { n_putdirty++; VP_ASSERT(!vp_ro, "[C13] a read-only database is not changed"); } return 0; }
int ffdb_rearrage_pages_on_close(ffdb_htab_t *h)
{ n_close_re++; VP_ASSERT(!vp_ro, "[C13] a read-only database is not changed");
  VP_ASSERT(n_sync == 0 && n_poolclose == 0, "[C15] pages are moved before they are written"); if (!r_close_re) h->hdr.num_moved_pages = 3; return r_close_re ? -1 : 0; }
int ffdb_rearrage_pages_on_open(ffdb_htab_t *h) { n_open_re++; VP_ASSERT(!vp_ro, "[C13] a read-only database is not changed"); return r_open_re ? -1 : 0; }
void ffdb_reduce_filesize(ffdb_htab_t *h)
{ n_reduce++; VP_ASSERT(n_sync > 0, "[C15] the file is cut only after the pages were written"); VP_ASSERT(!vp_closed, "[C15] the file is cut while it is open"); }
static unsigned vp_last_arg;
pgno_t ffdb_last_data_page(ffdb_htab_t *h, pgno_t s) { n_last++; vp_last_arg = s; return s; }
int ffdb_set_configs(ffdb_htab_t *h, ffdb_all_config_info_t *c) { n_cfgset++; VP_ASSERT(!vp_ro, "[C13] a read-only database is not changed"); return r_cfg; }
int ffdb_get_configs(ffdb_htab_t *h, ffdb_all_config_info_t *c) { n_cfgget++; return r_cfg; }
int ffdb_set_config_info(ffdb_htab_t *h, ffdb_config_info_t *c) { n_cfgset++; VP_ASSERT(!vp_ro, "[C13] a read-only database is not changed"); return r_cfg; }
int ffdb_get_config_info(ffdb_htab_t *h, unsigned n, ffdb_config_info_t *c) { n_cfgget++; return r_cfg; }
int ffdb_set_uinfo(ffdb_htab_t *h, unsigned char *d, unsigned l) { n_cfgset++; VP_ASSERT(!vp_ro, "[C13] a read-only database is not changed"); return r_cfg; }
int ffdb_get_uinfo(ffdb_htab_t *h, unsigned char *d, unsigned *l) { n_cfgget++; return r_cfg; }
static unsigned a_cflags; static void *a_cdata; static int r_curs;
int ffdb_cursor_find_by_key(ffdb_htab_t *h, ffdb_crs_t *c, FFDB_DBT *k, FFDB_DBT *d, unsigned f)
{ n_curs++; a_cflags = f; a_cdata = d; VP_ASSERT(vp_held && vp_lockp == (void *)&c->lock, "[C14] a cursor is locked while it moves"); return r_curs; }
void ffdb_pgin_routine(void *a, pgno_t p, void *m) {}
void ffdb_pgout_routine(void *a, pgno_t p, void *m) {}
static char vp_pool; static unsigned vp_pool_bsize, vp_pool_cache; static int vp_pool_fd; static void *vp_cookie; static ffdb_pgiofunc_t vp_pgin, vp_pgout;
int ffdb_pagepool_create(ffdb_pagepool_t **p, unsigned f) { if (r_create) return ENOMEM; *p = (ffdb_pagepool_t *)&vp_pool; return 0; }
int ffdb_pagepool_open_fd(ffdb_pagepool_t *p, int fd, const unsigned b, const unsigned c) { vp_pool_fd = fd; vp_pool_bsize = b; vp_pool_cache = c; return r_openfd ? EIO : 0; }
void ffdb_pagepool_filter(ffdb_pagepool_t *p, ffdb_pgiofunc_t a, ffdb_pgiofunc_t b, void *c) { vp_pgin = a; vp_pgout = b; vp_cookie = c; }
int ffdb_pagepool_sync(ffdb_pagepool_t *p) { n_sync++; VP_ASSERT(n_poolclose == 0, "[C11,C16] the cache is not used after it was closed"); return r_sync ? -1 : 0; }
int ffdb_pagepool_close(ffdb_pagepool_t *p) { n_poolclose++; return 0; }

static FFDB_DB *vp_mk(int flags, int exists)
{
  vp_exists = exists;
  FFDB_DB *db = __ffdb_hash_open("x", flags, 0644, 0);
  VP_ASSUME(db != 0);
  vp_h = (ffdb_htab_t *)db->internal;
  vp_h->hash = vp_hash;
  n_getpage = n_putdirty = n_sync = n_new = n_find = vp_writes = vp_reads = n_last = n_open_re = 0;
  return db;
}
/* the masks as every table has them: 2^l-1 >= max_bucket > 2^(l-1)-1 */
static void vp_masks(ffdb_htab_t *h)
{
  unsigned l = vp_range(0, 30), mb = vp_u32();
  unsigned hm = (1u << l) - 1, lm = hm >> 1;
  VP_ASSUME(mb <= hm && (l == 0 || mb > lm));
  h->hdr.max_bucket = mb; h->hdr.high_mask = hm; h->hdr.low_mask = lm; h->hdr.ovfl_point = l;
}
static int vp_masks_ok(ffdb_htab_t *h)
{
  unsigned l = __ffdb_log2(h->hdr.max_bucket + 1);
  if (l > 31) return 0;
  return h->hdr.ovfl_point == l && h->hdr.high_mask == (1u << l) - 1 && h->hdr.low_mask == h->hdr.high_mask >> 1 && h->hdr.max_bucket <= h->hdr.high_mask;
}
#endif
