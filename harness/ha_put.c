/* Units hash_*: insert, lookup, growth, sync, close, cursors, wrappers of ffdb_hash.c,
 * over every table state, key and datum size, flag and outcome of the layers below. */
#include "ha.h"
#ifndef ROFL
#define ROFL O_RDONLY
#endif
#define VIO_NONE(msg) VP_ASSERT(n_find == 0 && n_add == 0 && n_ovfl == 0 && n_new == 0 && n_split == 0 && vp_writes == 0 && n_sync == 0 && n_putdirty == 0, msg)
static unsigned g_n, g_old_b, g_old_max; static int g_newdone, g_splitdone;
static void on_new(unsigned b)
{
  VP_ASSERT(b == g_old_max + 1 && vp_h->hdr.max_bucket == b, "[C04] the table grows by one bucket, whose page is new");
  VP_ASSERT(!g_newdone, "[C04] the new bucket's page is made once"); g_newdone = 1;
}
static void on_split(unsigned o, unsigned n)
{
  VP_ASSERT(g_newdone && !r_new, "[C04,C12] a bucket is split only when its new page is there");
  VP_ASSERT(!g_splitdone, "[C04] one split per growth"); g_splitdone = 1;
  VP_ASSERT(n == g_old_max + 1 && o <= g_old_max, "[C04] an existing bucket is split into the new one");
  VP_ASSERT(vp_masks_ok(vp_h), "[C02,C04] the table size stays consistent");
  /* for every hash value: where does it live now */
  unsigned save = vp_hashval; int hc = vp_hcheck; vp_hcheck = 0; vp_hashval = g_n;
  unsigned nb = _ffdb_call_hash(vp_h, KPW, 1);
  vp_hashval = save; vp_hcheck = hc;
  VP_ASSERT(nb <= vp_h->hdr.max_bucket, "[C02,C04] every key has an existing bucket after growth");
  if (g_old_b == o) VP_ASSERT(nb == o || nb == n, "[C04] a key of the split bucket stays or moves to the new bucket");
  else VP_ASSERT(nb == g_old_b, "[C04] a key of any other bucket stays where it is");
}
static void sym_results(void)
{
  r_find = vp_bool(); r_get = vp_bool(); r_add = vp_bool(); r_ovfl = vp_bool(); r_new = vp_bool(); r_split = vp_bool(); r_sync = vp_bool();
  r_status = vp_bool() ? ITEM_OK : ITEM_NO_MORE; vp_write_short = vp_range(0, 2);
}
static void u_put(void)
{
  int ro = vp_bool();
  FFDB_DB *db = vp_mk(ro ? ROFL : O_RDWR | O_CREAT, 0);
  vp_ro = ro; vp_crcval = vp_u32(); vp_hashval = vp_u32();
  vp_masks(vp_h); VP_ASSUME(vp_h->hdr.max_bucket < 0x3fffffff);
  unsigned sh = vp_range(9, 20); vp_h->hdr.bsize = 1 << sh;
  vp_h->hdr.version = vp_bool() ? 6 : 5; vp_h->hdr.nkeys = vp_u32();
  unsigned nk = vp_h->hdr.nkeys;
  sym_results();
  FFDB_DBT k, d; unsigned flag = vp_range(0, 2) == 0 ? 0 : (vp_bool() ? FFDB_NOOVERWRITE : vp_u32());
  static unsigned char kb[8], vb[8];
  k.data = kb; k.size = (long)vp_u32(); d.data = vb; d.size = (long)(vp_u64() & 0x3ffffffffffUL);
  VP_ASSUME(k.size > 0);
  vp_hkey = kb; vp_hlen = k.size; vp_hcheck = 1;
  /* the last page of the bucket: any well-formed fill */
  unsigned n = vp_range(0, 65535), off = vp_u32();
  VP_ASSUME(off < (1u << sh) && 28 + n * 12ul <= off + 1ul);
  NUM_ENT(KPW) = n; OFFSET(KPW) = off;
  int fits = off + 1 >= 28 + n * 12 && (unsigned long)k.size + 12 + 16 + 3 <= off + 1 - (28 + n * 12);
  int keyok = (unsigned long)k.size + 12 + 16 + 3 <= (1ul << sh) - 28;
  int dataok = d.size <= (vp_h->hdr.version == 6 ? (1l << 40) - 1 : 0xffffffffl);
  g_n = vp_u32(); g_old_max = vp_h->hdr.max_bucket;
  { unsigned s = vp_hashval; vp_hcheck = 0; vp_hashval = g_n; g_old_b = _ffdb_call_hash(vp_h, kb, 1); vp_hashval = s; vp_hcheck = 1; }
  VP_ASSERT(g_old_b <= g_old_max, "[C02] every key has an existing bucket");
  vp_on_new = on_new; vp_on_split = on_split;
  vp_crc_calls = 0; errno = 0;
  FFDB_DBT k0 = k, d0 = d;
  int st = db->put(db, &k, &d, flag);
  VP_ASSERT(!vp_held, "[C14] insert releases the lock");
  VP_ASSERT(vp_pins == 0, "[C14] insert releases the page it found");
  VP_ASSERT(k.size == k0.size && k.data == k0.data && d.size == d0.size && d.data == d0.data, "[C01] the caller's key and datum are left alone");
  int refuse = 0;
  if (!dataok) { refuse = 1; VP_ASSERT(st != 0, "[C16,C12] a datum over the limit is refused"); VIO_NONE("[C16,C03] a refused insert touches nothing"); }
  else if (!keyok) { refuse = 1; VP_ASSERT(st != 0, "[C16] a key that fits no page is refused"); VIO_NONE("[C16,C03] a refused insert touches nothing"); }
  else if (flag && flag != FFDB_NOOVERWRITE) { refuse = 1; VP_ASSERT(st != 0, "[C03] an unknown flag is refused"); VIO_NONE("[C03] a refused insert touches nothing"); }
  else if (ro) { refuse = 1; VP_ASSERT(st != 0, "[C13] insert into a read-only database is refused"); VIO_NONE("[C13] a refused insert touches nothing"); }
  unsigned grown = vp_h->hdr.nkeys - nk;
  if (refuse) { VP_ASSERT(grown == 0, "[C03] a refused insert adds no key"); VP_ASSERT(vp_h->hdr.max_bucket == g_old_max, "[C03,C04] a refused insert does not grow the table"); VP_REACH("put refused"); return; }
  if (r_find) {
    VP_ASSERT(st != 0 && st != FFDB_NOT_FOUND + 100, "[C12] an insert whose bucket cannot be read fails");
    VP_ASSERT(grown == 0 && n_add + n_ovfl == 0, "[C12,C03] an insert whose bucket cannot be read adds nothing"); VP_REACH("put find failed"); return;
  }
  if (r_status == ITEM_OK) {
    VP_ASSERT(grown == 0, "[C03] the number of keys grows only for a new key");
    VP_ASSERT(vp_h->hdr.max_bucket == g_old_max && n_new == 0, "[C04] replacing does not grow the table");
    if (flag == FFDB_NOOVERWRITE) { VP_ASSERT(st != 0, "[C03] an existing key is not overwritten when the caller forbids it"); VP_ASSERT(n_add == 0 && n_ovfl == 0, "[C03] a forbidden overwrite changes nothing"); VP_REACH("put nooverwrite"); }
    else { VP_ASSERT(n_add == 1 && a_replace && n_ovfl == 0, "[C03] an existing key is replaced"); VP_ASSERT((st == 0) == !r_add, "[C03,C12] replacing succeeds exactly when it was done"); VP_REACH("put replace"); }
    return;
  }
  if (fits) {
    VP_ASSERT(n_add == 1 && !a_replace && n_ovfl == 0, "[C01,C03] a pair that fits is added to the page found");
    VP_ASSERT((st == 0) == !r_add, "[C01,C12] insert succeeds exactly when the pair was added");
    VP_ASSERT(grown == (r_add ? 0u : 1u), "[C03] the number of keys grows by one for a new key");
    VP_REACH("put add");
  } else {
    VP_ASSERT(n_ovfl == 1 && n_add == 0, "[C01,C03] a pair that does not fit goes to an overflow page");
    VP_ASSERT(grown == (r_ovfl ? 0u : 1u), "[C03] the number of keys grows by one for a new key");
    if (r_ovfl) VP_ASSERT(st != 0 && n_new == 0, "[C01,C12] insert fails when the pair was not added");
    else {
      VP_ASSERT(st == 0 || r_new || r_split, "[C01] an insert that was done reports success");
      if (n_new && r_new) VP_ASSERT(st != 0, "[C12] a failed growth is reported");
      if (n_split && r_split) VP_ASSERT(st != 0, "[C12] a failed growth is reported");
      if (n_new) VP_ASSERT(r_new || n_split == 1, "[C04] a table that grows splits a bucket");
      if (!n_new) VP_ASSERT(vp_h->hdr.max_bucket == g_old_max && vp_h->hdr.high_mask >= g_old_max, "[C04] no growth without a new bucket page");
      if (st == 0) VP_ASSERT(vp_masks_ok(vp_h), "[C02,C04] the table size stays consistent");
      if (vp_h->hdr.ovfl_point > __ffdb_log2(g_old_max + 1)) VP_ASSERT(vp_h->curr_dpage == INVALID_PGNO, "[C05] a new level starts its own data pages");
      VP_REACH("put grow");
    }
  }
}
/* any table, any hash value: the bucket is one that exists and only depends on hash and size */
static void u_bucket(void)
{
  FFDB_DB *db = vp_mk(O_RDWR | O_CREAT, 0);
  vp_masks(vp_h); vp_hashval = vp_u32();
  unsigned char k; vp_hkey = &k; vp_hlen = 1; vp_hcheck = 1;
  unsigned b = _ffdb_call_hash(vp_h, &k, 1);
  VP_ASSERT(b <= vp_h->hdr.max_bucket, "[C02,C04] every key has an existing bucket");
  vp_h->hdr.nkeys = vp_u32(); vp_h->curr_dpage = vp_u32(); vp_h->hdr.num_moved_pages = vp_u32();
  VP_ASSERT(_ffdb_call_hash(vp_h, &k, 1) == b, "[C02] a key's bucket depends on key and table size only");
  VP_REACH("bucket");
}
static void u_get(void)
{
  FFDB_DB *db = vp_mk(vp_bool() ? O_RDONLY : O_RDWR | O_CREAT, 0);
  vp_ro = 1; vp_masks(vp_h); sym_results(); vp_hashval = vp_u32(); vp_h->hdr.bsize = 4096;
  static unsigned char kb[8]; FFDB_DBT k, d; k.data = kb; k.size = (long)vp_range(1, 4000); d.data = 0; d.size = 0;
  vp_hkey = kb; vp_hlen = k.size; vp_hcheck = 1;
  unsigned nk = vp_h->hdr.nkeys, mb = vp_h->hdr.max_bucket;
  int st = db->get(db, &k, &d, 0);
  VP_ASSERT(!vp_held && vp_pins == 0, "[C14] lookup releases lock and page");
  VP_ASSERT(vp_writes == 0 && n_add == 0 && vp_h->hdr.nkeys == nk && vp_h->hdr.max_bucket == mb, "[C13,C03] lookup changes nothing");
  VP_ASSERT(n_find == 1, "[C02] the bucket is searched");
  if (r_find) { VP_ASSERT(st != 0 && st != FFDB_NOT_FOUND, "[C12] a bucket that cannot be read is an error, not an absent key"); VP_ASSERT(n_get == 0, "[C12] nothing is read from a failed search"); VP_REACH("get err"); }
  else if (r_status == ITEM_NO_MORE) { VP_ASSERT(st == FFDB_NOT_FOUND && n_get == 0, "[C02] an absent key is reported as not found"); VP_REACH("get none"); }
  else { VP_ASSERT(n_get == 1, "[C01,C02] a key that is present is read"); VP_ASSERT((st == 0) == !r_get, "[C01,C12] lookup succeeds exactly when the datum was read"); VP_ASSERT(!r_get || (st != 0 && st != FFDB_NOT_FOUND), "[C12] a datum that cannot be read is an error"); VP_REACH("get ok"); }
}
static void u_sync(void)
{
  int ro = vp_bool();
  FFDB_DB *db = vp_mk(ro ? ROFL : O_RDWR | O_CREAT, 0);
  vp_ro = ro; vp_masks(vp_h); sym_results(); vp_crcval = vp_u32(); vp_hashval = vp_u32();
  int st = db->sync(db, 0);
  VP_ASSERT(!vp_held, "[C14] sync releases the lock");
  if (ro) VP_ASSERT(vp_writes == 0, "[C13] sync of a read-only database writes nothing");
  else {
    VP_ASSERT(vp_writes >= 1 || st != 0, "[C06] sync writes the table description");
    VP_ASSERT(st == 0 || vp_write_short || (n_sync && r_sync), "[C12] sync fails only if something was not written");
    if (vp_write_short) VP_ASSERT(st != 0, "[C12] a description that was not written makes sync fail");
  }
  if (st == 0) VP_ASSERT(n_sync == 1 && !r_sync, "[C12,C06] sync succeeds only if every page was written");
  if (n_sync && r_sync) VP_ASSERT(st != 0, "[C12] a page that was not written makes sync fail");
  VP_REACH("sync");
}
static void u_close(void)
{
  int ro = vp_bool();
  FFDB_DB *db = vp_mk(ro ? ROFL : O_RDWR | O_CREAT, 0);
  vp_ro = ro; vp_masks(vp_h); sym_results(); r_close_re = vp_bool(); vp_crcval = vp_u32(); vp_hashval = vp_u32();
  vp_h->rearrange_pages = vp_bool(); int re = vp_h->rearrange_pages;
  errno = 0;
  int st = db->close(db);
  VP_ASSERT(n_poolclose == 1, "[C14] close closes the cache"); VP_ASSERT(vp_closed == 1, "[C14] close closes the file");
  if (ro) { VP_ASSERT(vp_writes == 0 && n_close_re == 0, "[C13] closing a read-only database writes nothing"); }
  else {
    VP_ASSERT(vp_writes >= 1, "[C06] close writes the table description");
    if (vp_write_short) VP_ASSERT(st != 0, "[C12] a description that was not written makes close fail");
    if (n_close_re && r_close_re) VP_ASSERT(st != 0, "[C12] pages that could not be moved make close fail");
    VP_ASSERT(st == 0 || vp_write_short || r_sync || (re && r_close_re), "[C12] close fails only if something was not written");
  }
  VP_ASSERT(n_sync >= 1, "[C06,C12] close writes every page");
  if (r_sync) VP_ASSERT(st != 0, "[C12] a page that was not written makes close fail");
  VP_REACH("close");
}
static void u_wrap(void)
{
  int ro = vp_bool();
  FFDB_DB *db = vp_mk(ro ? ROFL : O_RDWR | O_CREAT, 0);
  vp_ro = ro; r_cfg = vp_bool() ? -1 : 0; n_cfgset = n_cfgget = 0;
  vp_h->hdr.num_cfigs = vp_range(1, 1u << 20); vp_h->hdr.uinfolen = vp_u32(); vp_h->hdr.cfig_npages = (unsigned short)vp_u32();
  ffdb_all_config_info_t all; ffdb_config_info_t one; static unsigned char ub[4]; unsigned len = vp_u32();
  all.numconfigs = (int)vp_u32(); all.allconfigs = 0; one.index = (int)vp_u32(); one.config = (int)vp_u32();
  int st = ffdb_set_all_configs(db, &all);
  if (ro) VP_ASSERT(st != 0 && n_cfgset == 0, "[C13] configurations of a read-only database cannot be set");
  else if ((unsigned)all.numconfigs != vp_h->hdr.num_cfigs) VP_ASSERT(st != 0 && n_cfgset == 0, "[C10] a wrong number of configurations is refused");
  else VP_ASSERT(n_cfgset == 1 && st == r_cfg, "[C10,C12] configurations are set, and failure reported");
  n_cfgset = 0; st = ffdb_set_config(db, &one);
  if (ro) VP_ASSERT(st != 0 && n_cfgset == 0, "[C13] a configuration of a read-only database cannot be set");
  else if (one.index < 0 || (unsigned)one.index >= vp_h->hdr.num_cfigs) VP_ASSERT(st != 0 && n_cfgset == 0, "[C10,C16] a configuration index out of range is refused");
  else VP_ASSERT(n_cfgset == 1 && st == r_cfg, "[C10,C12] a configuration is set, and failure reported");
  n_cfgset = 0; st = ffdb_set_user_info(db, ub, len);
  if (ro) VP_ASSERT(st != 0 && n_cfgset == 0, "[C13] user information of a read-only database cannot be set");
  else if (len > vp_h->hdr.uinfolen) VP_ASSERT(st != 0 && n_cfgset == 0, "[C10,C16] user information that does not fit is refused");
  else VP_ASSERT(n_cfgset == 1 && st == r_cfg, "[C10,C12] user information is set, and failure reported");
  n_cfgget = 0; st = ffdb_get_user_info(db, ub, &len); VP_ASSERT(n_cfgget == 1 && st == r_cfg, "[C10,C12] user information is read");
  st = ffdb_get_config(db, (unsigned)one.config, &one); VP_ASSERT(n_cfgget == 2 && st == r_cfg, "[C10,C12] a configuration is read");
  VP_ASSERT(ffdb_num_configs(db) == vp_h->hdr.num_cfigs && ffdb_max_user_info_len(db) == vp_h->hdr.uinfolen, "[C10] limits are reported as they are");
  vp_h->hdr.num_cfigs = 3;
  st = ffdb_get_all_configs(db, &all);
  VP_ASSERT(st != 0 || (all.numconfigs == 3 && all.allconfigs), "[C10] all configurations are returned");
  if (st == 0) { for (int i = 0; i < 3; i++) all.allconfigs[i].index = i; free(all.allconfigs); }
  VP_ASSERT(n_cfgget == 3 && st == r_cfg, "[C10,C12] all configurations are read");
  VP_REACH("wrap");
}
static void u_cursor(void)
{
  FFDB_DB *db = vp_mk(O_RDONLY, 0); vp_ro = 1; vp_pins = 0;
  ffdb_cursor_t *c = 0; unsigned type = vp_u32();
  int st = db->cursor(db, &c, type);
  if (type != FFDB_KEY_CURSOR && type != FFDB_DATA_CURSOR) { VP_ASSERT(st != 0, "[C09] an unknown kind of cursor is refused"); VP_REACH("cursor bad"); return; }
  VP_ASSUME(type == FFDB_KEY_CURSOR);
  VP_ASSERT(st == 0 && c, "[C09] a cursor is made"); VP_ASSUME(c != 0);
  ffdb_crs_t *in = (ffdb_crs_t *)c->internal;
  VP_ASSERT(in->hashp == vp_h && in->item.pagep == 0, "[C09,C14] a new cursor holds nothing");
  FFDB_DBT k, d; unsigned fl = vp_u32(); r_curs = vp_range(0, 2) == 0 ? 0 : vp_bool() ? FFDB_NOT_FOUND : -1;
  int fresh = vp_bool(), nodata = vp_bool(); if (!fresh) in->item.status = vp_bool() ? ITEM_OK : vp_bool() ? ITEM_NO_MORE : ITEM_ERROR;
  n_curs = 0; st = c->get(c, &k, nodata ? 0 : &d, fl);
  VP_ASSERT(!vp_held, "[C14] a cursor move releases the lock");
  if (fl != FFDB_FIRST && fl != FFDB_LAST && fl != FFDB_NEXT && fl != FFDB_PREV) VP_ASSERT(st != 0 && n_curs == 0, "[C09] an unknown move is refused");
  else {
    VP_ASSERT(n_curs == 1 && st == r_curs, "[C09,C12] the cursor moves and reports how it went");
    unsigned want = fl; if (fresh && fl == FFDB_NEXT) want = FFDB_FIRST; if (fresh && fl == FFDB_PREV) want = FFDB_LAST;
    VP_ASSERT(a_cflags == want, "[C09] a fresh cursor starts at the end it moves away from, any other moves as asked");
    VP_ASSERT(a_cdata == (nodata ? 0 : (void *)&d), "[C09] the datum goes where the caller asked");
  }
  int hold = vp_bool(); if (hold) { in->item.pagep = KPW; vp_pins = 1; } else in->item.pagep = 0;
  st = c->close(c);
  VP_ASSERT(vp_pins == 0, "[C14] closing a cursor releases its page"); VP_ASSERT(st == 0, "[C09] closing a cursor succeeds");
  VP_REACH("cursor");
}
int main(void) { U(); VP_REACH("end"); return 0; }
