/* Units open_*: creation, opening and the table description of ffdb_hash.c. */
#include "ha.h"
/* pages of user and configuration information in an existing file: enumerated by the jobs */
#ifndef NU
#define NU 1
#endif
/* mode, whether parameters are given, and what fails: enumerated by the jobs */
#ifndef RO
#define RO 0
#endif
#ifndef UI
#define UI 1
#endif
#ifndef FLT
#define FLT 0
#endif
#ifndef UL
#define UL 0
#endif
#ifndef NCF
#define NCF 0
#endif
#ifndef BSZ
#define BSZ 512
#endif
#ifndef OFF
#define OFF 0
#endif
#ifndef NC
#define NC 1
#endif
static unsigned p_NU = NU, p_NC = NC, p_RO = RO, p_UI = UI, p_FLT = FLT, p_UL = UL, p_NCF = NCF, p_BSZ = BSZ, p_OFF = OFF;
#define HB(o) ((unsigned)vp_file[o])
static unsigned be32(unsigned o) { return HB(o) << 24 | HB(o + 1) << 16 | HB(o + 2) << 8 | HB(o + 3); }
static unsigned be16(unsigned o) { return HB(o) << 8 | HB(o + 1); }
#define HS ((unsigned)sizeof(ffdb_hashhdr_t))
static ffdb_hashhdr_t g;
static void sym_hdr(ffdb_hashhdr_t *h)
{
  h->magic = (int)FFDB_HASHMAGIC; h->version = 6; h->lorder = vp_bool() ? LITTLE_ENDIAN : BIG_ENDIAN;
  h->bsize = (int)vp_u32(); h->bshift = (int)vp_u32(); h->ovfl_point = vp_u32(); h->max_bucket = vp_u32(); h->high_mask = vp_u32();
  h->low_mask = vp_u32(); h->ffactor = vp_u32(); h->nkeys = vp_u32(); h->hdrpages = vp_u32(); h->uinfolen = vp_u32();
  h->uinfo_page = (unsigned short)vp_u32(); h->uinfo_npages = (unsigned short)vp_u32(); h->cfig_page = (unsigned short)vp_u32(); h->cfig_npages = (unsigned short)vp_u32();
  h->num_cfigs = vp_u32(); h->h_charkey = vp_u32(); h->num_moved_pages = vp_u32();
  for (int i = 0; i < NCACHED; i++) { h->spares[i] = vp_u32(); h->free_pages[i] = vp_u32(); }
}
#define EQ(f) VP_ASSERT(h->hdr.f == g.f, "[C06] " #f " is read back as it was written")
/* what is written at sync is what the next open reads, field by field, in a fixed byte order on disk */
static void u_round(void)
{
  FFDB_DB *db = vp_mk(O_RDWR | O_CREAT, 0);
  sym_hdr(&vp_h->hdr); vp_hashval = vp_u32(); vp_crcval = vp_u32();
  vp_h->hdr.uinfo_npages = p_NU; vp_h->hdr.cfig_npages = p_NC;
  g = vp_h->hdr;
  int st = db->sync(db, 0);
  VP_ASSERT(st == 0 && vp_wfrom == 0 && vp_wto == HS, "[C06] the whole description is written at the start of the file");
  VP_ASSERT(vp_crcn == (long)HS - 4, "[C07] the checksum covers the whole description");
  g.h_charkey = vp_hashval;
  /* on disk: big-endian, whatever the machine */
#define D32(f) VP_ASSERT(be32(offsetof(ffdb_hashhdr_t, f)) == (unsigned)g.f, "[C06,C08] " #f " is stored in the file's fixed byte order")
#define D16(f) VP_ASSERT(be16(offsetof(ffdb_hashhdr_t, f)) == g.f, "[C06,C08] " #f " is stored in the file's fixed byte order")
  D32(magic); D32(version); D32(lorder); D32(bsize); D32(bshift); D32(ovfl_point); D32(max_bucket); D32(high_mask); D32(low_mask); D32(ffactor); D32(nkeys);
  D32(hdrpages); D32(uinfolen); D16(uinfo_page); D16(uinfo_npages); D16(cfig_page); D16(cfig_npages); D32(num_cfigs); D32(h_charkey); D32(num_moved_pages);
  for (int i = 0; i < NCACHED; i++) { D32(spares[i]); D32(free_pages[i]); }
  VP_ASSERT(be32(HS - 4) == vp_crcval, "[C06,C07,C08] the description's checksum is stored with it");
  /* sync leaves the table in memory as it was */
  { ffdb_htab_t *h = vp_h; EQ(magic); EQ(version); EQ(lorder); EQ(bsize); EQ(bshift); EQ(ovfl_point); EQ(max_bucket); EQ(high_mask); EQ(low_mask); EQ(nkeys); EQ(hdrpages);
    EQ(uinfo_page); EQ(uinfo_npages); EQ(cfig_page); EQ(cfig_npages); EQ(num_cfigs); EQ(num_moved_pages); EQ(uinfolen);
    for (int i = 0; i < NCACHED; i++) { EQ(spares[i]); EQ(free_pages[i]); } }
  /* read it back */
  VP_ASSUME(g.ovfl_point < NCACHED - 1 && g.bsize >= 512 && g.bsize <= (1 << 20));
  vp_exists = 1; vp_pos = 0; vp_crcp = 0; n_getpage = 0;
  FFDB_DB *d2 = __ffdb_hash_open("x", O_RDONLY, 0, 0);
  VP_ASSERT(d2 != 0, "[C06] a file that was closed properly can be opened"); VP_ASSUME(d2 != 0);
  ffdb_htab_t *h = (ffdb_htab_t *)d2->internal;
  EQ(magic); EQ(version); EQ(lorder); EQ(bsize); EQ(bshift); EQ(ovfl_point); EQ(max_bucket); EQ(high_mask); EQ(low_mask); EQ(ffactor); EQ(nkeys);
  EQ(hdrpages); EQ(uinfolen); EQ(uinfo_page); EQ(uinfo_npages); EQ(cfig_page); EQ(cfig_npages); EQ(num_cfigs); EQ(h_charkey); EQ(num_moved_pages);
  for (int i = 0; i < NCACHED; i++) { EQ(spares[i]); EQ(free_pages[i]); }
  VP_REACH("round trip");
}
/* an existing file with an arbitrary description: opened only if it is sound, and then with its own parameters */
static void u_exist(void)
{
  ffdb_hashhdr_t t; FFDB_HASHINFO info; int useinfo = p_UI;
  sym_hdr(&t);
  t.magic = (int)vp_u32(); t.version = (int)vp_u32(); t.chksum = vp_u32();
  VP_ASSUME(t.ovfl_point < NCACHED - 1 && t.bsize >= 512 && t.bsize <= (1 << 20));
  t.uinfo_npages = p_NU; t.cfig_npages = p_NC;
  unsigned char *p = (unsigned char *)&t;
#define W32(f) do { unsigned o = offsetof(ffdb_hashhdr_t, f), v = (unsigned)t.f; vp_file[o] = v >> 24; vp_file[o+1] = v >> 16; vp_file[o+2] = v >> 8; vp_file[o+3] = v; } while (0)
#define W16(f) do { unsigned o = offsetof(ffdb_hashhdr_t, f), v = t.f; vp_file[o] = v >> 8; vp_file[o+1] = v; } while (0)
  W32(magic); W32(version); W32(lorder); W32(bsize); W32(bshift); W32(ovfl_point); W32(max_bucket); W32(high_mask); W32(low_mask); W32(ffactor); W32(nkeys);
  W32(hdrpages); W32(uinfolen); W16(uinfo_page); W16(uinfo_npages); W16(cfig_page); W16(cfig_npages); W32(num_cfigs); W32(h_charkey); W32(num_moved_pages);
  for (int i = 0; i < NCACHED; i++) { W32(spares[i]); W32(free_pages[i]); }
  W32(chksum);
  memset(&info, 0, sizeof info);
  info.bsize = vp_u32(); info.nbuckets = vp_u32(); info.userinfolen = vp_u32(); info.numconfigs = vp_u32(); info.rearrangepages = vp_bool(); info.cachesize = vp_range(0, 1u << 30);
  int ro = p_RO; vp_ro = ro; vp_exists = 1; vp_hashval = vp_u32(); vp_crcval = vp_u32();
  vp_read_short = p_FLT == 1; r_page_fail = p_FLT >= 10 ? (int)p_FLT - 10 : -1; r_open_re = p_FLT == 2; r_create = p_FLT == 3; r_openfd = p_FLT == 4; vp_open_fails = p_FLT == 5;
  FFDB_DB *db = __ffdb_hash_open("x", ro ? O_RDONLY : O_RDWR, 0, useinfo ? &info : 0);
  VP_ASSERT(!ro || (vp_oflags & O_ACCMODE) == O_RDONLY, "[C13] a database opened read-only is opened read-only by the system");
  VP_ASSERT(!ro || vp_writes == 0, "[C13] opening read-only writes nothing");
  VP_ASSERT(vp_pins == 0, "[C14] open releases every page");
  if (!db) { VP_ASSERT(vp_opened == vp_closed, "[C14] a failed open closes the file"); 
#if FLT && !(FLT == 2 && RO)
    VP_REACH("open refused");
#endif
    return; }
  ffdb_htab_t *h = (ffdb_htab_t *)db->internal;
  VP_ASSERT(!vp_read_short, "[C06,C12] a description that cannot be read is refused");
  VP_ASSERT(vp_crcval == t.chksum, "[C06,C07] a description with a wrong checksum is refused");
  VP_ASSERT((unsigned)t.magic == FFDB_HASHMAGIC, "[C06] a foreign file is refused");
  VP_ASSERT(t.version == 5 || t.version == 6, "[C06] an unsupported version is refused");
  VP_ASSERT(t.h_charkey == vp_hashval, "[C06] a file made with another hash function is refused");
  VP_ASSERT(r_page_fail < 0 || r_page_fail >= t.uinfo_npages + t.cfig_npages, "[C12] a database whose user pages cannot be read is refused");
  VP_ASSERT(!n_open_re || !r_open_re, "[C12] a database whose pages cannot be moved back is refused");
  VP_ASSERT(!r_create && !r_openfd, "[C12] a database without a cache is refused");
  VP_ASSERT(vp_pool_bsize == (unsigned)t.bsize && vp_pool_fd == 7, "[C06] the file's own page size is used");
  VP_ASSERT(vp_pgin == ffdb_pgin_routine && vp_pgout == ffdb_pgout_routine && vp_cookie == (void *)h, "[C07,C08] pages are checked and converted on their way in and out");
  VP_ASSERT(t.version == 6 ? h->data_valid_flag == (int)DATA_VALID_6 : h->data_valid_flag == (int)DATA_VALID_5, "[C06,C01] data marks follow the file's version");
  VP_ASSERT(h->flags == (ro ? O_RDONLY : O_RDWR) && (ro ? !h->save_file : !!h->save_file), "[C13] the mode of opening is remembered");
  VP_ASSERT(!ro || n_open_re == 0, "[C13] no page is moved in a read-only database");
  VP_ASSERT(ro || t.num_moved_pages == 0 || n_open_re == 1, "[C15] pages that were moved at close are moved back before writing");
  { unsigned lv = t.spares[t.ovfl_point + 1];
    if (lv) VP_ASSERT(n_last == 1 && vp_last_arg == h->hdr.spares[h->hdr.ovfl_point + 1] - 1 && h->curr_dpage == vp_last_arg, "[C05,C06] new data continue on the last data page");
    else VP_ASSERT(h->curr_dpage == INVALID_PGNO, "[C05,C06] a level without data pages starts afresh"); }
  ffdb_hashhdr_t g = t;
  EQ(bsize); EQ(bshift); EQ(ovfl_point); EQ(max_bucket); EQ(high_mask); EQ(low_mask); EQ(nkeys); EQ(hdrpages); EQ(uinfolen);
  EQ(uinfo_page); EQ(uinfo_npages); EQ(cfig_page); EQ(cfig_npages); EQ(num_cfigs); EQ(lorder); EQ(version);
  for (int i = 0; i < NCACHED; i++) { EQ(spares[i]); EQ(free_pages[i]); }
#if !FLT || (FLT == 2 && RO)
  VP_REACH("open exist");
#endif
}
/* a new file, any parameters: the regions reserved are large enough and disjoint, the table is consistent */
static void u_new(void)
{
  FFDB_HASHINFO info; memset(&info, 0, sizeof info);
  int useinfo = p_UI;
  info.bsize = p_BSZ - p_OFF; /* any size in (p_BSZ/2, p_BSZ] */
  unsigned bs = p_BSZ; vp_blksize = p_BSZ;
  info.nbuckets = vp_range(0, 1u << 20); info.userinfolen = p_UL; info.numconfigs = p_NCF; info.rearrangepages = vp_bool();
  vp_exists = 0; vp_crcval = vp_u32();
  r_page_fail = p_FLT >= 10 ? (int)p_FLT - 10 : -1;
  FFDB_DB *db = __ffdb_hash_open("x", O_RDWR | O_CREAT, 0644, useinfo ? &info : 0);
  VP_ASSERT(vp_pins == 0, "[C14] open releases every page");
  if (!db) { VP_ASSERT(r_page_fail >= 0, "[C06] a new database can be created"); VP_ASSERT(vp_opened == vp_closed, "[C14] a failed open closes the file"); 
#if FLT
    VP_REACH("new refused");
#endif
    return; }
  ffdb_htab_t *h = (ffdb_htab_t *)db->internal; ffdb_hashhdr_t *d = &h->hdr;
  VP_ASSERT(r_page_fail < 0 || r_page_fail >= n_getpage, "[C12] a database whose user pages cannot be made is refused");
  unsigned nb = useinfo && info.nbuckets ? info.nbuckets : 1, ul = useinfo && info.userinfolen ? info.userinfolen : 4000, nc = useinfo && info.numconfigs ? info.numconfigs : 1;
  VP_ASSERT((unsigned)d->bsize == bs && vp_pool_bsize == bs, "[C06] the page size is the requested one, rounded up to a power of two");
  VP_ASSERT((unsigned)d->magic == FFDB_HASHMAGIC && d->version == 6 && d->lorder == h->mborder && d->nkeys == 0 && d->num_moved_pages == 0, "[C06] a new table is empty and describes itself");
  VP_ASSERT(d->uinfolen == ul && d->num_cfigs == nc, "[C10] the space asked for is reserved");
  VP_ASSERT(d->uinfo_page >= 1, "[C05] user pages do not overlap the description");
  VP_ASSERT((unsigned long)d->uinfo_npages * (bs - 28) >= ul + 4ul, "[C10,C16] the user pages hold the user information");
  VP_ASSERT(d->cfig_page >= d->uinfo_page + d->uinfo_npages, "[C05,C10] configuration pages follow the user pages");
  VP_ASSERT((unsigned long)d->cfig_npages * ((bs - 28) / sizeof(ffdb_config_info_t)) >= nc, "[C10,C16] the configuration pages hold every configuration");
  VP_ASSERT(d->spares[0] >= (unsigned)d->cfig_page + d->cfig_npages, "[C05] buckets do not overlap the configuration pages");
  VP_ASSERT(vp_masks_ok(h), "[C02,C04] a new table's size is consistent");
  VP_ASSERT(d->max_bucket + 1 >= nb, "[C06] a new table has the buckets asked for");
  /* the invariant of the bucket levels (used by unit page_map) */
  unsigned l = d->ovfl_point;
  VP_ASSERT(d->spares[1] == 0 || d->spares[1] > d->spares[0], "[C05] bucket levels do not overlap");
  for (unsigned s = 1; s < NCACHED - 1; s++) {
    if (s <= l) VP_ASSERT(d->spares[s] > d->spares[s - 1] && (s < 2 || d->spares[s] >= d->spares[s - 1] + (1u << (s - 2))), "[C05] bucket levels do not overlap");
    else VP_ASSERT(d->spares[s] == 0, "[C05] levels that do not exist yet have no pages");
  }
  for (int i = 0; i < NCACHED; i++) VP_ASSERT(d->free_pages[i] == INVALID_PGNO, "[C05] a new table has no free pages");
  VP_ASSERT(h->curr_dpage == INVALID_PGNO, "[C05] a new table has no data page");
  VP_ASSERT(h->split_buf != 0, "[C16] the split buffer is there");
  VP_ASSERT((h->flags & O_ACCMODE) == O_RDWR && h->save_file, "[C13,C06] the mode of opening is remembered");
#if !FLT
  VP_REACH("new");
#endif
}
/* write-only or nameless databases are refused; limits on the page size */
static void u_bad(void)
{
  vp_exists = vp_bool();
  VP_ASSERT(__ffdb_hash_open("x", O_WRONLY | (vp_bool() ? O_CREAT : 0), 0, 0) == 0 && vp_opened == 0, "[C06] write-only is refused");
  VP_ASSERT(__ffdb_hash_open(0, O_RDWR, 0, 0) == 0 && vp_opened == 0, "[C06] a nameless database is refused");
  FFDB_HASHINFO info; memset(&info, 0, sizeof info);
  static const unsigned out[] = {1, 2, 3, 255, 256, (1u << 20) + 1, (1u << 20) + 4096, 1u << 21, 3u << 20, 1u << 30};
  for (int i = 0; i < 10; i++) {
    info.bsize = out[i]; vp_exists = 0; r_page_fail = -1;
    FFDB_DB *db = __ffdb_hash_open("x", O_RDWR | O_CREAT, 0644, &info);
    VP_ASSERT(db == 0, "[C16] a page size out of range is refused");
    VP_ASSERT(vp_opened == vp_closed, "[C14] a failed open closes the file");
  }
  VP_REACH("bad");
}
#ifdef VP_NATIVE_GRID
static char nm[160];
#define GO(fn) do { snprintf(nm, sizeof nm, #fn " ro%u info%u fault%u user%u/%u config%u/%u page%u-%u", p_RO, p_UI, p_FLT, p_UL, p_NU, p_NCF, p_NC, p_BSZ, p_OFF); VP_RUN(nm, fn()); } while (0)
static void grid(void)
{
  static const unsigned B[] = {512, 1024, 4096, 65536};
  p_UI = 1;
  for (int b = 0; b < 4; b++) { p_BSZ = B[b];
    for (p_UL = 0; p_UL <= 3 * p_BSZ && p_UL < 60000; p_UL += b < 2 ? 1 + p_UL % 3 : b == 2 ? 13 : 911) { p_NCF = p_UL % 41; p_OFF = p_UL % 7 == 3 ? p_UL % (p_BSZ / 2) : 0; GO(u_new); }
    for (p_NCF = 0; p_NCF <= 150; p_NCF++) { p_UL = 17; p_OFF = 0; GO(u_new); p_UL = p_BSZ - 32; GO(u_new); p_FLT = 10 + p_NCF % 3; GO(u_new); p_FLT = 0; } }
  p_BSZ = 512; p_OFF = 0;
  for (int i = 0; i < 40; i++) for (p_NU = 0; p_NU <= 3; p_NU++) for (p_NC = 1; p_NC <= 2; p_NC++) { GO(u_round); for (p_RO = 0; p_RO < 2; p_RO++) for (p_UI = 0; p_UI < 2; p_UI++) for (p_FLT = 0; p_FLT < 6 || (p_FLT >= 10 && p_FLT < 15); p_FLT = p_FLT == 5 ? 10 : p_FLT + 1) { p_UL = i; GO(u_exist); } p_FLT = 0; p_RO = 0; p_UI = 1; }
  GO(u_bad);
}
#endif
int main(void)
{
  VP_GRID_INIT();
#ifdef VP_NATIVE_GRID
  grid();
#else
  U();
#endif
  VP_GRID_DONE();
  VP_REACH("end");
  return 0;
}
