/* Unit page_swap: what is on disk (ffdb_pgout_routine / ffdb_pgin_routine of ffdb_page.c).
 * Enumerated: kind of page, number and place of its entries, byte order of machine and
 * file. Symbolic: every field and every byte. The checksum is replaced by another
 * function of exactly the bytes given that any change of one byte changes. */
#ifndef BS
#define BS 512
#endif
#define NP 1
#define VP_OWN_CRC
#include "pg.h"
unsigned int _ffdb_call_hash(ffdb_htab_t *h, const void *k, unsigned int n) { return 0; }
/* checksum: a function of exactly the bytes given, told apart when one byte differs. The first
 * chain of calls is recorded; of a later chain it is recorded whether it was given the same bytes. */
static unsigned vp_tok; static long vp_sn, vp_n; static int vp_first = 1, vp_eq; static unsigned vp_sw[NW];
#define vp_sb ((unsigned char *)vp_sw)
#ifdef __CPROVER__
unsigned int __ffdb_crc32_checksum(unsigned int crc, const unsigned char *b, long n)
{
  if (crc == 0) { if (vp_sn) vp_first = 0; vp_n = 0; vp_eq = 1; }
  else if (crc != (vp_tok ^ (unsigned)vp_n)) vp_eq = 0;
  long i = 0;
  if (n % 4 == 0 && vp_n % 4 == 0 && VP_OFF(b) % 4 == 0) for (; i + 4 <= n; i += 4) {
    unsigned w = *(const unsigned *)(b + i);
    if (vp_first && vp_n < BS) { vp_sw[vp_n / 4] = w; vp_sn += 4; } else if (vp_n >= vp_sn || vp_n >= BS || vp_sw[vp_n / 4] != w) vp_eq = 0;
    vp_n += 4;
  }
  for (; i < n; i++) {
    if (vp_first && vp_n < BS) { vp_sb[vp_n] = b[i]; vp_sn++; } else if (vp_n >= vp_sn || vp_n >= BS || vp_sb[vp_n] != b[i]) vp_eq = 0;
    vp_n++;
  }
  return vp_tok ^ (unsigned)vp_n;
}
#else
unsigned int __ffdb_crc32_checksum(unsigned int crc, const unsigned char *b, long n)
{ for (long i = 0; i < n; i++) { crc ^= b[i]; for (int j = 0; j < 8; j++) crc = crc >> 1 ^ (crc & 1 ? 0xedb88320u : 0); } return crc; }
#endif
static unsigned P[NW], E[NW], I[NW];
static unsigned char fieldw[BS]; /* width of the field starting here, 0: plain bytes */
static void fld(unsigned o, unsigned w) { fieldw[o] = w; }
static unsigned b32(const unsigned char *p, int big) { return big ? (unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3] : (unsigned)p[3] << 24 | p[2] << 16 | p[1] << 8 | p[0]; }
/* a page of kind t with n entries; at: where its entries lie */
static void mk(unsigned t, unsigned n, unsigned at, unsigned st)
{
  unsigned char *p = (unsigned char *)P;
  for (int i = 0; i < NW; i++) P[i] = vp_u32();
  for (int i = 0; i < BS; i++) fieldw[i] = 0;
  P[3] = FFDB_PAGE_MAGIC; P[4] = n | t << 16;
  fld(0, 4); fld(4, 4); fld(8, 4); fld(12, 4); fld(16, 2); fld(18, 2); fld(24, 4);
  if (t == HASH_BUCKET_PAGE) {
    unsigned top = BS;
    for (unsigned i = 0; i < n; i++) {
      unsigned k = top - at - i % 3, d = (k - 16) & ~3u; top = d;
      fld(28 + 12 * i, 4); fld(32 + 12 * i, 4); fld(36 + 12 * i, 4);
      KEY_OFF(p, i) = k; DATAP_OFF(p, i) = d; fld(d, 4); fld(d + 4, 4); fld(d + 8, 4); fld(d + 12, 4);
    }
  } else if (t == HASH_DATA_PAGE) {
    unsigned pos = at; FIRST_DATA_POS(p) = pos; fld(28, 4);
    for (unsigned i = 0; i < n; i++) {
      ffdb_data_header_t *h = BIG_DATA_HEADER(p, pos); unsigned nx = pos + 20 + st + 4 * (i % 2);
      for (int j = 0; j < 5; j++) fld(pos + 4 * j, 4);
      h->next = i + 1 < n ? nx : 0; pos = nx;
    }
  } else if (t == HASH_FREE_PAGE) { for (unsigned i = 0; i < n; i++) fld(28 + 4 * i, 4); }
  else if (t == HASH_UINFO_PAGE) fld(28, 4);
  else if (t == HASH_CONFIG_PAGE) for (unsigned i = 0; i < n; i++) for (int j = 0; j < 5; j++) fld(28 + 148 * i + 4 * j, 4);
}
/* the same logical page in memory, except for the checksum field */
static unsigned differ(const unsigned *a, const unsigned *b)
{ unsigned d = 0; for (int i = 0; i < NW; i++) if (i != 5) d |= a[i] ^ b[i]; return d; }
static void one(unsigned t, unsigned n, unsigned at, unsigned st, int mborder, int lorder, int flip)
{
  unsigned char *p = (unsigned char *)P, *e = (unsigned char *)E; unsigned *S = vp_M[0];
  H.hdr.bsize = BS; H.mborder = mborder; H.hdr.lorder = lorder; H.hdr.version = 6;
  mk(t, n, at, st); vp_first = 1; vp_sn = 0; vp_tok = 0x1234567u;
  for (int i = 0; i < NW; i++) S[i] = P[i];
  ffdb_pgout_routine(&H, CURR_PGNO(p), P);
  /* what is on disk: every field in the file's byte order (memory is the machine's), everything else as it is */
  int sw = mborder != lorder;
  for (unsigned i = 0; i < BS; ) {
    unsigned w = fieldw[i]; const unsigned char *s = (const unsigned char *)S;
    if (i == 20) { i += 4; continue; }
    if (!w && i % 4 == 0 && !fieldw[i + 1] && !fieldw[i + 2] && !fieldw[i + 3]) { VP_ASSERT(P[i / 4] == S[i / 4], "[C08,C06] bytes that are no field go to disk as they are"); i += 4; continue; }
    if (!w) { VP_ASSERT(p[i] == s[i], "[C08,C06] bytes that are no field go to disk as they are"); i++; continue; }
    for (unsigned j = 0; j < w; j++) VP_ASSERT(p[i + j] == s[i + (sw ? w - 1 - j : j)], "[C08,C06] every field is on disk in the file's byte order");
    i += w;
  }
  { unsigned c = __ffdb_crc32_checksum(0, p, 20); c = __ffdb_crc32_checksum(c, p + 24, BS - 24);
    VP_ASSERT(b32(p + 20, lorder == BIG_ENDIAN) == c || b32(p + 20, lorder != BIG_ENDIAN) == c, "[C07] the checksum on disk covers every byte but itself");
#ifdef __CPROVER__
    VP_ASSERT(vp_eq && vp_n == vp_sn && vp_n == BS - 4, "[C07] the checksum on disk covers every byte but itself");
#endif
    unsigned got = CHKSUM(p); if (sw) got = (got >> 24) | ((got >> 8) & 0xff00) | ((got << 8) & 0xff0000) | (got << 24);
    VP_ASSERT(got == c, "[C07,C08] the checksum on disk is in the file's byte order"); }
  for (int i = 0; i < NW; i++) I[i] = P[i];
  if (flip < 0) {
    ffdb_pgin_routine(&H, CURR_PGNO(S), P);
#ifdef __CPROVER__
    VP_ASSERT(vp_eq && vp_n == vp_sn, "[C07] what is read is checked over the same bytes as were written");
#endif
    VP_ASSERT(differ(P, S) == 0, "[C08,C06,C11] a page that was written out reads back as the same page");
  } else {
    unsigned char x = vp_u8(); VP_ASSUME(x != 0);
    p[flip] ^= x; vp_exit_ok = 1; vp_exited = 0;
    ffdb_pgin_routine(&H, CURR_PGNO(S), P);
    /* not ended: only a page without signature, which counts as never written */
    VP_ASSERT(flip >= 12 && flip < 16, "[C07] a damaged page is never taken as valid");
    VP_ASSERT(NUM_ENT(P) == 0 && TYPE(P) == HASH_DELETED_PAGE, "[C07] a page without signature holds nothing");
  }
}
static void T(unsigned t, unsigned n, unsigned at, unsigned st, int sw, int flip)
{
#ifndef __CPROVER__
  char nm[96]; snprintf(nm, sizeof nm, "page kind %x entries %u at %u step %u order %d damaged at %d", t, n, at, st, sw, flip);
#endif
  VP_RUN(nm, one(t, n, at, st, (sw & 1) ? BIG_ENDIAN : LITTLE_ENDIAN, (sw & 2) ? BIG_ENDIAN : LITTLE_ENDIAN, flip));
}
static void kinds(int sw, int flip)
{
  for (unsigned n = 0; n <= 3; n++) T(HASH_CONFIG_PAGE, n, 0, 0, sw, flip);
  for (unsigned n = 0; n <= 121; n += flip < 0 ? 1 : 40) T(HASH_FREE_PAGE, n, 0, 0, sw, flip);
  T(HASH_UINFO_PAGE, 0, 0, 0, sw, flip); T(HASH_DELETED_PAGE, 0, 0, 0, sw, flip); T(HASH_UINFO_PAGE, 3, 0, 0, sw, flip);
  for (unsigned n = 0; n <= 9; n++) for (unsigned at = 1; at <= 10; at += 3) T(HASH_BUCKET_PAGE, n, at, 0, sw, flip);
  T(HASH_BUCKET_PAGE, 1, 453, 0, sw, flip); T(HASH_BUCKET_PAGE, 2, 190, 0, sw, flip); T(HASH_BUCKET_PAGE, 14, 1, 0, sw, flip);
  for (unsigned n = 0; n <= 8; n++) for (unsigned st = 0; st <= 32; st += 8) for (unsigned at = 32; at <= 100; at += 36) if (at + n * (22 + st + 2) <= BS) T(HASH_DATA_PAGE, n, at, st, sw, flip);
  T(HASH_DATA_PAGE, 20, 32, 0, sw, flip); T(HASH_DATA_PAGE, 0, 0, 0, sw, flip);
}
int main(void)
{
  VP_GRID_INIT();
#ifdef VP_NATIVE_GRID
  for (int sw = 0; sw < 4; sw++) kinds(sw, -1);
  for (int f = 0; f < BS; f++) for (int sw = 0; sw < 4; sw++) {
    if (sw % 3 && f >= 16 && f < 20) continue; /* a damaged count sends the swapping astray before the sum is compared: outside the guarantee */
    T(HASH_CONFIG_PAGE, 3, 0, 0, sw, f); T(HASH_FREE_PAGE, 121, 0, 0, sw, f); T(HASH_UINFO_PAGE, 0, 0, 0, sw, f); 
    if (sw % 3 && f >= 28 && (f % 4 == 0 || f < 300)) continue;
    T(HASH_DATA_PAGE, 8, 32, 30, sw % 3 ? 0 : sw, f); T(HASH_BUCKET_PAGE, 9, 10, 0, sw % 3 ? 3 : sw, f);
  }
#else
  SCEN
#endif
  VP_GRID_DONE();
  VP_REACH("page_swap end");
  return 0;
}
