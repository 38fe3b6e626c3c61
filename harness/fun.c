/* Units fun_*: filehash/ffdb_hash_func.c, the leaf functions everything else relies on. */
#include "vp.h"
#include "ffdb_db.h"
#ifdef __CPROVER__
#pragma CPROVER check push
#pragma CPROVER check enable "pointer"
#pragma CPROVER check enable "bounds"
#endif
#include "ffdb_hash_func.c"
#ifdef __CPROVER__
#pragma CPROVER check pop
#endif
#ifndef WIN
#define WIN 4
#endif
#ifndef N
#define N 12
#endif
/* contract of __ffdb_log2: the smallest i with 2^i >= num, for every num <= 2^31 */
static void u_log2(void)
{
  unsigned n = vp_u32(); VP_ASSUME(n <= 0x80000000u);
  unsigned r = __ffdb_log2(n);
  VP_ASSERT(r <= 31, "[C02,C04,C05] log2 stays in range");
  VP_ASSERT((1ul << r) >= n, "[C02,C04,C05] log2 is large enough");
  VP_ASSERT(r == 0 || (1ul << (r - 1)) < n, "[C02,C04,C05] log2 is not too large");
}
/* contract of the default comparison: zero exactly for equal length and equal bytes */
static void u_cmp(void)
{
  static unsigned char A[N], B[N];
  FFDB_DBT a, b; unsigned i, la, lb;
  for (i = 0; i < N; i++) { A[i] = vp_u8(); B[i] = vp_u8(); }
  for (la = 0; la <= N; la++) for (lb = 0; lb <= N; lb++) {
    a.data = A + (N - la); a.size = la; b.data = B + (N - lb); b.size = lb;
    unsigned d = la ^ lb;
    for (i = 0; i < la && i < lb; i++) d |= (unsigned)(A[N - la + i] ^ B[N - lb + i]);
    int r = __ffdb_default_cmp(&a, &b);
    VP_ASSERT((r == 0) == (d == 0), "[C02] keys compare equal exactly when length and bytes agree");
    VP_ASSERT(a.size == la && b.size == lb && a.data == A + (N - la) && b.data == B + (N - lb), "[C02] comparing changes nothing");
  }
}
/* contract of the default hash: a function of exactly the key's bytes */
static void u_hash(void)
{
  static unsigned char A[N + 8]; unsigned i, l;
  for (l = 0; l <= N; l++) {
    for (i = 0; i < N + 8; i++) A[i] = vp_u8();
    unsigned h1 = __ffdb_default_hash(A + (N + 8 - l), l);      /* reads nothing behind the key */
    for (i = 0; i < N + 8 - l; i++) A[i] = vp_u8();
    unsigned h2 = __ffdb_default_hash(A + (N + 8 - l), l);
    VP_ASSERT(h1 == h2, "[C02] the hash depends on the key's bytes only");
    if (l + 4 <= N + 8) { /* what follows the key does not matter either */
      unsigned h3 = __ffdb_default_hash(A + 2, l);
      for (i = l + 2; i < N + 8; i++) A[i] = vp_u8();
      A[0] = vp_u8(); A[1] = vp_u8();
      VP_ASSERT(h3 == __ffdb_default_hash(A + 2, l), "[C02] the hash depends on the key's bytes only");
    }
  }
}
/* contract of the checksum, in three lemmas that together give the window guarantee:
 *  step:   one byte maps different states to different states
 *  window: up to four bytes, different contents give different states
 *  fold:   a longer buffer is the fold of its bytes */
static void u_crc_step(void)
{
  __ffdb_crc32_init();
  unsigned c1 = vp_u32(), c2 = vp_u32(); unsigned char b = vp_u8();
  VP_ASSUME(c1 != c2);
  VP_ASSERT(__ffdb_crc32_checksum(c1, &b, 1) != __ffdb_crc32_checksum(c2, &b, 1), "[C07] a difference in the checksum never heals");
}
static void u_crc_win(void)
{
  __ffdb_crc32_init();
  unsigned c = vp_u32(); unsigned char x[4], y[4]; unsigned d = 0; int i;
  for (i = 0; i < WIN; i++) { x[i] = vp_u8(); y[i] = vp_u8(); d |= x[i] ^ y[i]; }
  VP_ASSUME(d != 0);
  VP_ASSERT(__ffdb_crc32_checksum(c, x, WIN) != __ffdb_crc32_checksum(c, y, WIN), "[C07] any change within four bytes changes the checksum");
}
static void u_crc_fold(void)
{
  __ffdb_crc32_init();
  static unsigned char x[N + 3]; unsigned i, n, s, c = vp_u32();
  for (i = 0; i < N + 3; i++) x[i] = vp_u8();
  for (n = 0; n <= N; n++) {
    s = c;
    for (i = 0; i < n; i++) s = __ffdb_crc32_checksum(s, x + 3 + (N - n) + i, 1);
    VP_ASSERT(__ffdb_crc32_checksum(c, x + 3 + (N - n), n) == s, "[C07,C06] the checksum of a buffer is the fold of its bytes");
  }
}
/* the table is the same whenever and however often it is set up */
static void u_crc_init(void)
{
  __ffdb_crc32_init();
  unsigned char b = vp_u8(); unsigned c = vp_u32();
  unsigned r = __ffdb_crc32_checksum(c, &b, 1);
  __ffdb_crc32_init();
  VP_ASSERT(__ffdb_crc32_checksum(c, &b, 1) == r, "[C07] opening another database does not change the checksum");
  VP_ASSERT(__ffdb_crc32_checksum(c, &b, 0) == c, "[C07] an empty range leaves the checksum alone");
}
#ifdef VP_NATIVE_GRID
/* longer keys and buffers than the proofs cover, executed */
static unsigned char LA[5000], LB[5000];
static void big_cmp(unsigned l)
{
  FFDB_DBT a, b; unsigned i;
  unsigned char *p = malloc(l ? l : 1), *q = malloc(l + 1);
  for (i = 0; i < l; i++) q[i] = p[i] = vp_u8();
  a.data = p; a.size = l; b.data = q; b.size = l;
  VP_ASSERT(__ffdb_default_cmp(&a, &b) == 0, "[C02] keys compare equal exactly when length and bytes agree");
  for (i = 0; i < l; i++) { q[i] ^= 1 << (i % 8); VP_ASSERT(__ffdb_default_cmp(&a, &b) != 0 && __ffdb_default_cmp(&b, &a) != 0, "[C02] keys compare equal exactly when length and bytes agree"); q[i] = p[i]; }
  q[l] = 0; b.size = l + 1; VP_ASSERT(__ffdb_default_cmp(&a, &b) != 0 && __ffdb_default_cmp(&b, &a) != 0, "[C02] keys compare equal exactly when length and bytes agree");
}
static void big_hash(unsigned l)
{
  unsigned char *p = malloc(l ? l : 1), *q = malloc(l + 8); unsigned i, h;
  for (i = 0; i < l; i++) p[i] = vp_u8();
  h = __ffdb_default_hash(p, l);
  for (unsigned o = 0; o < 8; o++) { for (i = 0; i < l + 8; i++) q[i] = vp_u8(); memcpy(q + o, p, l); VP_ASSERT(__ffdb_default_hash(q + o, l) == h, "[C02] the hash depends on the key's bytes only"); }
}
static void big_crc(unsigned l)
{
  unsigned char *p = malloc(l ? l : 1), *q = malloc(l + 8); unsigned i, c, s, n;
  __ffdb_crc32_init(); c = vp_u32(); s = c;
  for (i = 0; i < l; i++) p[i] = vp_u8();
  for (i = 0; i < l; i++) s = __ffdb_crc32_checksum(s, p + i, 1);
  for (unsigned o = 0; o < 8; o++) { memcpy(q + o, p, l); VP_ASSERT(__ffdb_crc32_checksum(c, q + o, l) == s, "[C07,C06] the checksum of a buffer is the fold of its bytes"); }
  for (i = 0; i + 4 <= l; i += 1 + l / 64) { n = vp_u32(); if (!n) n = 1; for (int k = 0; k < 4; k++) p[i + k] ^= n >> (8 * k); VP_ASSERT(__ffdb_crc32_checksum(c, p, l) != s, "[C07] any change within four bytes changes the checksum"); for (int k = 0; k < 4; k++) p[i + k] ^= n >> (8 * k); }
}
static char nm[64];
#define GO(fn, l) do { snprintf(nm, sizeof nm, #fn " length %u", l); VP_RUN(nm, fn(l)); } while (0)
static void grid(void)
{
  for (unsigned l = 0; l < 700; l++) { GO(big_cmp, l); GO(big_hash, l); GO(big_crc, l); }
  for (unsigned l = 1000; l < 5000; l += 251) { GO(big_cmp, l); GO(big_hash, l); GO(big_crc, l); }
  GO(big_crc, 65535u); GO(big_crc, 65536u); GO(big_crc, 65537u); GO(big_crc, 1048576u - 4u); GO(big_crc, 2000003u);
}
#endif
int main(void)
{
  VP_GRID_INIT();
#ifdef VP_NATIVE_GRID
  grid();
#else
  U();
#endif
  VP_GRID_DONE();
  VP_REACH("fun end");
  return 0;
}
