/* Unit fun_loop: filehash/ffdb_hash_func.c, lengths without a bound. The loops of the real file get the
 * contracts of loops.json (goto-instrument --loop-contracts-file), nothing is written into the source. */
#include <stdlib.h>
#include "ffdb_db.h"
#include "ffdb_hash_func.c"
unsigned nondet_uint(void); long nondet_long(void);
unsigned char *A, *B; long NA, NB, NM, G;
#define ASSERT __CPROVER_assert
#define ASSUME __CPROVER_assume
static void keys(void)
{
  NA = nondet_long(); NB = nondet_long(); ASSUME(NA >= 0 && NA <= (1L << 31) && NB >= 0 && NB <= (1L << 31));
  NM = NA < NB ? NA : NB;
  A = malloc(NA); B = malloc(NB); ASSUME(A && B);
}
/* two keys that differ in the byte at G, any G, are told apart; nothing outside them is read, nothing written */
void l_cmp_differ(void)
{
  FFDB_DBT a, b; keys();
  G = nondet_long(); ASSUME(G >= 0 && G < NM && A[G] != B[G]);
  a.data = A; a.size = NA; b.data = B; b.size = NB;
  int r = __ham_defcmp(&a, &b);
  ASSERT(r != 0, "[C02] keys that differ in one byte compare different");
  ASSERT(0, "REACH differ");
}
/* two keys of different length are told apart */
void l_cmp_len(void)
{
  FFDB_DBT a, b; keys(); ASSUME(NA != NB); G = NM;
  a.data = A; a.size = NA; b.data = B; b.size = NB;
  int r = __ham_defcmp(&a, &b);
  ASSERT(r != 0, "[C02] keys of different length compare different");
  ASSERT(0, "REACH len");
}
/* the same bytes at two places compare equal */
void l_cmp_equal(void)
{
  FFDB_DBT a, b; keys(); ASSUME(NA == NB); G = NM;
  __CPROVER_array_copy(B, A);
  a.data = A; a.size = NA; b.data = B; b.size = NB;
  int r = __ham_defcmp(&a, &b);
  ASSERT(r == 0, "[C02] equal keys compare equal");
  ASSERT(0, "REACH equal");
}
void l_crc(void)
{
  NM = nondet_long(); ASSUME(NM >= 0 && NM <= (1L << 40));
  A = malloc(NM); ASSUME(A);
  __ffdb_crc32_checksum(nondet_uint(), A, NM);
  ASSERT(0, "REACH crc");
}
void l_hash(void)
{
  NM = nondet_uint();
  A = malloc(NM); ASSUME(A);
  __ham_func5(A, NM);
  ASSERT(0, "REACH hash");
}
