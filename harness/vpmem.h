/* Models of the C library's block functions (CBMC only; natively the real ones run).
 * Copies are exact, byte by byte, and are obliged to stay inside their objects. */
#ifndef VPMEM_H
#define VPMEM_H
#ifdef __CPROVER__
static void vp_copy(void *dv, const void *sv, size_t n)
{
  unsigned char *d = dv; const unsigned char *s = sv;
  if (n == 0) return;
  VP_ASSERT(VP_OKW(d, n), "[C16] block written lies inside its object");
  VP_ASSERT(VP_OKR(s, n), "[C16] block read lies inside its object");
  if (VP_SAME(d, s) && VP_OFF(d) > VP_OFF(s))
    for (size_t j = n; j > 0; j--) d[j-1] = s[j-1];
  else {
    size_t j = 0;
    if (VP_OFF(d) % 4 == 0 && VP_OFF(s) % 4 == 0)
      for (; j + 4 <= n; j += 4) *(unsigned *)(d + j) = *(const unsigned *)(s + j);
    for (; j < n; j++) d[j] = s[j];
  }
}
static void vp_set(void *dv, int c, size_t n)
{
  unsigned char *d = dv;
  if (n == 0) return;
  VP_ASSERT(VP_OKW(d, n), "[C16] block written lies inside its object");
  for (size_t j = 0; j < n; j++) d[j] = (unsigned char)c;
}
#define memcpy(d,s,n)  vp_copy((d),(s),(n))
#define memmove(d,s,n) vp_copy((d),(s),(n))
#define memset(d,c,n)  vp_set((d),(c),(n))
#endif
#endif
