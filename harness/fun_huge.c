/* Unit fun_huge: the checksum of more than 4 GiB, executed. Expected value by the
 * algebra of the code (a run of zero bytes is a power of a linear map), not by a loop. */
#define _GNU_SOURCE
#include "vp.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include "ffdb_hash_func.c"
static unsigned T(unsigned i) { unsigned c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; return c; }
static unsigned times(const unsigned *m, unsigned v) { unsigned r = 0; for (int i = 0; v; v >>= 1, i++) if (v & 1) r ^= m[i]; return r; }
static unsigned zeros(unsigned c, unsigned long n)  /* n zero bytes more */
{
  unsigned m[32], q[32]; for (int i = 0; i < 32; i++) { unsigned v = 1u << i; m[i] = (v >> 8) ^ T(v & 255); }
  for (; n; n >>= 1) { if (n & 1) c = times(m, c); for (int i = 0; i < 32; i++) q[i] = times(m, m[i]); for (int i = 0; i < 32; i++) m[i] = q[i]; }
  return c;
}
static void big(unsigned long n)
{
  struct rlimit rl; getrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_CPU, &rl);
  unsigned char *p = mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) vp_skip("address space", __FILE__, __LINE__);
  unsigned long at[4] = {5, n / 2, 0x80000001ul % n, n - 1}; unsigned c = 0xffffffffu; unsigned long pos = 0;
  for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) if (at[j] > at[i]) { unsigned long t = at[i]; at[i] = at[j]; at[j] = t; }
  for (int i = 0; i < 4; i++) { if (i && at[i] == at[i - 1]) continue; p[at[i]] = 17 + i; c = zeros(c, at[i] - pos); c = (c >> 8) ^ T((c ^ p[at[i]]) & 255); pos = at[i] + 1; }
  c = zeros(c, n - pos) ^ 0xffffffffu;
  __ffdb_crc32_init();
  VP_ASSERT(__ffdb_crc32_checksum(0, p, (long)n) == c, "[C07] every byte is covered, beyond 4 GiB as well");
}
int main(void)
{
  vp_grid_init();
  VP_RUN("3000 bytes", big(3000)); VP_RUN("100000001 bytes", big(100000001ul)); VP_RUN("4 GiB and 3 bytes", big((1ul << 32) + 3));
  vp_grid_done();
  return 0;
}
