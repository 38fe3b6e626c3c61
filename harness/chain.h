/* Ghost state and invariant shared by the units over buckets: the pairs stored (G), the pages
 * of each bucket, and what it means that a bucket's chain is sound. NEWDATA and NEWOVFL number
 * the pages the scenario lays out. */
#define KMAX 72
#define MAXG 24
static struct { unsigned b, page, idx, kl, dl, nb; unsigned dpage, doff, chk; unsigned char k[KMAX], v[4]; int seen; } G[MAXG];
static unsigned hib; /* high bits of the lengths (version 6), in place */
static int gn; static unsigned npg, dslot, dcur, dpos; static unsigned B0[8], chain[8][8]; static int nchain[8];
/* the checksum's contract: a fixed (unknown) value per datum here */
static unsigned vp_sum[MAXG]; static int vp_sum_bad;
unsigned int __ffdb_crc32_checksum(unsigned int crc, const unsigned char *buf, long len)
{ unsigned c = vp_crc_key; for (long i = 0; i < len && i < 4; i++) c = (c << 5 | c >> 27) ^ buf[i]; return c ^ (unsigned)len << 12; }
/* a key's first byte names the pair; in the symbolic reading the first four bytes are fixed, the others any (key sizes there: multiples of 4) */
#ifdef __CPROVER__
#define KST 4
#define KB(i) ((i) < 4 ? 0x40 + (i) : vp_u8())
#else
#define KST 1
#define KB(i) vp_u8()
#endif
static int gfind(const void *k, unsigned n)
{
  const unsigned char *p = k; int g = n ? p[0] - 1 : -1;
  if (g < 0 || g >= gn || G[g].kl != n) return -1;
  unsigned d = 0; for (unsigned i = 0; i < n; i++) d |= p[i] ^ G[g].k[i];
#ifdef __CPROVER__
  VP_ASSERT(d == 0, "[C04,C02] a key is moved whole"); d = 0;
#endif
  return d ? -1 : g;
}
/* contract of the hash: bucket of the key under the new table size */
unsigned int _ffdb_call_hash(ffdb_htab_t *h, const void *k, unsigned int n)
{ int g = gfind(k, n); VP_ASSERT(g >= 0, "[C04] every key that is moved is one that was stored"); VP_ASSUME(g >= 0); return G[g].nb; }
/* contract of the comparison (unit fun) */
static int vp_compare(const FFDB_DBT *a, const FFDB_DBT *b)
{
  if (a->size != b->size) return 1;
#ifdef __CPROVER__
  if (a->size && ((unsigned char *)a->data)[0] != ((unsigned char *)b->data)[0]) return 1;
#endif
  unsigned d = 0; for (long i = 0; i < a->size; i++) d |= ((unsigned char *)a->data)[i] ^ ((unsigned char *)b->data)[i];
#ifdef __CPROVER__
  VP_ASSERT(d == 0, "[C02] keys are compared as they are stored, whole"); d = 0;
#endif
  return d != 0;
}
static unsigned bpage(unsigned b) { unsigned s = __ffdb_log2(b + 1); return b ? b - (1u << (s - 1)) + H.hdr.spares[s] : H.hdr.spares[0]; }
/* one more pair on key page slot s; its datum, dl bytes, on a data page */
static int entry(int s, unsigned b, unsigned kl, unsigned dl)
{
  unsigned char *p = (unsigned char *)vp_D[s]; unsigned n = NUM_ENT(p), off = OFFSET(p) + 1 - kl, doff = (off - 16) & ~3u;
  if (off < 16 || doff < PAGE_OVERHEAD + (n + 1) * PAIR_OVERHEAD || kl + 31 > OFFSET(p) + 1 - (PAGE_OVERHEAD + n * PAIR_OVERHEAD) || gn >= MAXG) return 0;
  if (dcur == 0 || dpos + 20 + dl > BS) {
    if (vp_nused >= NP - 6) return 0;
    unsigned prev = dcur ? dcur : INVALID_PGNO; dcur = NEWDATA(dcur); dslot = vp_page(dcur); VP_RAND_PAGE(dslot); vp_hdr(dslot, HASH_DATA_PAGE, prev, INVALID_PGNO, 0, 32);
    FIRST_DATA_POS(vp_D[dslot]) = 32; dpos = 32; if (prev != INVALID_PGNO) NEXT_PGNO(vp_D[vp_slot(prev)]) = dcur; H.curr_dpage = dcur;
  }
  int g = gn++; G[g].b = G[g].nb = b; G[g].page = vp_no[s]; G[g].idx = n; G[g].kl = kl; G[g].dl = dl; G[g].dpage = dcur; G[g].doff = dpos; G[g].seen = 0;
  G[g].k[0] = g + 1; for (unsigned i = 1; i < kl; i++) G[g].k[i] = KB(i);
  for (unsigned i = 0; i < dl; i++) G[g].v[i] = vp_u8();
  for (unsigned i = 0; i < kl; i++) p[off + i] = G[g].k[i];
  KEY_OFF(p, n) = off; KEY_LEN(p, n) = kl; DATAP_OFF(p, n) = doff;
  ffdb_datap_t *dp = DATAP(p, n); dp->first = dcur; dp->offset = dpos | hib; dp->len = dl; dp->chksum = G[g].chk = __ffdb_crc32_checksum(0, G[g].v, dl);
  NUM_ENT(p) = n + 1; OFFSET(p) = doff - 1;
  unsigned char *d = (unsigned char *)vp_D[dslot]; ffdb_data_header_t *h = BIG_DATA_HEADER(d, dpos);
  h->len = dl; h->status = H.data_valid_flag | hib; h->key_page = vp_no[s]; h->key_idx = n;
  for (unsigned i = 0; i < dl; i++) d[dpos + 20 + i] = G[g].v[i];
  unsigned nx = (dpos + 20 + dl + 3) & ~3u; if (nx + 20 >= BS) nx = 0; h->next = nx; NUM_ENT(d) = NUM_ENT(d) + 1; HIGHEST_FREE(d) = nx; dpos = nx ? nx : BS;
  return 1;
}
/* a page of bucket b with up to n pairs of key size kl, kl+st, ... */
static int kpage(unsigned b, int n, unsigned kl, unsigned st)
{
  if (nchain[b] && (gn >= MAXG || kl + 31 > BS - PAGE_OVERHEAD || ((dcur == 0 || dpos + 20 + (unsigned)(gn % 3) > BS) && vp_nused + 1 >= NP - 6))) return 0; /* overflow pages are never empty */
  unsigned no = nchain[b] ? NEWOVFL : bpage(b); int s = vp_page(no); VP_RAND_PAGE(s);
  vp_hdr(s, HASH_BUCKET_PAGE, nchain[b] ? chain[b][nchain[b] - 1] : INVALID_PGNO, INVALID_PGNO, 0, BS - 1);
  if (nchain[b]) NEXT_PGNO(vp_D[vp_slot(chain[b][nchain[b] - 1])]) = no;
  chain[b][nchain[b]++] = no;
  for (int i = 0; i < n; i++) if (!entry(s, b, kl + st * i, (unsigned)(gn % 3))) break;
  return s;
}
/* bucket b's chain from its primary page: every page well formed and linked both ways, every
 * entry one of the pairs of this bucket, with its own data pointer, known to its datum */
static int owner[128];
static void check_chain(unsigned b, int who)
{
  unsigned no = bpage(b), prev = INVALID_PGNO; int cnt = 0;
  while (no != INVALID_PGNO) {
    int s = vp_slot(no); VP_ASSERT(s >= 0, "[C04,C05] a bucket's pages exist"); VP_ASSUME(s >= 0);
    unsigned char *p = (unsigned char *)vp_D[s];
    VP_ASSERT(no < 128 && owner[no < 128 ? no : 0] == 0, "[C05,C04] no page serves two purposes"); owner[no < 128 ? no : 0] = 1;
    VP_ASSERT(vp_wf_key(s), "[C01,C04,C08,C15] key pages stay well formed");
    VP_ASSERT(PREV_PGNO(p) == prev, "[C15,C05] key pages are linked backwards");
    if (cnt) VP_ASSERT(NUM_ENT(p) > 0, "[C09] no overflow page is empty");
    for (unsigned i = 0; i < NUM_ENT(p); i++) {
      int g = gfind(p + KEY_OFF(p, i), KEY_LEN(p, i));
      VP_ASSERT(g >= 0, "[C04,C02,C03] only stored keys are in a bucket"); if (g < 0) continue;
      VP_ASSERT(!G[g].seen, "[C04] no pair is duplicated"); G[g].seen = 1;
      VP_ASSERT(G[g].nb == b, "[C04,C02] every key is in its own bucket");
      ffdb_datap_t *d = DATAP(p, i);
      VP_ASSERT(d->first == G[g].dpage && d->offset == (G[g].doff | hib) && d->len == G[g].dl && d->chksum == G[g].chk, "[C04,C01] a key keeps its datum");
      ffdb_data_header_t *h = BIG_DATA_HEADER(vp_D[vp_slot(G[g].dpage)], G[g].doff);
      VP_ASSERT(h->key_page == no && h->key_idx == i, "[C04,C15] a datum knows its key");
      VP_ASSERT(h->len == G[g].dl && h->status == (H.data_valid_flag | hib), "[C04,C01] a datum stays as it is");
    }
    prev = no; no = NEXT_PGNO(p);
    if (++cnt > 12) { VP_ASSERT(0, "[C04,C05] a bucket's chain ends"); break; }
  }
}
static void all_seen(void) { for (int g = 0; g < gn; g++) { VP_ASSERT(G[g].seen, "[C04,C01] every pair stays reachable"); G[g].seen = 0; } }
static void check_data(void)
{ for (int i = 0; i < vp_nused; i++) if (TYPE(vp_D[i]) == HASH_DATA_PAGE) if (!hib) { VP_ASSERT(vp_wf_data(i), "[C01,C04] data pages stay well formed"); }
  for (int g = 0; g < gn; g++) { unsigned d = 0; for (unsigned j = 0; j < G[g].dl; j++) d |= ((unsigned char *)vp_D[vp_slot(G[g].dpage)])[G[g].doff + 20 + j] ^ G[g].v[j]; VP_ASSERT(d == 0, "[C01,C04] a datum stays as it is"); } }
/* no page listed free is in use; every page that left a chain is listed or a list page */
static void check_free(void)
{
  for (unsigned lv = 0; lv < 5; lv++) {
    unsigned no = H.hdr.free_pages[lv]; int n = 0;
    while (no != INVALID_PGNO && n++ < 4) {
      int s = vp_slot(no); VP_ASSERT(s >= 0 && TYPE(vp_D[s < 0 ? 0 : s]) == HASH_FREE_PAGE, "[C05] a free list is on free list pages"); VP_ASSUME(s >= 0);
      VP_ASSERT(owner[no] == 0, "[C05] a page in use is not listed free"); owner[no] = 2;
      for (unsigned k = 0; k < NUM_FREE_PAGES(vp_D[s]); k++) { unsigned e = FREE_PAGE(vp_D[s], k); VP_ASSERT(e < 128 && owner[e < 128 ? e : 0] == 0, "[C05] a page in use is not listed free, nor a free page twice"); owner[e < 128 ? e : 0] = 2; }
      no = NEXT_PGNO(vp_D[s]);
    }
  }
  for (int i = 0; i < vp_nused; i++) if (TYPE(vp_D[i]) == HASH_BUCKET_PAGE) VP_ASSERT(owner[vp_no[i]] == 1, "[C05,C04] a page that looks like a bucket's belongs to a bucket");
}
