/* Unit pool: the page cache (ffdb_pagepool.c), operating system and threads by contract.
 * Every operation is started in an arbitrary state of a cache of NB pages that satisfies
 * the cache invariant (below), and must re-establish it: so histories are not bounded,
 * the number of pages cached at a time is. Enumerated: page numbers, file length, free
 * room, failing call. Symbolic: contents of all pages on disk and in memory, and of every
 * cached page whether it is modified, held (by whom, how often), waited for or locked.
 * Invariant: a page number is cached at most once, found under its number and on the LRU
 * list; an unmodified copy equals what is on disk; contents are the last committed ones. */
#include "vp.h"
#include <execinfo.h>
#include "ffdb_db.h"
#include "ffdb_pagepool.h"
#include "vpmem.h"
#define PW 10                     /* words of a page (a page size the cache is not told about when opened) */
#define PS (PW * 4)
#define UN 5                      /* page numbers that occur; the first two share a hash queue */
#ifndef PBASE
#define PBASE 0u                  /* added to every page number: places far into the file */
#endif
static const pgno_t NO[UN] = {PBASE + 1, PBASE + 1 + FFDB_HASHSIZE, PBASE + 2, PBASE + 0, PBASE + 6};
typedef struct { ffdb_bkt_t b; unsigned w[PW]; } vp_bkt;
static ffdb_pagepool_t PL;
static unsigned DK[UN][PW], C[UN][PW];  /* file, last committed content (memory form) */
static unsigned FLEN;                   /* pages in the file */
static int vp_has[UN];                  /* page has content: in the file, or cached */
static off_t vp_pos; static int vp_wn, vp_rn, vp_wfail = -1, vp_rfail = -1, vp_fkind, vp_wfailed, vp_rfailed, vp_locks, vp_rdonly, vp_exit_ok, vp_bad;
static unsigned long vp_tid = 11; static int vp_signals, vp_waits, vp_filt;
static void vp_exit(int c) { VP_ASSERT(vp_exit_ok, "[C11,C12,C14] the process is not ended"); VP_ASSUME(0); }
/* --- operating system --- */
static int vp_sn, vp_sfailed; /* seeks; whether the seek belongs to a read or a write is not known */
static off_t vp_lseek(int fd, off_t o, int wh) { if (vp_fkind == 2 && vp_sn++ == vp_wfail) { vp_sfailed = 1; errno = EIO; return -1; } return vp_pos = o; }
static int vp_uslot(pgno_t no) { for (int s = 0; s < UN; s++) if (NO[s] == no) return s; return -1; }
static ssize_t vp_io(int wr, off_t at, void *buf, size_t n)
{
#ifdef __CPROVER__
  VP_ASSUME(at % PS == 0 && n <= PS && n % 4 == 0); /* from the start of a page; the native reading has no such limit */
  if (1) {
#else
  if (at % PS == 0 && n == PS) {
#endif
    int s = vp_uslot(at / PS); unsigned *m = buf;
    VP_ASSERT(s >= 0 || !wr, "[C11] a page is written to its own place");
    VP_ASSUME(s >= 0);
    for (int j = 0; j < PW && j < (int)(n / 4); j++) if (wr) DK[s][j] = m[j]; else m[j] = DK[s][j];
  } else for (size_t i = 0; i < n; i++) {
    int s = vp_uslot((at + i) / PS); unsigned char *m = buf;
    VP_ASSERT(s >= 0 || !wr, "[C11] a page is written to its own place");
    VP_ASSUME(s >= 0);
    if (wr) ((unsigned char *)DK[s])[(at + i) % PS] = m[i]; else m[i] = ((unsigned char *)DK[s])[(at + i) % PS];
  }
  if (wr && (at + n + PS - 1) / PS > FLEN) FLEN = (at + n + PS - 1) / PS;
  return n;
}
static ssize_t vp_read_at(off_t at, void *b, size_t n)
{
  if (vp_rn++ == vp_rfail && vp_fkind < 2) { vp_rfailed = 1; errno = EIO; return vp_fkind ? (ssize_t)n / 2 : -1; }
  if (at >= (off_t)FLEN * PS) return 0;
  return vp_io(0, at, b, n);
}
static ssize_t vp_write_at(off_t at, const void *b, size_t n)
{
  VP_ASSERT(!vp_rdonly, "[C13] nothing is written to a read-only file");
  if (vp_wn++ == vp_wfail && vp_fkind < 2) { vp_wfailed = 1; errno = ENOSPC; return vp_fkind ? vp_io(1, at, (void *)b, n / 2) : -1; }
  return vp_io(1, at, (void *)b, n);
}
static ssize_t vp_read(int fd, void *b, size_t n) { ssize_t r = vp_read_at(vp_pos, b, n); if (r > 0) vp_pos += r; return r; }
static ssize_t vp_write(int fd, const void *b, size_t n) { ssize_t r = vp_write_at(vp_pos, b, n); if (r > 0) vp_pos += r; return r; }
/* --- threads: one lock; waiting lets another thread put the page back --- */
static int vp_lock(void) { VP_ASSERT(vp_locks == 0, "[C14] the lock is not taken twice"); vp_locks = 1; return 0; }
static int vp_unlock(void) { VP_ASSERT(vp_locks == 1, "[C14] only a lock that is held is let go"); vp_locks = 0; return 0; }
static void *vp_waited;           /* the page the other thread will put back */
static int vp_put_dirty;
static int vp_cond_wait(void);
/* --- memory --- */
#ifdef __CPROVER__
static vp_bkt X0, X1, X2, X3, X4; static ffdb_sbkt_t S0, S1, S2, S3; static ffdb_bkt_waiter_t W0, W1; static int vp_nx, vp_ns, vp_nw; static unsigned vp_clean[PW];
static vp_bkt *const XX[5] = {&X0, &X1, &X2, &X3, &X4}; static int vp_gone[5];
static void *vp_malloc(size_t n)
{
  if (n == sizeof(ffdb_bkt_t) + PS) { VP_ASSUME(vp_nx < 5); vp_bkt *x = XX[vp_nx++]; for (int j = 0; j < PW; j++) x->w[j] = vp_u32(); return x; }
  if (n == sizeof(ffdb_sbkt_t)) { VP_ASSUME(vp_ns < 4); switch (vp_ns++) { case 0: return &S0; case 1: return &S1; case 2: return &S2; default: return &S3; } }
  VP_ASSUME(n == sizeof(ffdb_bkt_waiter_t) && vp_nw < 2); return vp_nw++ ? &W1 : &W0;
}
static void *vp_calloc(size_t a, size_t b) { VP_ASSUME(a * b == PS); for (int j = 0; j < PW; j++) vp_clean[j] = 0; return vp_clean; }
static void vp_free(void *p) { for (int i = 0; i < 5; i++) if (p == (void *)XX[i]) { VP_ASSERT(!vp_gone[i], "[C16] memory is let go once"); vp_gone[i] = 1; for (int j = 0; j < PW; j++) XX[i]->w[j] = 0xdeaddead; } }
#else
static void *vp_malloc(size_t n) { unsigned *p = malloc(n); if (p && n >= PS) for (size_t i = 0; i < n / 4; i++) p[i] = 0xa5a5a5a5; return p; }
#define vp_calloc calloc
#define vp_free free
#endif
#define malloc(n) vp_malloc(n)
#define calloc(a,b) vp_calloc(a,b)
#define free(p) vp_free(p)
#define lseek(f,o,w) vp_lseek(f,o,w)
#define read(f,b,n) vp_read(f,b,n)
#define write(f,b,n) vp_write(f,b,n)
#define pread(f,b,n,o) vp_read_at(o,b,n)
#define pwrite(f,b,n,o) vp_write_at(o,b,n)
#define close(f) 0
#define pthread_mutex_lock(l) vp_lock()
#define pthread_mutex_unlock(l) vp_unlock()
#define pthread_mutex_init(l,a) 0
#define pthread_mutex_destroy(l) 0
#define pthread_cond_init(c,a) 0
#define pthread_cond_destroy(c) 0
#define pthread_cond_wait(c,l) vp_cond_wait()
#define pthread_cond_signal(c) (vp_signals++, 0)
#define pthread_cond_broadcast(c) (vp_signals++, 0)
#define pthread_self() ((pthread_t)vp_tid)
#define pthread_equal(a,b) ((a) == (b))
#define exit(c) vp_exit(c)
#define abort() vp_exit(134)
#ifdef __CPROVER__
#define fprintf(...) 0
#define printf(...) 0
#define backtrace(a,b) 0
#define backtrace_symbols(a,b) 0
#pragma CPROVER check push
#pragma CPROVER check enable "pointer"
#pragma CPROVER check enable "bounds"
#endif
#include "ffdb_pagepool.c"
#ifdef __CPROVER__
#pragma CPROVER check pop
#undef fprintf
#undef printf
#endif
#undef free
#undef malloc
#undef calloc
static int vp_cond_wait(void)
{
  vp_waits++;
  VP_ASSERT(vp_locks == 1, "[C14] a thread waits with the lock held");
  vp_locks = 0; unsigned long me = vp_tid;
  if (vp_waited) { vp_tid = 22; ffdb_pagepool_put_page(&PL, vp_waited, vp_put_dirty ? FFDB_PAGE_DIRTY : 0); vp_waited = 0; vp_tid = me; }
  else { VP_ASSERT(0, "[C14] a thread only waits for a page that another one holds, and is woken when it is put back"); VP_ASSUME(0); }
  vp_locks = 1; return 0;
}
/* conversion between file and memory form: an involution that depends on the page number */
static void vp_conv(void *a, pgno_t no, void *mem) { ((unsigned *)mem)[0] ^= 0x5500aa00u + no; ((unsigned *)mem)[PW - 1] = ~((unsigned *)mem)[PW - 1]; }
static unsigned dkw(int s, int j) { unsigned v = DK[s][j]; if (vp_filt) { if (j == 0) v ^= 0x5500aa00u + NO[s]; if (j == PW - 1) v = ~v; } return v; }
static unsigned dk_differs(int s, int from) { unsigned d = 0; for (int j = from; j < PW; j++) d |= dkw(s, j) ^ C[s][j]; return d; }
static unsigned mem_differs(const unsigned *m, int s) { unsigned d = 0; for (int j = 0; j < PW; j++) d |= m[j] ^ C[s][j]; return d; }

/* --- an arbitrary state of the cache --- */
#define MAXB 4
static int NB, SL[MAXB];              /* cached pages and their slots in NO, in LRU order */
static vp_bkt *B[MAXB]; static int held[MAXB], mine[MAXB], waited[MAXB], locked[MAXB], dirty[MAXB];
static ffdb_bkt_waiter_t wt;
static int STC[MAXB] = {-1, -1, -1, -1};  /* state of page i given (0..8), or -1: any */
/* 0 free clean 1 free dirty 2/3 held by me clean/dirty 4/5 held by another 6/7 waited for clean/dirty 8/9 locked 10/11 held by me twice */
static void state(int nb, const int *sl, unsigned flen, int room, int rdonly, int filt)
{
  vp_rdonly = rdonly; vp_filt = filt; NB = nb; FLEN = flen;
  vp_pos = 0; vp_wn = vp_rn = vp_sn = 0; vp_sfailed = vp_wfailed = vp_rfailed = vp_locks = vp_signals = vp_waits = 0; vp_waited = 0; vp_tid = 11;
#ifdef __CPROVER__
  vp_nx = vp_ns = vp_nw = 0; for (int i = 0; i < 5; i++) vp_gone[i] = 0;
#endif
  PL.pgin = PL.pgout = 0;
  FFDB_CIRCLEQ_INIT(&PL.lqh);
  for (int s = 0; s < UN; s++) { FFDB_CIRCLEQ_INIT(&PL.hqh[FFDB_HASHKEY(NO[s])]); }
  for (int s = 0; s < UN; s++) for (int j = 0; j < PW; j++) { DK[s][j] = NO[s] < flen ? vp_u32() : 0; C[s][j] = dkw(s, j); }
  for (int s = 0; s < UN; s++) vp_has[s] = NO[s] < flen;
  PL.pagesize = PS; PL.fd = 5; PL.npages = flen; PL.maxpgno = flen; PL.fileflags = rdonly ? FFDB_RDONLY : 0;
  PL.curcache = nb; PL.maxcache = nb - 1 + room;
  if (filt) { PL.pgin = vp_conv; PL.pgout = vp_conv; }
  for (int i = 0; i < nb; i++) {
    int s = SL[i] = sl[i];
    vp_bkt *x = B[i] = vp_malloc(sizeof(ffdb_bkt_t) + PS);
    int k = STC[i] >= 0 ? STC[i] : (int)vp_range(0, 11);
    if (rdonly) VP_ASSUME((k & 1) == 0);
    int d = dirty[i] = k & 1; held[i] = k / 2 == 1 || k / 2 == 2 ? 1 : k / 2 == 5 ? 2 : 0; mine[i] = k / 2 == 1 || k / 2 == 5; waited[i] = k / 2 == 3; locked[i] = k / 2 == 4;
    VP_ASSUME(d || NO[s] < flen);      /* a page that is not in the file yet is a modified one */
    for (int j = 0; j < PW; j++) { x->w[j] = d ? vp_u32() : C[s][j]; C[s][j] = x->w[j]; }
    vp_has[s] = 1;
    x->b.page = x->w; x->b.pgno = NO[s]; x->b.ref = held[i]; x->b.waiters = waited[i];
    x->b.flags = FFDB_PAGE_VALID | (d ? FFDB_PAGE_DIRTY : 0) | (held[i] ? FFDB_PAGE_PINNED : 0) | (locked[i] ? FFDB_PAGE_LOCKED : 0);
    x->b.owner = held[i] ? (mine[i] ? 11 : 22) : 0;
    FFDB_CIRCLEQ_INIT(&x->b.wqh);
    if (waited[i]) { wt.bp = &x->b; wt.wakeup = 1; FFDB_CIRCLEQ_INSERT_HEAD(&x->b.wqh, &wt, q); }
    FFDB_CIRCLEQ_INSERT_HEAD(&PL.hqh[FFDB_HASHKEY(NO[s])], &x->b, hq);
    FFDB_CIRCLEQ_INSERT_TAIL(&PL.lqh, &x->b, lq);
    if (NO[s] > PL.maxpgno) PL.maxpgno = NO[s];
  }
}
/* the copy under which page s is found, 0: none */
static ffdb_bkt_t *find(int s)
{ ffdb_bkt_t *b; int n = 0; FFDB_CIRCLEQ_FOREACH(b, &PL.hqh[FFDB_HASHKEY(NO[s])], hq) { if (b->pgno == NO[s]) return b; VP_ASSERT(++n <= MAXB + 1, "[C11] the queue of a page ends"); } return 0; }
/* the invariant, with the content the operation must have left; skip: slot not looked at */
static void inv(int skip)
{
  ffdb_bkt_t *b; int cnt[UN], n = 0;
  VP_ASSERT(vp_locks == 0, "[C14] the lock is let go");
  for (int s = 0; s < UN; s++) cnt[s] = 0;
  FFDB_CIRCLEQ_FOREACH(b, &PL.lqh, lq) {
    for (int s = 0; s < UN; s++) if (b->pgno == NO[s]) { VP_ASSERT(find(s) == b, "[C11] a cached page is found under its number, and no other copy"); }
    VP_ASSERT(++n <= MAXB + 1, "[C11] the list of cached pages ends"); VP_ASSUME(n <= MAXB + 1);
  }
  for (int s = 0; s < UN; s++) if (s != skip) {
    b = find(s);
    if (!b) { if (vp_has[s]) VP_ASSERT(dk_differs(s, 0) == 0, "[C11,C12] a page that is no longer cached is on disk as last committed"); }
    else {
      VP_ASSERT(mem_differs(b->page, s) == 0, "[C11] a cached page holds what was last committed");
      int on = 0; ffdb_bkt_t *q; FFDB_CIRCLEQ_FOREACH(q, &PL.lqh, lq) on += q == b;
      VP_ASSERT(on == 1, "[C11] what is found is cached");
      if (!(b->flags & FFDB_PAGE_DIRTY)) VP_ASSERT(dk_differs(s, 0) == 0, "[C11,C12] a cached page that counts as unmodified equals what is on disk");
    }
  }
}
/* pages held or waited for before, other than page i, are still there, where they were, still held */
static void kept(int i)
{
  for (int k = 0; k < NB; k++) if (k != i && (held[k] || waited[k])) {
    VP_ASSERT(find(SL[k]) == &B[k]->b, "[C11,C14] a page in use is not evicted");
    VP_ASSERT(B[k]->b.ref == (unsigned)held[k] && B[k]->b.waiters == (unsigned)waited[k] && B[k]->b.page == (void *)B[k]->w, "[C11,C14] a page in use stays in use");
    VP_ASSERT(!held[k] || ((B[k]->b.flags & FFDB_PAGE_PINNED) && B[k]->b.owner == (mine[k] ? 11 : 22)), "[C11,C14] a page in use stays in use");
  }
  for (int k = 0; k < NB; k++) if (k != i && locked[k]) VP_ASSERT(find(SL[k]) == &B[k]->b, "[C11] a locked page stays in memory");
}
static int cached_at(int s) { for (int i = 0; i < NB; i++) if (SL[i] == s) return i; return -1; }
/* --- get --- */
static void op_get(int s, unsigned fl)
{
  pgno_t no = NO[s]; void *mem = (void *)1; int i = cached_at(s);
  if (i >= 0 && held[i] && !mine[i]) vp_waited = B[i]->w;
  if (i >= 0) VP_ASSUME(!waited[i]);  /* the waiter's own turn: see op_wait */
  int r = ffdb_pagepool_get_page(&PL, &no, fl, &mem);
  VP_ASSERT(no == NO[s], "[C11] the page asked for is the page returned");
  if (vp_rdonly && (fl & FFDB_PAGE_DIRTY)) { VP_ASSERT(r != 0, "[C13] a page is not modified in a read-only file"); inv(-1); kept(-1); return; }
  if (vp_rfailed) { VP_ASSERT(r != 0, "[C12] a page that could not be read is not handed out"); inv(-1); kept(-1); return; }
  if (vp_sfailed && r != 0) { inv(-1); kept(-1); return; } /* the seek that failed may have been the one for reading */
  VP_ASSERT(r == 0, "[C11,C12] a page can always be had");
  VP_ASSUME(r == 0);
  ffdb_bkt_t *b = find(s);
  VP_ASSERT(b && b->page == mem, "[C11] what is handed out is the cached page");
  VP_ASSUME(b && b->page == mem);
  if (vp_has[s]) VP_ASSERT(mem_differs(mem, s) == 0, "[C11] the page handed out has the content last committed");
  else {
    unsigned d = 0, z = ((unsigned *)mem)[0]; for (int j = 1; j < 8; j++) d |= ((unsigned *)mem)[j];
    if (vp_filt && z == 0x5500aa00u + NO[s]) z = 0; /* read from a hole in the file */
    VP_ASSERT(d == 0 && z == 0, "[C11] a page that was never written starts with zeros");
    for (int j = 0; j < PW; j++) C[s][j] = ((unsigned *)mem)[j];
  }
  VP_ASSERT((b->flags & FFDB_PAGE_PINNED) && b->owner == 11 && b->ref == 1u + (i >= 0 && mine[i] ? held[i] : 0), "[C14,C11] a page handed out is held once more by who asked for it");
  if (fl & (FFDB_PAGE_DIRTY | FFDB_PAGE_EDIT)) VP_ASSERT(b->flags & FFDB_PAGE_DIRTY, "[C11] a page asked for to be modified is written later");
  if (i >= 0 && dirty[i]) VP_ASSERT((b->flags & FFDB_PAGE_DIRTY) || dk_differs(s, 0) == 0, "[C11] a modified page stays modified");
  for (int k = 0; k < NB; k++) if (k != i && (held[k] || waited[k])) VP_ASSERT(mem != (void *)B[k]->w, "[C11] the memory of a page in use is not handed out");
  kept(i); inv(vp_has[s] ? -1 : s);
}
/* --- put: i is held by me --- */
static void op_put(int i, unsigned fl)
{
  VP_ASSUME(held[i] && mine[i]);
  int s = SL[i], d = dirty[i] || (fl & FFDB_PAGE_DIRTY), wq = 0;
  if (d && !vp_rdonly) for (int j = 0; j < PW; j++) { B[i]->w[j] = vp_u32(); C[s][j] = B[i]->w[j]; } /* what the holder wrote, now committed */
  if (held[i] == 1 && vp_bool()) { wq = 1; wt.bp = &B[i]->b; wt.wakeup = 0; B[i]->b.waiters = 1; FFDB_CIRCLEQ_INSERT_HEAD(&B[i]->b.wqh, &wt, q); }
  int r = ffdb_pagepool_put_page(&PL, B[i]->w, fl);
  VP_ASSERT(r == 0, "[C14] a page that is held can be put back");
  VP_ASSERT(B[i]->b.ref == (unsigned)held[i] - 1, "[C14] a put lets go once");
  if (held[i] == 1) VP_ASSERT(!(B[i]->b.flags & FFDB_PAGE_PINNED), "[C14] a page nobody holds is not pinned");
  else VP_ASSERT((B[i]->b.flags & FFDB_PAGE_PINNED) && B[i]->b.owner == 11, "[C14,C11] a page still held stays pinned");
  if (wq) VP_ASSERT(wt.wakeup != 0 && vp_signals > 0, "[C14] who waits for the page is woken");
  if (d) VP_ASSERT(B[i]->b.flags & FFDB_PAGE_DIRTY, "[C11,C12] a modified page is written later");
  kept(i); inv(-1);
}
/* --- move a held page to another number that is not cached --- */
static void op_change(int i, int t)
{
  VP_ASSUME(held[i] == 1 && mine[i] && cached_at(t) < 0 && !vp_rdonly);
  int s = SL[i];
  for (int j = 0; j < PW; j++) { B[i]->w[j] = vp_u32(); C[t][j] = B[i]->w[j]; }
  vp_has[s] = 0; vp_has[t] = 1;
  int r = ffdb_pagepool_change_page(&PL, B[i]->w, NO[t]);
  VP_ASSERT(r == 0, "[C15,C14] a page held once can be moved");
  VP_ASSERT(find(s) == 0, "[C15,C11] a moved page is no longer found under its old number");
  VP_ASSERT(find(t) == &B[i]->b, "[C15,C11] a moved page is found under its new number");
  VP_ASSERT((B[i]->b.flags & FFDB_PAGE_DIRTY) || dk_differs(t, 0) == 0, "[C15,C11,C12] a moved page is written to its new place");
  VP_ASSERT(!(B[i]->b.flags & FFDB_PAGE_PINNED) && B[i]->b.ref == 0, "[C14] a moved page is let go");
  VP_ASSERT(PL.npages > NO[t], "[C15,C11] the file is known to reach to the moved page");
  if (!vp_wfailed && !vp_sfailed && NO[s] < FLEN) { unsigned d = 0; for (int j = 0; j < PW; j++) d |= DK[s][j]; VP_ASSERT(d == 0, "[C15] the old place of a moved page is empty"); }
  kept(i); inv(s);
}
static void op_delete(int i)
{
  VP_ASSUME(held[i] && mine[i]);
  int s = SL[i];
  if (dirty[i]) for (int j = 0; j < PW; j++) { B[i]->w[j] = vp_u32(); C[s][j] = B[i]->w[j]; }
  int r = ffdb_pagepool_delete(&PL, B[i]->w);
  if (held[i] > 1) VP_ASSERT(r != 0, "[C11,C14] a page still held elsewhere is not dropped");
  else if (!vp_wfailed && !vp_sfailed) VP_ASSERT(r == 0, "[C14] a page held once can be dropped");
  if (vp_wfailed || vp_sfailed) VP_ASSERT(r != 0, "[C12] a page that could not be written is not dropped silently");
  if (r == 0) VP_ASSERT(find(s) == 0, "[C11] a dropped page is no longer cached");
  kept(i); inv(-1);
}
static void op_sync(void)
{
  int r = ffdb_pagepool_sync(&PL);
  VP_ASSERT((r != 0) == (vp_wfailed || vp_sfailed), "[C12] sync reports whether every page could be written");
  for (int k = 0; k < NB; k++) if (!held[k] && !waited[k]) {
    VP_ASSERT(find(SL[k]) == &B[k]->b, "[C11] sync keeps the pages");
    if (r == 0) VP_ASSERT(dk_differs(SL[k], 0) == 0 && !(B[k]->b.flags & FFDB_PAGE_DIRTY), "[C06,C11,C12] after sync every page nobody holds is on disk");
  }
  kept(-1); inv(-1);
}
/* another page is asked for, not asked to modify; then an evicted page again: also the file's known length is right */
static void op_getget(int s, int t, unsigned fl)
{
  pgno_t no = NO[s]; void *mem = 0; int had = vp_has[s];
  VP_ASSUME(cached_at(s) < 0 && !vp_rdonly);
  if (ffdb_pagepool_get_page(&PL, &no, fl, &mem) != 0) return;
  if (!had) for (int j = 0; j < PW; j++) C[s][j] = ((unsigned *)mem)[j]; else VP_ASSERT(mem_differs(mem, s) == 0, "[C11] the page handed out has the content last committed");
  int i = cached_at(t); if (i >= 0) VP_ASSUME(!waited[i] && !(held[i] && !mine[i]));
  pgno_t no2 = NO[t]; void *mem2 = 0; int had2 = vp_has[t];
  int r = ffdb_pagepool_get_page(&PL, &no2, FFDB_PAGE_CREATE, &mem2);
  if (vp_rfailed || (vp_sfailed && r != 0)) return;
  VP_ASSERT(r == 0 && mem2 != mem, "[C11] two pages are two pieces of memory");
  if (had2) VP_ASSERT(mem_differs(mem2, t) == 0, "[C11] the page handed out has the content last committed, evicted or not");
  VP_ASSERT(mem_differs(mem, s) == 0, "[C11] a page in use is not touched");
}
static void op_new(int s)
{
  pgno_t no = NO[s]; void *mem = 0;
  VP_ASSUME(cached_at(s) < 0 && !vp_rdonly);
  int r = ffdb_pagepool_new_page(&PL, &no, FFDB_PAGE_REQUEST | FFDB_PAGE_DIRTY, &mem);
  VP_ASSERT(r == 0 && no == NO[s] && mem, "[C05,C11] a page can be made under a given number");
  VP_ASSUME(r == 0);
  ffdb_bkt_t *b = find(s);
  VP_ASSERT(b && b->page == mem && (b->flags & FFDB_PAGE_PINNED) && (b->flags & FFDB_PAGE_DIRTY) && b->ref == 1, "[C11,C14] a new page is held by who asked for it and will be written");
  unsigned d = 0; for (int j = 0; j < 8; j++) d |= ((unsigned *)mem)[j];
  VP_ASSERT(d == 0, "[C11] a new page starts with zeros");
  for (int k = 0; k < NB; k++) if (held[k] || waited[k]) VP_ASSERT(mem != (void *)B[k]->w, "[C11] the memory of a page in use is not handed out");
  for (int j = 0; j < PW; j++) C[s][j] = ((unsigned *)mem)[j];
  kept(-1); inv(s);
}
/* closing writes everything nobody holds */
static void op_close(void)
{
#ifndef __CPROVER__
  ffdb_pagepool_t *p = malloc(sizeof *p); (void)p;
#endif
  int ok[MAXB]; for (int k = 0; k < NB; k++) ok[k] = !held[k] && !waited[k];
  vp_locks = 0; ffdb_pagepool_sync(&PL);
  for (int k = 0; k < NB; k++) if (ok[k] && !vp_wfailed) VP_ASSERT(dk_differs(SL[k], 0) == 0, "[C06,C11] closing writes every modified page");
}
static void go(int op, int a, unsigned b, int nb, const int *sl, unsigned flen, int room, int rdonly, int filt, int wf, int rf, int fk)
{
  state(nb, sl, flen, room, rdonly, filt); vp_wfail = wf; vp_rfail = rf; vp_fkind = fk;
  switch (op) { case 0: op_get(a, b); break; case 1: op_put(a, b); break; case 2: op_change(a, b); break; case 3: op_delete(a); break; case 4: op_sync(); break; case 5: op_getget(a, b, FFDB_PAGE_CREATE); break; case 6: op_new(a); break; }
}
/* the operation may be called in this state (its precondition); concrete states only */
static int pre(int op, int a, unsigned b, int nb, const int *sl, unsigned flen, int rdonly)
{
  for (int i = 0; i < nb; i++) {
    int k = STC[i]; if (k < 0) continue;
    if (!(k & 1) && NO[sl[i]] >= flen) return 0;
    if (rdonly && (k & 1)) return 0;
    for (int h = 0; h < i; h++) if (sl[h] == sl[i]) return 0;
    int me = k / 2 == 1 || k / 2 == 5;
    if ((op == 0 || op == 5) && sl[i] == a && k / 2 == 3) return 0;
    if (op == 5 && (sl[i] == a || (sl[i] == (int)b && (k / 2 == 3 || k / 2 == 2)))) return 0;
    if (op == 6 && sl[i] == a) return 0;
    if ((op >= 1 && op <= 3) && i == a && !me) return 0;
    if (op == 2 && ((i == a && k / 2 == 5) || sl[i] == (int)b)) return 0;
  }
  if (op >= 1 && op <= 3 && a >= nb) return 0;
  if (rdonly && (op == 2 || op >= 5)) return 0;
  if (op == 5 && a == (int)b) return 0;
  return 1;
}
static const char *const opn[] = {"get", "put", "move", "drop", "sync", "get-get", "new"};
/* k: state of the cached pages, 12 per page, or -1: any */
static void G(int op, int a, unsigned b, int nb, int s0, int s1, int s2, unsigned flen, int room, int rdonly, int filt, int wf, int rf, int fk, int k)
{
  int sl[3] = {s0, s1, s2}; flen += PBASE;
  for (int i = 0, q = k; i < nb; i++) { STC[i] = k < 0 ? -1 : q % 12; if (k >= 0) q /= 12; }
  if (!pre(op, a, b, nb, sl, flen, rdonly)) return;
#ifndef __CPROVER__
  snprintf(vp_scen, 256, "%s %d %u, cached %d (%d %d %d) states %d, file of %u pages, room %d, read-only %d, converted %d, write fault %d read fault %d kind %d", opn[op], a, b, nb, s0, s1, s2, k, flen, room, rdonly, filt, wf, rf, fk);
#endif
  go(op, a, b, nb, sl, flen, room, rdonly, filt, wf, rf, fk);
}
#define FX ((unsigned)FFDB_HASHSIZE + 2)   /* a file that holds every page number but the last */
/* every state of three cached pages, of the kinds that matter for evicting and writing: free, free modified, held, waited for, locked modified */
static const int KD[5] = {0, 1, 3, 7, 9};
static void st3(int from, int to, int op, int a, unsigned b, int s0, int s1, int s2, unsigned flen, int room, int filt, int wf, int rf, int fk)
{ for (int k = from; k < to; k++) G(op, a, b, 3, s0, s1, s2, flen, room, 0, filt, wf, rf, fk, KD[k % 5] + 12 * KD[k / 5 % 5] + 144 * KD[k / 25]); }
static void st2(int op, int a, unsigned b, int s0, int s1, unsigned flen, int room, int filt, int wf, int rf, int fk)
{ for (int k = 0; k < 25; k++) G(op, a, b, 2, s0, s1, 0, flen, room, 0, filt, wf, rf, fk, KD[k % 5] + 12 * KD[k / 5]); }
/* sorting the pages to be written: any page numbers */
static void sort(int n)
{
#ifdef __CPROVER__
  static ffdb_bkt_t bb[5]; static ffdb_sbkt_t sb[5];
#else
  ffdb_bkt_t *bb = calloc(n + 1, sizeof *bb); ffdb_sbkt_t *sb = calloc(n + 1, sizeof *sb);
#endif
  ffdb_slh_t h; ffdb_sbkt_t *e; FFDB_SLIST_INIT(&h);
  unsigned bits = vp_u32();
  for (int i = 0; i < n; i++) { bb[i].pgno = vp_u32() >> (1 + bits % 25); bb[i].ref = 0; sb[i].bp = &bb[i]; FFDB_SLIST_INSERT_HEAD(&h, &sb[i], sl); }
  _ffdb_slist_merge_sort(&h);
  int c = 0; pgno_t last = 0;
  FFDB_SLIST_FOREACH(e, &h, sl) {
    VP_ASSERT(++c <= n, "[C11,C12] every page to be written is in the sorted list once"); VP_ASSUME(c <= n);
    VP_ASSERT(c == 1 || last <= e->bp->pgno, "[C11] pages are written in the order of their numbers");
    last = e->bp->pgno; e->bp->ref++;
  }
  VP_ASSERT(c == n, "[C11,C12] every page to be written is in the sorted list once");
  for (int i = 0; i < n; i++) VP_ASSERT(bb[i].ref == 1, "[C11,C12] every page to be written is in the sorted list once");
}
static void SORT(int n)
{
#ifndef __CPROVER__
  for (int r = 0; r < 40; r++) { char nm[60]; snprintf(nm, sizeof nm, "sort %d pages, %d", n, r); VP_RUN(nm, sort(n)); }
#else
  sort(n);
#endif
}
static void grid3(int k, unsigned flen, int room, int filt)
{
      for (int s = 0; s < UN; s++) G(0, s, k % 3, 3, 0, 1, 2, flen, room, 0, filt, -1, -1, 0, k);
      G(4, 0, 0, 3, 1, 0, 3, flen, room, 0, filt, -1, -1, 0, k); G(4, 0, 0, 3, 0, 4, 2, flen, room, 0, filt, k % 3, -1, k / 3 % 3, k);
      G(5, 3, 0, 3, 0, 1, 2, flen, room, 0, filt, -1, -1, 0, k); G(5, 4, 1, 3, 1, 0, 2, flen, room, 0, filt, -1, -1, 0, k); G(5, 3, 0, 3, 0, 1, 2, flen, room, 0, filt, k % 2, -1, k / 2 % 3, k);
      G(6, 4, 0, 3, 0, 1, 2, flen, room, 0, filt, -1, -1, 0, k);
      for (int i = 0; i < 3; i++) { G(1, i, k % 2 ? 2 : 0, 3, 0, 1, 2, flen, room, 0, filt, -1, -1, 0, k); G(2, i, 3, 3, 0, 1, 2, flen, room, 0, filt, -1, -1, 0, k); G(2, i, 1, 3, 0, 4, 2, flen, room, 0, filt, -1, -1, 0, k); G(3, i, 0, 3, 1, 0, 2, flen, room, 0, filt, i == 2 ? 0 : -1, -1, k % 3, k); G(2, i, 4, 3, 0, 1, 2, flen, room, 0, filt, 0, -1, k % 3, k); }
}
static void grid2(int k, int f, unsigned flen, int room, int filt)
{
      for (int s = 0; s < UN; s++) { G(0, s, k % 3, 2, 0, 1, 0, flen, room, 0, filt, -1, 0, f, k); G(0, s, k % 3, 2, 2, 1, 0, flen, room, 0, filt, 0, -1, f, k); G(0, s, k % 3, 2, 2, 1, 0, flen, room, 0, filt, 1, 0, f, k); G(0, s, f, 2, 0, 1, 0, flen, room, 1, filt, -1, -1, 0, k); }
      G(4, 0, 0, 2, 0, 1, 0, flen, room, 1, filt, -1, -1, 0, k); G(1, 0, 0, 2, 0, 1, 0, flen, room, 1, filt, -1, -1, 0, k);
}
int main(void)
{
  VP_GRID_INIT();
#ifdef VP_NATIVE_GRID
  for (int n = 0; n < 40; n++) SORT(n);
  for (int filt = 0; filt < 2; filt++) for (int fl = 0; fl < 2; fl++) for (int room = 0; room < 2; room++) {
    unsigned flen = fl ? FX : 3;
    char nm[40]; snprintf(nm, sizeof nm, "%u %d %d", flen, room, filt);
    for (int k = 0; k < 1728; k++) VP_RUN(nm, grid3(k, flen, room, filt));
    for (int k = 0; k < 144; k++) for (int f = 0; f < 3; f++) VP_RUN(nm, grid2(k, f, flen, room, filt));
  }
#else
  SCEN
#endif
  VP_GRID_DONE();
  VP_REACH("pool end");
  return 0;
}
