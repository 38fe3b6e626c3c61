/* Shared harness vocabulary: one source, two readings.
 *   - under CBMC (__CPROVER__): nondeterministic inputs, assumptions, obligations
 *   - natively: the recorded inputs of a counterexample are fed back, the
 *     obligations are evaluated on the real, compiled code (replay)
 * An obligation's text starts with the properties it belongs to: "[C01,C05] ..." */
#ifndef VP_H
#define VP_H
/* memory-safety checks are generated for the code under check (see VP_CODE_BEGIN), not for harness code */
#ifdef __CPROVER__
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <assert.h>
#include <pthread.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>

#ifdef __CPROVER__
unsigned int nondet_uint(void);
static unsigned int vp_u32(void) { unsigned int vp_nd = nondet_uint(); return vp_nd; }
#define VP_ASSERT(c, msg) __CPROVER_assert((c), msg)
#define VP_ASSUME(c) __CPROVER_assume(c)
/* reachability witness: must FAIL for the proof not to be vacuous */
#define VP_REACH(name) __CPROVER_assert(0, "REACH " name)
#define VP_OKW(p,n) __CPROVER_w_ok((p),(n))
#define VP_OKR(p,n) __CPROVER_r_ok((p),(n))
#define VP_SAME(p,q) __CPROVER_same_object((p),(q))
#define VP_OFF(p) ((size_t)__CPROVER_POINTER_OFFSET(p))
#else
unsigned int vp_u32(void);
void vp_fail(const char *msg, const char *file, int line);
void vp_skip(const char *what, const char *file, int line);
#define VP_ASSERT(c, msg) do { if (!(c)) vp_fail(msg, __FILE__, __LINE__); } while (0)
#define VP_ASSUME(c) do { if (!(c)) vp_skip(#c, __FILE__, __LINE__); } while (0)
#define VP_REACH(name) do {} while (0)
#endif
/* one scenario: proved for all symbolic inputs under CBMC, executed in a child of its own in a native grid */
#ifdef __CPROVER__
#define VP_RUN(name, call) do { call; } while (0)
#define VP_GRID_INIT() ((void)0)
#define VP_GRID_DONE() ((void)0)
static const int vp_grid = 0;
#else
extern int vp_grid; extern char vp_scen[256];
int vp_begin(const char *name); void vp_end(void); void vp_grid_init(void); void vp_grid_done(void);
#define VP_RUN(name, call) do { if (vp_begin(name)) { call; vp_end(); } } while (0)
#define VP_GRID_INIT() vp_grid_init()
#define VP_GRID_DONE() vp_grid_done()
#endif
static unsigned char vp_u8(void) { return (unsigned char)vp_u32(); }
static int vp_bool(void) { return (int)(vp_u32() & 1u); }
static unsigned long vp_u64(void) { unsigned long h = vp_u32(); return (h << 32) | vp_u32(); }
/* a value in [lo,hi] */
static unsigned vp_range(unsigned lo, unsigned hi)
{ unsigned v = vp_u32(); if (vp_grid && (v < lo || v > hi)) v = lo + v % (hi - lo + 1); VP_ASSUME(v >= lo && v <= hi); return v; }
#endif
