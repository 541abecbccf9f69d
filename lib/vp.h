/* Verification primitives, usable both in symbolic execution (engine/sx) and natively (replay).
 *
 * In symbolic execution every environment choice is a fresh unconstrained symbolic value; natively the same call
 * pops the value the solver chose, so that a counterexample runs against the real compiled code. */
#ifndef VP_H_
#define VP_H_
#include <stddef.h>
#include <stdint.h>

extern unsigned long sx_nd(void);		/* arbitrary value */
extern unsigned long sx_choose(unsigned long n);	/* each of 0..n-1, explored separately */
extern void sx_fill(void *p, size_t n);		/* arbitrary bytes */
extern void sx_assume(unsigned long c);
extern void sx_check(unsigned long c, const char *msg);
extern void sx_witness(const char *msg);	/* must be reached, or the harness is vacuous */
extern void sx_log(const char *msg, unsigned long v);
extern void sx_stop(void);			/* end of this path */
extern int sx_self(void);			/* running thread */
extern int sx_thread(void (*fn)(void *), void *arg);
extern void sx_preempt(int n);			/* from here on at most n preemptions; -1: one fixed schedule */
extern void sx_acquire(const void *sync);	/* for the search for data races: what was released here happened before */
extern void sx_release(const void *sync);
extern void sx_point(void);			/* another thread may run here */
extern int sx_sleep(const void *key, int timed);	/* 1: the time ran out */
extern void sx_wake(const void *key, int all);
extern unsigned long sx_same(const void *a, const void *b, size_t n);	/* only as (part of) a check: decided for one arbitrary position */
#ifdef VP_SX
extern void *sx_alloc(size_t n, int zero);
extern void sx_free(void *p);
extern size_t sx_size(const void *p);
extern unsigned long sx_concretize(unsigned long v);
extern int sx_branch(unsigned long c);	/* explored separately for each outcome */
#else
#define sx_branch(c) (!!(c))
#define sx_concretize(v) (v)
#endif

#define assume(c) sx_assume(!!(c))
#define check(c, msg) sx_check(!!(c), msg)
#define witness(msg) sx_witness(msg)

#define VP_UNUSED __attribute__((unused))
static VP_UNUSED unsigned char nd_u8(void) { return (unsigned char)sx_nd(); }
static VP_UNUSED unsigned int nd_u32(void) { return (unsigned int)sx_nd(); }
static VP_UNUSED unsigned long nd_u64(void) { return sx_nd(); }
static VP_UNUSED int nd_int(void) { return (int)sx_nd(); }
static VP_UNUSED int nd_bool(void) { return (int)sx_choose(2); }
static VP_UNUSED int nd_pick(int n) { return (int)sx_choose((unsigned long)n); }
/* arbitrary value in [lo, hi] */
static VP_UNUSED long nd_range(long lo, long hi)
{
	long v = (long)sx_nd();

	assume((v >= lo) & (v <= hi));
	return v;
}
#endif
