/* Native side of the replay: feeds the solver's values, in order, to the harness running against the real compiled
 * code. Threads are real threads of which exactly one runs at a time, in the order the counterexample says. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>

static unsigned long *vals;
static size_t nvals, pos;

static unsigned long pop(void)
{
	if (pos >= nvals) {
		static int extra;
		if (++extra > 200000) {
			fprintf(stderr, "REPLAY-EXHAUSTED\n");
			_exit(78);
		}
		return 0;
	}
	return vals[pos++];
}
unsigned long sx_nd(void) { return pop(); }
unsigned long sx_choose(unsigned long n)
{
	unsigned long v = pop();
	return v < n ? v : 0;
}
void sx_fill(void *p, size_t n)
{
	size_t i;
	for (i = 0; i < n; i++)
		((unsigned char *)p)[i] = (unsigned char)pop();
}
void sx_assume(unsigned long c)
{
	if (!c) {
		fprintf(stderr, "REPLAY-DIVERGED assumption not met (value %zu of %zu)\n", pos, nvals);
		_exit(77);
	}
}
void sx_check(unsigned long c, const char *msg)
{
	if (!c) {
		fprintf(stderr, "CHECK-FAILED: %s\n", msg);
		_exit(66);
	}
}
void sx_witness(const char *msg) { (void)msg; }
void sx_log(const char *msg, unsigned long v) { fprintf(stderr, "log: %s %ld\n", msg, (long)v); }
void sx_stop(void)
{
	fprintf(stderr, "REPLAY-COMPLETED without a failed check\n");
	_exit(0);
}

/* ---- threads ---- */
#define NT 1264
static struct thr {
	pthread_t t;
	void (*fn)(void *);
	void *arg;
	int stat;		/* 0 runnable, 1 sleeping, 2 done */
	const void *key;
	int timed, timedout;
	pthread_cond_t cv;
} thr[NT];
static int nthr = 1, cur;
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static __thread int self;

int sx_self(void) { return self; }
static void deadlock(void)
{
	fprintf(stderr, "CHECK-FAILED: every thread waits for an event that can never come\n");
	_exit(66);
}
/* handing over; when looking for data races in a way that orders nothing in the code under test */
static void hold(void)
{
#ifndef VP_TSAN
	pthread_mutex_lock(&big);
#endif
}
static void let_go(void)
{
#ifndef VP_TSAN
	pthread_mutex_unlock(&big);
#endif
}
static void await_turn(void)
{
#ifdef VP_TSAN
	while (__atomic_load_n(&cur, __ATOMIC_SEQ_CST) != self)
		sched_yield();
#else
	while (cur != self)
		pthread_cond_wait(&thr[self].cv, &big);
#endif
}
static void call_up(int to)
{
#ifdef VP_TSAN
	__atomic_store_n(&cur, to, __ATOMIC_SEQ_CST);
#else
	cur = to;
	pthread_cond_signal(&thr[to].cv);
#endif
}
static void turn(int to)
{
	if (to < 0 || to >= nthr || thr[to].stat == 2 || (thr[to].stat == 1 && !thr[to].timed)) {
		int i;
		for (i = 0; i < nthr; i++)
			if (thr[i].stat == 0 || (thr[i].stat == 1 && thr[i].timed))
				break;
		if (i == nthr)
			deadlock();
		if (pos >= nvals)
			to = i;
		else {
			fprintf(stderr, "REPLAY-DIVERGED thread %d cannot run (value %zu of %zu)\n", to, pos, nvals);
			_exit(77);
		}
	}
	if (thr[to].stat == 1) {
		thr[to].stat = 0;
		thr[to].timedout = 1;
	}
	if (to == cur)
		return;
	call_up(to);
	if (thr[self].stat != 2)
		await_turn();
}
static void *body(void *p)
{
	struct thr *t = p;
	self = (int)(t - thr);
	hold();
	await_turn();
	t->fn(t->arg);
	t->stat = 2;
	turn((int)pop());
	let_go();
	return NULL;
}
int sx_thread(void (*fn)(void *), void *arg)
{
	int i = nthr++;
	thr[i].fn = fn;
	thr[i].arg = arg;
	pthread_cond_init(&thr[i].cv, NULL);
	pthread_create(&thr[i].t, NULL, body, &thr[i]);
	return i;
}
void sx_point(void)
{
	if (nthr > 1)
		turn((int)pop());
}
int sx_sleep(const void *key, int timed)
{
	thr[self].stat = 1;
	thr[self].key = key;
	thr[self].timed = timed;
	thr[self].timedout = 0;
	turn((int)pop());
	return thr[self].timedout;
}
void sx_wake(const void *key, int all)
{
	int i, n = 0, k;
	for (i = 0; i < nthr; i++)
		if (thr[i].stat == 1 && thr[i].key == key)
			n++;
	if (n == 0)
		return;
	k = all ? -1 : (int)pop();
	for (i = 0; i < nthr; i++)
		if (thr[i].stat == 1 && thr[i].key == key) {
			if (all || k == 0)
				thr[i].stat = 0;
			k--;
		}
}

unsigned long sx_same(const void *a, const void *b, size_t n)
{
	return n == 0 || memcmp(a, b, n) == 0;
}
void vp_main(void);
int main(int argc, char **argv)
{
	FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
	unsigned long v;

	if (f != NULL) {
		while (fscanf(f, "%lu", &v) == 1) {
			vals = realloc(vals, (nvals + 1) * sizeof(*vals));
			vals[nvals++] = v;
		}
		fclose(f);
	}
	pthread_cond_init(&thr[0].cv, NULL);
	hold();
	vp_main();
	fprintf(stderr, "REPLAY-COMPLETED without a failed check\n");
	_exit(0);
}

void sx_preempt(int n) { (void)n; }
#ifdef VP_TSAN
extern void __tsan_acquire(const void *), __tsan_release(const void *);
void sx_acquire(const void *p) { __tsan_acquire(p); }
void sx_release(const void *p) { __tsan_release(p); }
#else
void sx_acquire(const void *p) { (void)p; }
void sx_release(const void *p) { (void)p; }
#endif
