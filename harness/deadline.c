/* The deadline of a timed wait, for every clock reading and duration */
#include <string.h>
#include <stdint.h>
#include <time.h>
#include "vp.h"
static void deadline(const struct timespec *ts);
#define H_DEADLINE(ts) deadline(ts)
#define OS_CUSTOM_TIME
#include "os.h"
#include "mutex.h"
static struct timespec now;
static uint32_t msec;
static int waited;
int vp_clock_gettime(clockid_t c, struct timespec *t)
{
	*t = now;
	if (c != CLOCK_REALTIME)
		t->tv_sec = (time_t)nd_u32();	/* an unrelated clock */
	return 0;
}
int vp_gettimeofday(struct timeval *t, void *z)
{
	(void)z;
	t->tv_sec = now.tv_sec;
	t->tv_usec = now.tv_nsec / 1000;
	return 0;
}
time_t vp_time(time_t *t)
{
	if (t != NULL)
		*t = now.tv_sec;
	return now.tv_sec;
}
static void deadline(const struct timespec *ts)
{
	long s = ts->tv_sec - now.tv_sec;
	long n = ts->tv_nsec - now.tv_nsec, c;

	waited = 1;
	check((ts->tv_nsec >= 0) & (ts->tv_nsec < 1000000000), "the deadline is a valid time");
	/* s and n are what was added to seconds and nanoseconds: with or without a carry */
	c = s - (long)(msec / 1000);
	check((c == 0) | (c == 1), "the deadline is the requested number of seconds away");
	check(n + c * 1000000000 == (long)(msec % 1000) * 1000000, "the deadline is exactly the requested time away");
}
void vp_main(void)
{
	struct mutex_handle m = { 0 };
	struct condvar_handle c = { 0 };

	check(mutex_init(&m) == 0 && condvar_init(&c) == 0, "initialising succeeds");
	now.tv_sec = (time_t)(nd_u64() & 0x3fffffffffffffffUL);
	now.tv_nsec = nd_range(0, 999999999);
	msec = nd_u32();
	mutex_lock(&m);
	condvar_wait_time(&c, &m, msec);
	check(waited, "a timed wait waits until a deadline");
	mutex_unlock(&m);
	condvar_free(&c);
	mutex_free(&m);
	witness("timed out");
}
