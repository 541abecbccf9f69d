/* Reader/writer locks and conditions used by several threads at once */
#include <string.h>
#include <stdint.h>
#include "vp.h"
#include "os.h"
#include "mutex.h"
#ifndef P
#define P 2
#endif
#ifndef NT
#define NT 3
#endif
static struct mutex_handle m;
static struct condvar_handle c;
static int writers, readers, tokens, done, got, waited, shared_at_once, blocked_behind;
static void enter_exclusive(void)
{
	check(writers == 0, "no two threads hold a lock exclusively");
	check(readers == 0, "no thread shares a lock that another holds exclusively");
	writers++;
}
static void work(void *p)
{
	int op = (int)(intptr_t)p;

	switch (op) {
	case 0:
		check(mutex_lock(&m) == 0, "locking succeeds");
		enter_exclusive();
		sx_point();
		check(writers == 1 && readers == 0, "an exclusive lock stays exclusive");
		writers--;
		check(mutex_unlock(&m) == 0, "unlocking succeeds");
		break;
	case 1:
		check(mutex_lock_shared(&m) == 0, "locking succeeds");
		check(writers == 0, "no thread shares a lock that another holds exclusively");
		readers++;
		if (readers > 1)
			shared_at_once = 1;
		sx_point();
		check(writers == 0, "no thread takes a shared lock exclusively");
		readers--;
		check(mutex_unlock_shared(&m) == 0, "unlocking succeeds");
		break;
	case 2:
	case 3:
		check(mutex_lock(&m) == 0, "locking succeeds");
		enter_exclusive();
		while (tokens == 0) {
			writers--;
			waited = 1;
			if (op == 2)
				check(condvar_wait(&c, &m) == 0, "waiting succeeds");
			else
				condvar_wait_time(&c, &m, 1000);
			enter_exclusive();
		}
		tokens--;
		got++;
		writers--;
		check(mutex_unlock(&m) == 0, "unlocking succeeds");
		break;
	default:
		check(mutex_lock(&m) == 0, "locking succeeds");
		enter_exclusive();
		tokens++;
		writers--;
		if (op == 4)
			check(condvar_wake_one(&c) == 0, "waking succeeds");
		else
			check(condvar_wake_all(&c) == 0, "waking succeeds");
		check(mutex_unlock(&m) == 0, "unlocking succeeds");
	}
	done++;
	sx_release(&done);
}
void vp_main(void)
{
	int i, op, waits = 0, wakes = 0, prev = 0;
	static int quiet;

	sx_preempt(P);
	vp_spurious = nd_bool();
	check(mutex_init(&m) == 0 && condvar_init(&c) == 0, "initialising succeeds");
	for (i = 0; i < NT; i++) {
		op = prev + nd_pick(6 - prev);	/* the order of creation does not matter */
		prev = op;
		waits += op == 2 || op == 3;
		wakes += op >= 4;
		sx_thread(work, (void *)(intptr_t)op);
	}
	sx_point();
	for (i = wakes; i < waits; i++) {
		mutex_lock(&m);
		enter_exclusive();
		tokens++;
		writers--;
		condvar_wake_all(&c);
		mutex_unlock(&m);
	}
	sx_sleep(&quiet, 2);
	sx_acquire(&done);
	check(done == NT, "nobody waits forever");
	check(got == waits, "no wake-up is lost");
	if (waited)
		witness("waited");
	if (shared_at_once)
		witness("two at once share");
	condvar_free(&c);
	mutex_free(&m);
	check(vp_live == 0, "everything is released");
}
