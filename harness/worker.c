/* A worker woken, waited for and joined by several threads */
#include <string.h>
#include <stdint.h>
#include "vp.h"
#include "os.h"
#include "worker.h"
#ifndef P
#define P 2
#endif
#ifndef OPS
#define OPS 2
#endif
static struct worker_handle w;
static int running, started, finished, joining, done, refused;
static void run(struct worker_handle *wh)
{
	check(wh == &w, "the work function gets its worker");
	check(!running, "runs of one worker never overlap");
	running = 1;
	started++;
	sx_point();
	running = 0;
	finished++;
}
static int need;	/* runs that must have started in the end */
static void one(int op)
{
	int before = started, seen = need, j, ret;

	if (op == 0) {
		j = joining;
		ret = worker_wake(&w);
		check(ret == 0 || joining, "waking a running worker succeeds");
		if (ret == 0) {
			if (need < before + 1)
				need = before + 1;
		} else {
			refused = 1;
		}
		(void)j;
	} else {
		ret = worker_wait_idle(&w);
		check(ret == 0 || joining, "waiting only fails when the worker is stopping");
		if (ret == 0)
			check(finished >= seen, "waiting for idleness waits for the work signalled before");
	}
}
static void client(void *p)
{
	int ops = (int)(intptr_t)p, i;

	for (i = 0; i < OPS; i++)
		one(ops >> i & 1);
	done++;
}
void vp_main(void)
{
	int r;
	static int quiet;

	sx_preempt(-1);
	w.func_ptr = run;
	check(worker_init(&w) == 0, "initialising succeeds");
	check(worker_wake(&w) < 0 && worker_wait_idle(&w) < 0, "a worker that was never started does nothing");
	vp_spurious = nd_bool();
	sx_preempt(P);
	check(worker_start(&w) == 0, "starting succeeds");
	sx_thread(client, (void *)(intptr_t)nd_pick(1 << OPS));
	sx_thread(client, (void *)(intptr_t)nd_pick(1 << OPS));
	if (nd_bool())
		one(0);
	joining = 1;
	check(worker_join(&w) == 0, "joining succeeds");
	check(!running && finished == started, "joining waits for the run in progress");
	check(started >= need, "work signalled successfully is done");
	check(worker_wake(&w) < 0, "a joined worker is stopped");
	check(worker_wait_idle(&w) < 0, "a joined worker is stopped");
	sx_sleep(&quiet, 2);
	check(done == 2, "nobody waits forever");
	check(started >= need && finished == started, "work signalled successfully is done");
	if (refused)
		witness("refused while stopping");
	if (started >= 2)
		witness("two runs");
	sx_preempt(-1);
	joining = 0;
	r = started;
	check(worker_start(&w) == 0 && worker_wake(&w) == 0 && worker_wait_idle(&w) == 0, "a stopped worker can be started again");
	check(finished > r, "a restarted worker works");
	joining = 1;
	worker_free(&w);
	check(vp_live == 0 && vp_thr_live == 0, "everything is released");
}
