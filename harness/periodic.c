/* A periodic worker nobody wakes runs after every period; joining it still works at any time */
#include <string.h>
#include <stdint.h>
#include "vp.h"
static void due(void);
#define H_DEADLINE(ts) due()
#include "os.h"
#include "worker.h"
#ifndef P
#define P 1
#endif
static struct worker_handle w;
static int running, started, finished, waits, joining, owed;
static void due(void)
{
	waits++;
	check(!running, "the period is waited for between runs");
	check(finished >= vp_timeouts || joining, "work is done after each period");
}
static void run(struct worker_handle *wh)
{
	(void)wh;
	check(!running, "runs of one worker never overlap");
	running = 1;
	started++;
	sx_point();
	running = 0;
	finished++;
}
void vp_main(void)
{
	int wake = nd_bool(), early = nd_bool();
	static int quiet;

	sx_preempt(-1);
	w.func_ptr = run;
	w.periodic_wake = nd_u32();
	assume(w.periodic_wake != 0);
	check(worker_init(&w) == 0, "initialising succeeds");
	sx_preempt(P);
	check(worker_start(&w) == 0, "starting succeeds");
	if (wake)
		check(worker_wake(&w) == 0, "waking succeeds");
	if (!early) {
		sx_sleep(&quiet, 2);
		check(waits > 0, "a periodic worker waits for its period");
		check(finished >= vp_timeouts && finished >= wake, "work is done after each period");
		if (vp_timeouts == 2)
			witness("two periods");
	}
	joining = 1;
	check(worker_join(&w) == 0, "joining succeeds");
	check(!running && finished == started, "joining waits for the run in progress");
	worker_free(&w);
	check(vp_live == 0 && vp_thr_live == 0, "everything is released");
	(void)owed;
}
