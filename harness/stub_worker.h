/* worker.h boundary: captures the work function so that the harness decides when a signalled worker runs.
 * One signal, one run, as worker.c guarantees (property worker-signals). */
#include "worker.h"
#ifndef STUB_NWORKERS
#define STUB_NWORKERS 8
#endif
struct stub_worker {
	struct worker_handle *wh;
	int live, started, signaled, running;
};
static struct stub_worker sw[STUB_NWORKERS];
static int sw_n;
static int sw_index(struct worker_handle *wh)
{
	int i;
	for (i = 0; i < STUB_NWORKERS; i++)
		if (i < sw_n && sw[i].live && sw[i].wh == wh)
			return i;
	return -1;
}
#ifndef SW_ON_WAIT_IDLE		/* called when a thread waits for a worker that is signalled or running */
#define SW_ON_WAIT_IDLE(i) sw_run(i)
#endif
#ifndef SW_ON_WAKE
#define SW_ON_WAKE(i) ((void)0)
#endif
static void sw_run(int i) VP_UNUSED;
static void sw_run(int i)
{
	if (sw[i].live && sw[i].signaled && !sw[i].running) {
		sw[i].signaled = 0;
		sw[i].running = 1;
		sw[i].wh->func_ptr(sw[i].wh);
		sw[i].running = 0;
	}
}
int worker_init(struct worker_handle *wh)
{
	check(sw_n < STUB_NWORKERS, "model: worker table large enough");
	assume(sw_n < STUB_NWORKERS);
	if (vp_fault(vp_fault_malloc))
		return -ENOMEM;
	sw[sw_n].wh = wh;
	sw[sw_n].live = 1;
	wh->priv = &sw[sw_n];
	sw_n++;
	return 0;
}
int worker_start(struct worker_handle *wh)
{
	int i = sw_index(wh);
	check(i >= 0, "only initialised workers are started");
	assume(i >= 0);
	if (vp_fault(vp_fault_pthread))
		return -EAGAIN;
	sw[i].started = 1;
	return 0;
}
int worker_wake(struct worker_handle *wh)
{
	int i = sw_index(wh);
	check(i >= 0, "only initialised workers are signalled");
	assume(i >= 0);
	if (!sw[i].started)
		return -EINVAL;
	sw[i].signaled = 1;
	SW_ON_WAKE(i);
	return 0;
}
int worker_wait_idle(struct worker_handle *wh)
{
	int i = sw_index(wh);
	check(i >= 0, "only initialised workers are waited for");
	assume(i >= 0);
	if (!sw[i].started)
		return -EINVAL;
	if (sw[i].signaled || sw[i].running)
		SW_ON_WAIT_IDLE(i);
	return 0;
}
int worker_is_idle(struct worker_handle *wh)
{
	int i = sw_index(wh);
	return i >= 0 && sw[i].started && !sw[i].signaled && !sw[i].running;
}
int worker_join(struct worker_handle *wh)
{
	int i = sw_index(wh);
	check(i >= 0, "only initialised workers are joined");
	assume(i >= 0);
	if (sw[i].started && (sw[i].signaled || sw[i].running))
		SW_ON_WAIT_IDLE(i);
	sw[i].started = 0;
	return 0;
}
void worker_free(struct worker_handle *wh)
{
	if (wh->priv != NULL) {
		int i = sw_index(wh);
		check(i >= 0, "only initialised workers are freed");
		assume(i >= 0);
		worker_join(wh);
		sw[i].live = 0;
		wh->priv = NULL;
	}
}
