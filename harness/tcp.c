/* The TCP relay: opening (again), data both ways, closing from either side, failures of each transfer */
#include "slot.h"
#ifndef STEPS
#define STEPS 4
#endif
static int step, last;
static void after(void)
{
	settle();
	check(om_hn == 0, "no message to the client is left incomplete");
	check(!open_pending, "every open request is answered");
	check(!tcp_dead_due, "the end of a connection is reported with a close message");
	if (tcp_up && !tcp_dead)
		check(rs_deliv == rs_have, "everything the remote host sends is passed on");
	if (tcp_up && tcp_dead)
		check(vp_fds[tcp_fd - VP_FD0].closed, "a connection that ended is closed");
	check(count_open(K_TCP) == (tcp_up && !tcp_dead), "one socket per connection");
	check(!cli_gone && !vp_fds[cli_fd - VP_FD0].shut, "the client stays connected");
}
static int script(void)
{
	for (;;) {
		if (step > 0)
			after();
		if (step == STEPS) {
			if (st_sent == 2)
				witness("opened twice");
			return 0;
		}
		step++;
		last = step == 1 ? 1 : 1 + nd_pick(5);
		if (last >= 4 && !(tcp_up && !tcp_dead)) {
			sx_stop();	/* same as not acting at all */
		}
		switch (last) {
		case 1:
			may_fail_connect = 1;
			next_message(1, 0x076433c6u + (uint32_t)step, 0, 0);
			return 1;
		case 2:
			may_fail_tcp = 1;
			{
				unsigned long n = nd_len();

				assume(n <= (cm_n < 2 ? PAYCAP : 5000));
				next_message(2, nd_u32(), n, 0);
			}
			return 1;
		case 3:
			next_message(3, nd_u32(), 0, 0);
			return 1;
		case 4:
			remote_sends();
			break;
		case 5:
			last = nd_pick(4);
			if (last >= 2)
				remote_sends();
			remote_ends(last == 0 ? EIO : last == 3 ? ECONNRESET : 0);
			witness("the remote host closes");
			break;
		}
	}
}
void vp_main(void)
{
	slot_setup();
	client_arrives();
	check(proxy_conn_accept(&pc, &cli, "CALL", 0) == 0, "the slot is taken");
	serve();
	client_leaves();
}
