/* Two sessions on one slot: whatever the first client leaves behind, the second starts afresh; then the slot is torn down */
#define NDG 6
#define GONE_N 3
#define PAYCAP 300
#define DGCAP 300
#define RSFIRST 300
#include "slot.h"
#ifndef EVENTS
#define EVENTS 2
#endif
static int step, relayed, opened2;
static int script(void)
{
	if (session == 1) {
		for (;;) {
			if (step == EVENTS)
				return 0;
			step++;
			switch (nd_pick(6)) {
			case 0:
				add_datagram(nd_bool() ? K_DATA : K_CTRL, 0);
				break;
			case 1:
				may_fail_connect = 1;
				next_message(1, 0x076433c6u, 0, 0);
				return 1;
			case 2:
				if (!tcp_up || tcp_dead)
					sx_stop();
				remote_sends();
				break;
			case 3:
				may_fail_client = 1;
				settle();
				break;
			case 4:
				next_message(5 + nd_bool(), nd_u32(), 20, nd_bool());
				return 1;
			case 5:
				if (!tcp_up || tcp_dead)
					sx_stop();
				remote_ends(0);
				break;
			}
		}
	}
	/* the second session works */
	may_fail_client = may_fail_connect = 0;
	switch (step++ - EVENTS) {
	case 0:
		next_message(1, 0x086433c6u, 0, 0);
		return 1;
	case 1:
		settle();
		check(tcp_up && !tcp_dead && !open_pending, "a later client can open a connection");
		remote_sends();
		add_datagram(K_DATA, 0);
		add_datagram(K_CTRL, 0);
		settle();
		check(undelivered() == 0 && rs_deliv == rs_have, "a later client gets everything that arrives for it");
		check(dgs[ndg - 1].popped && dgs[ndg - 2].popped, "both ports are read for a later client");
		witness("second session");
		next_message(6, nd_u32(), 10, 0);
		return 1;
	}
	return 0;
}
void vp_main(void)
{
	char calls[2][8] = { "W1AW", "K2XYZ" };

	slot_setup();
	client_arrives();
	check(proxy_conn_accept(&pc, &cli, calls[0], 0) == 0, "the slot is taken");
	check(proxy_conn_in_use(&pc), "the slot is in use");
	serve();
	client_leaves();
	check(!proxy_conn_in_use(&pc), "the slot is free after the session");
	step = EVENTS;
	om_hn = 0;
	client_arrives();
	check(proxy_conn_accept(&pc, &cli, nd_bool() ? calls[0] : calls[1], 0) == 0, "the slot can be taken again");
	serve();
	client_leaves();
	proxy_conn_free(&pc);
	conn_free(&lis);
	check(vp_fd_live == 0, "no descriptor is left");
	check(vp_thr_live == 0, "no thread is left");
	check(vp_live == 0 && vp_ai_live == 0, "no memory is left");
}
