/* Messages from several sources to one client under every interleaving within the preemption bound */
#define DGFIX 3
#define PAYCAP 64
#define DGCAP 64
#define RSFIRST 64
#include "slot.h"
#ifndef P
#define P 1
#endif
static int step;
static int script(void)
{
	if (step++ == 0) {
		next_message(1, 0x076433c6u, 0, 0);
		return 1;
	}
	if (step == 2) {
		sx_preempt(P);
		may_split = 1;
		add_datagram(K_DATA, 0);
		add_datagram(K_CTRL, 0);
		if (nd_bool())
			remote_sends();
		else
			remote_ends(0);
		if (nd_bool()) {	/* a close message or a status message in between */
			next_message(nd_bool() ? 3 : 1, 0x086433c6u, 0, 0);
			return 1;
		}
	}
	settle();
	check(om_hn == 0, "no message to the client is left incomplete");
	check(undelivered() == 0, "every datagram received is passed on to the client");
	check(dgs[0].popped && dgs[1].popped, "both ports are read");
	check(!open_pending && !tcp_dead_due, "opening and closing are reported");
	if (om_count == 4)
		witness("three messages");
	return 0;
}
void vp_main(void)
{
	sx_preempt(-1);
	slot_setup();
	client_arrives();
	check(proxy_conn_accept(&pc, &cli, "CALL", 0) == 0, "the slot is taken");
	serve();
	client_leaves();
}
