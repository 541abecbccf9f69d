/* The TCP relay under every interleaving within the preemption bound: opening, and opening again while the first
 * connection ends, is sent something or has just been opened; what the remote host sends or does at once */
#define DGFIX 3
#define PAYCAP 64
#define DGCAP 64
#define RSFIRST 64
static void connected(void);
#define H_CONNECTED() connected()
#include "slot.h"
#ifndef P
#define P 1
#endif
static int step, greet, opens;
static void connected(void)
{
	if (greet & 1)
		remote_sends();
	if (greet & 2)
		remote_ends(0);
	greet = 0;
}
static void all_told(void)
{
	settle();
	check(om_hn == 0, "no message to the client is left incomplete");
	check(!open_pending && st_sent == opens, "every open request is answered once");
	check(!tcp_dead_due, "the end of a connection is reported with a close message");
	check(count_open(K_TCP) == (tcp_up && !tcp_dead), "one socket per connection, for as long as it lasts");
	if (tcp_up && !tcp_dead)
		check(rs_deliv == rs_have, "everything the remote host sends is passed on");
}
static void an_open(void)
{
	next_message(1, 0x076433c6u + (uint32_t)opens, 0, 0);
	opens++;
}
static int script(void)
{
	static int first;
	int e;

	switch (step++) {
	case 0:
		first = nd_bool();
		if (first) {	/* only the first connection, but closely */
			sx_preempt(P);
			greet = nd_pick(4);
		}
		an_open();
		return 1;
	case 1:
		if (first)
			break;
		settle();
		sx_preempt(P);
		e = nd_pick(4);
		if (e & 1)
			remote_sends();
		if (e & 2)
			remote_ends(0);
		switch (nd_pick(3)) {
		case 0:
			may_fail_tcp = 1;
			next_message(2, 0, 3, 0);
			return 1;
		case 1:
			next_message(3, 0, 0, 0);
			return 1;
		}
		step++;
		/* fall through */
	case 2:
		greet = nd_pick(4);
		may_fail_connect = 1;
		an_open();
		return 1;
	}
	all_told();
	if (tcp_up && !tcp_dead)
		witness("still open");
	/* whatever happened, the connection is there or can be had */
	if (tcp_up && !tcp_dead) {
		remote_sends();
		settle();
		check(rs_deliv == rs_have, "the connection is relayed");
	}
	return 0;
}
void vp_main(void)
{
	sx_preempt(-1);
	slot_setup();
	client_arrives();
	check(proxy_conn_accept(&pc, &cli, "CALL", 0) == 0, "the slot is taken");
	serve();
	client_leaves();
}
