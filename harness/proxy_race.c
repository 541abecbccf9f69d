/* Clients arriving and leaving at the same time, under every interleaving within the preemption bound */
#ifndef P
#define P 1
#endif
#define NCLI 8
#define NSLOT 2
#define VP_FD_BANK 16
#define VP_NFD 320
#include "net.h"
#include "stub_pearson.h"
static int serving[NSLOT];
static int check_world(void)
{
	int i, n = 0, k;

	for (i = 0; i < ncl; i++) {
		check(cl[i].state == CL_CLOSED || cl[i].admitted, "no client is left waiting");
		if (cl[i].state == CL_OPEN && !cl[i].gone)
			n++;
		if (cl[i].gone)
			check(cl[i].state == CL_CLOSED, "a departed client's connection is closed");
	}
	check(n <= NSLOT, "no more clients are admitted than there are slots");
	for (i = k = 0; i < NSLOT; i++) {
		serving[i] = -1;
		if (find_fd(slot_addr[i], 5198) < 0)
			continue;
		k++;
		serving[i] = slot_client(i);
		check(serving[i] >= 0 && cl[serving[i]].state == CL_OPEN, "a slot in use serves a client");
	}
	check(k == n, "every admitted client has its slot");
	check(NSLOT < 2 || serving[0] < 0 || serving[0] != serving[1], "a client is served by one slot");
	check(!loop_ended, "the proxy goes on accepting");
	check(reg_used == (size_t)n && reg_total == NSLOT, "the number of used slots is reported");
	return n;
}
void vp_main(void)
{
	int what, n, a, b, c, i;

	sx_preempt(-1);
	net_start();
	#ifdef WHAT
	what = WHAT;
#else
	what = nd_pick(5);
#endif
	a = b = -1;
	if (what != 0) {
		a = arrive("A", HOW_GOOD);
		settle();
		if (what >= 2) {
			b = arrive("B", HOW_GOOD);
			settle();
		}
	}
	sx_preempt(P);
	switch (what) {
	case 0:	/* two at once, with the same or different callsigns */
		b = arrive("A", HOW_GOOD);
		c = arrive(nd_bool() ? "A" : "B", HOW_GOOD);
		settle();
		sx_preempt(-1);
		check(check_world() == 2, "both are served");
		witness("two at once");
		break;
	case 1:	/* one leaves while two arrive */
		leave(a);
		b = arrive("A", nd_bool() ? HOW_GOOD : HOW_PASSWORD);
		c = arrive("B", HOW_GOOD);
		settle();
		sx_preempt(-1);
		n = check_world();
		check(n >= 1 || cl[b].how != HOW_GOOD, "at least one is served");
		if (n == 2)
			witness("one leaves and two arrive");
		break;
	case 2:	/* a full proxy: the last to use a slot leaves and comes back at once */
		leave(a);
		c = arrive("A", HOW_GOOD);
		settle();
		sx_preempt(-1);
		n = check_world();
		if (n == 1)
			check(cl[c].state == CL_CLOSED && cl[c].in_count == 0, "a connection beyond capacity is closed");
		else
			check(serving[0] == c, "a reconnecting client gets its slot back");
		break;
	case 3:	/* both leave */
		leave(b);
		leave(a);
		c = arrive("C", HOW_GOOD);
		settle();
		sx_preempt(-1);
		check_world();
		break;
	default:	/* traffic while one leaves */
		leave(a);
		message(b, 5, 0x09090909, 7);
		datagram(1, slot_addr[1], 0x01010101, 3);
		datagram(1, slot_addr[0], 0x02020202, 4);
		c = arrive("B", HOW_GOOD);
		settle();
		sx_preempt(-1);
		check(cl[b].in_count == 1, "a client gets its slot's messages");
		check(cl[c].in_count <= 1, "a client gets only what belongs to its session");
		check_world();
	}
	for (i = 0; i < ncl; i++)
		if (!cl[i].gone)
			leave(i);
	settle();
	check(check_world() == 0, "nobody is left");
	arrive("B", HOW_GOOD);
	arrive("A", HOW_GOOD);
	settle();
	check(check_world() == NSLOT, "every slot can be used again");
	net_end();
	(void)c;
}
