/* Shutting down while clients are in every phase */
#ifndef P
#define P 1
#endif
#ifndef NSLOT
#define NSLOT 1
#endif
#define NCLI 4
#define NET_TCP
#define NET_CONNECT_BLOCKS
#define NET_LOOP_WAKE
#include "net.h"
#include "stub_pearson.h"
static void tcp_open(int c)
{
	message(c, 1, 0x08080808, 0);
	cl[c].msg[5] = 0;
	cl[c].msg_n = 9;
}
void vp_main(void)
{
	int what, a = -1, b = -1, late, before, i;

	sx_preempt(-1);
	net_start();
	what = nd_pick(11);
	switch (what) {
	case 0:	/* nobody */
		break;
	case 1:	/* a client that does not answer */
		a = arrive("A", HOW_SILENT);
		settle();
		check(cl[a].out_n == 8, "setup");
		break;
	case 2:	/* a client on its way */
		sx_preempt(P);
		a = arrive("A", HOW_GOOD);
		break;
	case 3:	/* served, and quiet */
		a = arrive("A", HOW_GOOD);
		settle();
		break;
	case 4:	/* served, and sending */
		a = arrive("A", HOW_GOOD);
		settle();
		sx_preempt(P);
		message(a, 5 + nd_bool(), 0x07070707, 1);
		break;
	case 5:	/* with a TCP connection */
		a = arrive("A", HOW_GOOD);
		settle();
		tcp_open(a);
		settle();
		check(tcp_n == 1, "setup");
		break;
	case 6:	/* making a TCP connection */
		a = arrive("A", HOW_GOOD);
		settle();
		connect_blocks = 1;
		tcp_open(a);
		settle();
		check(tcp_n == 1, "setup");
		break;
	case 7:	/* about to make one */
		a = arrive("A", HOW_GOOD);
		settle();
		connect_blocks = nd_bool();
		sx_preempt(P);
		tcp_open(a);
		break;
	case 8:	/* leaving */
		a = arrive("A", HOW_GOOD);
		settle();
		sx_preempt(P);
		leave(a);
		break;
	case 9:	/* being turned away */
		sx_preempt(P);
		a = arrive("A", nd_bool() ? HOW_PASSWORD : HOW_GONE);
		break;
	case 10: /* a datagram for it */
		a = arrive("A", HOW_GOOD);
		settle();
		sx_preempt(P);
		datagram(nd_bool(), slot_addr[0], 0x05050505, 40);
		break;
	}
	late = nd_bool();
	if (nd_bool())
		settle();
	sx_preempt(P);
	proxy_shutdown(&ph);
	check(reg_total == 0, "the registrar is told that no slot is left");
	before = cl_accepted;
	if (late) {
		b = arrive("B", HOW_GOOD);
		witness("too late");
	}
	while (!loop_ended)
		sx_sleep(&loop_ended, 0);
	check(loop_ret < 0, "waiting for a client ends with the shutdown");
	if (late)
		check(cl_accepted == before || (a >= 0 && !cl[a].admitted), "nobody is taken up after the shutdown");
	if (nd_bool())
		proxy_close(&ph);
	proxy_free(&ph);
	sx_preempt(-1);
	settle();
	check(vp_fd_live == 0 && vp_live == 0 && vp_ai_live == 0 && vp_thr_live == 0, "everything is released");
	check(reg_total == 0 && reg_stopped >= reg_started && reg_live == 0, "reporting ends with the proxy, and no slot is on offer");
	for (i = 0; i < ncl; i++)
		check(cl[i].state == CL_CLOSED || cl[i].state == CL_WAITING, "every connection is closed");
	if (b >= 0)
		check(!cl[b].admitted && cl[b].out_n == 0, "a connection after the shutdown is not served");
	check(proxy_init(&ph) == 0, "the proxy can be used again");
	proxy_free(&ph);
	witness("shut down");
}
