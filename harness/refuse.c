/* The system refuses something - memory, a socket, a lock, a name - once, somewhere in the life of a client */
#ifndef NSLOT
#define NSLOT 2
#endif
#define NCLI 8
#define NET_TCP
#include "net.h"
#include "stub_pearson.h"
static int refused;
static void refusals(int on)
{
	if (on)
		vp_faults_left = 1;
	else
		refused |= vp_faults_left == 0;
	vp_fault_malloc = vp_fault_sock = vp_fault_gai = vp_fault_pthread = on;
	if (!on)
		vp_faults_left = 1;
}
static void slots_closed(void)
{
	int i;

	for (i = 0; i < NSLOT; i++)
		check(find_fd(slot_addr[i], 5198) < 0 && find_fd(slot_addr[i], 5199) < 0, "a slot without a client has no sockets");
	for (i = 0; i < tcp_n; i++)
		check(vp_fds[tcp_fd[i] - VP_FD0].closed, "a slot without a client has no TCP connection");
	check(reg_used == 0, "the slots are reported free");
}
/* Whoever runs the proxy decides whether it goes on after an error */
static void go_on(int a)
{
	if (!loop_ended)
		return;
	check(refused && loop_ret < 0, "the loop ends because of an error");
	sx_acquire(&loop_ended);
	if (nd_bool()) {
		if (cl[a].state == CL_OPEN)
			leave(a);
		proxy_free(&ph);
		settle();
		check(vp_fd_live == 0 && vp_live == 0 && vp_ai_live == 0 && vp_thr_live == 0, "everything is released");
		sx_stop();
	}
	loop_ended = 0;
	sx_thread(main_loop, NULL);
	settle();
	witness("accepting fails");
}
void vp_main(void)
{
	int a, b, i, k, phase, before, round;

	sx_preempt(-1);
	net_start();
	phase = nd_pick(3);
	a = 0;
	for (round = 0; round < 1; round++) {
		if (phase == 0)
			refusals(1);	/* while a client arrives and is given a slot */
		a = arrive("A", HOW_GOOD);
		settle();
		if (phase == 0)
			refusals(0);
		go_on(a);
		check(refused || cl[a].admitted, "a client is served");
		if (refused && !cl[a].admitted) {
			check(cl[a].state != CL_OPEN || loop_runs == 0 || cl[a].out_n >= 8, "a client that cannot be served is not kept waiting");
			if (cl[a].out_n >= 8 && cl[a].hs_made) {
				check(cl[a].state == CL_CLOSED, "a client that cannot be given a slot is disconnected");
				witness("a slot cannot be opened");
			}
		}
		if (cl[a].state == CL_OPEN && cl[a].admitted) {
			/* a TCP connection */
			before = tcp_n;
			if (phase == 1)
				refusals(1);
			message(a, 1, 0x08080808, 0);
			cl[a].msg[5] = 0;
			cl[a].msg_n = 9;
			settle();
			if (phase == 1)
				refusals(0);
			go_on(a);
			check(cl[a].state == CL_OPEN, "a client whose TCP connection cannot be opened is still served");
			check(cl[a].in_count >= 1, "a request to open a TCP connection is answered");
			if (!refused)
				check(tcp_n == before + 1, "a TCP connection is opened");
			else if (phase == 1)
				witness("a TCP connection cannot be opened");
			k = slot_client(0);
			check(k == a, "its datagrams are passed on");
		}
		if (phase == 2)
			refusals(1);
		if (cl[a].state == CL_OPEN)
			leave(a);
		settle();
		if (phase == 2)
			refusals(0);
		go_on(a);
		slots_closed();
	}
	/* nothing is lost */
	for (i = 0; i < NSLOT; i++) {
		b = arrive(i == 0 ? "A" : "B", HOW_GOOD);
		settle();
		check(cl[b].state == CL_OPEN && cl[b].admitted, "there is room for as many clients as there are slots");
	}
	for (i = 0; i < NSLOT; i++)
		check(slot_client(i) >= 0, "every slot is in use");
	witness("all slots in use");
	net_end();
}
