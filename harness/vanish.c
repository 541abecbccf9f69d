/* Clients that vanish without closing their connection: the system gives up on them when the proxy asked it to */
#include <errno.h>
#ifndef NSLOT
#define NSLOT 1
#endif
#define NCLI 8
#define NET_TCP
static int opt_fails;		/* the next option cannot be set */
#define H_SETSOCKOPT(fd) do { if (opt_fails && option_fails(fd)) { errno = ENOBUFS; return -1; } } while (0)
static int option_fails(int fd);
#include "net.h"
#include "stub_pearson.h"
static int opt_failed;
static int option_fails(int fd)
{
	if (client_of(fd) >= 0 && !opt_failed && nd_bool())
		opt_failed = 1;
	else
		return 0;
	return 1;
}
static void vanish(int c, int err)
{
	cl[c].gone = err;
	sx_wake(&vp_fds[cl[c].fd - VP_FD0], 1);
}
static void armed(int c)
{
	int s = vp_keepalive(cl[c].fd);

	check(s > 0 && s <= 720, "the system is asked to give up on a silent client within twelve minutes");
}
static void released(int c)
{
	int i;

	check(cl[c].state == CL_CLOSED, "a connection the system gave up on is closed");
	for (i = 0; i < NSLOT; i++)
		check(find_fd(slot_addr[i], 5198) < 0 && find_fd(slot_addr[i], 5199) < 0, "the slot of a client that vanished is free");
	for (i = 0; i < tcp_n; i++)
		check(vp_fds[tcp_fd[i] - VP_FD0].closed, "its TCP connections are closed");
	check(reg_used == 0, "the slot is reported free");
	check(!loop_ended, "the proxy goes on");
}
static int anyerr(void)
{
	static const int errs[4] = { ETIMEDOUT, ECONNRESET, EHOSTUNREACH, EPIPE };

	return errs[nd_pick(4)];
}
void vp_main(void)
{
	int a, b, err, when;

	sx_preempt(-1);
	net_start();
	if (nd_bool()) {	/* an option that cannot be set */
		opt_fails = 1;
		a = arrive("A", HOW_GOOD);
		settle();
		opt_fails = 0;
		if (opt_failed) {
			check(cl[a].state == CL_CLOSED || (cl[a].admitted && vp_keepalive(cl[a].fd) > 0), "a connection the system would not watch is not kept");
			if (cl[a].state == CL_CLOSED)
				check(!cl[a].admitted && cl[a].out_n == 0, "a connection the system would not watch is not served");
			witness("an option cannot be set");
		}
		if (loop_ended) {	/* whoever runs the proxy decides whether it goes on */
			check(opt_failed && loop_ret < 0, "an error is reported");
			loop_ended = 0;
			sx_thread(main_loop, NULL);
			settle();
		}
		if (cl[a].state != CL_CLOSED) {
			leave(a);
			settle();
		}
		released(a);
	}
	err = anyerr();
	when = nd_pick(5);
	a = arrive("A", when == 0 ? HOW_SILENT : HOW_GOOD);
	settle();
	check(cl[a].state == CL_OPEN && cl[a].admitted == (when != 0), "a client is served");
	armed(a);
	switch (when) {
	case 0:	/* before it answers the challenge */
	case 1:	/* while it is served and silent */
		break;
	case 2:	/* with a TCP connection */
		message(a, 1, 0x08080808, 0);
		cl[a].msg[5] = 0;
		cl[a].msg_n = 9;
		settle();
		check(tcp_n == 1, "setup");
		break;
	case 3:	/* in the middle of a message */
		message(a, 5, 0x07070707, 1);
		cl[a].msg_n = 5;
		settle();
		break;
	case 4:	/* while it is sent something */
		cl[a].gone = err;
		datagram(nd_bool(), slot_addr[0], 0x05050505, 40);
		settle();
		break;
	}
	vanish(a, err);
	settle();
	released(a);
	b = arrive(nd_bool() ? "A" : "B", HOW_GOOD);
	settle();
	check(cl[b].state == CL_OPEN && cl[b].admitted, "the slot serves the next client");
	armed(b);
	witness("served again");
	leave(b);
	settle();
	released(b);
	net_end();
}
