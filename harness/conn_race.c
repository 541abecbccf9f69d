/* One thread closes a connection while others are blocked on it, or about to be */
#include <string.h>
#include <stdint.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "vp.h"
static int h_accept(int fd);
static long h_xfer(int fd, int wr);
static void h_close(int fd);
#define H_ACCEPT(fd) h_accept(fd)
#define H_SEND(fd, buf, len, to) h_xfer(fd, 1)
#define H_RECV(fd, buf, len, from) h_xfer(fd, 0)
#define H_CLOSE(fd) h_close(fd)
#include "os.h"
#include "conn.h"
#ifndef P
#define P 2
#endif
static int busy[VP_NFD];
static int racing;
static int blocked_once;
static int wait_shut(int fd, int wr)
{
	struct vp_fd *f = &vp_fds[fd - VP_FD0];

	busy[fd - VP_FD0]++;
	while (!(wr ? f->shut_wr : f->shut)) {
		blocked_once++;
		sx_sleep(f, 0);
	}
	busy[fd - VP_FD0]--;
	return 0;
}
static int h_accept(int fd)
{
	if (!racing)
		return 1;
	return wait_shut(fd, 0);
}
static long h_xfer(int fd, int wr)
{
	wait_shut(fd, wr);
	if (nd_bool())
		return -vp_anyerr();
	vp_from_none = 1;
	return 0;
}
static void h_close(int fd)
{
	check(busy[fd - VP_FD0] == 0, "no descriptor is closed while a transfer on it is in progress");
}
static struct conn_handle l, a, spare;
static struct conn_handle *c;
static int how, result[2], finished[2];
static void transfer(int i, int op)
{
	uint8_t b[4] = { 1, 2, 3, 4 };
	int ret;

	switch (op) {
	case 0:
		ret = conn_recv(c, b, sizeof(b));
		break;
	case 1:
		ret = conn_send(c, b, sizeof(b));
		break;
	case 2:
		ret = conn_recv_any(c, b, sizeof(b), NULL, NULL);
		break;
	case 3:
		ret = conn_accept(c, &spare);
		break;
	default:
		ret = conn_send_to(c, b, sizeof(b), 1, 2);
	}
	check(ret < 0, "a blocked call returns with a failure");
	result[i] = ret;
	finished[i] = 1;
}
static int ops[2];
static void t0(void *p) { (void)p; transfer(0, ops[0]); }
static void t1(void *p) { (void)p; transfer(1, ops[1]); }
void vp_main(void)
{
	int kind = nd_pick(4), cfd;

	sx_preempt(-1);
	l.type = a.type = spare.type = CONN_TYPE_TCP;
	l.source_port = "8100";
	check(conn_init(&l) == 0 && conn_init(&spare) == 0, "initialising succeeds");
	c = &a;
	how = nd_pick(3);
	switch (kind) {
	case 0:	/* an accepted connection */
		check(conn_init(&a) == 0 && conn_listen(&l) == 0 && conn_accept(&l, &a) == 0, "accepting succeeds");
		ops[0] = 0;
		ops[1] = nd_pick(2);
		break;
	case 1:	/* an outgoing connection */
		check(conn_init(&a) == 0 && conn_connect(&a, "10.1.2.3", "5200") == 0, "connecting succeeds");
		ops[0] = 0;
		ops[1] = 1;
		break;
	case 2:	/* a datagram socket */
		a.type = CONN_TYPE_UDP;
		check(conn_init(&a) == 0 && conn_listen(&a) == 0, "opening the datagram socket succeeds");
		ops[0] = 2;
		ops[1] = nd_bool() ? 2 : 4;
		break;
	default:	/* a listening socket */
		check(conn_init(&a) == 0 && conn_listen(&l) == 0, "listening succeeds");
		c = &l;
		ops[0] = 3;
		ops[1] = 3;
	}
	cfd = VP_FD0 + vp_fd_next - 1;
	if (how == 1 && kind != 0)	/* drop is for accepted connections */
		sx_stop();
	racing = 1;
	sx_preempt(P);
	sx_thread(t0, NULL);
	if (kind != 3)
		sx_thread(t1, NULL);
	else
		finished[1] = 1;
	sx_point();
	if (how == 2)
		conn_shutdown(c);
	else if (how == 1)
		conn_drop(c);
	else
		conn_close(c);
	if (how != 2) {
		check(!conn_in_use(c), "a closed connection is not in use");
		check(vp_fds[cfd - VP_FD0].closed, "a closed connection's descriptor is closed");
	} else {
		if (nd_bool())
			conn_close(c);
	}
	{
		static int quiet;
		sx_sleep(&quiet, 2);
	}
	check(finished[0] && finished[1], "every blocked call returns");
	if (blocked_once == 2)
		witness("both threads were blocked");
	if (blocked_once == 0)
		witness("nobody was blocked yet");
	conn_free(&a);
	conn_free(&l);
	conn_free(&spare);
	check(vp_fd_live == 0, "every descriptor is closed");
}
