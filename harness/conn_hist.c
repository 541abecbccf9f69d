/* Sequences of operations on connections with any system call failing: who owns which descriptor */
#include <string.h>
#include <stdint.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "vp.h"
static int h_accept(int fd);
static int h_connect(int fd);
static int h_failed(void);
#define H_ACCEPT(fd) h_accept(fd)
#define H_CONNECT(fd) h_connect(fd)
#include "os.h"
#include "conn.h"
#ifndef STEPS
#define STEPS 4
#endif
#ifndef FAULTS
#define FAULTS 1
#endif
enum { IDLE, OPEN, SHUT, DROPPED };
static struct conn_handle h[3];	/* 0 listens, 1 is accepted, 2 is a datagram socket or connects out */
static int st[3], fd_of[3];
static int h_accept(int fd)
{
	(void)fd;
	return !vp_fault(1);
}
static int h_connect(int fd)
{
	(void)fd;
	return !vp_fault(1);
}
static void opened(int i, int ret, int live)
{
	check(ret <= 0, "an operation succeeds or reports an error");
	if (ret == 0) {
		check(vp_fd_live == live + 1, "opening a connection takes one descriptor");
		check(conn_in_use(&h[i]), "an open connection is in use");
		st[i] = OPEN;
		fd_of[i] = VP_FD0 + vp_fd_next - 1;
		check(vp_fds[vp_fd_next - 1].open, "the connection's descriptor is open");
	} else {
		check(vp_fd_live == live, "a failed attempt leaves no descriptor behind");
		check(!conn_in_use(&h[i]), "after a failed attempt the connection is not in use");
		st[i] = IDLE;
	}
	check(vp_ai_live == 0, "name resolution results are released");
}
void vp_main(void)
{
	int i, k, live, out = nd_bool(), ret, left;
	uint8_t b[4] = { 1, 2, 3, 4 };

	h[0].type = h[1].type = CONN_TYPE_TCP;
	h[2].type = out ? CONN_TYPE_TCP : CONN_TYPE_UDP;
	h[0].source_port = "8100";
	h[2].source_addr = "10.0.2.1";
	vp_fault_malloc = vp_fault_pthread = vp_fault_sock = vp_fault_gai = 1;
	vp_faults_left = FAULTS;
	for (i = 0; i < 3; i++) {
		ret = conn_init(&h[i]);
		check(ret <= 0, "an operation succeeds or reports an error");
		if (ret < 0) {
			check(h[i].priv == NULL, "a failed initialisation holds nothing");
			for (k = 0; k < 3; k++)
				conn_free(&h[k]);
			check(vp_live == 0, "a failed initialisation holds nothing");
			witness("initialisation failure");
			return;
		}
	}
	for (k = 0; k < STEPS; k++) {
		live = vp_fd_live;
		left = vp_faults_left;
		i = nd_pick(3);
		switch (nd_pick(5)) {
		case 0:	/* open */
			if (i == 1) {
				/* the proxy accepts again once the previous client is gone */
				if (st[1] == OPEN || st[1] == SHUT)
					sx_stop();
				ret = conn_accept(&h[0], &h[1]);
				if (st[0] != OPEN && st[0] != SHUT)
					check(ret < 0, "nothing is accepted without listening");
			} else {
				if (st[i] != IDLE)
					sx_stop();
				ret = i == 2 && out ? conn_connect(&h[2], "10.9.8.7", "5200") : conn_listen(&h[i]);
			}
			check(ret == 0 || vp_faults_left < left || (i == 1 && st[0] == IDLE), "opening only fails when the system does");
			opened(i, ret, live);
			break;
		case 1:
			if (i == 2 || i == 0)
				sx_stop();
			conn_drop(&h[i]);
			check(st[i] == IDLE || st[i] == DROPPED || vp_fds[fd_of[i] - VP_FD0].closed, "a dropped connection is closed");
			check(!conn_in_use(&h[i]), "a dropped connection is not in use");
			if (st[i] != IDLE)
				st[i] = DROPPED;
			break;
		case 2:
			conn_close(&h[i]);
			check(st[i] == IDLE || vp_fds[fd_of[i] - VP_FD0].closed, "a closed connection's descriptor is closed");
			check(!conn_in_use(&h[i]), "a closed connection is not in use");
			st[i] = IDLE;
			break;
		case 3:
			conn_shutdown(&h[i]);
			check(st[i] == IDLE || st[i] == DROPPED || vp_fds[fd_of[i] - VP_FD0].shut, "a shutdown reaches the descriptor");
			if (st[i] == OPEN)
				st[i] = SHUT;
			break;
		default:
			if (st[i] == SHUT || (i == 0 && st[i] == OPEN))
				sx_stop();
			ret = i == 2 && !out ? conn_send_to(&h[2], b, 4, 0x01020304, 9) : conn_send(&h[i], b, 4);
			check((ret == 0) == (st[i] == OPEN), "only an open connection can be sent on");
		}
		for (i = 0; i < 3; i++)
			check(st[i] != OPEN || vp_fds[fd_of[i] - VP_FD0].open, "operations on one connection leave the others alone");
	}
	if (st[0] == OPEN && st[1] == OPEN && st[2] == OPEN)
		witness("all open");
	for (i = 0; i < 3; i++)
		conn_free(&h[i]);
	check(vp_fd_live == 0, "every descriptor is closed");
	check(vp_live == 0 && vp_ai_live == 0, "everything is released");
}
