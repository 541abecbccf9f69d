/* The time limit on receiving, whatever its length */
#include <errno.h>
#include <string.h>
#include <stdint.h>
#include <sys/time.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "vp.h"
static uint32_t msec;
static int set_n, recv_n, outcome, then, set_fd = -2;
static void limit(int fd, const struct timeval *t)
{
	uint32_t sec = (uint32_t)t->tv_sec, us = (uint32_t)t->tv_usec;

	set_n++;
	set_fd = fd;
	check((t->tv_sec == (time_t)sec) & (sec <= 4294967), "the time limit is a valid time");
	check((t->tv_usec == (suseconds_t)us) & (us < 1000000), "the time limit is a valid time");
	/* the milliseconds beyond the whole seconds are below 1000 and a thousandth of the microseconds */
	check((msec - sec * 1000 < 1000) & (us == (msec - sec * 1000) * 1000), "the time limit is exactly the one asked for");
}
static long h_recv(int fd, unsigned char *buf, size_t len)
{
	recv_n++;
	check(fd == set_fd, "the limit is on the socket that is received from");
	switch (outcome) {
	case 0:		/* the time is up */
		return -EAGAIN;
	case 1:
		memset(buf, 'x', 1);
		outcome = then;
		return 1;
	}
	memset(buf, 'x', len);
	return (long)len;
}
#define H_RCVTIMEO(fd, t) limit(fd, t)
#define H_RECV(fd, buf, len, from) h_recv(fd, buf, len)
#include "os.h"
#include "conn.h"
void vp_main(void)
{
	struct conn_handle c = { 0 }, l = { 0 };
	unsigned char buf[8] = { 0 };
	int kind = nd_pick(3), ret;

	msec = nd_u32();
	c.type = kind == 0 ? CONN_TYPE_UDP : CONN_TYPE_TCP;
	if (kind == 0)
		c.source_port = "5198";
	l.source_port = "8100";
	check(conn_init(&c) == 0 && conn_init(&l) == 0, "initialising succeeds");
	if (nd_bool()) {
		/* not open */
		ret = conn_set_timeout(&c, msec);
		check(ret < 0, "a connection that is not open cannot be limited");
		check(set_n == 0, "no socket is touched");
		witness("not open");
	} else {
		if (kind == 2)
			ret = conn_listen(&l) == 0 && conn_accept(&l, &c) == 0 ? 0 : -1;
		else if (kind == 1)
			ret = conn_connect(&c, "10.1.2.3", "5200");
		else
			ret = conn_listen(&c);
		check(ret == 0, "opening succeeds");
		if (nd_bool()) {
			vp_fault_sock = 1;
			ret = conn_set_timeout(&c, msec);
			vp_fault_sock = 0;
			check((ret < 0) == (set_n == 0), "a failure is reported and success is not denied");
		} else {
			ret = conn_set_timeout(&c, msec);
			check(ret >= 0 && set_n == 1, "the time limit is set");
			then = outcome = nd_pick(3);
			if (kind == 0)
				ret = conn_recv_any(&c, buf, sizeof(buf), NULL, NULL);
			else {
				/* the limit may be hit in the middle */
				if (outcome == 1)
					then = nd_pick(2) * 2;
				ret = conn_recv(&c, buf, sizeof(buf));
			}
			check(recv_n >= 1, "receiving is attempted");
			if (outcome == 0 || (kind != 0 && then == 0)) {
				check(ret < 0, "a receive that takes too long fails");
				witness("time is up");
			} else
				check(ret == (kind == 0 && then == 1 ? 1 : 8), "a receive in time succeeds");
			check(conn_in_use(&c), "the connection stays open");
		}
	}
	conn_free(&c);
	conn_free(&l);
	check(vp_fd_live == 0 && vp_live == 0 && vp_ai_live == 0, "everything is released");
}
