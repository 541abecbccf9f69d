/* Transfers on streams and datagram sockets: any content and size, the system splitting and failing as it likes */
#include <string.h>
#include <stdint.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "vp.h"
#ifndef CAP
#define CAP 6000
#endif
#ifndef SPLITS
#define SPLITS 2
#endif
static long h_send(int fd, const unsigned char *buf, size_t len, const struct sockaddr_in *to);
static long h_recv(int fd, unsigned char *buf, size_t len, struct sockaddr_in *from);
#define H_SEND(fd, buf, len, to) h_send(fd, buf, len, to)
#define H_RECV(fd, buf, len, from) h_recv(fd, buf, len, from)
#include "os.h"
#include "conn.h"
static unsigned char data[CAP + 1];	/* what the peer sends, or is to get */
static unsigned char got[CAP + 1];
static unsigned long pos, want;
static int splits, ended, op;
static uint32_t d_addr;
static uint16_t d_port;
static unsigned long d_len;

static unsigned long nd_len(void) { return nd_u64() & 0x1fff; }
/* how much of len is transferred this time, or a failure */
static long amount(size_t len)
{
	unsigned long k;

	check(len > 0, "no empty transfer is requested");
	check(!ended, "no transfer is attempted after one failed");
	switch (nd_pick(splits < SPLITS ? 4 : 3)) {
	case 0:
		return (long)len;
	case 1:
		ended = 1;
		return 0;
	case 2:
		ended = 1;
		k = nd_u64() & 0xff;
		assume((k >= 1) & (k <= 133));
		return -(long)k;
	default:
		splits++;
		k = nd_len();
		assume((k >= 1) & (k < len));
		return (long)k;
	}
}
static long h_send(int fd, const unsigned char *buf, size_t len, const struct sockaddr_in *to)
{
	long k;

	check(fd == VP_FD0 || fd == VP_FD0 + 1, "the connection's own descriptor is used");
	check(pos + len == want, "exactly the bytes not yet sent are sent");
	check(sx_same(buf, data + pos, len), "the bytes sent are the bytes given");
	if (op == 3) {
		check(to != NULL, "a datagram is addressed");
		check(to->sin_family == AF_INET && to->sin_addr.s_addr == d_addr && to->sin_port == htons(d_port), "a datagram goes to the address and port given");
		if (nd_bool()) {
			ended = 1;
			k = (long)(nd_u64() & 0xff);
			assume((k >= 1) & (k <= 133));
			return -k;
		}
		k = (long)len;
	} else {
		check(to == NULL, "a stream transfer is not addressed");
		k = amount(len);
	}
	if (k > 0)
		pos += (unsigned long)k;
	return k;
}
static long h_recv(int fd, unsigned char *buf, size_t len, struct sockaddr_in *from)
{
	long k;

	check(fd == VP_FD0 || fd == VP_FD0 + 1, "the connection's own descriptor is used");
	if (op == 4) {	/* a datagram */
		check(len == want, "the whole buffer is offered");
		switch (nd_pick(3)) {
		case 0:
			ended = 1;
			vp_from_none = 1;
			return 0;
		case 1:
			ended = 1;
			k = (long)(nd_u64() & 0xff);
			assume((k >= 1) & (k <= 133));
			return -k;
		}
		assume(d_len <= len);
		memcpy(buf, data, d_len);
		if (from != NULL) {
			memset(from, 0, sizeof(*from));
			from->sin_family = AF_INET;
			from->sin_addr.s_addr = d_addr;
			from->sin_port = htons(d_port);
		}
		return (long)d_len;
	}
	check(pos + len == want || op == 2, "exactly the bytes missing are asked for");
	k = amount(len);
	if (k > 0) {
		memcpy(buf, data + pos, (size_t)k);
		pos += (unsigned long)k;
	}
	return k;
}
void vp_main(void)
{
	struct conn_handle l = { 0 }, a = { 0 }, u = { 0 };
	struct conn_handle *c = &a, *o = &u;
	uint32_t addr = 0;
	uint16_t port = 0;
	int ret, state, conn2;

	l.type = a.type = CONN_TYPE_TCP;
	u.type = CONN_TYPE_UDP;
	l.source_port = "8100";
	u.source_port = "5198";
	op = nd_pick(6);
	if (op >= 3) {
		c = &u;
		o = &a;
	}
	conn2 = nd_bool();
	check(conn_init(&l) == 0 && conn_init(&a) == 0 && conn_init(&u) == 0, "initialising succeeds");
	if (op >= 3)
		check(conn_listen(&u) == 0, "opening the datagram socket succeeds");
	else if (conn2)
		check(conn_connect(&a, "10.1.2.3", "5200") == 0, "connecting succeeds");
	else
		check(conn_listen(&l) == 0 && conn_accept(&l, &a) == 0, "accepting succeeds");
	check(conn_in_use(c), "an open connection is in use");
	sx_fill(data, CAP);
	sx_fill(got, sizeof(got));
	want = nd_len();
	assume((want >= 1) & (want <= CAP));
	state = nd_pick(3);	/* usable, dropped, closed */
	if (state == 1) {
		if (conn2 && op < 3)
			conn_shutdown(c);
		conn_drop(c);
	} else if (state == 2)
		conn_close(c);
	ended |= state != 0;
	data[CAP] = got[CAP] = 0x5a;
	d_addr = nd_u32();
	d_port = (uint16_t)nd_u32();
	d_len = nd_len();
	switch (op) {
	case 0:
		ret = conn_recv(c, got, want);
		check((ret >= 0) == !ended, "a receive succeeds if and only if every byte arrived");
		if (ret >= 0) {
			check(pos == want, "exactly the bytes asked for are consumed");
			check(sx_same(got, data, want), "the bytes received are the next bytes of the stream");
			if (splits == SPLITS)
				witness("received in pieces");
		}
		break;
	case 1:
		ret = conn_send(c, data, want);
		check((ret >= 0) == !ended, "a send succeeds if and only if every byte was sent");
		if (ret >= 0) {
			check(pos == want, "every byte is sent");
			if (splits == SPLITS)
				witness("sent in pieces");
		}
		break;
	case 2:
		ret = conn_recv_any(c, got, want, NULL, NULL);
		check((ret > 0) == !ended && ret != 0, "a stream receive reports bytes or a failure");
		if (ret > 0) {
			check((unsigned long)ret == pos, "the number of bytes received is reported");
			check(sx_same(got, data, (unsigned long)ret), "the bytes received are the next bytes of the stream");
		}
		break;
	case 3:
		ret = conn_send_to(c, data, want, d_addr, d_port);
		check((ret >= 0) == !ended, "a datagram send succeeds if and only if the datagram was sent");
		if (ret >= 0) {
			check(pos == want, "the whole datagram is sent");
			witness("datagram sent");
		}
		break;
	case 4:
		ret = conn_recv_any(c, got, want, &addr, &port);
		check((ret >= 0) == !ended, "a datagram receive succeeds if and only if a datagram arrived");
		if (ret >= 0)
			check((unsigned long)ret == d_len, "the datagram's length is reported");
		if (ret > 0) {
			check((addr == d_addr) & (port == d_port), "the sender's address and port are reported");
			check(sx_same(got, data, d_len), "the datagram received is the datagram sent");
			witness("datagram received");
		}
		break;
	default:	/* the wrong kind of connection */
		check(conn_listen(&l) == 0 && conn_accept(&l, &a) == 0, "accepting succeeds");
		ended = 1;
		check(conn_recv(c, got, want) < 0 && conn_send(c, data, want) < 0 && conn_connect(c, "10.1.2.3", "5200") < 0, "stream operations on a datagram socket fail");
		check(conn_send_to(o, data, want, d_addr, d_port) < 0, "datagram operations on a stream fail");
		witness("wrong kind");
	}
	check(got[CAP] == 0x5a && data[CAP] == 0x5a, "nothing else is written");
	if (state == 2)
		check(!conn_in_use(c), "a closed connection is not in use");
	conn_free(&a);
	conn_free(&u);
	conn_free(&l);
	check(vp_fd_live == 0 && vp_live == 0 && vp_ai_live == 0, "everything is released");
}
