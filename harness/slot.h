/* One proxy slot over the modelled operating system: the real proxy_conn.c, conn.c, worker.c, thread_posix.c and
 * mutex_posix.c run with real threads of control; this file is the network around them and the monitor of
 * everything they send. The harness supplies script(), called whenever the proxy waits for the next client message. */
#include <string.h>
#include <errno.h>
#include <stdint.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "vp.h"

#ifndef PAYCAP
#define PAYCAP 9000		/* payload bytes that exist per message */
#endif
#ifndef DGCAP
#define DGCAP 4087
#endif
#ifndef NDG
#define NDG 4
#endif
#define SLOT_ADDR 0x0102000au	/* 10.0.2.1 */
#define SLOT_ADDR_STR "10.0.2.1"
#define BUFLEN 4096
#ifndef GONE_N
#define GONE_N 2	/* ways for the client connection to end */
#endif
enum { K_NONE, K_CLIENT, K_DATA, K_CTRL, K_TCP, K_LISTEN };

static int slot_class(int fd);
static long slot_recv(int fd, unsigned char *buf, size_t len, struct sockaddr_in *from);
static long slot_send(int fd, const unsigned char *buf, size_t len, const struct sockaddr_in *to);
static int slot_connect(int fd);
static int script(void);
#define H_SEND(fd, buf, len, to) slot_send(fd, buf, len, to)
#define H_RECV(fd, buf, len, from) slot_recv(fd, buf, len, from)
#define H_CONNECT(fd) slot_connect(fd)
#include "os.h"
#include "conn.h"
#include "proxy_conn.h"
#include "stub_proxylog.h"

/* what may go wrong, set by the harness */
static int may_fail_dgram;	/* sending a datagram */
static int may_fail_client;	/* sending to the client */
static int may_fail_tcp;	/* sending to the remote host */
static int may_fail_connect;
static int may_split;		/* transfers on streams may be partial */
static int fails_left = 1;
static int fail_here(int on)
{
	if (on && fails_left > 0 && nd_bool()) {
		fails_left--;
		return 1;
	}
	return 0;
}

/* any errno but those a blocking transfer is retried for */
static long any_error(void)
{
	long e = nd_range(1, 133);

	assume((e != EINTR) & (e != EAGAIN));
	return -e;
}

static int session;			/* number of the current session */
static int cli_fd = -1;

/* ---- the client message being processed ---- */
static unsigned char cm_hdr[9];
static unsigned char *cm_pay;
static unsigned char cm_type;
static uint32_t cm_addr, cm_size;
static unsigned long cm_pos, cm_end;	/* bytes read, bytes that will come */
static int cm_valid, cm_trunc, cm_done, cm_n;
static unsigned long cm_out;		/* payload bytes handed on */
static int cm_dgrams;
static int cli_gone, cli_gone_err;	/* the client connection ended */
static int cli_send_failed;

/* ---- the TCP connection ---- */
static int tcp_fd = -1, tcp_up, tcp_dead;	/* dead: ended, so that the client is to be told */
static int tcp_dead_due;			/* a close message is owed */
static int tcp_sfail;
static int open_pending, open_ok, open_tries;
static int st_sent, close_sent;
static unsigned char *rs_pay;			/* what the remote host sends */
static unsigned long rs_have, rs_read, rs_deliv;
static int rs_eof, rs_err, rs_n;
#ifndef RSFIRST
#define RSFIRST 5000
#endif

/* ---- datagrams ---- */
struct dg { int kind, popped, delivered, session, err; unsigned long len; uint32_t addr; unsigned char *pay; };
static struct dg dgs[NDG];
static int ndg;

/* ---- the stream to the client ---- */
static unsigned char om_hdr[9];
static int om_hn;
static unsigned long om_rem, om_pos;
static const unsigned char *om_exp;
static struct dg *om_dg;
static int om_type, om_count, om_owner;
static unsigned char om_small[4];

static unsigned char *arb(size_t n)
{
#ifdef VP_SX
	unsigned char *p = sx_alloc(n, 1);
#else
	unsigned char *p = calloc(1, n);
#endif
	sx_fill(p, n);
	return p;
}
/* lengths: 14 bits are enough for every buffer here */
static unsigned long nd_len(void) { return nd_u64() & 0x3fff; }
static unsigned long umin(unsigned long a, unsigned long b) { return sx_branch(a < b) ? a : b; }

static int slot_class(int fd)
{
	struct vp_fd *f = &vp_fds[fd - VP_FD0];

	if (f->adopted)
		return K_CLIENT;
	if (f->listening)
		return K_LISTEN;
	if (f->stream)
		return K_TCP;
	if (f->bport == 5198)
		return K_DATA;
	if (f->bport == 5199)
		return K_CTRL;
	return K_NONE;
}
static int script(void);
static void settle(void)
{
	static int key;

	sx_sleep(&key, 2);
}
static int undelivered(void)
{
	int i, n = 0;

	for (i = 0; i < ndg; i++)
		n += dgs[i].popped & !dgs[i].delivered & (dgs[i].session == session) & (dgs[i].err == 0);
	return n;
}
/* the previous message has been acted upon in full */
static void message_end(void)
{
	if (!cm_valid)
		return;
	cm_valid = 0;
	cm_done++;
	if (cm_trunc)
		return;
	if (cm_type == 5 || cm_type == 6) {
		check(cm_out == cm_size, "the whole payload of a UDP message is sent");
		check((cm_size > 0) | (cm_dgrams == 0), "an empty UDP message sends nothing");
		check((cm_size > BUFLEN) | (cm_size == 0) | (cm_dgrams == 1), "a payload that fits is sent as one datagram");
	} else if (cm_type == 2) {
		check((cm_out == cm_size) | tcp_dead | !tcp_up, "the whole payload of a TCP message is sent");
	} else if (cm_type == 1) {
		check(!open_pending | cli_send_failed, "every open request is answered");
	} else if (cm_type == 3) {
		check(tcp_fd < 0 || vp_fds[tcp_fd - VP_FD0].closed, "a close request closes the connection");
	}
}
static void next_message(int type, uint32_t addr, unsigned long size, int trunc)
{
	int i;

	cm_type = (unsigned char)type;
	cm_addr = addr;
	cm_size = (uint32_t)size;
	cm_hdr[0] = cm_type;
	for (i = 0; i < 4; i++) {
		cm_hdr[1 + i] = (unsigned char)(addr >> (8 * i));
		cm_hdr[5 + i] = (unsigned char)(size >> (8 * i));
	}
	cm_pos = 0;
	cm_out = 0;
	cm_dgrams = 0;
	cm_trunc = trunc;
	cm_end = 9 + ((type == 2 || type == 5 || type == 6) ? size : 0);
	cm_valid = 1;
	cm_n++;
	cm_pay = arb(PAYCAP);
	if (trunc) {
		cm_end = nd_len();
		assume((cm_end >= 1) & (cm_end < 9 + size) & (cm_end <= 9 + PAYCAP));
	}
	if (type == 1) {
		open_pending = 1;
		open_ok = 0;
		open_tries = 0;
	}
	if (type == 3 && tcp_up && !tcp_dead) {
		tcp_dead = 1;
		tcp_dead_due = 1;
	}
}
static long client_recv(int fd, unsigned char *buf, size_t len)
{
	struct vp_fd *f = &vp_fds[fd - VP_FD0];
	unsigned long n, rem;

	if (f->shut)
		return 0;
	check(!cli_gone, "nothing is read after the client connection ended");
	if (!cm_valid || sx_branch(cm_pos == cm_end)) {
		if (cm_valid && cm_trunc) {
			cli_gone = 1;
			cli_gone_err = nd_pick(GONE_N);
			message_end();
			return cli_gone_err == 0 ? 0 : cli_gone_err == 1 ? -ECONNRESET : -EIO;
		}
		message_end();
		if (!script() || f->shut) {
			if (f->shut)
				return 0;
			cli_gone = 1;
			cli_gone_err = nd_pick(GONE_N);
			return cli_gone_err == 0 ? 0 : cli_gone_err == 1 ? -ECONNRESET : -EIO;
		}
	}
	if (cm_pos < 9) {
		n = len < 9 - cm_pos ? len : 9 - cm_pos;
		if (cm_trunc)
			n = umin(n, cm_end - cm_pos);
		memcpy(buf, cm_hdr + cm_pos, n);
	} else {
		rem = cm_end - cm_pos;
		n = umin(len, rem);
		if (may_split && nd_bool()) {
			unsigned long k = nd_len();

			assume((k >= 1) & (k <= n));
			n = k;
			may_split = 0;
		}
		check(cm_pos - 9 + n <= PAYCAP, "model: payload capacity");
		memcpy(buf, cm_pay + (cm_pos - 9), n);
	}
	cm_pos += n;
	return (long)n;
}
static int dg_queue(int kind, struct dg **d)
{
	int i;

	for (i = 0; i < ndg; i++)
		if (dgs[i].kind == kind && !dgs[i].popped && dgs[i].session == session) {
			*d = &dgs[i];
			return 1;
		}
	return 0;
}
static struct dg *add_datagram(int kind, int err)
{
	struct dg *d = &dgs[ndg];
	int i;

	check(ndg < NDG, "model: datagram table large enough");
	ndg++;
	d->kind = kind;
	d->err = err;
	d->session = session;
	d->addr = nd_u32();
#ifdef DGFIX
	d->len = DGFIX + (unsigned long)ndg;
#else
	d->len = nd_len();
	assume(d->len <= DGCAP);
#endif
	d->pay = arb(DGCAP);
	for (i = 0; i < vp_fd_next; i++)
		if (vp_fds[i].open && slot_class(i + VP_FD0) == kind)
			sx_wake(&vp_fds[i], 1);
	return d;
}
static void remote_sends(void);
static void remote_ends(int err);
static long udp_recv(int fd, int kind, unsigned char *buf, size_t len, struct sockaddr_in *from)
{
	struct vp_fd *f = &vp_fds[fd - VP_FD0];
	struct dg *d;

	check(f->baddr == SLOT_ADDR, "the slot's sockets are bound to its external address");
	while (!f->shut && !dg_queue(kind, &d)) {
		sx_sleep(f, 0);
		check(f->open, "no descriptor is closed while a transfer on it is in progress");
	}
	if (f->shut) {
		vp_from_none = 1;
		return 0;
	}
	d->popped = 1;
	if (d->err)
		return -d->err;
	check(len >= d->len, "the receive buffer takes a datagram of 4087 bytes");
	memcpy(buf, d->pay, d->len);
	if (d->len == 0)
		d->delivered = 1;	/* nothing to deliver */
	if (from != NULL) {
		memset(from, 0, sizeof(*from));
		from->sin_family = AF_INET;
		from->sin_port = (uint16_t)nd_u32();
		from->sin_addr.s_addr = d->addr;
	}
	return (long)d->len;
}
static long tcp_recv(int fd, unsigned char *buf, size_t len)
{
	struct vp_fd *f = &vp_fds[fd - VP_FD0];
	unsigned long n;

	check(f->connected, "only a connected socket is read");
	check(fd == tcp_fd, "only the current connection is read");
	while (!f->shut && rs_read == rs_have && !rs_eof && !rs_err) {
		sx_sleep(f, 0);
		check(f->open, "no descriptor is closed while a transfer on it is in progress");
	}
	if (f->shut)
		return 0;
	if (rs_read == rs_have) {
		tcp_dead = 1;
		tcp_dead_due = 1;
		return rs_err ? -rs_err : 0;
	}
	n = umin(len, rs_have - rs_read);
	memcpy(buf, rs_pay + rs_read, n);
	rs_read += n;
	return (long)n;
}
static long slot_recv(int fd, unsigned char *buf, size_t len, struct sockaddr_in *from)
{
	switch (slot_class(fd)) {
	case K_CLIENT:
		return client_recv(fd, buf, len);
	case K_DATA:
		return udp_recv(fd, K_DATA, buf, len, from);
	case K_CTRL:
		return udp_recv(fd, K_CTRL, buf, len, from);
	case K_TCP:
		return tcp_recv(fd, buf, len);
	}
	check(0, "nothing is received on other descriptors");
	return -EBADF;
}

/* ---- what goes to the client ---- */
static void begin_out(void)
{
	uint32_t addr, size;
	int i;

	om_type = om_hdr[0];
	addr = om_hdr[1] | (uint32_t)om_hdr[2] << 8 | (uint32_t)om_hdr[3] << 16 | (uint32_t)om_hdr[4] << 24;
	size = om_hdr[5] | (uint32_t)om_hdr[6] << 8 | (uint32_t)om_hdr[7] << 16 | (uint32_t)om_hdr[8] << 24;
	om_rem = size;
	om_pos = 0;
	om_exp = NULL;
	om_dg = NULL;
	om_count++;
	switch (om_type) {
	case 5:
	case 6:
		for (i = 0; i < ndg; i++)
			if (dgs[i].kind == (om_type == 5 ? K_DATA : K_CTRL) && dgs[i].popped && !dgs[i].delivered && !dgs[i].err && dgs[i].session == session) {
				om_dg = &dgs[i];
				break;
			}
		check(om_dg != NULL, "a UDP message to the client stands for a datagram received on that socket during the session");

		check(addr == om_dg->addr, "the address field is the sender's address");
		check(size == om_dg->len, "the size field is the datagram's length");
		om_exp = om_dg->pay;
		om_dg->delivered = 1;
		break;
	case 2:
		check(rs_pay != NULL, "TCP data only with a connection");
		check(!(open_pending && open_ok), "the status message comes before anything else about the connection");
		check((size >= 1) & (rs_deliv + size <= rs_read), "TCP data carries what the remote host sent");
		om_exp = rs_pay;
		om_pos = rs_deliv;
		rs_deliv += size;
		break;
	case 3:
		check(size == 0, "a close message has no payload");
		check(!(open_pending && open_ok), "the status message comes before anything else about the connection");
		check(tcp_dead || !tcp_up || vp_fds[tcp_fd - VP_FD0].shut, "no close message while the connection stays open");
		check(!tcp_up || tcp_sfail || vp_fds[tcp_fd - VP_FD0].shut || rs_deliv == rs_have, "what the remote host sent is passed on before the close message");
		tcp_dead_due = 0;
		close_sent++;
		break;
	case 4:
		check(size == 4, "a status message carries four bytes");
		check(open_pending, "one status message per open request");
		open_pending = 0;
		st_sent++;
		break;
	default:
		check(0, "only messages of the protocol are sent to the client");
	}
}
static long client_send(int fd, const unsigned char *buf, size_t len)
{
	struct vp_fd *f = &vp_fds[fd - VP_FD0];
	unsigned long n = len, off, k;
	int i;

	check(fd == cli_fd, "messages only go to the slot's own client");
	if (f->shut_wr || cli_gone) {
		cli_send_failed = 1;
		return -EPIPE;
	}
	if (fail_here(may_fail_client)) {
		cli_send_failed = 1;
		return any_error();
	}
	if (may_split && nd_bool()) {
#ifdef DGFIX
		k = nd_bool() ? 4 : 10;
		if (k >= len)
			sx_stop();
#else
		k = nd_len();
		assume((k >= 1) & (k < len));
#endif
		n = k;
		may_split--;
	}
	off = 0;
	if (om_hn < 9) {
		k = sx_concretize(umin(9 - (unsigned long)om_hn, n));
		if (om_hn == 0)
			om_owner = sx_self();
		for (i = 0; i < (int)k; i++)
			om_hdr[om_hn + i] = buf[i];
		om_hn += (int)k;
		off = k;
		if (om_hn == 9)
			begin_out();
	}
	check(om_owner == sx_self(), "a message is not interrupted by another one");
	if (n > off) {
		unsigned long r = n - off;

		check(r <= om_rem, "no more payload follows than the header announces");
		if (om_type == 4) {
			r = sx_concretize(r);
			for (i = 0; i < (int)r; i++)
				om_small[4 - om_rem + i] = buf[off + i];
			if (r == om_rem)
				check(((om_small[0] | om_small[1] | om_small[2] | om_small[3]) == 0) == (open_ok != 0), "the status is zero if and only if the connection was opened");
		} else
			check(sx_same(buf + off, om_exp + om_pos, r), "the payload to the client is what was received");
		om_pos += r;
		om_rem -= r;
	}
	if (om_hn == 9 && om_rem == 0)
		om_hn = 0;
	return (long)n;
}
static long slot_send(int fd, const unsigned char *buf, size_t len, const struct sockaddr_in *to)
{
	int k = slot_class(fd);
	unsigned long n = len;

	check(len > 0, "no empty transfer");
	if (k == K_CLIENT)
		return client_send(fd, buf, len);
	check(cm_valid, "nothing is sent without a client message that asks for it");
	check((cm_type == 5) == (k == K_DATA) && (cm_type == 6) == (k == K_CTRL) && (cm_type == 2) == (k == K_TCP), "each message uses its own socket");
	check((cm_pos >= 9) & (cm_out + len <= cm_pos - 9), "no more payload is sent than was received");
	check(sx_same(buf, cm_pay + cm_out, len), "the payload sent is what the client sent");
	check(vp_fds[fd - VP_FD0].baddr == SLOT_ADDR, "the slot's sockets are bound to its external address");
	if (k == K_TCP) {
		check(to == NULL && fd == tcp_fd && vp_fds[fd - VP_FD0].connected, "TCP data goes to the open connection");
		if (vp_fds[fd - VP_FD0].shut_wr)
			return -EPIPE;
		check(!(tcp_dead && tcp_fd == fd && !rs_eof && !rs_err), "nothing is sent after the connection failed");
		if (fail_here(may_fail_tcp)) {
			tcp_dead = 1;
			tcp_dead_due = 1;
			tcp_sfail = 1;
			return any_error();
		}
		if (may_split && nd_bool()) {
			n = nd_len();
			assume((n >= 1) & (n < len));
			may_split--;
		}
	} else {
		check(to != NULL, "datagrams are addressed");
		check(to->sin_family == AF_INET && to->sin_addr.s_addr == cm_addr, "datagrams go to the address in the message");
		check(to->sin_port == htons(k == K_DATA ? 5198 : 5199), "data goes to port 5198, control to port 5199");
		check((cm_size > BUFLEN) | (len == cm_size), "a payload that fits is sent as one datagram");
		cm_dgrams++;
		cm_out += len;
		if (fail_here(may_fail_dgram))
			return any_error();
		return (long)len;
	}
	cm_out += n;
	return (long)n;
}
static int slot_connect(int fd)
{
	struct vp_fd *f = &vp_fds[fd - VP_FD0];

	check(cm_valid && cm_type == 1 && open_pending, "connections are only opened on request");
	check(f->stream, "a stream connection is opened");
	check(f->paddr == cm_addr && f->pport == 5200, "the connection goes to the address in the message at port 5200");
	check(f->baddr == SLOT_ADDR, "the slot's sockets are bound to its external address");
	check(tcp_fd < 0 || vp_fds[tcp_fd - VP_FD0].closed, "a previous connection is closed before another is opened");
	open_tries++;
	tcp_up = 0;
	if (fail_here(may_fail_connect))
		return 0;
	open_ok = 1;
	tcp_fd = fd;
	tcp_up = 1;
	tcp_dead = 0;
	tcp_dead_due = 0;
	rs_pay = arb(PAYCAP);
	rs_have = rs_read = rs_deliv = 0;
	rs_eof = rs_err = rs_n = 0;
	tcp_sfail = 0;
#ifdef H_CONNECTED
	H_CONNECTED();
#endif
	return 1;
}
/* more bytes arrive from the remote host */
static void remote_sends(void)
{
#ifdef DGFIX
	unsigned long n = DGFIX;
#else
	unsigned long n = nd_len();
#endif

	assume((n >= 1) & (n <= (rs_n++ == 0 ? RSFIRST : 1000)));
	check(rs_n <= 4, "model: remote buffer");
	rs_have += n;
	sx_wake(&vp_fds[tcp_fd - VP_FD0], 1);
}
static void remote_ends(int err)
{
	if (err)
		rs_err = err;
	else
		rs_eof = 1;
	sx_wake(&vp_fds[tcp_fd - VP_FD0], 1);
}

/* ---- the slot ---- */
static struct proxy_handle ph;
static struct proxy_conn_handle pc;
static struct conn_handle lis;
static struct conn_handle cli;
static void slot_setup(void)
{
	lis.type = CONN_TYPE_TCP;
	lis.source_port = "8100";
	check(conn_init(&lis) == 0 && conn_listen(&lis) == 0, "listening succeeds");
	pc.ph = &ph;
	pc.source_addr = SLOT_ADDR_STR;
	pc.control_port = "5199";
	pc.data_port = "5198";
	check(proxy_conn_init(&pc) == 0, "initialising the slot succeeds");
	check(proxy_conn_start(&pc) == 0, "starting the slot succeeds");
}
static int count_open(int kind)
{
	int i, n = 0;

	for (i = 0; i < vp_fd_next; i++)
		n += vp_fds[i].open && slot_class(i + VP_FD0) == kind;
	return n;
}
static void client_arrives(void)
{
	memset(&cli, 0, sizeof(cli));
	cli.type = CONN_TYPE_TCP;
	check(conn_init(&cli) == 0 && conn_accept(&lis, &cli) == 0, "accepting succeeds");
	cli_fd = VP_FD0 + vp_fd_next - 1;
	session++;
	cli_gone = 0;
	cli_send_failed = 0;
	cm_valid = 0;
	om_hn = 0;
	tcp_up = tcp_dead = tcp_dead_due = 0;
	tcp_fd = -1;
	open_pending = 0;
}
static void client_leaves(void)
{
	proxy_conn_finish(&pc);
	check(count_open(K_DATA) == 0 && count_open(K_CTRL) == 0 && count_open(K_TCP) == 0, "all sockets of the session are closed at its end");
	conn_free(&cli);
	check(count_open(K_CLIENT) == 0, "the client connection is closed at its end");
}
static void serve(void)
{
	int ret;

	do {
		ret = proxy_conn_process(&pc);
	} while (ret >= 0);
}
