/* The whole proxy over the modelled operating system: proxy.c, proxy_conn.c, conn.c, worker.c, thread_posix.c,
 * mutex_posix.c, digest.c, regex.c and rand.c run as they are, with real threads of control; this file is the network
 * around them: clients that authenticate, send messages and go away, and datagrams for the slots. */
#include <string.h>
#include <errno.h>
#include <stdint.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "vp.h"
#ifndef NCLI
#define NCLI 8			/* connections per run */
#endif
#ifndef NTCP
#define NTCP 8			/* TCP connections per run */
#endif
#ifndef NSLOT
#define NSLOT 2
#endif
static int net_accept(int fd);
static long net_recv(int fd, unsigned char *buf, size_t len, struct sockaddr_in *from);
static long net_send(int fd, const unsigned char *buf, size_t len, const struct sockaddr_in *to);
static void net_closed(int fd);
#ifdef NET_TCP
static int net_connect(int fd);
#define H_CONNECT(fd) net_connect(fd)
#endif
#define H_ACCEPT(fd) net_accept(fd)
#define H_SEND(fd, buf, len, to) net_send(fd, buf, len, to)
#define H_RECV(fd, buf, len, from) net_recv(fd, buf, len, from)
#define H_CLOSE(fd) net_closed(fd)
#ifndef VP_NFD
#define VP_NFD 96
#endif
#ifndef VP_NTHR
#define VP_NTHR (4 * NSLOT * 3 + 4)
#endif
#ifndef NET_RAND
static unsigned int net_rand;
int vp_rand(void) { return (int)(++net_rand); }
long vp_random(void) { return (long)(++net_rand); }
#endif
#define OS_CUSTOM_RAND
#include "os.h"
#include "openelp/openelp.h"
#include "stub_log.h"
#ifndef NET_CONF
#include "stub_conf.h"
#endif
#ifndef NET_REAL_REG
#include "stub_registration.h"
#endif
#include "stub_pcre2.h"
#ifdef NET_REAL_REG
#define MD_CAP 64
#else
#define MD_CAP 16
#endif
#ifndef MD_N
#define MD_N 24
#endif
#ifndef MD_OUT
#define MD_OUT(j) (unsigned char)(md_n * 16 + (j))
#endif
#include "stub_md5.h"

/* ---- clients ---- */
enum { CL_NONE, CL_WAITING, CL_OPEN, CL_CLOSED };
enum { HOW_GOOD, HOW_PASSWORD, HOW_MALFORMED, HOW_SILENT, HOW_GONE };
struct client {
	int state, how, gone, fd, hold;
	const unsigned char *replay;	/* the challenge it answers, if not its own */
	const char *call;
	unsigned char hs[28];	/* what it sends first */
	int hs_n, hs_pos, hs_made;
	unsigned char out[24];	/* what it got, before its slot's messages */
	int out_n;
	int admitted;		/* the proxy read its first message header */
	unsigned char msg[16];	/* the message it is sending */
	int msg_n, msg_pos;
	unsigned char in[16];	/* the message it is receiving */
	int in_n, in_count;
	uint32_t in_addr;	/* whom the last message came from */
	unsigned char in_byte;
};
static struct client cl[NCLI];
static int ncl;			/* connections so far */
static int cl_accepted;
static int accept_fails;	/* the system fails to accept */
static int listen_fd = -1;

static int client_of(int fd)
{
	int i;

	for (i = 0; i < ncl; i++)
		if (cl[i].fd == fd)
			return i;
	return -1;
}
static int net_accept(int fd)
{
	struct vp_fd *f = &vp_fds[fd - VP_FD0];

	listen_fd = fd;
	check(f->listening, "connections are accepted on the listening socket");
	for (;;) {
		if (f->shut || f->closed)
			return 0;
		if (accept_fails && nd_bool()) {
			accept_fails = 0;
			return 0;
		}
		if (cl_accepted < ncl)
			break;
		sx_sleep(f, 0);
	}
	cl[cl_accepted].state = CL_OPEN;
	cl[cl_accepted].fd = VP_FD0 + vp_fd_peek();
	cl_accepted++;
	return 1;
}
#ifdef NET_TCP
static int tcp_fd[NTCP], tcp_n;
#ifdef NET_CONNECT_BLOCKS
static int connect_blocks;	/* the remote host does not answer */
#endif
static int net_connect(int fd)
{
	check(tcp_n < NTCP, "model: TCP connections");
#ifdef NET_REAL_REG
	if (vp_fds[fd - VP_FD0].pport == 80)
		return 0;	/* no registrar */
#endif
	tcp_fd[tcp_n++] = fd;
#ifdef NET_CONNECT_BLOCKS
	while (connect_blocks) {
		struct vp_fd *f = &vp_fds[fd - VP_FD0];

		if (f->shut || f->closed)
			return 0;
		if (sx_sleep(f, 1))
			return 0;	/* the system gives up in the end */
	}
#endif
	return 1;
}
#endif
static void net_closed(int fd)
{
	int c = client_of(fd);

	if (c >= 0)
		cl[c].state = CL_CLOSED;
}
/* the response the challenge demands, from the digest of the password and the nonce */
static void make_handshake(struct client *c)
{
	int i, n = 0;
	unsigned char in[MD_CAP];

	c->hs_made = 1;
	if (c->how == HOW_MALFORMED) {
		memset(c->hs, 'x', 16);
		c->hs_n = 16;
		return;
	}
	if (c->how == HOW_SILENT)
		return;
	while (c->call[n] != '\0') {
		c->hs[n] = (unsigned char)c->call[n];
		n++;
	}
	c->hs[n++] = '\n';
	memset(in, 0, sizeof(in));
	memcpy(in, "PW", 2);
	memcpy(in + 2, c->replay != NULL ? c->replay : c->out, 8);
	i = md_of(in, 10);
	memcpy(c->hs + n, md[i].out, 16);
	if (c->how == HOW_PASSWORD)
		c->hs[n + 15] ^= 1;
	c->hs_n = n + 16;
}
#ifndef NET_GOT			/* a message for a client */
#define NET_GOT(c) ((void)0)
#endif
#ifndef NET_CHALLENGE		/* bytes sent to a client before its admission, so many in all */
#define NET_CHALLENGE(c, n) ((void)0)
#endif
#ifndef NET_DGRAM		/* a datagram leaving the proxy */
#define NET_DGRAM(f, buf, len, addr, port) ((void)0)
#endif
#ifdef NET_TCP			/* TCP connections of the slots, and the datagrams they sent */
static int tcp_fd[NTCP], tcp_n;
static struct { uint32_t from, to; unsigned int port, to_port; } dgram[4];
static int dgram_n;
#endif
static struct dgram { int data; uint32_t slot, from; unsigned char byte; } dg[8];
static int dg_n, dg_pos;
static long net_recv(int fd, unsigned char *buf, size_t len, struct sockaddr_in *from)
{
	struct vp_fd *f = &vp_fds[fd - VP_FD0];
	int c = client_of(fd), i, n;

	if (c >= 0) {
		struct client *k = &cl[c];

		for (;;) {
			if (f->closed || f->shut)
				return 0;
			if (!k->hs_made && k->out_n >= 8)
				make_handshake(k);
			if (k->hs_pos < k->hs_n && !k->hold) {
				n = k->hs_n - k->hs_pos;
				if ((size_t)n > len)
					n = (int)len;
				memcpy(buf, k->hs + k->hs_pos, (size_t)n);
				k->hs_pos += n;
				return n;
			}
			if (k->hs_made && !k->hold && k->how == HOW_GOOD && !k->admitted) {
				check(len == 9, "an admitted client's messages are read from the start");
				k->admitted = 1;
			}
			if (k->msg_pos < k->msg_n) {
				n = k->msg_n - k->msg_pos;
				if ((size_t)n > len)
					n = (int)len;
				memcpy(buf, k->msg + k->msg_pos, (size_t)n);
				k->msg_pos += n;
				return n;
			}
			if (k->gone > 1)
				return -k->gone;	/* the system gave up on it */
			if (k->gone)
				return 0;
			sx_sleep(f, 0);
		}
	}
#ifdef NET_TCP
	while (f->stream) {
		if (f->closed || f->shut)
			return 0;
		sx_sleep(f, 0);
	}
#endif
	for (;;) {
		if (f->closed || f->shut) {
			vp_from_none = 1;
			return 0;
		}
		for (i = dg_pos; i < dg_n; i++)
			if (f->baddr == dg[i].slot && f->bport == (dg[i].data ? 5198 : 5199))
				break;
		if (i < dg_n) {
			dg[i].slot = 0xffffffffu;	/* taken */
			buf[0] = dg[i].byte;
			memset(from, 0, sizeof(*from));
			from->sin_family = AF_INET;
			from->sin_port = f->bport;
			from->sin_addr.s_addr = dg[i].from;
			return 1;
		}
		sx_sleep(f, 0);
	}
}
static long net_send(int fd, const unsigned char *buf, size_t len, const struct sockaddr_in *to)
{
	struct vp_fd *f = &vp_fds[fd - VP_FD0];
	int c = client_of(fd);
	size_t i;

	if (c < 0) {
		check(to != NULL && len > 0, "datagrams are addressed");
#ifdef NET_TCP
		if (dgram_n < 4) {
			dgram[dgram_n].from = f->baddr;
			dgram[dgram_n].port = f->bport;
			dgram[dgram_n].to = to->sin_addr.s_addr;
			dgram[dgram_n++].to_port = (to->sin_port >> 8 | to->sin_port << 8) & 0xffff;
		}
#endif
		NET_DGRAM(f, buf, len, to->sin_addr.s_addr, (to->sin_port >> 8 | to->sin_port << 8) & 0xffff);
		return (long)len;
	}
	if (cl[c].gone)
		check((vp_send_flags & MSG_NOSIGNAL) != 0, "sending to a client that is gone does not end the program");
	if (f->shut_wr || cl[c].gone)
		return cl[c].gone > 1 ? -cl[c].gone : -EPIPE;
	if (!cl[c].admitted && cl[c].out_n + len <= 18) {
		memcpy(cl[c].out + cl[c].out_n, buf, len);
		cl[c].out_n += (int)len;
		NET_CHALLENGE(c, cl[c].out_n);
		return (long)len;
	}
	check(cl[c].hs_made && cl[c].how == HOW_GOOD, "only admitted clients get messages");
	for (i = 0; i < len; i++) {
		check(cl[c].in_n < 16, "model: message size");
		cl[c].in[cl[c].in_n++] = buf[i];
		if (cl[c].in_n >= 9 && cl[c].in_n == 9 + cl[c].in[5]) {
			memcpy(&cl[c].in_addr, cl[c].in + 1, 4);
			cl[c].in_byte = cl[c].in[9];
			cl[c].in_count++;
			NET_GOT(c);
			cl[c].in_n = 0;
		}
	}
	return (long)len;
}
static int arrive(const char *call, int how)
{
	int i = ncl;

	check(i < NCLI, "model: clients");
	cl[i].state = CL_WAITING;
	cl[i].call = call;
	cl[i].how = how;
	cl[i].gone = how == HOW_GONE;
	ncl++;
	if (listen_fd >= 0)
		sx_wake(&vp_fds[listen_fd - VP_FD0], 1);
	return i;
}
static void leave(int i)
{
	cl[i].gone = 1;
	if (cl[i].fd > 0)
		sx_wake(&vp_fds[cl[i].fd - VP_FD0], 1);
}
static void settle(void)
{
	static int key;

	sx_sleep(&key, 2);
}
static int find_fd(uint32_t addr, uint16_t port)
{
	int i, r = -1;

	for (i = 0; i < vp_fd_next; i++)
		if (vp_fds[i].open && vp_fds[i].bound && !vp_fds[i].stream && vp_fds[i].baddr == addr && vp_fds[i].bport == port) {
			check(r < 0, "a slot's port is bound once");
			r = i + VP_FD0;
		}
	return r;
}
static void datagram(int data, uint32_t slot, uint32_t from, unsigned char byte)
{
	int fd = find_fd(slot, data ? 5198 : 5199);

	if (dg_n == 8)
		dg_n = 0;
	dg[dg_n].data = data;
	dg[dg_n].slot = slot;
	dg[dg_n].from = from;
	dg[dg_n].byte = byte;
	dg_n++;
	if (fd >= 0)
		sx_wake(&vp_fds[fd - VP_FD0], 1);
}
static void message(int c, int type, uint32_t addr, unsigned char byte)
{
	unsigned char *m = cl[c].msg;

	m[0] = (unsigned char)type;
	memcpy(m + 1, &addr, 4);
	memset(m + 5, 0, 4);
	m[5] = 1;
	m[9] = byte;
	cl[c].msg_n = 10;
	cl[c].msg_pos = 0;
	if (cl[c].fd > 0)
		sx_wake(&vp_fds[cl[c].fd - VP_FD0], 1);
}

static int nd_slot_data(void) { static int d; return d = !d; }

/* ---- the proxy ---- */
static struct proxy_handle ph;
static int loop_ret, loop_ended, loop_runs;
static void main_loop(void *p)
{
	(void)p;
	do {
		loop_ret = proxy_process(&ph);
		loop_runs++;
	} while (loop_ret == 0);
	sx_release(&loop_ended);
	loop_ended = 1;
#ifdef NET_LOOP_WAKE
	sx_wake(&loop_ended, 1);
#endif
}
static const char *const slot_addr_str[4] = { "10.0.2.1", "10.0.2.2", "10.0.2.3", "10.0.2.4" };
#ifndef NET_OWN_CONF
static const
#else
static
#endif
uint32_t slot_addr[NSLOT < 4 ? 4 : NSLOT] = { 0x0102000a, 0x0202000a, 0x0302000a, 0x0402000a };
static char *slot_add[3];
#ifdef NET_OWN_CONF
static void net_conf(void);
#else
static void net_conf(void)
{
	int i;

	ph.conf.password = (char *)"PW";
	ph.conf.port = 8100;
	ph.conf.bind_addr_ext = (char *)slot_addr_str[0];
	for (i = 1; i < NSLOT; i++)
		slot_add[i - 1] = (char *)slot_addr_str[i];
	ph.conf.bind_addr_ext_add = slot_add;
	ph.conf.bind_addr_ext_add_len = NSLOT - 1;
}
#endif
#ifndef NET_STARTED
#define NET_STARTED() ((void)0)
#endif
static void net_start(void)
{
	check(proxy_init(&ph) == 0, "initialising succeeds");
	net_conf();
	check(proxy_open(&ph) == 0, "opening succeeds");
	check(proxy_start(&ph) == 0, "starting succeeds");
	NET_STARTED();
	sx_thread(main_loop, NULL);
	settle();
}
/* the client that gets a slot's traffic, or -1 */
static int slot_client(int i)
{
	int before[NCLI], c, r = -1, data = nd_slot_data();

	for (c = 0; c < ncl; c++)
		before[c] = cl[c].in_count;
	datagram(data, slot_addr[i], 0x05050505u + (uint32_t)i, (unsigned char)(40 + i));
	settle();
	for (c = 0; c < ncl; c++) {
		if (cl[c].in_count == before[c])
			continue;
		check(r < 0 && cl[c].in_count == before[c] + 1, "a datagram is passed on once");
		check(cl[c].in_addr == 0x05050505u + (uint32_t)i && cl[c].in_byte == (unsigned char)(40 + i) && cl[c].in[0] == (data ? 5 : 6), "a client gets its slot's messages");
		r = c;
	}
	return r;
}
static void net_end(void)
{
	proxy_shutdown(&ph);
	settle();
	check(loop_ended && loop_ret < 0, "waiting for a client ends with the shutdown");
	sx_acquire(&loop_ended);
	proxy_free(&ph);
	settle();
	check(vp_fd_live == 0 && vp_live == 0 && vp_ai_live == 0 && vp_thr_live == 0, "everything is released");
}
