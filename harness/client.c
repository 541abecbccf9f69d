/* The client library against the real proxy, and against anything else that answers on the proxy's port */
#include <errno.h>
#include <string.h>
#include <stddef.h>
#include "vp.h"
#include <sys/socket.h>
#include <netinet/in.h>
#ifndef PWMAX
#define PWMAX 4
#endif
static long side_send(int fd, const unsigned char *buf, size_t len);
static long side_recv(int fd, unsigned char *buf, size_t len);
static int side_connect(int fd);
#define H_SEND(fd, buf, len, to) side_send(fd, buf, len)
#define H_RECV(fd, buf, len, from) side_recv(fd, buf, len)
#define H_CONNECT(fd) side_connect(fd)
#define OS_CUSTOM_RAND
#define MD_CAP 128
/* digests all differ; one byte of them, anywhere, is arbitrary */
static int any_at = -1;
static unsigned char any_byte;
#define MD_OUT(j) ((j) == any_at ? any_byte : (unsigned char)(md_n * 16 + (j)))
#define MD_N 8
static void granted_to(const char *call);
#define PX_ACCEPT(call) granted_to(call)
#include "px.h"
#include "proxy_client.h"
int vp_rand(void) { return (int)(nd_u32() & 0x7fffffff); }
long vp_random(void) { return vp_rand(); }

static struct proxy_handle ph;
static struct proxy_client_handle ch;
static char pw[2][PWMAX + 8];	/* the proxy's, the client's */
static char call[12];
static unsigned int call_len;
/* what each side sent */
static unsigned char to_client[64], to_proxy[64];
static unsigned int tc_n, tc_pos, tp_n, tp_pos;
static int cli_fd = -1, cli_ret, cli_ran, connects;
static int one_by_one;
static int recv_fails, send_fails, broke;	/* in the client's way */
static int tc_end = -1;				/* the proxy's side ends here */
static int granted;
static char grant_call[12];

static void granted_to(const char *c)
{
	int i;

	granted++;
	for (i = 0; i < 12; i++) {
		grant_call[i] = c[i];
		if (c[i] == '\0')
			break;
	}
	check(i < 12, "the callsign ends");
}
static int side_connect(int fd)
{
	struct vp_fd *f = &vp_fds[fd - VP_FD0];

	check(f->paddr == 0x0900000a && f->pport == 8123, "the client connects to the given proxy");
	connects++;
	if (vp_fault(vp_fault_sock))
		return 0;
	cli_fd = fd;
	return 1;
}
static long side_send(int fd, const unsigned char *buf, size_t len)
{
	if (fd == cli_fd) {
		check(tc_pos == 8, "nothing is sent before the whole nonce is there");
		if (send_fails && nd_bool()) {
			send_fails = 0;
			broke = 1;
			return -EPIPE;
		}
		if (one_by_one && len > 1)
			len = 1;
		check(tp_n + len <= 64, "no more is sent than callsign and response");
		memcpy(to_proxy + tp_n, buf, len);
		tp_n += (unsigned int)len;
	} else {
		check(tc_n + len <= 64, "model: what the proxy sends");
		memcpy(to_client + tc_n, buf, len);
		tc_n += (unsigned int)len;
	}
	return (long)len;
}
static long side_recv(int fd, unsigned char *buf, size_t len)
{
	if (fd == cli_fd) {
		if (recv_fails && nd_bool()) {
			recv_fails = 0;
			broke = 1;
			return nd_bool() ? 0 : -ECONNRESET;
		}
		check(tc_pos + len <= 8, "the client waits for the nonce and no more");
		if (one_by_one && len > 1)
			len = 1;
		memcpy(buf, to_client + tc_pos, len);
		tc_pos += (unsigned int)len;
		return (long)len;
	}
	if (!cli_ran) {
		cli_ran = 1;
		check(tc_n == 8, "the proxy sends its nonce");
		cli_ret = proxy_client_connect(&ch);
		check(cli_ret == 0, "the client library completes the handshake");
	}
	check(tp_pos + len <= tp_n, "the proxy gets all it waits for");
	if (one_by_one && len > 1)
		len = 1;
	memcpy(buf, to_proxy + tp_pos, len);
	tp_pos += (unsigned int)len;
	return (long)len;
}
static unsigned char upper(char ch1)
{
	unsigned char c = (unsigned char)ch1;

	return (unsigned char)(c - 32 * ((c >= 'a') & (c <= 'z')));
}
static void password(int i)
{
	unsigned int n = (unsigned int)nd_pick(PWMAX + 1), k;

	for (k = 0; k < n; k++) {
		pw[i][k] = (char)nd_u8();
		assume(pw[i][k] != 0);
	}
	pw[i][n] = '\0';
}
static void agreement(void)
{
	int i, same = 1;

	check(proxy_init(&ph) == 0, "setup");
	ph.conf.port = 8100;
	password(0);
	ph.conf.password = pw[0];
	check(proxy_open(&ph) == 0 && proxy_start(&ph) == 0, "setup");
	if (nd_bool()) {
		ch.password = NULL;
		strcpy(pw[1], "PUBLIC");
		if (nd_bool()) {
			strcpy(pw[0], nd_bool() ? "public" : "PUBLIc");
			ph.conf.password = pw[0];
			witness("public password");
		}
	} else {
		password(1);
		ch.password = pw[1];
	}
	one_by_one = nd_bool();
	check(proxy_process(&ph) == 0, "setup");
	for (i = 0; i < STUB_NWORKERS; i++)
		if (sw[i].live && sw[i].signaled)
			break;
	check(i < STUB_NWORKERS, "setup");
	sw_run(i);
	check(cli_ran, "the proxy waits for the client");
	same = strlen(pw[0]) == strlen(pw[1]);
	for (i = 0; same && i <= (int)strlen(pw[0]); i++)
		same &= upper(pw[0][i]) == upper(pw[1][i]);
	check(granted == (same != 0), "the handshake succeeds exactly when the passwords agree");
	if (granted) {
		check(strlen(grant_call) == call_len && sx_same(grant_call, call, call_len + 1), "the proxy sees exactly the client's callsign");
		check(tc_n == 8 && tp_pos == tp_n, "nothing is left over");
		witness("admitted");
		if (call_len == 10)
			witness("ten characters");
	} else {
		check(tc_n == 18, "the proxy reports the wrong password");
		witness("passwords differ");
	}
	if (nd_bool()) {
		proxy_client_disconnect(&ch);
		check(vp_fds[cli_fd - VP_FD0].closed, "disconnecting closes the connection");
	}
	proxy_client_free(&ch);
	check(vp_fds[cli_fd - VP_FD0].closed, "freeing closes the connection");
	proxy_client_free(&ch);
	proxy_close(&ph);
	proxy_free(&ph);
}
static void alone(void)
{
	unsigned char want[PWMAX + 16];
	unsigned int i, n;
	int r, m, before;

	tc_n = 8;
	if (call_len == 1 && nd_bool()) {
		/* not a proxy at all */
		sx_fill(to_client, 8);
		pw[1][0] = 'x';
		ch.password = pw[1];
		r = proxy_client_connect(&ch);
		check(tp_n <= 18, "no more is sent than callsign and response");
		if (r == 0)
			witness("any other answer");
		proxy_client_disconnect(&ch);
		check(vp_fd_live == 0, "the connection is closed");
		proxy_client_free(&ch);
		return;
	}
	/* the nonce a proxy would send: eight lower-case digits */
	for (i = 0; i < 8; i++) {
		unsigned char d = nd_u8();

		assume(d < 16);
		to_client[i] = (unsigned char)('0' + d + 39 * (d > 9));
	}
	password(1);
	ch.password = pw[1];
	one_by_one = nd_bool();
	if (call_len == 1) {
		any_at = nd_pick(17) - 1;
		any_byte = nd_u8();
	}
	switch (nd_pick(4)) {
	case 0:
		recv_fails = 1;
		break;
	case 1:
		send_fails = 1;
		break;
	case 2:
		vp_faults_left = 1;
		vp_fault_sock = vp_fault_gai = vp_fault_malloc = 1;
		break;
	}
	before = vp_faults_left;
	r = proxy_client_connect(&ch);
	vp_fault_sock = vp_fault_gai = vp_fault_malloc = 0;
	if (broke || vp_faults_left != before) {
		check(r < 0, "the client library reports the failure");
		check(vp_fd_live == 0, "the connection is closed");
		if (vp_faults_left != before)
			check(tp_n == 0, "nothing is sent without a connection and a response");
		witness("failed");
		if (tp_n > 0)
			witness("failed while sending");
		/* once more, with nothing in the way */
		recv_fails = send_fails = 0;
		tc_pos = tp_n = 0;
		r = proxy_client_connect(&ch);
	}
	check(r == 0, "the client library connects");
	if (r == 0) {
		n = (unsigned int)strlen(pw[1]);
		for (i = 0; i < n; i++)
			want[i] = upper(pw[1][i]);
		for (i = 0; i < 8; i++)
			want[n + i] = to_client[i];
		check(tp_n == call_len + 17, "callsign, newline and response are sent");
		check(sx_same(to_proxy, call, call_len) && to_proxy[call_len] == '\n', "the callsign goes first, on a line");
		for (m = 0; m < md_n - 1; m++)
			if (memcmp(to_proxy + call_len + 1, md[m].out, 16) == 0)
				break;
		check(memcmp(to_proxy + call_len + 1, md[m].out, 16) == 0, "the response is a digest");
		check(md[m].len == n + 8, "the response belongs to password and nonce");
		check(sx_same(md[m].in, want, n + 8), "the response is the digest of the upper-cased password and the nonce");
		check(connects == 1 || connects == 2, "one connection");
		witness("connected");
	}
	proxy_client_free(&ch);
}
void vp_main(void)
{
	unsigned int i;
	int r;

	sx_preempt(-1);
	call_len = (unsigned int)nd_pick(11);
	for (i = 0; i < call_len; i++) {
		call[i] = (char)nd_u8();
		assume((call[i] != 0) & (call[i] != '\n'));
	}
	if (nd_bool()) {
		vp_faults_left = 1;
		vp_fault_malloc = vp_fault_pthread = 1;
	}
	r = proxy_client_init(&ch);
	if (vp_faults_left == 0) {
		check(r < 0, "initialisation fails without memory");
		proxy_client_free(&ch);
		check(vp_live == 0, "a failed initialisation leaves nothing");
		vp_fault_malloc = vp_fault_pthread = 0;
		vp_faults_left = 1000;
		r = proxy_client_init(&ch);
		witness("initialised again");
		vp_fault_malloc = vp_fault_pthread = 0;
		check(r == 0, "initialisation succeeds");
		proxy_client_free(&ch);
		goto end;
	}
	vp_fault_malloc = vp_fault_pthread = 0;
	vp_faults_left = 1000;
	check(r == 0, "initialisation succeeds");
	ch.host_addr = (char *)"10.0.0.9";
	ch.host_port = (char *)"8123";
	ch.callsign = call_len == 0 && nd_bool() ? NULL : call;
	if (call_len > 1 && call_len < 10)
		agreement();
	else if (nd_bool())
		agreement();
	else
		alone();
end:
	check(vp_live == 0 && vp_fd_live == 0 && vp_ai_live == 0, "everything is released");
}
