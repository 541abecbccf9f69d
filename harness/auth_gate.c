/* auth-gate: one connection through accept, nonce, handshake, authorisation, against an arbitrary client.
 * Real code: proxy.c, conn.c, digest.c, regex.c, rand.c, mutex_posix.c, pearson.c. */
#include <sys/socket.h>
#include <netinet/in.h>
#include <string.h>
#include "vp.h"

#ifndef PWMAX
#define PWMAX 4
#endif
#define CLI 28			/* callsign (10) + newline + response (16), and one byte more */
#define OUT 24
static unsigned char cli[CLI];
static unsigned int cli_pos;
static unsigned char out[OUT];
static unsigned int out_n;
static int out_err, in_err, granted_out_mark = -1;

static long h_recv(int fd, unsigned char *buf, size_t len)
{
	(void)fd;
	check(cli_pos + len <= CLI, "no more than callsign and response is read during the handshake");
	if (nd_bool()) {	/* the peer goes away here */
		in_err = 1;
		return nd_bool() ? 0 : -104;
	}
	memcpy(buf, cli + cli_pos, len);
	cli_pos += (unsigned int)len;
	return (long)len;
}
static long h_send(int fd, const unsigned char *buf, size_t len)
{
	(void)fd;
	if (nd_bool()) {
		out_err = 1;
		return -32;
	}
	check(out_n + len <= OUT, "no more is sent during the handshake than nonce and status message");
	memcpy(out + out_n, buf, len);
	out_n += (unsigned int)len;
	return (long)len;
}
#define H_SEND(fd, buf, len, to) h_send(fd, buf, len)
#define H_RECV(fd, buf, len, from) h_recv(fd, buf, len)
#define OS_CUSTOM_RAND
#include "os.h"
#include "openelp/openelp.h"
#include "stub_log.h"
#include "stub_conf.h"
#include "stub_registration.h"
#include "stub_worker.h"
#include "stub_pcre2.h"
#include "stub_md5.h"
#include "stub_pearson.h"
#include "proxy_conn.h"

static unsigned int rnd[3], rnd_n;
int vp_rand(void) { unsigned int v = nd_u32() & 0x7fffffff; if (rnd_n < 3) rnd[rnd_n] = v; rnd_n++; return (int)v; }
long vp_random(void) { return vp_rand(); }

/* proxy_conn.h boundary: records which connection and callsign obtained the slot */
static int acc_calls, acc_granted, fin_calls;
static char acc_call[16];
int proxy_conn_init(struct proxy_conn_handle *pc) { static int token; pc->priv = &token; return 0; }
void proxy_conn_free(struct proxy_conn_handle *pc) { pc->priv = NULL; }
int proxy_conn_start(struct proxy_conn_handle *pc) { (void)pc; return 0; }
int proxy_conn_stop(struct proxy_conn_handle *pc) { (void)pc; return 0; }
void proxy_conn_drop(struct proxy_conn_handle *pc) { (void)pc; }
int proxy_conn_in_use(struct proxy_conn_handle *pc) { (void)pc; return 0; }
void proxy_conn_finish(struct proxy_conn_handle *pc) { (void)pc; fin_calls++; }
int proxy_conn_accept(struct proxy_conn_handle *pc, struct conn_handle *c, const char *call, uint8_t reconnect)
{
	int i;

	(void)pc; (void)c; (void)reconnect;
	acc_calls++;
	for (i = 0; i < 12; i++) {
		acc_call[i] = call[i];
		if (call[i] == '\0')
			break;
	}
	check(i < 12, "the callsign is terminated");
	acc_granted = 1;
	granted_out_mark = (int)out_n;
	return 0;
}
int proxy_conn_process(struct proxy_conn_handle *pc) { (void)pc; return -EPIPE; }

static struct proxy_handle ph;
static char pw[PWMAX + 1];

static unsigned char hexd(unsigned int d) { return (unsigned char)(d < 10 ? '0' + d : 'a' + d - 10); }

void vp_main(void)
{
	static const unsigned char bad[10] = { 7, 0, 0, 0, 0, 1, 0, 0, 0, 1 };
	static const unsigned char unauth[10] = { 7, 0, 0, 0, 0, 1, 0, 0, 0, 2 };
	unsigned char nonce[8], want[PWMAX + 8];
	unsigned int i, nl, pwlen, ok_form, ok_pw, have_denied, have_allowed, ok_auth, same, no_mem;

	check(proxy_init(&ph) == 0, "initialisation succeeds");
	pwlen = (unsigned int)nd_pick(PWMAX + 1);
	for (i = 0; i < pwlen; i++) {
		pw[i] = (char)nd_u8();
		assume(pw[i] != 0);
	}
	ph.conf.password = pw;
	have_denied = (unsigned int)nd_bool();
	have_allowed = (unsigned int)nd_bool();
	ph.conf.calls_denied = have_denied ? (char *)"D" : NULL;
	ph.conf.calls_allowed = have_allowed ? (char *)"A" : NULL;
	check(proxy_open(&ph) == 0, "opening succeeds");
	check(proxy_start(&ph) == 0, "starting succeeds");

	for (i = 0; i < CLI; i++)
		cli[i] = nd_u8();

	check(proxy_process(&ph) == 0, "the connection is taken");
	for (i = 0; i < STUB_NWORKERS; i++)
		if ((int)i < sw_n && sw[i].signaled)
			break;
	check(i < STUB_NWORKERS, "a worker is signalled for the new connection");
	/* memory may run out on the way */
	vp_fault_malloc = 1;
	vp_faults_left = 1;
	sw_run((int)i);
	vp_fault_malloc = 0;
	no_mem = vp_faults_left == 0;

	/* ---- specification ---- */
	check(rnd_n >= 1 || no_mem, "a nonce is drawn for the attempt");
	for (i = 0; i < 8; i++)
		nonce[i] = hexd((rnd[0] >> (28 - 4 * i)) & 0xf);
	if (out_n >= 8)
		check(memcmp(out, nonce, 8) == 0, "the nonce goes out as eight lowercase hexadecimal digits, most significant first");
	for (nl = 0; nl < 11 && cli[nl] != '\n'; nl++)
		;
	ok_form = nl <= 10 && cli_pos >= nl + 1 + 16;
	ok_pw = ok_form;
	/* the digest the password and this attempt's nonce demand */
	if (md_n >= 1) {
		check(md_n == 1, "the expected response is computed once");
		check(md[0].len == pwlen + 8, "digest input is password followed by nonce");
		for (i = 0; i < pwlen; i++) {
			unsigned char c = (unsigned char)pw[i];
			want[i] = (unsigned char)(c - 32 * ((c >= 'a') & (c <= 'z')));
		}
		for (i = 0; i < 8; i++)
			want[pwlen + i] = nonce[i];
		check(memcmp(md[0].in, want, pwlen + 8) == 0, "the digest input is the upper-cased password followed by the nonce sent");
		same = memcmp(cli + nl + 1, md[0].out, 16) == 0;
		ok_pw &= same;
	} else if (no_mem) {
		ok_pw = 0;
		check(!acc_granted, "no slot is granted if there is no memory to compute the expected response");
		witness("no memory");
	} else {
		check(!ok_form, "the response is compared with the expected digest");
	}
	ok_auth = 1;
	for (i = 0; (int)i < pc_mn; i++) {
		unsigned char p = (unsigned char)pc_pattern[pc_m[i].code][0];
		check((p == 'D' && have_denied) || (p == 'A' && have_allowed), "configured patterns only");
		if (p == 'D')
			ok_auth &= pc_m[i].ret == PCRE2_ERROR_NOMATCH;
		else
			ok_auth &= pc_m[i].ret >= 0;
	}
	if (acc_granted) {
		check(ok_form, "a slot is only granted after a newline-terminated callsign of at most ten characters and a 16-byte response");
		check(ok_pw, "a slot is only granted for the correct password response to this attempt's nonce");
		check(ok_auth, "a slot is only granted to a callsign the configuration authorises");
		check(pc_mn == (int)(have_denied + have_allowed), "each configured pattern is consulted");
		check(out_n == 8 && granted_out_mark == 8, "an admitted client gets nothing but the nonce");
		for (i = 0; i < nl && cli[i] != '\0'; i++)
			;
		check(memcmp(acc_call, cli, i) == 0, "the slot is granted to the callsign presented");
		check(acc_call[i] == '\0', "the slot is granted to the whole callsign presented and no more");
		check(fin_calls == 1, "the slot is released");
		witness("granted");
		if (nl == 10)
			witness("granted with a ten character callsign");
		if (nl == 0)
			witness("granted with an empty callsign");
	} else {
		check(!(ok_pw & ok_auth) || out_err || in_err || no_mem, "a client with correct credentials is admitted");
		if (!out_err && !in_err && !no_mem) {
			if (!ok_form) {
				check(out_n == 8, "a malformed handshake is not answered");
				witness("malformed");
			} else if (!ok_pw) {
				check(out_n == 18 && memcmp(out + 8, bad, 10) == 0, "a wrong password is answered with status 1");
				witness("wrong password");
			} else {
				check(out_n == 18 && memcmp(out + 8, unauth, 10) == 0, "an unauthorised callsign is answered with status 2");
				witness("unauthorised");
			}
		} else
			witness("cut off");
	}
	/* whatever happened, the connection is gone and the worker is available again */
	check(vp_fd_live == 1, "the client connection is closed afterwards, the listening socket stays open");
}
