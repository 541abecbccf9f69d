/* What is sent to the registrar, for every name, comment, address, password, port and slot count */
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "vp.h"
static long h_send(int fd, const unsigned char *buf, size_t len);
static long h_recv(int fd, unsigned char *buf, size_t len);
static int h_connect(int fd);
#define H_SEND(fd, buf, len, to) h_send(fd, buf, len)
#define H_RECV(fd, buf, len, from) h_recv(fd, buf, len)
#define H_CONNECT(fd) h_connect(fd)
static unsigned int h_resolve(const char *node);
#define H_RESOLVE(node) h_resolve(node)
#include "os.h"
#ifndef TEXTMAX		/* room for texts */
#define TEXTMAX NAMEMAX
#define LONGEST 0
#else
#define LONGEST TEXTMAX
#endif
#define MD_CAP (64 + 2 * LONGEST)
#include "stub_md5.h"
#include "openelp/openelp.h"
#include "registration.h"
#ifndef NAMEMAX
#define NAMEMAX 5
#endif
static char name[TEXTMAX + 1], comment[TEXTMAX + 1], addr[TEXTMAX + 1], password[8];
static struct proxy_conf conf;
static struct registration_service_handle rs;
static size_t used, total;
static int expect_status;	/* 1 ready, 2 busy, 3 off */
static char out[1200 + 3 * LONGEST];
static size_t out_n, body_at;
static int connects, reports, failing, failed, split, any_reply;
static int cur_fd = -1;
static unsigned int h_resolve(const char *node)
{
	check(strlen(node) == 16 && memcmp(node, "www.echolink.org", 16) == 0, "reports go to the registrar");
	return 0x076433c6u;
}
static int h_connect(int fd)
{
	struct vp_fd *f = &vp_fds[fd - VP_FD0];

	check(f->paddr == 0x076433c6u && f->pport == 80, "reports go to the registrar's HTTP port");
	check(reports == connects || failed, "a new report is only sent after the previous one");
	reports = connects++;
	out_n = 0;
	cur_fd = fd;
	if (failing == 1 && nd_bool()) {
		failed = 1;
		failing = 0;
		return 0;
	}
	return 1;
}
static long h_send(int fd, const unsigned char *buf, size_t len)
{
	size_t i;

	check(fd == cur_fd, "reports go to the registrar");
	if (failing == 2 && nd_bool()) {
		failed = 1;
		failing = 0;
		return -vp_anyerr();
	}
	if (split && len > 3 && nd_bool()) {
		split = 0;
		len = 3;
	}
	check(out_n + len <= sizeof(out), "model: report size");
	for (i = 0; i < len; i++)
		out[out_n + i] = (char)buf[i];
	out_n += len;
	return (long)len;
}
static size_t put(char *b, size_t n, const char *s)
{
	while (*s != '\0')
		b[n++] = *s++;
	return n;
}
static size_t put_num(char *b, size_t n, unsigned int v)
{
	unsigned int d = 1000000000;
	int on = 0;

	for (; d > 0; d /= 10) {
		if (on || d == 1 || v >= d) {
			on = 1;
			b[n++] = (char)('0' + v / d % 10);
		}
	}
	return n;
}
static size_t find(const char *what)
{
	size_t i, l = strlen(what);

	for (i = 0; i + l <= out_n && i < 600 + 3 * LONGEST; i++)
		if (memcmp(out + i, what, l) == 0)
			return i + l;
	check(0, what);
	return 0;
}
static void digest_checked(void)
{
	char in[MD_CAP];
	size_t n = 0;

	n = put(in, n, name);
	n = put(in, n, conf.public_addr == NULL ? "" : addr);
	n = put(in, n, "#5A!zu");
	check(md_n == 1 && md[0].len == n && memcmp(md[0].in, in, n) == 0, "the digest is over name, address and salt");
}
static void request_complete(void)
{
	char body[400 + 3 * LONGEST];
	size_t n = 0, k, i, len = 0;
	static const char *hex = "0123456789ABCDEF";

	reports++;
	/* the HTTP request */
	check(memcmp(out, "POST /proxypost.jsp HTTP/1.1\r\n", 30) == 0, "the report is an HTTP POST request");
	find("\r\nHost: www.echolink.org\r\n");
	find("\r\nContent-Type: application/x-www-form-urlencoded\r\n");
	k = find("\r\nContent-Length: ");
	for (; out[k] >= '0' && out[k] <= '9'; k++)
		len = len * 10 + (size_t)(out[k] - '0');
	check(out[k] == '\r', "Content-Length is a number");
	body_at = find("\r\n\r\n");
	check(out_n - body_at == len, "Content-Length is the length of the body");
	/* the form */
	n = put(body, n, "name=");
	n = put(body, n, name);
	n = put(body, n, "&comment=");
	n = put(body, n, conf.reg_comment == NULL ? "" : comment);
	if (total != 1) {
		n = put(body, n, " [");
		n = put_num(body, n, (unsigned int)used);
		n = put(body, n, "/");
		n = put_num(body, n, (unsigned int)total);
		n = put(body, n, "]");
	}
	n = put(body, n, "&public=");
	n = put(body, n, memcmp(password, "PUBLIC", 7) == 0 ? "Y" : "N");
	n = put(body, n, "&status=");
	n = put(body, n, expect_status == 1 ? "Ready" : expect_status == 2 ? "Busy" : "Off");
	n = put(body, n, "&a=");
	n = put(body, n, conf.public_addr == NULL ? "" : addr);
	n = put(body, n, "&d=");
	for (i = 0; i < 16; i++) {
		body[n++] = hex[md[0].out[i] >> 4];
		body[n++] = hex[md[0].out[i] & 15];
	}
	n = put(body, n, "&p=");
	n = put_num(body, n, conf.port);
	n = put(body, n, "&v=1.2.3o");
	check(len == n, "the report has the length it should have");
	check(memcmp(out + body_at, body, n) == 0, "the report states the configuration and the status");
	if (expect_status == 1)
		witness("a Ready report");
	else if (expect_status == 2)
		witness("a Busy report");
	else
		witness("an Off report");
}
static long h_recv(int fd, unsigned char *buf, size_t len)
{
	size_t i;

	check(fd == cur_fd, "reports go to the registrar");
	if (reports < connects)
		request_complete();
	if (failing == 3 && nd_bool())
		return nd_bool() ? 0 : -vp_anyerr();
	for (i = 0; i < len; i++)
		buf[i] = (unsigned char)"HTTP/1.1 200 OK"[i];
	if (any_reply) {
		any_reply = 0;
		for (i = 0; i < len; i++)
			buf[i] = nd_u8();
		return sx_branch(nd_bool()) ? 1 : (long)len;
	}
	return (long)len;
}
static void text(char *s, int n)
{
	int i;

	for (i = 0; i < n; i++) {
		s[i] = (char)nd_u8();
		assume(s[i] != '\0');
	}
	s[n] = '\0';
}
#if LONGEST > 0
/* one of many lengths; the first, the last and one byte in the middle arbitrary */
static int longest;
static void long_text(char *s)
{
	static const int lengths[] = { 0, 12, 63, 64, 99, 100, 127, 128, 200, 255, 256, 300, 512, LONGEST };
	int i, n = longest ? LONGEST : lengths[nd_pick((int)(sizeof(lengths) / sizeof(lengths[0])))];

	for (i = 0; i < n; i++) {
		s[i] = (char)('a' + i % 23);
		if (i == 0 || i == n - 1 || i == n / 2) {
			s[i] = (char)nd_u8();
			assume(s[i] != '\0');
		}
	}
	s[n] = '\0';
	if (n == LONGEST)
		witness("a long text");
}
#endif
static void settle(void)
{
	static int quiet;

	sx_sleep(&quiet, 2);
}
void vp_main(void)
{
	static const char *const pws[] = { "PUBLIC", "PUBLI", "PUBLICX", "public", "secret" };
#if LONGEST > 0
	int what = 4, n, before;
#else
	int what = nd_pick(4), n, before;
#endif

	conf.password = password;
	memcpy(password, pws[0], 7);
	conf.reg_name = name;
	conf.port = 8100;
	memcpy(name, "ab", 3);
	used = 3;
	total = 7;
	switch (what) {
#if LONGEST > 0
	case 4:
		n = nd_pick(4);	/* one of them, or all of them as long as they get */
		longest = n == 3;
		if (n == 0 || n == 3)
			long_text(name);
		if (n == 1 || n == 3) {
			long_text(comment);
			conf.reg_comment = comment;
		}
		if (n == 2 || n == 3) {
			long_text(addr);
			conf.public_addr = addr;
		}
		total = nd_bool() ? 1 : 65535;
		break;
#else
	case 0:	/* names and comments */
		n = nd_pick(NAMEMAX + 1);
		text(name, n);
		if (nd_bool()) {
			n = nd_pick(NAMEMAX + 1);
			text(comment, n);
			conf.reg_comment = comment;
		}
		if (nd_bool()) {
			n = nd_bool() ? NAMEMAX : 0;
			text(addr, n);
			conf.public_addr = addr;
		}
		break;
	case 1: {
		const char *pw = pws[nd_pick(5)];

		memcpy(password, pw, strlen(pw) + 1);
		conf.port = (uint16_t)nd_u32();
		assume(conf.port != 0);
		split = 1;
		break;
	}
	case 2:
		used = nd_u32() & 0xffff;
		total = nd_u32() & 0xffff;
		assume(used <= total);
		break;
	default:
		any_reply = nd_bool();
		failing = 1 + nd_pick(4);
#endif
	}
	check(registration_service_init(&rs) == 0, "initialising succeeds");
	check(registration_service_start(&rs, &conf) == 0, "starting succeeds");
	settle();
	check(connects == 0, "nothing is reported before the status is known");
	digest_checked();
	if (total == 0 || sx_branch(used >= total))
		expect_status = 2;
	else
		expect_status = 1;
	if (sx_branch(total == 1))
		total = 1;
	if (failing == 4) {	/* what the system is asked for on the way is refused once */
		vp_fault_malloc = vp_fault_pthread = vp_fault_sock = vp_fault_gai = 1;
		vp_faults_left = 1;
	}
	registration_service_update(&rs, used, total);
	settle();
	if (failing == 4) {
		vp_fault_malloc = vp_fault_pthread = vp_fault_sock = vp_fault_gai = 0;
		if (vp_faults_left == 0) {
			failed = 1;
#if LONGEST == 0
			witness("the system refuses");
#endif
		}
		vp_faults_left = 1000;
	}
	check(connects >= 1 || failed, "an update is reported");
	check(reports == connects || failed, "a report is sent unless the connection fails");
	before = connects;
	if (what == 3) {	/* after a failure the next update is reported again */
		failing = 0;
		used = 7;
		expect_status = 2;
		registration_service_update(&rs, used, total);
		settle();
		check(reports >= 1 && connects == before + 1, "an update is reported whatever became of the previous one");
		before = connects;
	}
	expect_status = 3;
	check(registration_service_stop(&rs) == 0, "stopping succeeds");
	check(connects == before + 1, "stopping is reported");
	registration_service_free(&rs);
	check(connects == before + 1, "nothing is reported after stopping");
	check(vp_fd_live == 0 && vp_live == 0 && vp_ai_live == 0 && vp_thr_live == 0, "everything is released");
}
