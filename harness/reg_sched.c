/* Reports to the registrar while the status changes, the period passes and the service stops */
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "vp.h"
static long h_send(int fd, const unsigned char *buf, size_t len);
static long h_recv(int fd, unsigned char *buf, size_t len);
static int h_connect(int fd);
#define H_SEND(fd, buf, len, to) h_send(fd, buf, len)
#define H_RECV(fd, buf, len, from) h_recv(fd, buf, len)
#define H_CONNECT(fd) h_connect(fd)
#define H_RESOLVE(node) 0x076433c6u
#include "os.h"
#define MD_CAP 64
#define MD_OUT(j) (unsigned char)(j)
#include "stub_md5.h"
#include "openelp/openelp.h"
#include "registration.h"
#ifndef P
#define P 1
#endif
static struct proxy_conf conf;
static struct registration_service_handle rs;
static char out[1200];
static size_t out_n;
static int connects, reports, failing, cur_fd = -1, busy, stopped, offs;
static int last_status, last_used, last_total;	/* 1 ready, 2 busy, 3 off */
static int done;
static int h_connect(int fd)
{
	check(!stopped, "nothing is reported once the service has stopped");
	check(!busy, "one report at a time");
	busy = 1;
	connects++;
	out_n = 0;
	cur_fd = fd;
	if (failing && nd_bool()) {
		failing = 0;
		busy = 0;
		reports++;
		return 0;
	}
	return 1;
}
static long h_send(int fd, const unsigned char *buf, size_t len)
{
	check(fd == cur_fd && out_n + len <= sizeof(out), "model: report size");
	memcpy(out + out_n, buf, len);
	out_n += len;
	return (long)len;
}
static long h_recv(int fd, unsigned char *buf, size_t len)
{
	size_t i;

	check(fd == cur_fd, "model: socket");
	check(!stopped, "nothing is reported once the service has stopped");
	if (busy) {
		const char *b = NULL;

		for (i = 0; i + 4 <= out_n; i++)
			if (memcmp(out + i, "\r\n\r\n", 4) == 0)
				b = out + i + 4;
		check(b != NULL && memcmp(b, "name=n&comment=c [", 18) == 0, "the report states the configuration");
		last_used = b[18] - '0';
		last_total = b[20] - '0';
		check(b[19] == '/' && memcmp(b + 21, "]&public=N&status=", 18) == 0, "the report states the configuration");
		b += 39;
		last_status = b[0] == 'R' ? 1 : b[0] == 'B' ? 2 : 3;
		check(memcmp(b, last_status == 1 ? "Ready&" : last_status == 2 ? "Busy&" : "Off&", last_status == 1 ? 6 : last_status == 2 ? 5 : 4) == 0, "the report states the status");
		if (last_status == 1)
			check(last_used < last_total, "Ready means there is a free slot");
		if (last_status == 2)
			check(last_used >= last_total, "Busy means there is none");
		if (last_status == 3)
			offs++;
		check(last_status == 3 || offs == 0, "Off is final");
		busy = 0;
		reports++;
	}
	for (i = 0; i < len; i++)
		buf[i] = (unsigned char)"HTTP/1.1 200 OK"[i];
	return (long)len;
}
static void settle(void)
{
	static int quiet;

	sx_sleep(&quiet, 2);
}
static void update(int used, int total)
{
	registration_service_update(&rs, (size_t)used, (size_t)total);
}
static void updater(void *p)
{
	int n = (int)(intptr_t)p;

	update(n, 3);
	update(n + 1, 3);
	done++;
}
static void reported(int used, int total)
{
	check(reports == connects && reports > 0, "a change is reported");
	check(last_used == used && last_total == total && last_status == (used >= total ? 2 : 1), "the last report states the latest status");
}
void vp_main(void)
{
	int mode, early, n, before, again = 0;

	sx_preempt(-1);
	conf.password = (char *)"pw";
	conf.reg_name = (char *)"n";
	conf.reg_comment = (char *)"c";
	conf.public_addr = (char *)"a";
	conf.port = 8100;
	check(registration_service_init(&rs) == 0, "initialising succeeds");
	mode = nd_pick(6);
	if (mode == 0) {	/* never started */
		if (nd_bool()) {
			conf.reg_name = NULL;
			check(registration_service_start(&rs, &conf) == 0, "starting succeeds");
		}
		update(1, 3);
		update(3, 3);
		settle();
		if (nd_bool())
			registration_service_stop(&rs);
		registration_service_free(&rs);
		settle();
		check(connects == 0, "a service that was not started or has no name reports nothing");
		check(vp_fd_live == 0 && vp_live == 0 && vp_thr_live == 0, "everything is released");
		witness("never started");
		return;
	}
	early = nd_bool();
	if (early)
		update(2, 3);
	sx_preempt(P);
	check(registration_service_start(&rs, &conf) == 0, "starting succeeds");
	if (early && nd_bool()) {
		settle();
		reported(2, 3);
		witness("an update before the start");
	}
	switch (mode) {
	case 1:	/* one thread changing the status */
		n = 1 + nd_pick(2);
		sx_thread(updater, (void *)(intptr_t)n);
		settle();
		check(done == 1, "updating does not wait");
		reported(n + 1, 3);
		break;
	case 2:	/* two */
		sx_thread(updater, (void *)(intptr_t)0);
		update(2, 3);
		settle();
		check(done == 1, "updating does not wait");
		if (last_used == 1)
			reported(1, 3);
		else
			reported(2, 3);
		break;
	case 3:	/* while stopping */
		sx_thread(updater, (void *)(intptr_t)1);
		break;
	case 4:	/* a failure, then the next change */
		failing = 1;
		update(0, 3);
		update(1, 3);
		settle();
		failing = 0;
		update(3, 3);
		settle();
		reported(3, 3);
		break;
	default:	/* at once */
		update(3, 3);
	}
	before = connects;
	check(registration_service_stop(&rs) == 0, "stopping succeeds");
	stopped = 1;
	check(!busy && reports == connects, "stopping waits for the report in progress");
	check(offs >= 1, "stopping is reported");
	n = connects;
	if (connects == before + 2)
		witness("a change and the end");
	if (nd_bool()) {
		update(0, 3);
		settle();
		check(connects == n, "nothing is reported once the service has stopped");
	}
	if (nd_bool()) {
		settle();
		stopped = 0;
		offs = 0;
		again = 1;
		check(registration_service_start(&rs, &conf) == 0, "starting again succeeds");
		update(0, 3);
		settle();
		reported(0, 3);
		witness("started again");
	}
	if (again && nd_bool()) {
		check(registration_service_stop(&rs) == 0, "stopping succeeds");
		check(offs >= 1, "stopping is reported");
	}
	settle();
	registration_service_free(&rs);
	stopped = 1;
	settle();
	check(vp_fd_live == 0 && vp_live == 0 && vp_ai_live == 0 && vp_thr_live == 0, "everything is released");
	if (vp_timeouts > 0)
		witness("the period passed");
}
