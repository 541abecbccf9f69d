/* Something the proxy needs is not there: while it is initialised, opened or started */
#ifndef FAULTS
#define FAULTS 1
#endif
#define NSLOT 2
#define NCLI 6
#define NET_OWN_CONF
#define NET_TCP
#define NET_REAL_REG
#define LOG_FAULTS
#define VP_NTHR 60
#define PC_N 8
#define PC_RESULT(code, s, l) (pc_pattern[code][0] == (char)0x41 ? 1 : -1)
#include "net.h"
#include "pearson.h"
uint8_t pearson_get(const uint8_t *data, const size_t len)
{
	(void)len;
	return data[0];
}
static int nslots, with_reg, with_pat;
static void net_conf(void)
{
	ph.conf.password = (char *)"PW";
	ph.conf.port = 8100;
	ph.conf.bind_addr_ext = (char *)slot_addr_str[0];
	slot_add[0] = (char *)slot_addr_str[1];
	ph.conf.bind_addr_ext_add = nslots > 1 ? slot_add : NULL;
	ph.conf.bind_addr_ext_add_len = (uint16_t)(nslots - 1);
	ph.conf.reg_name = with_reg ? (char *)"Name" : NULL;
	ph.conf.reg_comment = NULL;
	ph.conf.calls_allowed = with_pat ? (char *)"A" : NULL;
	ph.conf.calls_denied = with_pat ? (char *)"B" : NULL;
}
static int before;
static void faults(int on)
{
	vp_fault_malloc = vp_fault_sock = vp_fault_gai = vp_fault_pthread = pc_fail_compile = on;
	before = vp_faults_left;
}
static int step_failed(int r)
{
	int failed = vp_faults_left != before;

	faults(0);
	check((r < 0) == failed, "a step reports an error exactly when something is missing");
	return r < 0;
}
static void end(int how)
{
	if (how == 1)
		proxy_close(&ph);
	proxy_free(&ph);
	settle();
	check(vp_fd_live == 0 && vp_live == 0 && vp_ai_live == 0 && vp_thr_live == 0 && pc_live == 0, "everything is released");
	proxy_shutdown(&ph);	/* or this late */
	sx_stop();
}
void vp_main(void)
{
	static const char *const calls[2] = { "A", "B" };
	int i, k, tries = 0, reopen = 0, r;

	vp_faults_left = FAULTS;
	nslots = 1 + nd_pick(NSLOT);
	with_reg = nd_bool();
	with_pat = nd_bool();
	/* a signal may arrive this early */
	proxy_shutdown(&ph);
	for (;;) {
		check(tries++ <= FAULTS, "setup");
		faults(1);
		r = proxy_init(&ph);
		if (!step_failed(r))
			break;
		check(vp_fd_live == 0 && vp_live == 0 && vp_thr_live == 0, "a failed initialisation leaves nothing behind");
		if (nd_bool())
			end(0);
		witness("initialised again");
	}
	net_conf();
again:
	for (;;) {
		check(tries++ <= FAULTS + 3, "setup");
		faults(1);
		r = proxy_open(&ph);
		if (!step_failed(r))
			break;
		check(vp_fd_live == 0, "a failed opening leaves nothing open");
		check(vp_thr_live == 0, "nothing is started by opening");
		k = nd_pick(3);
		if (k < 2)
			end(k);
		witness("opened again");
	}
	check(vp_thr_live == 0, "the proxy is opened without starting anything, so that it can go to the background");
	for (;;) {
		check(tries++ <= FAULTS + 5, "setup");
		faults(1);
		r = proxy_start(&ph);
		if (!step_failed(r))
			break;
		k = nd_pick(4);
		if (k < 2)
			end(k);
		witness("started again");
		if (k == 3 && !reopen) {
			proxy_close(&ph);
			reopen = 1;
			witness("opened and started again");
			goto again;
		}
	}
	sx_thread(main_loop, NULL);
	settle();
	if (FAULTS > 0 && vp_faults_left == FAULTS && nd_bool())
		witness("no failure");
	for (i = 0; i < nslots; i++) {
		k = arrive(calls[i], HOW_GOOD);
		settle();
		check(cl[k].admitted, "the proxy serves clients");
	}
	k = slot_client(0);
	check(k >= 0 && cl[k].in_count > 0, "datagrams are passed on");
	net_end();
}
