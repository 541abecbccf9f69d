/* The addresses the proxy and its slots use */
#define NSLOT 3
#define NCLI 8
#define NET_OWN_CONF
#define NET_TCP
#include "net.h"
#include "pearson.h"
uint8_t pearson_get(const uint8_t *data, const size_t len)
{
	(void)len;
	return data[0];
}
static int nslots;
static unsigned int port;
static uint32_t bind_to;
static void net_conf(void)
{
	int i, ext;

	ph.conf.password = (char *)"PW";
	port = nd_u32() & 0xffff;
	assume(port != 0);
	ph.conf.port = (uint16_t)port;
	nslots = 1 + nd_pick(NSLOT);
	ext = nslots > 1 || nd_bool();
	ph.conf.bind_addr_ext = ext ? (char *)slot_addr_str[0] : NULL;
	if (!ext) {
		slot_addr[0] = 0;
		witness("no external address");
	}
	for (i = 1; i < nslots; i++)
		slot_add[i - 1] = (char *)slot_addr_str[i];
	ph.conf.bind_addr_ext_add = nslots > 1 ? slot_add : NULL;
	ph.conf.bind_addr_ext_add_len = (uint16_t)(nslots - 1);
	if (nd_bool()) {
		ph.conf.bind_addr = (char *)"10.0.3.1";
		bind_to = 0x0103000a;
	} else {
		ph.conf.bind_addr = NULL;
	}
}
/* every socket the proxy holds */
static void check_sockets(void)
{
	int i, s, l = 0, seen[NSLOT][2] = { { 0 } };

	for (i = 0; i < vp_fd_next; i++) {
		struct vp_fd *f = &vp_fds[i];

		if (!f->open || f->adopted)
			continue;
		if (f->listening) {
			l++;
			check(f->bound && f->stream && f->baddr == bind_to && f->bport == port, "the proxy listens on the configured address and port");
			continue;
		}
		check(f->bound, "a slot's sockets are bound");
		for (s = 0; s < nslots; s++)
			if (f->baddr == slot_addr[s])
				break;
		check(s < nslots, "slots use the configured addresses");
		if (f->stream) {
			check(f->bport == 0, "TCP connections leave from any port");
			continue;
		}
		check(f->bport == 5198 || f->bport == 5199, "data and control use their ports");
		check(!seen[s][f->bport == 5199], "every slot has its own address");
		seen[s][f->bport == 5199] = 1;
	}
	check(l == 1, "the proxy listens once");
	check(vp_fds[listen_fd - VP_FD0].bound_reuse, "the proxy can listen again at once after a restart");
}
static int of_slot(int c)	/* the slot that serves a client */
{
	int s, r = -1;

	for (s = 0; s < nslots; s++)
		if (find_fd(slot_addr[s], 5198) >= 0 && slot_client(s) == c) {
			check(r < 0, "a client is served by one slot");
			r = s;
		}
	check(r >= 0, "a client is served");
	return r;
}
static void use(int c)
{
	int s = of_slot(c), before = tcp_n, i;

	dgram_n = 0;
	message(c, 5, 0x07070707, 1);
	settle();
	message(c, 6, 0x07070707, 2);
	settle();
	check(dgram_n == 2 && dgram[0].from == slot_addr[s] && dgram[1].from == slot_addr[s], "datagrams leave from the slot's address");
	check(dgram[0].port == 5198 && dgram[0].to_port == 5198 && dgram[1].port == 5199 && dgram[1].to_port == 5199, "datagrams leave from and go to their ports");
	message(c, 1, 0x08080808, 0);
	cl[c].msg[5] = 0;
	cl[c].msg_n = 9;
	settle();
	check(tcp_n == before + 1, "a TCP connection is made");
	i = tcp_fd[tcp_n - 1] - VP_FD0;
	check(vp_fds[i].stream && vp_fds[i].bound && vp_fds[i].baddr == slot_addr[s] && vp_fds[i].bport == 0, "the TCP connection leaves from the slot's address");
	check(vp_fds[i].paddr == 0x08080808 && vp_fds[i].pport == 5200, "the TCP connection goes where the client asked");
	check_sockets();
}
void vp_main(void)
{
	static const char *const calls[5] = { "A", "B", "C", "D", "E" };
	int i, k, again = -1;

	net_start();
	check(listen_fd >= 0, "setup");
	check_sockets();
	for (i = 0; i < nslots; i++) {
		k = arrive(calls[i], HOW_GOOD);
		settle();
		check(cl[k].admitted, "as many clients as there are slots are served");
	}
	check_sockets();
	k = arrive(calls[nslots], HOW_GOOD);
	settle();
	check(cl[k].state == CL_CLOSED && !cl[k].admitted, "one slot more than there are additional addresses");
	for (i = 0; i < nslots; i++)
		use(i);
	if (nslots == 3)
		witness("three slots");
	again = nd_pick(nslots);
	leave(again);
	settle();
	check_sockets();
	k = arrive(nd_bool() ? calls[again] : calls[4], HOW_GOOD);
	settle();
	check(cl[k].admitted, "a slot is served again");
	use(k);
	witness("served again");
	net_end();
}
