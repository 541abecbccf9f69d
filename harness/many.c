/* Many slots: each has its own address, serves its own client and is counted */
#ifndef NSLOT
#define NSLOT 260
#endif
#define NCLI (2 * NSLOT + 8)
#define VP_NFD (16 * NSLOT + 96)
#define VP_NTHR (4 * NSLOT + 16)
#define MD_OUT(j) (unsigned char)((j) == 0 ? md_n : (j) == 1 ? md_n >> 8 : 128 + (j))
#define MD_N (2 * NSLOT + 32)
#define NET_OWN_CONF
struct vp_fd;
#include "net.h"
#include "stub_pearson.h"
static char names[NSLOT][12], calls[NSLOT][8], *many_add[NSLOT];
static int decimal(char *to, int n)
{
	int i = 0;

	if (n >= 100)
		to[i++] = (char)('0' + n / 100);
	if (n >= 10)
		to[i++] = (char)('0' + n / 10 % 10);
	to[i++] = (char)('0' + n % 10);
	to[i] = '\0';
	return i;
}
static void net_conf(void)
{
	int i, n;

	for (i = 0; i < NSLOT; i++) {
		memcpy(names[i], "10.0.", 5);
		n = 5 + decimal(names[i] + 5, i / 200);
		names[i][n++] = '.';
		decimal(names[i] + n, 1 + i % 200);
		slot_addr[i] = 0x0000000au | (uint32_t)(i / 200) << 16 | (uint32_t)(1 + i % 200) << 24;
		calls[i][0] = 'N';
		decimal(calls[i] + 1, i);
		if (i > 0)
			many_add[i - 1] = names[i];
	}
	ph.conf.password = (char *)"PW";
	ph.conf.port = 8100;
	ph.conf.bind_addr_ext = names[0];
	ph.conf.bind_addr_ext_add = many_add;
	ph.conf.bind_addr_ext_add_len = NSLOT - 1;
}
void vp_main(void)
{
	int i, c[NSLOT], first;

	sx_preempt(-1);
	net_start();
	check(reg_total == NSLOT && reg_used == 0, "the slots are reported");
	for (i = 0; i < NSLOT; i++) {
		c[i] = arrive(calls[i], HOW_GOOD);
		settle();
		check(cl[c[i]].state == CL_OPEN && cl[c[i]].admitted, "a client is served");
		check(reg_total == NSLOT && reg_used == (size_t)i + 1, "a client is counted");
	}
	witness("every slot is in use");
	i = arrive("MORE", HOW_GOOD);
	settle();
	check(cl[i].state == CL_CLOSED && cl[i].out_n == 0, "one client more is turned away");
	for (i = 0; i < NSLOT; i++)
		check(slot_client(i) == c[i], "a client gets its slot's traffic");
	first = nd_bool();
	for (i = 0; i < NSLOT; i++) {
		leave(c[first ? NSLOT - 1 - i : i]);
		settle();
		check(reg_used == (size_t)(NSLOT - 1 - i), "a client that left is not counted");
	}
	/* each comes back to the slot it had */
	for (i = NSLOT - 1; i >= 0; i--) {
		c[i] = arrive(calls[i], HOW_GOOD);
		settle();
		check(cl[c[i]].state == CL_OPEN && cl[c[i]].admitted, "a client is served again");
		check(slot_client(i) == c[i], "a client gets its slot back");
	}
	witness("every slot is in use again");
	net_end();
}
