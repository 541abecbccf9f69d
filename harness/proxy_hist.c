/* Clients arriving and leaving one after the other, any of several callsigns */
#ifndef STEPS
#define STEPS 4
#endif
#define NCLI (STEPS + NSLOT + 2)
#ifndef NSLOT
#define NSLOT 2
#endif
#define NET_STARTED() check(reg_used == 0 && reg_total == NSLOT, "the registrar hears of the slots when the proxy starts")
#include "net.h"
#include "pearson.h"
static const char *const calls[3] = { "AB", "ABC", "B" };
static unsigned char bucket[3];
uint8_t pearson_get(const uint8_t *data, const size_t len)
{
	int i;

	for (i = 0; i < 3; i++)
		if (strlen(calls[i]) == len && memcmp(calls[i], data, len) == 0)
			return bucket[i];
	check(0, "callsigns are hashed whole");
	return 0;
}
/* ---- what the slots should be doing ---- */
static int holder[NSLOT];	/* client or -1 */
static const char *last[NSLOT];
static int idle[NSLOT], nidle;
static int nbusy;
static void check_slots(void)
{
	int i;

	for (i = 0; i < NSLOT; i++) {
		int d = find_fd(slot_addr[i], 5198), c = find_fd(slot_addr[i], 5199);

		check((d >= 0) == (holder[i] >= 0) && (c >= 0) == (holder[i] >= 0), "a slot's sockets are open while it is in use");
	}
	check(!loop_ended, "the proxy goes on accepting");
	check(reg_used == (size_t)nbusy && reg_total == NSLOT, "the number of used slots is reported");
}
static void an_arrival(int c)
{
	int s, i, j, want = -1;

	settle();
	if (nbusy == NSLOT) {
		check(cl[c].state == CL_CLOSED && cl[c].out_n == 0 && cl[c].in_count == 0, "a connection beyond capacity is closed without being sent anything");
#ifndef VISITS
		witness("full");
#endif
		return;
	}
	check(cl[c].out_n >= 8 || cl[c].how == HOW_GONE, "a connection within capacity is challenged");
	if (cl[c].how == HOW_SILENT) {
		check(cl[c].state == CL_OPEN, "a client may take its time");
		leave(c);
		settle();
	}
	if (cl[c].how != HOW_GOOD) {
		check(cl[c].state == CL_CLOSED && !cl[c].admitted, "a connection that fails to authenticate is closed");
		return;
	}
	check(cl[c].state == CL_OPEN && cl[c].admitted, "a client within capacity is admitted");
	s = -1;
	for (i = 0; i < NSLOT; i++) {
		int k = find_fd(slot_addr[i], 5198) < 0 ? -1 : slot_client(i);

		if (k == c) {
			check(s < 0, "a client is served by one slot");
			check(holder[i] < 0, "a slot serves one client");
			s = i;
		} else {
			check(k == holder[i], "a client gets its own slot's messages");
		}
	}
	check(s >= 0, "an admitted client is served");
	for (i = 0; i < nidle; i++)
		if (last[idle[i]] == cl[c].call) {
			want = idle[i];
			if (want == s)
				break;
		}
	if (want >= 0) {
		check(last[s] == cl[c].call, "a reconnecting client gets its slot back");
		if (idle[0] != s)
			witness("a slot given back out of order");
	} else {
		check(s == idle[0], "the slot idle longest is used");
		witness("the slot idle longest");
	}
	holder[s] = c;
	last[s] = cl[c].call;
	for (i = j = 0; i < nidle; i++)
		if (idle[i] != s)
			idle[j++] = idle[i];
	nidle = j;
	nbusy++;
}
static void a_departure(int s)
{
	leave(holder[s]);
	settle();
	check(cl[holder[s]].state == CL_CLOSED, "a departed client's connection is closed");
	holder[s] = -1;
	idle[nidle++] = s;
	nbusy--;
}
void vp_main(void)
{
#ifndef VISITS
	int how = 0;
#endif
	int i, n;

	sx_preempt(-1);
	bucket[0] = 200;
	bucket[1] = nd_bool() ? 200 : 5;
	bucket[2] = nd_bool() ? 200 : 255;
	for (i = 0; i < NSLOT; i++) {
		holder[i] = -1;
		idle[nidle++] = i;
	}
	net_start();
	nbusy = 0;
	for (n = 0; n < STEPS; n++) {
#ifdef VISITS
		/* everyone leaves before the next arrives */
		int s, e = nd_pick(3);

		an_arrival(arrive(calls[e], HOW_GOOD));
		for (s = 0; s < NSLOT; s++)
			if (holder[s] >= 0)
				a_departure(s);
#else
		int e = nd_pick(4 + NSLOT);

		if (e < 3) {
			an_arrival(arrive(calls[e], HOW_GOOD));
		} else if (e == 3) {
			an_arrival(arrive(calls[0], how == 0 ? (how = HOW_PASSWORD + nd_pick(4)) : how));
		} else {
			assume(holder[e - 4] >= 0);
			if (holder[e - 4] < 0)
				break;
			a_departure(e - 4);
		}
#endif
		check_slots();
	}
	for (i = 0; i < NSLOT; i++)
		if (holder[i] < 0)
			continue;
		else if (nbusy > 1)
			a_departure(i);
	for (i = nbusy; i < NSLOT; i++)
		an_arrival(arrive("AB", HOW_GOOD));
	check_slots();
	check(nbusy == NSLOT, "every slot can be used again");
	net_end();
}
