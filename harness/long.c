/* Long histories: what counts, rings and numbers do when they have gone round once */
#ifndef N
#define N 270
#endif
#ifndef M
#define M N
#endif
#define NSLOT 2
#define NCLI (2 * N + 8)
#define NTCP (N + 8)
#define NET_TCP
#define VP_NFD (8 * N + 96)
struct vp_fd;
static void left(const unsigned char *buf, unsigned long len, unsigned int from, unsigned int port, unsigned int to, unsigned int to_port);
#define NET_DGRAM(f, buf, len, addr, port) left(buf, len, (f)->baddr, (f)->bport, addr, port)
#include "net.h"
#include "stub_pearson.h"
static unsigned int want_to, want_port, want_byte, left_n;
static void left(const unsigned char *buf, unsigned long len, unsigned int from, unsigned int port, unsigned int to, unsigned int to_port)
{
	check(len == 1, "a message leaves as one datagram");
	check((to == want_to) & (buf[0] == want_byte), "a datagram goes where it is meant to with what it is to carry");
	check(from == slot_addr[0] && port == want_port && to_port == want_port, "a datagram leaves from its socket");
	left_n++;
}
static int joins(const char *call)
{
	int a = arrive(call, HOW_GOOD);

	md_n = 0;	/* digests made before are not needed any more */
	settle();
	check(cl[a].state == CL_OPEN && cl[a].admitted, "a client is served");
	return a;
}
#if defined(SESSIONS)
static void sessions(void)
{
	int i, a, b, flip = nd_bool();

	for (i = 0; i < N; i++) {
		a = joins("A");
		check(slot_client(0) == a, "a client gets its slot back");
		b = joins("B");
		check(slot_client(1) == b, "a client gets its slot back");
		leave((i + flip) % 2 ? a : b);
		settle();
		check(cl[(i + flip) % 2 ? a : b].state == CL_CLOSED, "a connection ends with the session");
		leave((i + flip) % 2 ? b : a);
		settle();
		check(cl[(i + flip) % 2 ? b : a].state == CL_CLOSED, "a connection ends with the session");
		check(reg_used == 0, "the slots are reported free");
	}
	witness("many sessions");
}
static void refusals(void)
{
	int i, a;

	for (i = 0; i < N; i++) {
		md_n = 0;
		a = arrive("C", i % 3 == 0 ? HOW_PASSWORD : i % 3 == 1 ? HOW_MALFORMED : HOW_GONE);
		settle();
		check(cl[a].state == CL_CLOSED && !cl[a].admitted, "a client that did not authenticate is closed");
		check(i % 3 == 2 || cl[a].out_n == (i % 3 == 0 ? 18 : 8), "and told why");
	}
	witness("many refusals");
}
#elif defined(DATAGRAMS)
static void outward(void)
{
	int i, a = joins("A");

	for (i = 0; i < M; i++) {
		want_to = 0x05050505u + (unsigned int)i * 65599u;
		want_byte = nd_u8();
		want_port = i % 3 == 2 ? 5199 : 5198;
		message(a, i % 3 == 2 ? 6 : 5, want_to, (unsigned char)want_byte);
		settle();
		check(left_n == (unsigned int)i + 1, "every message leaves");
	}
	check(cl[a].state == CL_OPEN && cl[a].in_count == 0, "the session goes on");
	leave(a);
	settle();
	witness("many messages");
}
static void inward(void)
{
	int i, a = joins("A");
	uint32_t from;
	unsigned char byte;

	for (i = 0; i < M; i++) {
		from = nd_u32();
		byte = nd_u8();
		datagram(i % 3 != 2, slot_addr[0], from, byte);
		settle();
		check(cl[a].in_count == i + 1 && cl[a].in_n == 0, "every datagram arrives");
		check((cl[a].in_addr == from) & (cl[a].in_byte == byte), "a datagram arrives as it was sent");
		check(cl[a].in[0] == (i % 3 == 2 ? 6 : 5), "a datagram arrives as what it is");
	}
	leave(a);
	settle();
	witness("many datagrams");
}
#else
static void tcp(void)
{
	int i, a = joins("A");

	for (i = 0; i < N; i++) {
		message(a, 1, 0x05050505u + (uint32_t)i * 65599u, 0);
		cl[a].msg[5] = 0;
		cl[a].msg_n = 9;
		settle();
		check(tcp_n == i + 1 && cl[a].in_count == 2 * i + 1 && cl[a].in[0] == 4, "an open request is answered");
		check((cl[a].in[9] | cl[a].in[10] | cl[a].in[11] | cl[a].in[12]) == 0, "a connection that is there is said to be");
		message(a, 3, 0, 0);
		cl[a].msg[5] = 0;
		cl[a].msg_n = 9;
		settle();
		check(cl[a].in_count == 2 * i + 2 && cl[a].in[0] == 3, "a close request is answered");
		check(vp_fds[tcp_fd[i] - VP_FD0].closed, "the connection is closed");
	}
	leave(a);
	settle();
	witness("many TCP connections");
}
#endif
void vp_main(void)
{
	sx_preempt(-1);
	net_start();
#if defined(SESSIONS)
	if (nd_bool())
		sessions();
	else
		refusals();
#elif defined(DATAGRAMS)
	if (nd_bool())
		outward();
	else
		inward();
#else
	tcp();
#endif
	check(slot_client(0) < 0 && slot_client(1) < 0, "no slot is in use");
	joins("A");
	check(slot_client(0) >= 0, "every slot can be used");
	joins("B");
	check(slot_client(1) >= 0, "every slot can be used");
	net_end();
}
