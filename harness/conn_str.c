/* Ports and peer addresses as text */
#include <string.h>
#include <stdint.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "vp.h"
static struct sockaddr_storage peer;
#define H_ACCEPT_ADDR(sin) do { memcpy((void *)(sin), &peer, sizeof(peer)); } while (0)
#include "os.h"
#include "conn.h"
static char shown[64];
static size_t shown_n;
const char *h_inet_ntop(int af, const void *src, char *dst, socklen_t size)
{
	size_t i;

	check(af == (int)peer.ss_family, "the address is rendered as what it is");
	if (af == AF_INET) {
		check(memcmp(src, &((struct sockaddr_in *)&peer)->sin_addr, 4) == 0, "the peer's address is rendered");
		shown_n = 7 + (size_t)nd_pick(9);
	} else {
		check(memcmp(src, &((struct sockaddr_in6 *)&peer)->sin6_addr, 16) == 0, "the peer's address is rendered");
		shown_n = 2 + (size_t)nd_pick(44);
	}
	if (size < shown_n + 1) {
		errno = ENOSPC;
		return NULL;
	}
	for (i = 0; i < shown_n; i++) {
		shown[i] = (char)(nd_u8() | 0x20);
		dst[i] = shown[i];
	}
	dst[i] = '\0';
	return dst;
}
/* the text is the port in decimal: digits only, no leading zero, terminated */
static void check_port(const char *t, unsigned int port)
{
	unsigned int v = 0;
	unsigned long ok = 1;
	size_t n = 0;

	while (n < 6 && sx_branch(t[n] != '\0')) {
		ok &= (t[n] >= '0') & (t[n] <= '9');
		v = v * 10 + (unsigned int)(t[n] - '0');
		n++;
	}
	check((n >= 1) & (n <= 5), "a port is at most five digits and terminated");
	check(ok & ((n == 1) | (t[0] != '0')), "a port is rendered in decimal without leading zeros");
	check(v == port, "the port rendered is the port");
	if (n == 5)
		witness("five digits");
}
void vp_main(void)
{
	struct conn_handle l = { 0 }, a = { 0 };
	char expect[80], got[54], res[6];
	unsigned int p = nd_u32() & 0xffff;
	size_t n = 0;

	switch (nd_pick(4)) {
	case 0:
		conn_port_to_str((uint16_t)p, res);
		check_port(res, p);
		return;
	case 1: {
		struct sockaddr_in *in = (struct sockaddr_in *)&peer;
		in->sin_family = AF_INET;
		in->sin_addr.s_addr = nd_u32();
		in->sin_port = htons((uint16_t)p);
		break;
	}
	case 2: {
		struct sockaddr_in6 *in = (struct sockaddr_in6 *)&peer;
		in->sin6_family = AF_INET6;
		sx_fill(&in->sin6_addr, 16);
		in->sin6_port = htons((uint16_t)p);
		break;
	}
	default:
		peer.ss_family = (sa_family_t)nd_u32();
		assume((peer.ss_family != AF_INET) & (peer.ss_family != AF_INET6));
		sx_fill((char *)&peer + 2, 26);
	}
	l.type = a.type = CONN_TYPE_TCP;
	l.source_port = "8100";
	check(conn_init(&l) == 0 && conn_init(&a) == 0 && conn_listen(&l) == 0 && conn_accept(&l, &a) == 0, "accepting succeeds");
	conn_get_remote_addr(&a, got);
	if (peer.ss_family == AF_INET || peer.ss_family == AF_INET6) {
		if (peer.ss_family == AF_INET6)
			expect[n++] = '[';
		check(shown_n > 0, "the address is rendered");
		memcpy(expect + n, shown, shown_n);
		n += shown_n;
		if (peer.ss_family == AF_INET6)
			expect[n++] = ']';
		expect[n++] = ':';
		check(memcmp(got, expect, n) == 0, "a peer is rendered as its address and port");
		check_port(got + n, p);
		if (n == 48 && got[n + 4] != '\0')
			witness("longest address");
	} else {
		check(memcmp(got, "(unknown)", 10) == 0, "any other address is rendered as a placeholder");
		witness("placeholder");
	}
	conn_free(&a);
	conn_free(&l);
}
