/* A proxy in this process on the loopback network, and clients and peers made of plain sockets */
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include "openelp/openelp.h"
#include "digest.h"

#define FAIL(...) do { printf("FAILED: " __VA_ARGS__); printf("\n"); exit(1); } while (0)
#define NEED(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
#define SETUP(c) do { if (!(c)) { printf("cannot set up: %s line %d (%s)\n", #c, __LINE__, strerror(errno)); exit(0); } } while (0)
#define PX_PORT 8117
static struct proxy_handle px;
static pthread_t px_thread;
static volatile int px_stop;
static void nap(int ms)
{
	struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
	nanosleep(&t, NULL);
}
static void *px_main(void *p)
{
	int ret;

	do {
		ret = proxy_process(&px);
	} while (ret >= 0 || ret == -EINTR);
	px_stop = 1;
	return p;
}
/* slot i uses 127.0.0.(2+i) */
static void px_up(int slots)
{
	int i;

	alarm(120);
	SETUP(proxy_init(&px) == 0);
	proxy_log_level(&px, getenv("DEBUG") ? LOG_LEVEL_DEBUG : LOG_LEVEL_FATAL);
	px.conf.password = strdup("SECRET");
	px.conf.bind_addr = strdup("127.0.0.1");
	px.conf.bind_addr_ext = strdup("127.0.0.2");
	px.conf.port = PX_PORT;
	if (slots > 1) {
		px.conf.bind_addr_ext_add = calloc(slots - 1, sizeof(char *));
		px.conf.bind_addr_ext_add_len = slots - 1;
		for (i = 1; i < slots; i++) {
			px.conf.bind_addr_ext_add[i - 1] = malloc(20);
			sprintf(px.conf.bind_addr_ext_add[i - 1], "127.0.0.%d", 2 + i);
		}
	}
	for (i = 0; i < 50 && proxy_open(&px) != 0; i++)
		nap(100);
	SETUP(i < 50);
	SETUP(proxy_start(&px) == 0);
	SETUP(pthread_create(&px_thread, NULL, px_main, NULL) == 0);
	nap(100);
}
static int tcp_to(const char *addr, int port)
{
	struct sockaddr_in a = { 0 };
	int fd = socket(AF_INET, SOCK_STREAM, 0);

	a.sin_family = AF_INET;
	a.sin_port = htons(port);
	a.sin_addr.s_addr = inet_addr(addr);
	if (connect(fd, (struct sockaddr *)&a, sizeof(a)) != 0) {
		close(fd);
		return -1;
	}
	return fd;
}
/* reads exactly n bytes within ms; returns the number read */
static int rd(int fd, void *buf, int n, int ms)
{
	int got = 0, r;
	struct pollfd p = { fd, POLLIN, 0 };

	while (got < n) {
		if (poll(&p, 1, ms) <= 0)
			break;
		r = read(fd, (char *)buf + got, n - got);
		if (r <= 0)
			break;
		got += r;
	}
	return got;
}
/* has the other end closed the connection within ms? */
static int is_closed(int fd, int ms)
{
	char c;
	struct pollfd p = { fd, POLLIN, 0 };

	while (poll(&p, 1, ms) > 0)
		if (read(fd, &c, 1) <= 0)
			return 1;
	return 0;
}
static int client_raw(char nonce[9])
{
	int fd = tcp_to("127.0.0.1", PX_PORT);

	SETUP(fd >= 0);
	nonce[8] = 0;
	if (rd(fd, nonce, 8, 3000) != 8) {
		close(fd);
		return -1;
	}
	return fd;
}
extern int get_password_response(uint32_t nonce, const char *password, uint8_t response[16]);
static int client(const char *call, const char *pass)
{
	char nonce[9], line[40];
	uint8_t resp[16];
	int fd = client_raw(nonce);

	if (fd < 0)
		return -1;
	get_password_response(strtoul(nonce, NULL, 16), pass, resp);
	sprintf(line, "%s\n", call);
	SETUP(write(fd, line, strlen(line)) == (int)strlen(line));
	SETUP(write(fd, resp, 16) == 16);
	return fd;
}
struct __attribute__((packed)) hdr { uint8_t type; uint32_t addr; uint32_t size; };
enum { T_OPEN = 1, T_DATA, T_CLOSE, T_STATUS, U_DATA, U_CONTROL };
static int put(int fd, int type, uint32_t addr, const void *data, int n)
{
	struct hdr h = { type, addr, n };
	char *b = malloc(sizeof(h) + n + 1);
	int r;

	memcpy(b, &h, sizeof(h));
	if (n)
		memcpy(b + sizeof(h), data, n);
	r = send(fd, b, sizeof(h) + n, MSG_NOSIGNAL);
	free(b);
	return r == (int)sizeof(h) + n;
}
/* the next message; returns its type, 0 if none */
static int get(int fd, uint32_t *addr, void *data, int *n, int ms)
{
	struct hdr h;

	if (rd(fd, &h, sizeof(h), ms) != sizeof(h))
		return 0;
	if (h.size > 100000)
		return -1;
	if (addr)
		*addr = h.addr;
	if (n)
		*n = h.size;
	if (rd(fd, data, h.size, ms) != (int)h.size)
		return -1;
	return h.type;
}
static int udp_at(const char *addr, int port)
{
	struct sockaddr_in a = { 0 };
	int fd = socket(AF_INET, SOCK_DGRAM, 0);

	a.sin_family = AF_INET;
	a.sin_port = htons(port);
	a.sin_addr.s_addr = inet_addr(addr);
	SETUP(bind(fd, (struct sockaddr *)&a, sizeof(a)) == 0);
	return fd;
}
static void udp_put(int fd, const char *addr, int port, const void *data, int n)
{
	struct sockaddr_in a = { 0 };

	a.sin_family = AF_INET;
	a.sin_port = htons(port);
	a.sin_addr.s_addr = inet_addr(addr);
	sendto(fd, data, n, 0, (struct sockaddr *)&a, sizeof(a));
}
static int udp_get(int fd, void *data, int cap, char from[20], int ms)
{
	struct sockaddr_in a = { 0 };
	socklen_t l = sizeof(a);
	struct pollfd p = { fd, POLLIN, 0 };
	int r;

	if (poll(&p, 1, ms) <= 0)
		return -1;
	r = recvfrom(fd, data, cap, 0, (struct sockaddr *)&a, &l);
	strcpy(from, inet_ntoa(a.sin_addr));
	return r;
}
/* which slot serves this client? waits until it is served; -1 if none within ms */
static int slot_of(int fd, const char *peer_addr, int ms)
{
	int s = udp_at(peer_addr, 5199), i, k = -1;
	char buf[100], from[20];

	for (i = 0; i < ms / 50 + 1 && k < 0; i++) {
		if (!put(fd, U_CONTROL, inet_addr(peer_addr), "where?", 6))
			break;
		if (udp_get(s, buf, sizeof(buf), from, 50) == 6)
			k = atoi(strrchr(from, '.') + 1) - 2;
	}
	while (udp_get(s, buf, sizeof(buf), from, 100) >= 0)
		;
	close(s);
	return k;
}
