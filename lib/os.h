/* Model of the operating system boundary. Included once per harness (one translation unit), after the
 * harness has defined the H_* hooks it wants to override. */
#ifndef OS_H_
#define OS_H_
#ifndef PCRE2_CODE_UNIT_WIDTH
#define PCRE2_CODE_UNIT_WIDTH 8
#endif
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <pthread.h>
#include <syslog.h>
#include "vp.h"

#ifndef VP_NFD
#define VP_NFD 12
#endif
#define VP_FD0 3

struct vp_fd {
	unsigned char open, closed, stream, bound, listening, connected, shut, adopted;
	uint32_t baddr;	/* network order */
	uint16_t bport;	/* host order */
	uint32_t paddr;
	uint16_t pport;
	unsigned char shut_wr;	/* shut is for reading and for what waits for connections */
	unsigned char reuse, bound_reuse, keep;
	int keep_idle, keep_intvl, keep_cnt;
};
static struct vp_fd vp_fds[VP_NFD];
static int vp_fd_next;		/* number of descriptors ever created */
static int vp_fd_live;		/* descriptors open now */
static long vp_live;		/* heap blocks live */
static long vp_ai_live;		/* addrinfo results live */

/* ---- fault switches, set by harnesses ---- */
static int vp_fault_malloc;	/* allocation may fail */
static int vp_fault_sock;	/* socket(), setsockopt(), bind(), listen() may fail */
static int vp_fault_gai;
static int vp_fault_pthread;	/* pthread object creation may fail */

static int vp_faults_left = 1000000;
static int vp_fault(int on)
{
	if (on && vp_faults_left > 0 && nd_bool()) {
		vp_faults_left--;
		return 1;
	}
	return 0;
}

/* any error of the system but those that call for trying again */
static int vp_anyerr(void)
{
	unsigned int e = (unsigned int)sx_nd() & 0xff;

	assume((e >= 1) & (e <= 133) & (e != EINTR) & (e != EAGAIN));
	return (int)e;
}

/* ---- memory ---- */
#ifdef VP_SX
#define H_ALLOC(n) sx_alloc(n, 0)
#define H_CALLOC(n, m) sx_alloc((n) * (m), 1)
#define H_FREE(p) sx_free(p)
#else
#define H_ALLOC(n) malloc(n)
#define H_CALLOC(n, m) calloc(n, m)
#define H_FREE(p) free(p)
#endif
void *vp_malloc(size_t n)
{
	void *p;

	if (vp_fault(vp_fault_malloc)) {
		errno = ENOMEM;
		return NULL;
	}
	p = H_ALLOC(n);
	vp_live++;
	return p;
}
void *vp_calloc(size_t n, size_t m)
{
	void *p;

	if (vp_fault(vp_fault_malloc)) {
		errno = ENOMEM;
		return NULL;
	}
	p = H_CALLOC(n, m);
	vp_live++;
	return p;
}
void vp_free(void *p)
{
	if (p != NULL) {
		vp_live--;
		H_FREE(p);
	}
}
void *vp_realloc(void *p, size_t n)
{
	void *q;

	if (p == NULL)
		return vp_malloc(n);
	if (vp_fault(vp_fault_malloc)) {
		errno = ENOMEM;
		return NULL;
	}
#ifdef VP_SX
	{
		size_t old = sx_size(p);

		q = sx_alloc(n, 0);
		memcpy(q, p, old < n ? old : n);
		sx_free(p);
	}
#else
	q = realloc(p, n);
#endif
	return q;
}
char *vp_strndup(const char *s, size_t n)
{
	size_t l = 0, i;
	char *p;

	while (l < n && s[l] != '\0')
		l++;
	p = vp_malloc(l + 1);
	if (p == NULL)
		return NULL;
	for (i = 0; i < l; i++)
		p[i] = s[i];
	p[l] = '\0';
	return p;
}
char *vp_strdup(const char *s)
{
	return vp_strndup(s, (size_t)-1);
}

#ifdef VP_SX
extern int vp_vsnprintf(char *, size_t, const char *, va_list);
#define OS_FMT vp_vsnprintf
#else
#define OS_FMT vsnprintf
#endif
int vp_vasprintf(char **out, const char *f, va_list a)
{
	va_list b;
	int n;
	char t[1];

	va_copy(b, a);
	n = OS_FMT(t, 0, f, b);
	va_end(b);
	*out = vp_malloc((size_t)n + 1);
	if (*out == NULL)
		return -1;
	return OS_FMT(*out, (size_t)n + 1, f, a);
}
int vp_asprintf(char **out, const char *f, ...)
{
	va_list a;
	int n;

	va_start(a, f);
	n = vp_vasprintf(out, f, a);
	va_end(a);
	return n;
}

/* ---- descriptors ---- */
#define VP_BADFD(fd) do { if ((fd) == -1) { errno = EBADF; return -1; } } while (0)
static struct vp_fd *vp_fdp(int fd)
{
	check(fd >= VP_FD0 && fd < VP_FD0 + vp_fd_next, "only descriptors the system handed out are used");
	check(!vp_fds[fd - VP_FD0].closed, "no operation on a closed descriptor");
	return &vp_fds[fd - VP_FD0];
}
#ifdef VP_FD_BANK	/* descriptors are numbered by thread, so that the order in which threads get theirs does not show */
static unsigned char vp_fd_count[VP_NFD / VP_FD_BANK];
static int vp_fd_peek(void) { return sx_self() * VP_FD_BANK + vp_fd_count[sx_self()]; }
#else
static int vp_fd_peek(void) { return vp_fd_next; }
#endif
static int vp_fd_new(int stream)
{
	int i = vp_fd_peek();

#ifdef VP_FD_BANK
	check((sx_self() + 1) * VP_FD_BANK <= VP_NFD && vp_fd_count[sx_self()] < VP_FD_BANK, "model: descriptor table large enough");
	vp_fd_count[sx_self()]++;
	if (i >= vp_fd_next)
		vp_fd_next = i + 1;
#else
	check(i < VP_NFD, "model: descriptor table large enough");
	vp_fd_next++;
#endif
	vp_fd_live++;
	vp_fds[i].open = 1;
	vp_fds[i].stream = stream;
	return i + VP_FD0;
}
#ifndef H_POINT		/* interference point: other threads may act here */
#define H_POINT(what) sx_point()
#endif

#ifndef OS_CUSTOM_SOCKET
int vp_socket(int domain, int type, int protocol)
{
	(void)domain; (void)protocol;
	H_POINT(1);
	if (vp_fault(vp_fault_sock)) {
		errno = vp_anyerr();
		return -1;
	}
	return vp_fd_new((type & 0xf) == SOCK_STREAM);
}
#endif
static void vp_dec_addr(const struct sockaddr *a, uint32_t *addr, uint16_t *port)
{
	const struct sockaddr_in *in = (const struct sockaddr_in *)(const void *)a;

	*addr = in->sin_addr.s_addr;
	*port = (uint16_t)((in->sin_port >> 8) | (in->sin_port << 8));
}
int vp_bind(int fd, const struct sockaddr *a, socklen_t l)
{
	VP_BADFD(fd);
	struct vp_fd *f = vp_fdp(fd);

	(void)l;
	H_POINT(2);
	if (vp_fault(vp_fault_sock)) {
		errno = vp_anyerr();
		return -1;
	}
	vp_dec_addr(a, &f->baddr, &f->bport);
	f->bound = 1;
	f->bound_reuse = f->reuse;
	return 0;
}
int vp_listen(int fd, int backlog)
{
	VP_BADFD(fd);
	struct vp_fd *f = vp_fdp(fd);

	(void)backlog;
	if (vp_fault(vp_fault_sock)) {
		errno = vp_anyerr();
		return -1;
	}
	f->listening = 1;
	return 0;
}
#ifndef H_SETSOCKOPT
#define H_SETSOCKOPT(fd) ((void)0)
#endif
int vp_setsockopt(int fd, int level, int name, const void *val, socklen_t l)
{
	VP_BADFD(fd);
	struct vp_fd *f = vp_fdp(fd);
	int v;

	H_SETSOCKOPT(fd);
	if (vp_fault(vp_fault_sock)) {
		errno = vp_anyerr();
		return -1;
	}
#ifdef H_RCVTIMEO
	if (level == SOL_SOCKET && name == SO_RCVTIMEO) {
		check(l == sizeof(struct timeval), "a receive time limit is given as a time");
		H_RCVTIMEO(fd, ((const struct timeval *)val));
		return 0;
	}
#endif
	if (l != sizeof(int))
		return 0;
	v = *(const int *)val;
	if (level == SOL_SOCKET && name == SO_REUSEADDR)
		f->reuse = v != 0;
	else if (level == SOL_SOCKET && name == SO_KEEPALIVE)
		f->keep = v != 0;
	else if (level == IPPROTO_TCP && name == TCP_KEEPIDLE)
		f->keep_idle = v;
	else if (level == IPPROTO_TCP && name == TCP_KEEPINTVL)
		f->keep_intvl = v;
	else if (level == IPPROTO_TCP && name == TCP_KEEPCNT)
		f->keep_cnt = v;
	return 0;
}
/* after how many seconds the system gives up on a peer that vanished; 0 is never (the defaults are Linux') */
static int vp_keepalive(int fd)
{
	struct vp_fd *f = &vp_fds[fd - VP_FD0];

	if (!f->keep)
		return 0;
	return (f->keep_idle ? f->keep_idle : 7200) + (f->keep_intvl ? f->keep_intvl : 75) * (f->keep_cnt ? f->keep_cnt : 9);
}
int vp_getsockopt(int fd, int level, int name, void *val, socklen_t *l)
{
	VP_BADFD(fd);
	(void)vp_fdp(fd);
	(void)level; (void)name; (void)l;
	if (val != NULL)
		*(int *)val = 0;
	return 0;
}
int vp_getsockname(int fd, struct sockaddr *a, socklen_t *l)
{
	VP_BADFD(fd);
	(void)vp_fdp(fd); (void)a; (void)l;
	return 0;
}
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
	VP_BADFD(fd);
	(void)vp_fdp(fd); (void)a; (void)l;
	return 0;
}
#ifndef H_ACCEPT
#define H_ACCEPT(fd) 1
#endif
#ifndef H_ACCEPT_ADDR
#define H_ACCEPT_ADDR(sin) do { (sin)->sin_family = AF_INET; (sin)->sin_port = 0x3412; \
	(sin)->sin_addr.s_addr = 0x0100007f; } while (0)
#endif
int vp_accept(int fd, struct sockaddr *a, socklen_t *l)
{
	VP_BADFD(fd);
	struct vp_fd *f = vp_fdp(fd);
	int r;

	(void)f;
	H_POINT(3);
	if (!H_ACCEPT(fd)) {
		errno = vp_anyerr();
		return -1;
	}
	r = vp_fd_new(1);
	vp_fds[r - VP_FD0].connected = 1;
	vp_fds[r - VP_FD0].adopted = 1;
	if (a != NULL) {
		struct sockaddr_in *in = (struct sockaddr_in *)(void *)a;

		H_ACCEPT_ADDR(in);
		*l = sizeof(*in);
	}
	return r;
}
#ifndef H_CONNECT
#define H_CONNECT(fd) 1
#endif
int vp_connect(int fd, const struct sockaddr *a, socklen_t l)
{
	VP_BADFD(fd);
	struct vp_fd *f = vp_fdp(fd);

	(void)l;
	vp_dec_addr(a, &f->paddr, &f->pport);
	H_POINT(4);
	if (!H_CONNECT(fd)) {
		errno = vp_anyerr();
		return -1;
	}
	f->connected = 1;
	return 0;
}
#ifndef OS_CUSTOM_SHUTDOWN
int vp_shutdown(int fd, int how)
{
	VP_BADFD(fd);
	struct vp_fd *f = vp_fdp(fd);

	if (how != SHUT_WR)
		f->shut = 1;
	if (how != SHUT_RD)
		f->shut_wr = 1;
	sx_wake(f, 1);		/* whoever is blocked on it returns */
	H_POINT(5);
	return 0;
}
#endif
#ifndef H_CLOSE
#define H_CLOSE(fd) ((void)0)
#endif
int vp_close(int fd)
{
	struct vp_fd *f;

	if (fd < VP_FD0) {	/* not ours (standard streams, or -1) */
		if (fd < 0) {
			errno = EBADF;
			return -1;
		}
		return 0;
	}
	f = vp_fdp(fd);
	H_CLOSE(fd);
	f->open = 0;
	f->closed = 1;
	vp_fd_live--;
	H_POINT(6);
	return 0;
}

/* Sending and receiving: a harness supplies H_SEND / H_RECV, each returning the byte count, 0 (peer closed), or -errno */
#ifndef H_SEND
#define H_SEND(fd, buf, len, to) ((long)(len))
#endif
static int vp_send_flags;	/* of the send under way */
static int vp_from_none;	/* the receive returned without a datagram */
#ifndef H_RECV
#define H_RECV(fd, buf, len, from) (0L)
#endif
static ssize_t vp_ret(long r)
{
	if (r < 0) {
		errno = (int)-r;
		return -1;
	}
	return r;
}
ssize_t vp_sendto(int fd, const void *buf, size_t len, int flags, const struct sockaddr *to, socklen_t tolen)
{
	VP_BADFD(fd);
	struct vp_fd *f = vp_fdp(fd);
	long r;

	(void)tolen; (void)f;
	H_POINT(7);
	vp_send_flags = flags;
	r = H_SEND(fd, (const unsigned char *)buf, len, (const struct sockaddr_in *)(const void *)to);
	return vp_ret(r);
}
ssize_t vp_send(int fd, const void *buf, size_t len, int flags)
{
	return vp_sendto(fd, buf, len, flags, NULL, 0);
}
ssize_t vp_write(int fd, const void *buf, size_t len)
{
	return vp_sendto(fd, buf, len, 0, NULL, 0);
}
ssize_t vp_recvfrom(int fd, void *buf, size_t len, int flags, struct sockaddr *from, socklen_t *fromlen)
{
	VP_BADFD(fd);
	struct vp_fd *f = vp_fdp(fd);
	long r;

	(void)flags; (void)f;
	H_POINT(8);
	r = H_RECV(fd, (unsigned char *)buf, len, (struct sockaddr_in *)(void *)from);
	if (fromlen != NULL && r >= 0)
		*fromlen = vp_from_none ? 0 : sizeof(struct sockaddr_in);
	vp_from_none = 0;
	return vp_ret(r);
}
ssize_t vp_recv(int fd, void *buf, size_t len, int flags)
{
	return vp_recvfrom(fd, buf, len, flags, NULL, NULL);
}
ssize_t vp_read(int fd, void *buf, size_t len)
{
	return vp_recvfrom(fd, buf, len, 0, NULL, NULL);
}
ssize_t vp_sendmsg(int fd, const struct msghdr *m, int flags)
{
	/* one-element vectors only; anything else is written element by element */
	size_t i;
	ssize_t tot = 0, r;

	for (i = 0; i < m->msg_iovlen; i++) {
		r = vp_sendto(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, flags, m->msg_name, m->msg_namelen);
		if (r < 0)
			return tot > 0 ? tot : r;
		tot += r;
		if ((size_t)r < m->msg_iov[i].iov_len)
			return tot;
	}
	return tot;
}
ssize_t vp_recvmsg(int fd, struct msghdr *m, int flags)
{
	return vp_recvfrom(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags, m->msg_name, &m->msg_namelen);
}

/* ---- name resolution: numeric hosts and services; any other host name resolves to VP_NAME_ADDR ---- */
#define VP_NAME_ADDR 0x076433c6u	/* 198.51.100.7 */
#ifndef H_RESOLVE
#define H_RESOLVE(node) VP_NAME_ADDR
#endif
struct vp_ai {
	struct addrinfo ai;
	struct sockaddr_in sin;
};
static int vp_parse_quad(const char *s, uint32_t *out)
{
	unsigned int part, v, n, i = 0;
	uint32_t r = 0;

	for (part = 0; part < 4; part++) {
		v = 0;
		for (n = 0; n < 4 && s[i] >= '0' && s[i] <= '9'; n++, i++)
			v = v * 10 + (unsigned int)(s[i] - '0');
		if (n == 0 || n > 3 || v > 255)
			return 0;
		r |= (uint32_t)v << (8 * part);
		if (part < 3) {
			if (s[i] != '.')
				return 0;
			i++;
		}
	}
	if (s[i] != '\0')
		return 0;
	*out = r;
	return 1;
}
int vp_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
	struct vp_ai *r;
	uint32_t addr = 0, port = 0;
	int i;

	if (vp_fault(vp_fault_gai))
		return EAI_FAIL;
	if (node != NULL && !vp_parse_quad(node, &addr)) {
		if (hints != NULL && (hints->ai_flags & AI_NUMERICHOST))
			return EAI_NONAME;
		addr = H_RESOLVE(node);
	}
	if (node == NULL && (hints == NULL || !(hints->ai_flags & AI_PASSIVE)))
		addr = 0x0100007f;
	if (service != NULL)
		for (i = 0; i < 6 && service[i] != '\0'; i++)
			port = port * 10 + (uint32_t)(service[i] - '0');
	r = H_CALLOC(1, sizeof(*r));
	r->sin.sin_family = AF_INET;
	r->sin.sin_port = (uint16_t)(((port & 0xff) << 8) | ((port >> 8) & 0xff));
	r->sin.sin_addr.s_addr = addr;
	r->ai.ai_family = AF_INET;
	r->ai.ai_socktype = hints == NULL ? SOCK_STREAM : hints->ai_socktype;
	r->ai.ai_addr = (struct sockaddr *)(void *)&r->sin;
	r->ai.ai_addrlen = sizeof(r->sin);
	vp_ai_live++;
	*res = &r->ai;
	return 0;
}
void vp_freeaddrinfo(struct addrinfo *res)
{
	if (res != NULL) {
		vp_ai_live--;
		H_FREE(res);
	}
}

/* ---- threads: cooperative, the engine (or the replay) decides who runs at every point ---- */
#define VP_MTX_DEAD 0xdeadu
#ifndef H_LOCKED
#define H_LOCKED(m) ((void)0)
#endif
#ifndef H_UNLOCK
#define H_UNLOCK(m) ((void)0)
#endif
#ifndef OS_CUSTOM_PTHREAD
int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	(void)a;
	if (vp_fault(vp_fault_pthread))
		return EAGAIN;
	m->__data.__lock = 0;
	m->__data.__owner = 0;
	m->__data.__count = 0;
	return 0;
}
int vp_pthread_mutex_destroy(pthread_mutex_t *m)
{
	check(m->__data.__lock == 0, "no mutex is destroyed while held");
	check(m->__data.__count != VP_MTX_DEAD, "no mutex is destroyed twice");
	m->__data.__count = VP_MTX_DEAD;
	return 0;
}
static void vp_lock_raw(pthread_mutex_t *m)
{
	while (m->__data.__lock != 0)
		sx_sleep(m, 0);
	m->__data.__lock = 1;
	m->__data.__owner = sx_self() + 1;
	sx_acquire(m);
	H_LOCKED(m);
}
static void vp_unlock_raw(pthread_mutex_t *m)
{
	check(m->__data.__lock == 1 && m->__data.__owner == sx_self() + 1, "a mutex is only unlocked by its holder");
	H_UNLOCK(m);
	sx_release(m);
	m->__data.__lock = 0;
	m->__data.__owner = 0;
	sx_wake(m, 1);
}
int vp_pthread_mutex_lock(pthread_mutex_t *m)
{
	check(m->__data.__count != VP_MTX_DEAD, "no destroyed mutex is used");
	sx_point();
	vp_lock_raw(m);
	return 0;
}
int vp_pthread_mutex_trylock(pthread_mutex_t *m)
{
	sx_point();
	if (m->__data.__lock != 0)
		return EBUSY;
	vp_lock_raw(m);
	return 0;
}
int vp_pthread_mutex_unlock(pthread_mutex_t *m)
{
	check(m->__data.__count != VP_MTX_DEAD, "no destroyed mutex is used");
	vp_unlock_raw(m);
	return 0;
}
int vp_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	(void)a;
	if (vp_fault(vp_fault_pthread))
		return EAGAIN;
	c->__data.__g_refs[0] = 0;
	return 0;
}
int vp_pthread_cond_destroy(pthread_cond_t *c)
{
	check(c->__data.__g_refs[0] == 0, "no condition is destroyed while a thread waits on it");
	return 0;
}
static int vp_spurious;		/* waits may return without a reason (as many as time-outs) */
static int vp_timeouts;		/* time-outs so far */
static int vp_cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int timed)
{
	int to;

	check(m->__data.__lock == 1 && m->__data.__owner == sx_self() + 1, "waiting on a condition requires the mutex");
	vp_unlock_raw(m);
	c->__data.__g_refs[0]++;
	to = sx_sleep(c, timed || vp_spurious);
	c->__data.__g_refs[0]--;
	vp_timeouts += timed & to;
	vp_lock_raw(m);
	return to;
}
int vp_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	vp_cond_wait(c, m, 0);
	return 0;
}
#ifndef H_DEADLINE
#define H_DEADLINE(ts) ((void)0)
#endif
int vp_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	(void)ts;
	H_DEADLINE(ts);
	return vp_cond_wait(c, m, 1) ? ETIMEDOUT : 0;
}
int vp_pthread_cond_signal(pthread_cond_t *c)
{
	sx_wake(c, 0);
	return 0;
}
int vp_pthread_cond_broadcast(pthread_cond_t *c)
{
	sx_wake(c, 1);
	return 0;
}
#ifndef VP_NTHR
#define VP_NTHR 12
#endif
struct vp_thr {
	void *(*fn)(void *);
	void *arg;
	unsigned char used, joined, done;
};
static struct vp_thr vp_thrs[VP_NTHR];
static int vp_nthr;
static int vp_thr_live;		/* created and not joined */
static void vp_thread_body(void *p)
{
	struct vp_thr *t = p;

	t->fn(t->arg);
	sx_release(t);
	t->done = 1;
	sx_wake(t, 1);
}
int vp_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	int i = vp_nthr;

	(void)a;
	if (vp_fault(vp_fault_pthread))
		return EAGAIN;
	check(i < VP_NTHR, "model: thread table large enough");
	vp_nthr++;
	vp_thr_live++;
	vp_thrs[i].fn = fn;
	vp_thrs[i].arg = arg;
	vp_thrs[i].used = 1;
	*t = (pthread_t)(i + 1);
#ifdef H_CREATE
	H_CREATE(i);
#else
	sx_thread(vp_thread_body, &vp_thrs[i]);
	sx_point();
#endif
	return 0;
}
int vp_pthread_join(pthread_t t, void **ret)
{
	int i = (int)t - 1;

	check(i >= 0 && i < vp_nthr && vp_thrs[i].used && !vp_thrs[i].joined, "only live threads are joined");
	if (ret != NULL)
		*ret = NULL;
#ifdef H_JOIN
	H_JOIN(i);
#else
	sx_point();
	while (!vp_thrs[i].done)
		sx_sleep(&vp_thrs[i], 0);
	sx_acquire(&vp_thrs[i]);
#endif
	vp_thrs[i].joined = 1;
	vp_thr_live--;
	return 0;
}
int vp_pthread_detach(pthread_t t)
{
	(void)t;
	return 0;
}
pthread_t vp_pthread_self(void)
{
	return (pthread_t)(sx_self() + 1);
}
int vp_pthread_condattr_init(pthread_condattr_t *a) { (void)a; return 0; }
int vp_pthread_condattr_destroy(pthread_condattr_t *a) { (void)a; return 0; }
int vp_pthread_mutexattr_init(pthread_mutexattr_t *a) { (void)a; return 0; }
int vp_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { (void)a; return 0; }
int vp_pthread_attr_init(pthread_attr_t *a)
{
	(void)a;
	return 0;
}
int vp_pthread_attr_destroy(pthread_attr_t *a)
{
	(void)a;
	return 0;
}
int vp_pthread_attr_setstacksize(pthread_attr_t *a, size_t n)
{
	(void)a; (void)n;
	return 0;
}
#endif

/* ---- time and randomness ---- */
#ifndef OS_CUSTOM_TIME
time_t vp_time(time_t *t)
{
	time_t v = (time_t)nd_u32();

	if (t != NULL)
		*t = v;
	return v;
}
int vp_clock_gettime(clockid_t c, struct timespec *t)
{
	(void)c;
	t->tv_sec = (time_t)nd_u32();
	t->tv_nsec = nd_range(0, 999999999);
	return 0;
}
int vp_gettimeofday(struct timeval *t, void *z)
{
	(void)z;
	t->tv_sec = (time_t)nd_u32();
	t->tv_usec = nd_range(0, 999999);
	return 0;
}
#endif
struct tm *vp_localtime_r(const time_t *t, struct tm *r)
{
	(void)t;
	memset(r, 0, sizeof(*r));
	return r;
}
size_t vp_strftime(char *s, size_t n, const char *f, const struct tm *t)
{
	(void)f; (void)t;
#ifdef OS_TIME_TEXT
	if (n > 15) {
		memcpy(s, "Jan 02 03:04:05", 16);
		return 15;
	}
#endif
	if (n > 0)
		s[0] = '\0';
	return 0;
}
#ifndef OS_CUSTOM_RAND
int vp_rand(void)
{
	return (int)(nd_u32() & 0x7fffffff);
}
long vp_random(void)
{
	return (long)(nd_u32() & 0x7fffffff);
}
#endif
#ifndef OS_CUSTOM_SRAND
void vp_srand(unsigned int s) { (void)s; }
void vp_srandom(unsigned int s) { (void)s; }
#endif
#ifndef OS_CUSTOM_SLEEP
int vp_usleep(useconds_t u) { (void)u; H_POINT(9); return 0; }
unsigned int vp_sleep(unsigned int s) { (void)s; H_POINT(9); return 0; }
int vp_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; H_POINT(9); return 0; }
#endif
int vp_sched_yield(void) { H_POINT(9); return 0; }

/* ---- files, output, process: overridable as a block ---- */
#ifndef OS_CUSTOM_STDIO
FILE *vp_stdin, *vp_stdout, *vp_stderr;
FILE *vp_fopen(const char *p, const char *m) { (void)p; (void)m; errno = ENOENT; return NULL; }
int vp_fclose(FILE *f) { (void)f; return 0; }
int vp_fgetc(FILE *f) { (void)f; return EOF; }
char *vp_fgets(char *s, int n, FILE *f) { (void)s; (void)n; (void)f; return NULL; }
size_t vp_fread(void *p, size_t s, size_t n, FILE *f) { (void)p; (void)s; (void)n; (void)f; return 0; }
ssize_t vp_getline(char **l, size_t *n, FILE *f) { (void)l; (void)n; (void)f; return -1; }
int vp_feof(FILE *f) { (void)f; return 1; }
int vp_ferror(FILE *f) { (void)f; return 0; }
#endif
#ifndef OS_CUSTOM_OUTPUT
int vp_fflush(FILE *f) { (void)f; return 0; }
int vp_printf(const char *f, ...) { (void)f; return 0; }
int vp_fprintf(FILE *o, const char *f, ...) { (void)o; (void)f; return 0; }
int vp_vprintf(const char *f, va_list a) { (void)f; (void)a; return 0; }
int vp_vfprintf(FILE *o, const char *f, va_list a) { (void)o; (void)f; (void)a; return 0; }
int vp_puts(const char *s) { (void)s; return 0; }
int vp_fputs(const char *s, FILE *o) { (void)s; (void)o; return 0; }
int vp_putchar(int c) { return c; }
size_t vp_fwrite(const void *p, size_t s, size_t n, FILE *o) { (void)p; (void)s; (void)o; return n; }
void vp_perror(const char *s) { (void)s; }
int vp_setvbuf(FILE *o, char *b, int m, size_t n) { (void)o; (void)b; (void)m; (void)n; return 0; }
void vp_setlinebuf(FILE *o) { (void)o; }
int vp_fputc(int c, FILE *o) { (void)o; return c; }
void vp_openlog(const char *i, int o, int f) { (void)i; (void)o; (void)f; }
void vp_closelog(void) { }
void vp_syslog(int p, const char *f, ...) { (void)p; (void)f; }
void vp_vsyslog(int p, const char *f, va_list a) { (void)p; (void)f; (void)a; }
#endif
#ifndef OS_CUSTOM_PROC
pid_t vp_fork(void) { return 0; }
pid_t vp_setsid(void) { return 1; }
int vp_chdir(const char *p) { (void)p; return 0; }
mode_t vp_umask(mode_t m) { return m; }
int vp_access(const char *p, int m) { (void)p; (void)m; return 0; }
void vp_exit(int c) { (void)c; sx_stop(); for (;;) ; }
int vp_sigaction(int s, const struct sigaction *n, struct sigaction *o) { (void)s; (void)n; (void)o; return 0; }
#endif

static void vp_os_touch(void) VP_UNUSED;
static void vp_os_touch(void) { (void)vp_fault_gai; (void)vp_fault_sock; (void)vp_fd_live; (void)vp_live; (void)vp_ai_live; (void)vp_thr_live; }
#endif
