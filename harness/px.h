/* proxy.c with every neighbour of the slots stubbed: the environment for its interface functions */
#include <sys/socket.h>
#include <netinet/in.h>
#include <string.h>
#include "vp.h"
#ifndef H_SEND
#define H_SEND(fd, buf, len, to) ((void)(fd), (void)(buf), (long)(len))
#define H_RECV(fd, buf, len, from) ((void)(fd), (void)(buf), (void)(len), 0L)
#endif
#include "os.h"
#include "openelp/openelp.h"
#ifndef PX_REAL_LOG
#include "stub_log.h"
#endif
#ifndef PX_REAL_CONF
#include "stub_conf.h"
#endif
#include "stub_registration.h"
#include "stub_worker.h"
#include "stub_pcre2.h"
#include "stub_md5.h"
#include "stub_pearson.h"
#include "proxy_conn.h"
#ifndef PX_ACCEPT	/* a slot is granted to this callsign */
#define PX_ACCEPT(call) ((void)0)
#endif
#define PXC 16
static struct proxy_conn_handle *px_pc[PXC];
static int px_pcn, px_conn_live;
int proxy_conn_init(struct proxy_conn_handle *pc)
{
	static int token;

	pc->priv = &token;
	if (px_pcn < PXC)
		px_pc[px_pcn++] = pc;
	px_conn_live++;
	return 0;
}
void proxy_conn_free(struct proxy_conn_handle *pc)
{
	if (pc->priv != NULL)
		px_conn_live--;
	pc->priv = NULL;
}
int proxy_conn_start(struct proxy_conn_handle *pc) { (void)pc; return 0; }
int proxy_conn_stop(struct proxy_conn_handle *pc) { (void)pc; return 0; }
void proxy_conn_drop(struct proxy_conn_handle *pc) { (void)pc; }
int proxy_conn_in_use(struct proxy_conn_handle *pc) { (void)pc; return 0; }
void proxy_conn_finish(struct proxy_conn_handle *pc) { (void)pc; }
int proxy_conn_accept(struct proxy_conn_handle *pc, struct conn_handle *c, const char *call, uint8_t reconnect) { (void)pc; (void)c; (void)call; (void)reconnect; PX_ACCEPT(call); return 0; }
int proxy_conn_process(struct proxy_conn_handle *pc) { (void)pc; return -EPIPE; }
