/* registration.h boundary: records what the proxy reports */
#include "registration.h"
static int reg_updates, reg_started, reg_stopped, reg_live;
static size_t reg_used, reg_total;
#ifndef REG_ON_UPDATE
#define REG_ON_UPDATE() ((void)0)
#endif
void registration_service_free(struct registration_service_handle *rs) { if (rs->priv != NULL) { rs->priv = NULL; reg_live--; } }
int registration_service_init(struct registration_service_handle *rs)
{
	static int token;
	rs->priv = &token;
	reg_live++;
	return 0;
}
int registration_service_start(struct registration_service_handle *rs, const struct proxy_conf *conf)
{
	(void)rs; (void)conf;
#ifdef REG_START_MAY_FAIL
	if (nd_bool())
		return -ENOMEM;
#endif
	reg_started++;
	return 0;
}
int registration_service_stop(struct registration_service_handle *rs) { (void)rs; reg_stopped++; return 0; }
void registration_service_update(struct registration_service_handle *rs, size_t used, size_t total)
{
	(void)rs;
	reg_updates++;
	reg_used = used;
	reg_total = total;
	REG_ON_UPDATE();
}
