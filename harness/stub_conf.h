/* conf.h boundary: the harness fills the configuration itself */
#include "conf.h"
static int conf_freed;
int conf_init(struct proxy_conf *conf) { conf->password = NULL; conf->port = 8100; return 0; }
void conf_free(struct proxy_conf *conf) { (void)conf; conf_freed++; }
#ifndef STUB_CONF_PARSE
int conf_parse_file(const char *file, struct proxy_conf *conf, struct log_handle *log) { (void)file; (void)conf; (void)log; return 0; }
#endif
