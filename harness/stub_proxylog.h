/* proxy_log boundary for harnesses that do not include proxy.c */
#include "openelp/openelp.h"
void proxy_log(struct proxy_handle *ph, enum LOG_LEVEL lvl, const char *fmt, ...) { (void)ph; (void)lvl; (void)fmt; }
