/* log.h boundary: logging has no effect on the property under check */
#include "log.h"
void log_close(struct log_handle *log) { log->medium = LOG_MEDIUM_NONE; }
void log_free(struct log_handle *log) { (void)log; }
void log_ident(struct log_handle *log) { (void)log; }
#ifndef LOG_FAULTS
#define LOG_MAY_FAIL() ((void)0)
#else
#define LOG_MAY_FAIL() do { if (vp_fault(vp_fault_malloc)) return -ENOMEM; } while (0)
#endif
int log_init(struct log_handle *log) { LOG_MAY_FAIL(); log->medium = LOG_MEDIUM_NONE; log->level = LOG_LEVEL_INFO; return 0; }
const char *log_medium_to_str(enum LOG_MEDIUM m) { (void)m; return "?"; }
int log_open(struct log_handle *log) { LOG_MAY_FAIL(); log->medium = LOG_MEDIUM_STDOUT; return 0; }
void log_printf(struct log_handle *log, enum LOG_LEVEL lvl, const char *fmt, ...) { (void)log; (void)lvl; (void)fmt; }
int log_select_medium(struct log_handle *log, enum LOG_MEDIUM m, const char *t) { log->medium = m; (void)t; return 0; }
void log_vprintf(struct log_handle *log, enum LOG_LEVEL lvl, const char *fmt, va_list a) { (void)log; (void)lvl; (void)fmt; (void)a; }
