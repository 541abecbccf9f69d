/* The command line and the life of the daemon */
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include "files.h"
#define OS_CUSTOM_PROC
#define OS_CUSTOM_SLEEP
#include "os.h"
#include "openelp/openelp.h"
#ifndef NARG
#define NARG 3
#endif
extern int proxyd_main(int argc, const char *const argv[]);
/* ---- what the arguments mean ---- */
static const char *av[NARG + 1];
static int ac;
static enum { RUN, INFO, BAD } want;
static int w_debug, w_quiet, w_fg, w_syslog, w_version;
static const char *w_log, *w_conf;
static int str_is(const char *a, const char *b)
{
	while (*b != '\0') {
		if (!sx_branch(*a == *b))
			return 0;
		a++;
		b++;
	}
	return sx_branch(*a == '\0');
}
static void meant(void)
{
	int i;
	const char *p;

	want = RUN;
	for (i = 1; i < ac; i++) {
		p = av[i];
		if (sx_branch(p[0] == '\0')) {
			want = BAD;
			return;
		}
		if (!sx_branch(p[0] == '-') || sx_branch(p[1] == '\0')) {
			if (w_conf != NULL) {
				want = BAD;
				return;
			}
			w_conf = p;
		} else if (sx_branch(p[1] == '-')) {
			if (str_is(p + 2, "debug"))
				w_debug = 1;
			else if (str_is(p + 2, "quiet"))
				w_quiet = 1;
			else if (str_is(p + 2, "help") || str_is(p + 2, "version")) {
				w_version = str_is(p + 2, "version");
				want = INFO;
				return;
			} else {
				want = BAD;
				return;
			}
		} else {
			for (p++; sx_branch(*p != '\0'); p++) {
				if (sx_branch(*p == 'd')) {
					w_debug = 1;
				} else if (sx_branch(*p == 'q')) {
					w_quiet = 1;
				} else if (sx_branch(*p == 'F')) {
					w_fg = 1;
				} else if (sx_branch((*p == 'h') | (*p == 'V'))) {
					w_version = sx_branch(*p == 'V');
					want = INFO;
					return;
				} else if (sx_branch(*p == 'S') && w_log == NULL) {
					w_syslog = 1;
				} else if (sx_branch(*p == 'L') && !w_syslog) {
					if (sx_branch(p[1] != '\0')) {
						w_log = p + 1;
					} else if (i + 1 < ac) {
						w_log = av[++i];
						witness("log path in the next argument");
					} else {
						want = BAD;
						return;
					}
					break;
				} else {
					want = BAD;
					return;
				}
			}
		}
	}
}
/* ---- the library, as the daemon sees it ---- */
static struct { int inited, freed, level, loaded, opened, started, processed, shut, forks, sid, away, closed, said_fatal; enum LOG_MEDIUM medium; const char *target; } st;
static int failed;		/* a step has failed */
static int child;		/* this is the daemon */
static void (*handler[65])(int, siginfo_t *, void *);
static int no_medium, terminated, signals_left = 1, running, usr1;
static void deliver(int force)
{
	int s;

	if (!force && (signals_left == 0 || !nd_bool()))
		return;
	signals_left = 0;
	s = force ? SIGTERM : nd_pick(3) == 0 ? SIGUSR1 : nd_bool() ? SIGTERM : SIGINT;
	check(handler[s] != NULL, "the signals which end the daemon are caught");
	if (s == SIGUSR1) {
		usr1 = 1;
	} else {
		terminated = 1;
		witness("terminated");
	}
	handler[s](s, NULL, NULL);
	check(st.inited == 0 || st.shut > 0, "a signal shuts the proxy down");
}
static int may_fail(void)
{
	if (!failed && !terminated && nd_bool()) {
		failed = 1;
		return 1;
	}
	return 0;
}
#define STEP() check(!failed, "nothing is done after a step has failed")
static void alive(const struct proxy_handle *ph)
{
	check(ph->priv != NULL, "the proxy is used between its initialisation and its end only");
}
int proxy_init(struct proxy_handle *ph)
{
	check(st.inited == 0, "the proxy is initialised once");
	check(want == RUN, "the proxy is not touched when the arguments are wrong or ask for information");
	deliver(0);
	if (may_fail())
		return -ENOMEM;
	ph->priv = ph;
	st.inited = 1;
	st.level = LOG_LEVEL_INFO;
	return 0;
}
void proxy_log(struct proxy_handle *ph, enum LOG_LEVEL lvl, const char *fmt, ...)
{
	(void)fmt;
	if (lvl == LOG_LEVEL_FATAL && ph->priv != NULL)
		st.said_fatal = 1;
}
void proxy_log_level(struct proxy_handle *ph, enum LOG_LEVEL lvl) { alive(ph); st.level = (int)lvl; }
int proxy_log_select_medium(struct proxy_handle *ph, enum LOG_MEDIUM m, const char *target)
{
	alive(ph);
	STEP();
	/* what is asked for may be out of reach, which does not stop the daemon */
	if (m != LOG_MEDIUM_STDOUT && nd_bool()) {
		no_medium = 1;
		return -EACCES;
	}
	st.medium = m;
	st.target = target;
	return 0;
}
int proxy_load_conf(struct proxy_handle *ph, const char *path)
{
	alive(ph);
	STEP();
	if (w_conf != NULL)
		check(path == w_conf || (strlen(path) == strlen(w_conf) && memcmp(path, w_conf, strlen(path)) == 0), "the configuration file named is loaded");
	else
		check(st.away ? strlen(path) == 19 && memcmp(path, "../etc/ELProxy.conf", 20) == 0 : strlen(path) == 12 && memcmp(path, "ELProxy.conf", 13) == 0, "the default configuration file is loaded, or the installed one");
	check(w_quiet && w_debug ? st.level != LOG_LEVEL_INFO : st.level == (w_quiet ? LOG_LEVEL_WARN : w_debug ? LOG_LEVEL_DEBUG : LOG_LEVEL_INFO), "messages are shown as asked for while starting");
	check(st.medium == LOG_MEDIUM_STDOUT, "messages go to the console while starting");
	deliver(0);
	if (may_fail())
		return -EINVAL;
	st.loaded = 1;
	return 0;
}
int proxy_open(struct proxy_handle *ph)
{
	alive(ph);
	STEP();
	check(st.loaded, "the configuration is loaded before the proxy is opened");
	check(!child, "the proxy is opened before the daemon goes to the background");
	deliver(0);
	if (may_fail())
		return -EADDRINUSE;
	st.opened = 1;
	return 0;
}
int proxy_start(struct proxy_handle *ph)
{
	alive(ph);
	STEP();
	check(st.opened && !st.started, "the proxy is opened before it is started, once");
	check(child == !w_fg, "the proxy runs in the background unless told otherwise");
	if (child) {
		check(st.sid && st.closed == 7, "the daemon lets go of the terminal");
		witness("in the background");
	}
	if (no_medium) {
		witness("another log is out of reach");
		check(st.medium == LOG_MEDIUM_STDOUT && (w_log != NULL || w_syslog), "the log stays on the console when another is out of reach");
	} else if (w_log != NULL)
		check(st.medium == LOG_MEDIUM_FILE && (st.target == w_log || str_is(st.target, w_log)), "the log goes to the file named");
	else if (w_syslog)
		check(st.medium == LOG_MEDIUM_SYSLOG, "the log goes to the system log");
	else
		check(st.medium == LOG_MEDIUM_STDOUT, "the log goes to the console");
	if (!w_quiet)
		check((st.level == LOG_LEVEL_DEBUG) == w_debug, "debugging messages are logged when asked for");
	deliver(0);
	if (may_fail())
		return -EAGAIN;
	st.started = 1;
	return 0;
}
int proxy_process(struct proxy_handle *ph)
{
	alive(ph);
	STEP();
	check(st.started, "clients are taken once the proxy is started");
	st.processed++;
	if (st.processed < 3 && !st.shut && nd_bool())
		return 0;
	if (!st.shut && may_fail())
		return -EMFILE;
	if (!st.shut) {
		signals_left = 1;
		deliver(!usr1 && st.processed >= 3);
		if (!st.shut)
			deliver(1);
	}
	return -EINTR;
}
void proxy_shutdown(struct proxy_handle *ph) { (void)ph; st.shut++; }
void proxy_close(struct proxy_handle *ph) { (void)ph; }
void proxy_drop(struct proxy_handle *ph) { (void)ph; }
void proxy_ident(struct proxy_handle *ph) { (void)ph; }
void proxy_update_registration(struct proxy_handle *ph) { (void)ph; }
void proxy_free(struct proxy_handle *ph)
{
	st.freed++;
	ph->priv = NULL;
}
/* ---- the system ---- */
pid_t vp_fork(void)
{
	STEP();
	st.forks++;
	check(!w_fg && st.opened && !st.started, "the daemon goes to the background once the proxy is open, before it is started");
	if (may_fail()) {
		errno = EAGAIN;
		return -1;
	}
	if (nd_bool()) {
		child = 1;
		return 0;
	}
	return 77;
}
pid_t vp_setsid(void)
{
	if (may_fail()) {
		errno = EPERM;
		return -1;
	}
	st.sid = 1;
	return 77;
}
int vp_chdir(const char *p)
{
	(void)p;
	if (may_fail()) {
		errno = EACCES;
		return -1;
	}
	return 0;
}
mode_t vp_umask(mode_t m) { return m; }
int vp_access(const char *p, int m)
{
	(void)m;
	check(strlen(p) == 12 && memcmp(p, "ELProxy.conf", 13) == 0, "the file in the working directory is looked for");
	st.away = nd_bool();
	errno = ENOENT;
	return st.away ? -1 : 0;
}
int h_close(int fd)
{
	check(child && fd >= 0 && fd <= 2, "only the terminal is closed, in the background");
	st.closed |= 1 << fd;
	return 0;
}
int vp_sigemptyset(sigset_t *s) { memset(s, 0, sizeof(*s)); return 0; }
int vp_sigfillset(sigset_t *s) { memset(s, 0xff, sizeof(*s)); return 0; }
int vp_sigaddset(sigset_t *s, int n) { (void)s; (void)n; return 0; }
int vp_sigaction(int s, const struct sigaction *n, struct sigaction *o)
{
	(void)o;
	if (n != NULL)
		handler[s] = n->sa_sigaction;
	return 0;
}
int vp_usleep(useconds_t u)
{
	(void)u;
	if (!terminated)
		deliver(1);
	return 0;
}
unsigned int vp_sleep(unsigned int s) { vp_usleep(s); return 0; }
int vp_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; vp_usleep(0); return 0; }
static int has_version(void)
{
	size_t i;

	for (i = 0; i + 9 <= vp_files[1].out_n; i++)
		if (memcmp(vp_files[1].out + i, "0.9.4-dev", 9) == 0)
			return 1;
	return 0;
}
static void ended(int status)
{
	if (want == BAD) {
		check((status & 0xff) != 0, "wrong arguments end the program with an error");
		check(vp_files[2].out_n > 0, "wrong arguments are reported");
		witness("wrong arguments");
	} else if (want == INFO) {
		check(status == 0, "a request for information ends the program without an error");
		check(vp_files[1].out_n > 0 && has_version(), "the information asked for is printed");
		if (w_version)
			check(vp_files[1].out_n == 10, "the version is printed alone");
		witness("information");
	} else if (st.forks == 1 && !child && !failed) {
		check(status == 0 && st.freed == 0, "the daemon carries on in the background");
		witness("left in the background");
		return;
	} else {
		check((status & 0xff) == 0 ? !failed : failed, "the exit status tells whether the proxy ran");
		check(st.freed == 1 || (st.inited == 0 && st.freed == 0), "the proxy is released, once");
		check(failed || terminated, "the proxy runs until it is told to stop");
		if (failed)
			check(st.said_fatal || vp_files[2].out_n > 0, "a failure is reported");
		if (!failed)
			check(st.started, "the proxy ran");
		return;
	}
	check(st.inited == 0 && st.forks == 0, "the proxy is not touched when the arguments are wrong or ask for information");
}
void vp_exit(int c)
{
	ended(c);
	sx_stop();
	for (;;)
		;
}
static const char *const arg[] = { "-d", "--debug", "-F", "-q", "--quiet", "-h", "--help", "-V", "--version", "-Lx", "-L", "-S", "a.conf", "-", "", "--", "--x", "-E", "-dF", "-FqS", "-FL", "-FLlog", "--debugs" };
static char any[5];
void vp_main(void)
{
	int i, n = nd_pick(NARG + 1), k;

	av[0] = "openelpd";
	ac = 1;
	for (i = 0; i < n; i++)
		av[ac++] = arg[nd_pick(sizeof(arg) / sizeof(arg[0]))];
	if (n == NARG - 1 && nd_bool()) {
		/* the last one is anything */
		k = 1 + nd_pick(4);
		for (i = 0; i < k; i++) {
			unsigned char c = nd_u8();

			assume(c != 0);
			any[i] = (char)c;
		}
		av[ac++] = any;
		witness("an arbitrary argument");
	}
	meant();
	/* what happens while running is looked at with few arguments */
	if (n == NARG && want == RUN) {
		failed = 0;
		signals_left = 0;
	}
	ended(proxyd_main(ac, av));
	(void)running;
}
