/* The log: what is written where */
#include <errno.h>
static int log_file_open(const char *path, const char *mode);
#define H_FOPEN(p, m) log_file_open(p, m)
#include "files.h"
#define OS_TIME_TEXT
#define PX_REAL_LOG
#include "px.h"
#include "log.h"
#ifndef STEPS
#define STEPS 3
#endif
static struct proxy_handle ph;
static int refuse, opened;	/* the file cannot be opened; files opened so far */
static int log_file_open(const char *path, const char *mode)
{
	check(path[0] == 'f' && path[1] == '\0', "the file named is the file opened");
	check(mode[0] == 'a', "a log file is appended to");
	if (refuse) {
		errno = 1 + nd_pick(2) * 12;
		return -1;
	}
	opened++;
	return file_out();
}
/* ---- what should be ---- */
static enum LOG_MEDIUM medium;
static int cur = -1;		/* the file in use */
static int level;
static char text[1200];
static size_t text_n;
static void forget(void)
{
	int i;

	for (i = 0; i < vp_files_n; i++)
		vp_files[i].out_n = vp_files[i].flushed = 0;
	vp_syslog_n = 0;
}
static size_t written(int i) { return vp_files[i].out_n; }
/* the message is at the end of what was written, whole, and there is nothing but a stamp before it */
static void has_message(const char *out, size_t n, size_t pre)
{
	check(n >= text_n + 1, "the message is written in full");
	check(n - text_n - 1 <= pre, "the message is written once");
	check(sx_same(out + n - text_n - 1, text, text_n), "the message is written as it is");
	check(out[n - 1] == '.', "the message is written to its end");
}
static void say(int lvl)
{
	size_t total = 0;
	int i;

	forget();
	proxy_log(&ph, (enum LOG_LEVEL)lvl, "%s.", text);
	for (i = 0; i < vp_files_n; i++)
		total += written(i);
	if (lvl > level || medium == LOG_MEDIUM_NONE) {
		check(total == 0 && vp_syslog_n == 0, "nothing is written below the configured level or without a medium");
		return;
	}
	switch (medium) {
	case LOG_MEDIUM_STDOUT:
		check(vp_syslog_n == 0 && total == written(1) + written(2), "the message goes to the console only");
		check(written(1) == 0 || written(2) == 0, "the message is written once");
		i = written(1) ? 1 : 2;
		has_message(vp_files[i].out, written(i), 0);
		check(vp_files[i].flushed == vp_files[i].out_n, "the message is not held back");
		break;
	case LOG_MEDIUM_FILE:
		check(vp_syslog_n == 0 && total == written(cur), "the message goes to the file only");
		has_message(vp_files[cur].out, written(cur), 40);
		check(vp_files[cur].flushed == vp_files[cur].out_n, "the message is not held back");
		break;
	case LOG_MEDIUM_SYSLOG:
		check(vp_syslog_n == 1 && total == 0, "the message goes to the system log only, once");
		check(vp_syslog_pri == (lvl == 0 ? LOG_CRIT : lvl == 1 ? LOG_ERR : lvl == 2 ? LOG_WARNING : lvl == 3 ? LOG_INFO : LOG_DEBUG), "the system log is told the severity");
		has_message(vp_syslog_text, strlen(vp_syslog_text), 0);
		break;
	default:
		check(0, "model: a medium in use");
	}
}
static void select_medium(void)
{
	enum LOG_MEDIUM m = (enum LOG_MEDIUM)nd_pick(5);
	int ret, had = opened;

	refuse = m == LOG_MEDIUM_FILE && nd_bool();
	ret = proxy_log_select_medium(&ph, m, m == LOG_MEDIUM_FILE ? "f" : NULL);
	if (m == LOG_MEDIUM_EVENTLOG || refuse) {
		check(ret < 0, "a medium which cannot be opened is reported");
		witness("no such medium");
		return;
	}
	check(ret == 0, "a medium is selected");
	if (m == LOG_MEDIUM_FILE) {
		check(opened == had + 1, "the file is opened");
		if (cur >= 0)
			witness("another file");
		cur = vp_files_n - 1;
	} else {
		cur = -1;
	}
	medium = m;
}
static void check_open(void)
{
	int i;

	for (i = 3; i < vp_files_n; i++) {
		check(vp_files[i].open == (i == cur), "the file selected is open and no other");
		check(vp_files[i].closes == (i != cur), "a file no longer used is closed once");
	}
	check(vp_syslog_open == (medium == LOG_MEDIUM_SYSLOG), "the system log is open while it is selected");
	check(vp_files[1].open && vp_files[2].open, "the console is left alone");
	check(vp_syslog_opens == vp_syslog_closes + vp_syslog_open, "the system log is opened and closed in turns");
}
static void start(void)
{
	check(proxy_init(&ph) == 0, "initialised");
	medium = LOG_MEDIUM_NONE;
	cur = -1;
	level = LOG_LEVEL_INFO;
}
static void stop(void)
{
	proxy_free(&ph);
	medium = LOG_MEDIUM_NONE;
	cur = -1;
	check_open();
	check(vp_live == 0, "everything is released");
}
void vp_main(void)
{
	int i, l;
	size_t n;

	start();
	switch (nd_pick(4)) {
	case 0:
		n = (size_t)nd_pick(4);
		for (; text_n < n; text_n++) {
			unsigned char c = nd_u8();

			assume(c != 0);
			text[text_n] = (char)c;
		}
		break;
	case 1: n = 255; break;
	case 2: n = 257; break;
	default: n = 1100; break;
	}
	for (; text_n < n; text_n++)
		text[text_n] = (char)('!' + text_n % 90);
	say(0);
	for (i = 0; i < STEPS; i++) {
		switch (nd_pick(3)) {
		case 0:
			select_medium();
			break;
		case 1:
			level = nd_pick(5);
			proxy_log_level(&ph, (enum LOG_LEVEL)level);
			witness("level changed");
			break;
		default:
			stop();
			start();
			witness("freed and used again");
			break;
		}
		check_open();
		for (l = 0; l < 5; l++)
			say(l);
	}
	stop();
}
