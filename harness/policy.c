/* Which callsigns the proxy lets in, for every configuration, pattern result and failure */
#include <errno.h>
#include <string.h>
#include <stddef.h>
#include "vp.h"
#ifndef CSMAX
#define CSMAX 12
#endif
static long pol_result(int code, const unsigned char *s, unsigned long l);
static void pol_compiled(int code, const char *p, unsigned long l);
#define PC_N 8
#define PC_RESULT(code, s, l) ((int)pol_result(code, s, l))
#define PC_ON_COMPILE(code, p, l) pol_compiled(code, p, l)
#include "px.h"
static const char *const pats[4] = { "^AB", "^A.*Z$", "^QRM", "^.C" };
static int pc_which[PC_N];
static void pol_compiled(int code, const char *p, unsigned long l)
{
	int i;

	pc_which[code] = -1;
	for (i = 0; i < 4; i++)
		if ((l == PCRE2_ZERO_TERMINATED ? strlen(p) : l) == strlen(pats[i]) && memcmp(p, pats[i], strlen(pats[i])) == 0)
			pc_which[code] = i;
	check(pc_which[code] >= 0, "patterns are compiled as configured");
}
/* the pattern library's answers, one for each pattern */
static int answer[4];
static char callsign[CSMAX + 1];
static unsigned int cs_len;
static int fault_in;	/* the step with a failure in it */
static int denied, allowed;	/* the configured patterns, -1 for none */
static long pol_result(int code, const unsigned char *s, unsigned long l)
{
	int w = pc_which[code];

	check(w == denied || w == allowed, "only the patterns of this configuration are consulted");
	if (l == PCRE2_ZERO_TERMINATED)
		l = strlen((const char *)s);
	check(l == cs_len && sx_same(s, callsign, cs_len), "the whole callsign is matched");
	return answer[w];
}
static void configure(struct proxy_handle *ph, int base)
{
	denied = nd_bool() ? base : -1;
	allowed = nd_bool() ? base + 1 : -1;
	ph->conf.calls_denied = denied >= 0 ? (char *)pats[denied] : NULL;
	ph->conf.calls_allowed = allowed >= 0 ? (char *)pats[allowed] : NULL;
}
static void faults(int on)
{
	vp_faults_left = on ? 1 : 0;
	pc_fail_compile = pc_fail_md = vp_fault_malloc = on;
}
static void decide(struct proxy_handle *ph)
{
	int r, want, i, before;

	for (i = 0; i < 4; i++)
		answer[i] = nd_int();
	faults(--fault_in == 0);
	before = vp_faults_left;
	r = proxy_authorize_callsign(ph, callsign);
	if (vp_faults_left != before) {
		check(r != 1, "a callsign that could not be matched is not authorised");
		witness("fault while matching");
	}
	else {
		want = 1;
		if (denied >= 0)
			want &= answer[denied] == PCRE2_ERROR_NOMATCH;
		if (allowed >= 0)
			want &= answer[allowed] >= 0;
		check((r == 1) == want, "authorised exactly when not denied and, if there is such a list, allowed");
		check((r == 0) | (r == 1), "the answer is yes or no");
		witness("decided");
	}
	faults(0);
}
static int open_it(struct proxy_handle *ph)
{
	int r, before;

	faults(--fault_in == 0);
	before = vp_faults_left;
	r = proxy_open(ph);
	if (vp_faults_left == before) {
		check(r >= 0, "the proxy opens");
	} else {
		check(r < 0, "the proxy does not open without what it needs");
		check(px_conn_live == 0 && vp_fd_live == 0, "a failed opening leaves nothing behind");
		witness("failed opening");
	}
	faults(0);
	return r;
}
void vp_main(void)
{
	static struct proxy_handle ph;
	int rounds, k, base;
	unsigned int i;

	sx_preempt(-1);
	rounds = 1 + nd_bool();
	cs_len = rounds == 1 ? (unsigned int)nd_pick(CSMAX + 1) : 3;
	fault_in = rounds == 1 ? nd_bool() * 2 : 1 + nd_pick(4);
	sx_fill(callsign, cs_len);
	for (i = 0; i < cs_len; i++)
		assume(callsign[i] != 0);
	faults(0);
	check(proxy_init(&ph) >= 0, "setup");
	ph.conf.bind_addr_ext_add_len = 0;
	ph.conf.port = 8100;
	ph.conf.password = (char *)"PASS";
	for (k = 0; k < rounds; k++) {
		base = k == 0 ? 0 : nd_bool() ? 0 : 2;
		configure(&ph, base);
		if (open_it(&ph) < 0) {
			if (nd_bool())
				configure(&ph, nd_bool() ? 0 : 2);
			check(proxy_open(&ph) >= 0, "the proxy opens once what it needs is there");
			witness("reopened after a failure");
		}
		decide(&ph);
		proxy_close(&ph);
		if (k == 1)
			witness("reopened");
	}
	proxy_free(&ph);
	check(pc_live == 0 && pc_md_live == 0 && px_conn_live == 0 && vp_live == 0 && vp_fd_live == 0, "everything is released");
}
