/* PCRE2 boundary: compiling and matching give arbitrary results of their documented form; every subject is recorded */
#ifndef PCRE2_CODE_UNIT_WIDTH
#define PCRE2_CODE_UNIT_WIDTH 8
#endif
#include <pcre2.h>
#ifndef PC_N
#define PC_N 4
#endif
#ifndef PC_ON_COMPILE
#define PC_ON_COMPILE(i, p, l) ((void)0)
#endif
/* options that do not change what matches */
#define PC_NEUTRAL (PCRE2_NO_AUTO_CAPTURE | PCRE2_NO_AUTO_POSSESS | PCRE2_NO_START_OPTIMIZE | PCRE2_NO_DOTSTAR_ANCHOR | PCRE2_NEVER_UCP | PCRE2_NEVER_UTF | PCRE2_NEVER_BACKSLASH_C)
static unsigned char pc_obj[PC_N], pc_md[2 * PC_N];
static const char *pc_pattern[PC_N];
static int pc_freed[PC_N], pc_n, pc_md_n, pc_md_live, pc_live;
static int pc_fail_compile, pc_fail_md;
struct pc_match { int code; const unsigned char *subj; size_t len; int ret; };
static struct pc_match pc_m[8];
static int pc_mn;
#ifndef PC_RESULT
#define PC_RESULT(code, s, n) nd_int()
#endif
pcre2_code_8 *pcre2_compile_8(PCRE2_SPTR8 p, PCRE2_SIZE l, uint32_t o, int *ec, PCRE2_SIZE *eo, pcre2_compile_context_8 *c)
{
	(void)c;
	check((o & ~PC_NEUTRAL) == 0, "patterns have their default meaning");
	*ec = 100;
	*eo = 0;
	if (vp_fault(pc_fail_compile))
		return NULL;
	check(pc_n < PC_N, "model: pattern table large enough");
	assume(pc_n < PC_N);
	pc_pattern[pc_n] = (const char *)p;
	PC_ON_COMPILE(pc_n, (const char *)p, l);
	(void)l;
	pc_live++;
	return (pcre2_code_8 *)(void *)&pc_obj[pc_n++];
}
static int pc_idx(const void *p)
{
	int i;
	for (i = 0; i < PC_N; i++)
		if (p == &pc_obj[i])
			return i;
	check(0, "only compiled patterns are used");
	assume(0);
	return -1;
}
void pcre2_code_free_8(pcre2_code_8 *c)
{
	if (c != NULL) {
		int i = pc_idx(c);
		check(!pc_freed[i], "no pattern is freed twice");
		pc_freed[i] = 1;
		pc_live--;
	}
}
pcre2_match_data_8 *pcre2_match_data_create_from_pattern_8(const pcre2_code_8 *c, pcre2_general_context_8 *g)
{
	int i = pc_idx(c);
	(void)g;
	check(!pc_freed[i], "no freed pattern is used");
	if (vp_fault(pc_fail_md))
		return NULL;
	check(pc_md_n < 2 * PC_N, "model: match table large enough");
	assume(pc_md_n < 2 * PC_N);
	pc_md_live++;
	return (pcre2_match_data_8 *)(void *)&pc_md[pc_md_n++];
}
pcre2_match_data_8 *pcre2_match_data_create_8(uint32_t n, pcre2_general_context_8 *g)
{
	(void)n; (void)g;
	if (vp_fault(pc_fail_md))
		return NULL;
	check(pc_md_n < 2 * PC_N, "model: match table large enough");
	assume(pc_md_n < 2 * PC_N);
	pc_md_live++;
	return (pcre2_match_data_8 *)(void *)&pc_md[pc_md_n++];
}
void pcre2_match_data_free_8(pcre2_match_data_8 *m)
{
	if (m != NULL)
		pc_md_live--;
}
int pcre2_match_8(const pcre2_code_8 *c, PCRE2_SPTR8 s, PCRE2_SIZE l, PCRE2_SIZE st, uint32_t o, pcre2_match_data_8 *m, pcre2_match_context_8 *x)
{
	int i = pc_idx(c), r;
	(void)m; (void)x;
	check(!pc_freed[i], "no freed pattern is used");
	check(st == 0 && (o & ~PCRE2_NO_JIT) == 0, "the whole subject is matched with the pattern's own anchoring");
	if (l == PCRE2_ZERO_TERMINATED)
		l = strlen((const char *)s);
	r = PC_RESULT(i, s, l);
	check(pc_mn < 8, "model: match log large enough");
	assume(pc_mn < 8);
	pc_m[pc_mn].code = i;
	pc_m[pc_mn].subj = s;
	pc_m[pc_mn].len = l;
	pc_m[pc_mn].ret = r;
	pc_mn++;
	return r;
}
