/* md5.h boundary: MD5 as an uninterpreted function (equal inputs give equal digests, anything else is free);
 * every input is recorded. MD5 itself is decided by property md5-digest. */
#include "md5.h"
#ifndef MD_CAP
#define MD_CAP 128
#endif
#ifndef MD_OUT
#define MD_OUT(j) nd_u8()
#endif
#ifndef MD_N
#define MD_N 3
#endif
struct md_call { unsigned char in[MD_CAP]; unsigned int len; unsigned char out[16]; };
static struct md_call md[MD_N];
static int md_n;
static unsigned char md_cur[MD_CAP];
static unsigned int md_cur_len;
void MD5_Init(MD5_CTX *ctx)
{
	int i;
	(void)ctx;
	md_cur_len = 0;
	for (i = 0; i < MD_CAP; i++)
		md_cur[i] = 0;
}
void MD5_Update(MD5_CTX *ctx, const void *data, unsigned long size)
{
	unsigned int i;
	(void)ctx;
	check(size + md_cur_len <= MD_CAP, "model: digest input within the recorded size");
	assume(size + md_cur_len <= MD_CAP);
	for (i = 0; i < MD_CAP; i++)
		if (i < size)
			md_cur[md_cur_len + i] = ((const unsigned char *)data)[i];
	md_cur_len += (unsigned int)size;
}
static int md_of(const unsigned char *in, unsigned int len)	/* the entry for an input of len bytes, zeros behind them */
{
	int i, j, hit = -1;

	for (i = 0; i < md_n; i++) {
		int same = md[i].len == len;
		for (j = 0; j < MD_CAP; j++)
			same &= md[i].in[j] == in[j];
		if (hit < 0 && sx_branch((unsigned long)same))
			hit = i;
	}
	if (hit < 0) {
		check(md_n < MD_N, "model: digest table large enough");
		assume(md_n < MD_N);
		hit = md_n++;
		for (j = 0; j < MD_CAP; j++)
			md[hit].in[j] = in[j];
		md[hit].len = len;
		for (j = 0; j < 16; j++)
			md[hit].out[j] = MD_OUT(j);
	}
	return hit;
}
void MD5_Final(unsigned char *result, MD5_CTX *ctx)
{
	int hit = md_of(md_cur, md_cur_len), j;
	(void)ctx;
	for (j = 0; j < 16; j++)
		result[j] = md[hit].out[j];
}
