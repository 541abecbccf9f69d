/* MD5 against RFC 1321, from the same bytes, however divided */
#include "vp.h"
#include "digest.h"
#include "md5.h"
#include <string.h>
#include "md5_ref.h"
#ifndef MAXLEN
#define MAXLEN 200
#endif
static uint8_t msg[MAXLEN + 16];
static const unsigned int edge[] = { 0, 1, 8, 9, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 183, 184, 192 };
#define NEDGE (sizeof(edge) / sizeof(edge[0]))
void vp_main(void)
{
	unsigned int len, i, cut[2], off;
	uint8_t out[18], ref[16];
	struct { MD5_CTX c; uint8_t guard[8]; } w;
	MD5_CTX *ctx = &w.c;

	sx_preempt(-1);
	sx_fill(msg, sizeof(msg));
	switch (nd_pick(3)) {
	case 0:	/* in one piece, every length, at any placement */
		len = (unsigned int)nd_pick(MAXLEN + 1);
		off = nd_bool() ? 0 : 1 + (len & 7);
		out[16] = out[17] = 0x5a;
		digest_get(msg + off, len, out);
		rfc_md5(msg + off, len, ref);
		check(sx_same(out, ref, 16), "the digest is MD5");
		check(out[16] == 0x5a && out[17] == 0x5a, "nothing is written past the digest");
		witness("digest of a message");
		break;
	case 1:	/* in three pieces, cut anywhere */
#ifdef CUTS
		if (nd_bool()) {
			len = (unsigned int)nd_pick(141);
			cut[0] = cut[1] = (unsigned int)nd_pick(141);
		} else
#endif
		{
			len = edge[nd_pick(NEDGE)];
			cut[0] = edge[nd_pick(NEDGE)];
			cut[1] = edge[nd_pick(NEDGE)];
		}
		assume(cut[0] <= cut[1] && cut[1] <= len);
		sx_fill(&w, sizeof(w));
		MD5_Init(ctx);
		MD5_Update(ctx, msg, cut[0]);
		MD5_Update(ctx, msg + cut[0], cut[1] - cut[0]);
		MD5_Update(ctx, msg + cut[1], len - cut[1]);
		MD5_Final(out, ctx);
		rfc_md5(msg, len, ref);
		check(sx_same(out, ref, 16), "the digest of a divided message is MD5");
		witness("digest of a divided message");
		break;
	default: {	/* a long message: from any chaining value after so many bytes that the length needs more than 29 or 32 bits */
		uint32_t st[4];
		static const uint64_t before[] = { 0x1fffffc0, 0x20000000, 0x3fffffc0, 0xffffffc0, 0x7ffffffc0, 0x123456789ac0, 0xffffffffffffffc0 };
		uint64_t n = before[nd_pick(7)];

		len = edge[nd_pick(NEDGE)];
		cut[0] = edge[nd_pick(NEDGE)];
		assume(cut[0] <= len);
		for (i = 0; i < 4; i++)
			st[i] = nd_u32();
		MD5_Init(ctx);
		ctx->a = st[0];
		ctx->b = st[1];
		ctx->c = st[2];
		ctx->d = st[3];
		ctx->lo = (MD5_u32plus)(n & 0x1fffffff);
		ctx->hi = (MD5_u32plus)(n >> 29);
		MD5_Update(ctx, msg, cut[0]);
		MD5_Update(ctx, msg + cut[0], len - cut[0]);
		MD5_Final(out, ctx);
		rfc_md5_from(st, n, msg, len, ref);
		check(sx_same(out, ref, 16), "the digest of a long message is MD5");
		witness("digest of a long message");
	}
	}
}
