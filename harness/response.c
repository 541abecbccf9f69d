/* The expected response, and the hexadecimal codecs */
#ifndef PWMAX
#define PWMAX 24
#endif
#ifndef PWLONG
#define PWLONG PWMAX
#endif
#define MD_CAP (PWLONG + 28)
#include "px.h"
#include "digest.h"
static char hexd(unsigned int d, int up) { return (char)('0' + d + (unsigned int)(d > 9) * (unsigned int)(39 - 32 * up)); }
void vp_main(void)
{
	unsigned int i, n;
	uint32_t v;
#if PWLONG == PWMAX
	unsigned int ok;
	char txt[40], h[8];
	uint8_t dig[16];
#endif
	char pw[PWLONG + 1];
	uint8_t resp[20];

	sx_preempt(-1);
#if PWLONG > PWMAX
	switch (0) {
#else
	switch (nd_pick(4)) {
#endif
	case 0: {
		int before;
		unsigned char want[PWLONG + 8];
#if PWLONG > PWMAX
		static const unsigned int lengths[] = { 31, 32, 47, 48, 55, 56, 57, 63, 64, 100, 119, 120, 127, 128, 200, 247, 248, 249, 255, 256, 257, 300, 512, PWLONG };
#endif

#if PWLONG == PWMAX
		n = (unsigned int)nd_pick(PWMAX + 1);
#else
		n = lengths[nd_pick((int)(sizeof(lengths) / sizeof(lengths[0])))];
#endif
		for (i = 0; i < n; i++) {
			if (n > PWMAX && i > 0 && i != n - 1 && i != n / 2) {
				pw[i] = (char)(1 + i % 255);
				continue;
			}
			pw[i] = (char)nd_u8();
			assume(pw[i] != 0);
		}
		pw[n] = '\0';
		v = nd_u32();
		resp[16] = resp[17] = resp[18] = resp[19] = 0x5a;
		vp_fault_malloc = 1;
		vp_faults_left = 1;
		before = vp_live;
		if (get_password_response(v, pw, resp) != 0) {
			check(vp_faults_left == 0, "a response is computed unless memory runs out");
			check(vp_live == before, "no memory is left behind");
			witness("out of memory is reported");
			break;
		}
		check(vp_live == before, "no memory is left behind");
		for (i = 0; i < n; i++) {
			unsigned char c = (unsigned char)pw[i];

			want[i] = (unsigned char)(((c >= 'a') & (c <= 'z')) ? c - 32 : c);
		}
		for (i = 0; i < 8; i++)
			want[n + i] = (unsigned char)hexd((v >> (28 - 4 * i)) & 15, 0);
		check(md_n == 1 && md[0].len == n + 8, "one digest of password and nonce is computed");
		check(memcmp(md[0].in, want, n + 8) == 0, "the digest is that of the upper-cased password and the nonce");
		check(sx_same(resp, md[0].out, 16), "the response is the digest");
		check(resp[16] == 0x5a && resp[17] == 0x5a && resp[18] == 0x5a && resp[19] == 0x5a, "the response has sixteen bytes");
		if (n == PWLONG)
			witness("response computed");
		break;
	}
#if PWLONG == PWMAX
	case 1:	/* numbers */
		v = nd_u32();
		for (i = 0; i < 12; i++)
			txt[i] = 0x5a;
		digest_to_hex32(v, txt + 2);
		for (ok = 1, i = 0; i < 8; i++)
			ok &= txt[2 + i] == hexd((v >> (28 - 4 * i)) & 15, 0);
		check(ok, "a number is written as eight lowercase digits");
		check(txt[0] == 0x5a && txt[1] == 0x5a && txt[10] == 0x5a && txt[11] == 0x5a, "exactly eight digits are written");
		check(hex32_to_digest(txt + 2) == v, "reading what was written gives the number back");
		witness("numbers");
		break;
	case 2:	/* digits of either case */
		v = nd_u32();
		n = nd_u32();
		v &= 0x77777777 | 0xff000000 >> 8 * nd_pick(4);
		for (i = 0; i < 8; i++)
			h[i] = hexd((v >> (28 - 4 * i)) & 15, (int)(n >> i & 1));
		check(hex32_to_digest(h) == v, "digits of either case are read");
		witness("either case");
		break;
	default:	/* digests */
		sx_fill(dig, sizeof(dig));
		for (i = 0; i < 40; i++)
			txt[i] = 0x5a;
		digest_to_str(dig, txt + 2);
		for (ok = 1, i = 0; i < 16; i++) {
			ok &= txt[2 + 2 * i] == hexd(dig[i] >> 4, 1);
			ok &= txt[3 + 2 * i] == hexd(dig[i] & 15, 1);
		}
		check(ok, "a digest is written as thirty-two uppercase digits");
		check(txt[34] == '\0', "the text of a digest is terminated");
		check(txt[0] == 0x5a && txt[1] == 0x5a && txt[35] == 0x5a && txt[36] == 0x5a, "exactly that is written");
		witness("digests");
#endif
	}
}
