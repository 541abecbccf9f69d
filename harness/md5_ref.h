/* MD5, written from RFC 1321: chaining value, padding with the length in bits modulo 2^64 */
static const uint32_t rfc_t[64] = {
	0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501,
	0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821,
	0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8,
	0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a,
	0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70,
	0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665,
	0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1,
	0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391
};
static const uint8_t rfc_s[4][4] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } };
static void rfc_block(uint32_t st[4], const uint8_t *p)
{
	uint32_t x[16], a = st[0], b = st[1], c = st[2], d = st[3], f, t;
	int i, k = 0;

	for (i = 0; i < 16; i++)
		x[i] = (uint32_t)p[4 * i] | (uint32_t)p[4 * i + 1] << 8 | (uint32_t)p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 3] << 24;
	for (i = 0; i < 64; i++) {
		switch (i / 16) {
		case 0: f = (b & c) | (~b & d); k = i; break;
		case 1: f = (b & d) | (c & ~d); k = 5 * i + 1; break;
		case 2: f = b ^ c ^ d; k = 3 * i + 5; break;
		default: f = c ^ (b | ~d); k = 7 * i; break;
		}
		t = a + f + x[k % 16] + rfc_t[i];
		a = d;
		d = c;
		c = b;
		b += t << rfc_s[i / 16][i % 4] | t >> (32 - rfc_s[i / 16][i % 4]);
	}
	st[0] += a;
	st[1] += b;
	st[2] += c;
	st[3] += d;
}
/* the digest, given the chaining value after n bytes (n a multiple of 64) and the len bytes that follow */
static void rfc_md5_from(uint32_t st[4], uint64_t n, const uint8_t *m, unsigned int len, uint8_t out[16])
{
	uint8_t tail[128];
	unsigned int i, r, end;
	uint64_t bits = (n + len) << 3;

	for (i = 0; i + 64 <= len; i += 64)
		rfc_block(st, m + i);
	r = len - i;
	end = r + 9 <= 64 ? 64 : 128;
	memset(tail, 0, sizeof(tail));
	memcpy(tail, m + i, r);
	tail[r] = 0x80;
	for (i = 0; i < 8; i++)
		tail[end - 8 + i] = (uint8_t)(bits >> 8 * i);
	for (i = 0; i < end; i += 64)
		rfc_block(st, tail + i);
	for (i = 0; i < 16; i++)
		out[i] = (uint8_t)(st[i / 4] >> 8 * (i % 4));
}
static void rfc_md5(const uint8_t *m, unsigned int len, uint8_t out[16])
{
	uint32_t st[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 };

	rfc_md5_from(st, 0, m, len, out);
}
