/* The hash of callsigns */
#include <string.h>
#include "vp.h"
#include "pearson.h"
#ifndef LEN
#define LEN 16
#endif
#ifndef DIFF
#define DIFF LEN
#endif
void vp_main(void)
{
	uint8_t a[LEN + 8], b[LEN + 8];
	unsigned int n, p, off, i;
	uint8_t x, y, z;

	sx_preempt(-1);
	sx_fill(a, sizeof(a));
	sx_fill(b, sizeof(b));
	n = 1 + (unsigned int)nd_pick(LEN);
	off = 1 + (n & 3);
	memcpy(b + off, a, n);		/* the same bytes elsewhere, other bytes around them */
	x = pearson_get(a, n);
	if (nd_bool()) {
		pearson_get(b, LEN);	/* another callsign in between */
		y = pearson_get(b + off, n);
		z = pearson_get(a, n);
		check((x == y) & (x == z), "equal callsigns have equal hashes");
		if (n == LEN)
			witness("equal callsigns");
	} else {
		p = n > DIFF ? n - DIFF : 0;
		p += (unsigned int)nd_pick((int)(n - p));
		b[off + p] ^= (uint8_t)(nd_u8() | 1 << nd_pick(8));
		y = pearson_get(b + off, n);
		check(x != y, "changing a byte changes the hash");
		if (p == 0)
			witness("one byte changed");
	}
	for (i = 0; i < 1; i++)
		check(pearson_get(a, 0) == pearson_get(b, 0), "the hash of nothing is constant");
}
