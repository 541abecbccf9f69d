/* Every authentication attempt uses its own nonce.
 * The random source gives arbitrary, distinct numbers; seeding it starts a sequence over. */
#define NSLOT 2
#define NCLI 4
#include "vp.h"
#include <stdint.h>
/* ---- the random source ---- */
#define DRAWS 8
static struct draw { unsigned int seed, idx; uint32_t v; int at, used; } dr[DRAWS];
static int dr_n;
static unsigned int seed, seed_idx;
static int now;			/* counts connections taken and draws */
static uint32_t draw(uint32_t m)
{
	int i;

	for (i = 0; i < dr_n; i++)
		if (dr[i].seed == seed && dr[i].idx == seed_idx)
			break;
	if (i == dr_n) {
		int j;

		check(dr_n < DRAWS, "model: draws");
		dr[i].seed = seed;
		dr[i].idx = seed_idx;
		dr[i].v = nd_u32() & m;
		dr[i].used = -1;
		for (j = 0; j < i; j++)
			assume(dr[j].v != dr[i].v);
		dr_n++;
	}
	dr[i].at = ++now;
	seed_idx++;
	return dr[i].v;
}
#define NET_RAND
int vp_rand(void) { return (int)draw(0x7fffffff); }
long vp_random(void) { return (long)draw(0x7fffffff); }
#define OS_CUSTOM_SRAND
void vp_srand(unsigned int s) { seed = s; seed_idx = 0; }
void vp_srandom(unsigned int s) { vp_srand(s); }
#define OS_CUSTOM_TIME_CONST
#define NET_CHALLENGE(c, n) challenged(c, n)
static void challenged(int c, int n);
#include "net.h"
#include "stub_pearson.h"
static int taken_at[NCLI], fail_draw, drawn_ok = 1;
static uint32_t nonce_of[NCLI];
/* the draw itself may fail */
extern int real_rand_get(uint32_t *v);
int rand_get(uint32_t *v)
{
	if (fail_draw) {
		drawn_ok = 0;
		return -EIO;
	}
	return real_rand_get(v);
}
static char hexd(unsigned int d) { return (char)('0' + d + (unsigned int)(d > 9) * 39u); }
static void challenged(int c, int n)
{
	int i, j;

	if (n != 8)
		return;
	/* which draw is it? one made after this client connected, and nobody else's */
	for (i = 0; i < dr_n; i++) {
		unsigned int same = 1;

		for (j = 0; j < 8; j++)
			same &= cl[c].out[j] == (unsigned char)hexd(dr[i].v >> (28 - 4 * j) & 15);
		if (sx_branch(same))
			break;
	}
	check(i < dr_n, "the challenge is a number that was drawn, all of it, in lowercase hexadecimal");
	check(dr[i].at > taken_at[c], "the challenge is drawn after the client connected");
	check(dr[i].used < 0, "no other connection had this challenge");
	dr[i].used = c;
	nonce_of[c] = dr[i].v;
}
static int come(const char *call, int how, int hold)
{
	int i = arrive(call, how);

	cl[i].hold = hold;
	taken_at[i] = now;
	settle();
	return i;
}
static void release(int i)
{
	cl[i].hold = 0;
	sx_wake(&vp_fds[cl[i].fd - VP_FD0], 1);
	settle();
}
void vp_main(void)
{
	int a, b, how;
	unsigned char old[8];

	sx_preempt(-1);
	net_start();
	how = nd_pick(5);
	switch (how) {
	case 0:	/* two in the handshake at once, answering in either order */
		a = come("A", HOW_GOOD, 1);
		b = come("B", HOW_GOOD, 1);
		check(cl[a].out_n == 8 && cl[b].out_n == 8, "each client gets a challenge");
		if (nd_bool()) {
			release(a);
			release(b);
		} else {
			release(b);
			release(a);
		}
		check(cl[a].admitted && cl[b].admitted, "a response to the connection's own challenge is accepted");
		witness("two at once");
		break;
	case 1:	/* answering the other's challenge */
		a = come("A", HOW_GOOD, 1);
		b = come("B", HOW_PASSWORD, 1);
		cl[b].how = HOW_GOOD;
		cl[b].replay = cl[a].out;
		cl[b].hs_made = 0;
		if (nd_bool()) {
			release(a);
			release(b);
		} else {
			release(b);
			check(!cl[b].admitted, "a response to another challenge is not accepted");
			release(a);
		}
		check(cl[a].admitted, "a response to the connection's own challenge is accepted");
		check(!cl[b].admitted && cl[b].state == CL_CLOSED, "a response to another challenge is not accepted");
		witness("the other's challenge");
		break;
	case 2:	/* the same client again, with what it sent the last time */
		a = come("A", HOW_GOOD, 0);
		check(cl[a].admitted, "a response to the connection's own challenge is accepted");
		memcpy(old, cl[a].out, 8);
		leave(a);
		settle();
		b = come("A", HOW_PASSWORD, 1);
		cl[b].how = HOW_GOOD;
		cl[b].replay = old;
		cl[b].hs_made = 0;
		release(b);
		check(!cl[b].admitted && cl[b].state == CL_CLOSED, "an old response is not accepted");
		witness("an old response");
		break;
	case 3:	/* several attempts, failed and not */
		a = come("A", HOW_PASSWORD, 0);
		a = come("A", HOW_GOOD, 0);
		check(cl[a].admitted, "a response to the connection's own challenge is accepted");
		b = come("B", HOW_GONE, 0);
		b = come("B", HOW_GOOD, 0);
		check(cl[b].admitted, "a response to the connection's own challenge is accepted");
		witness("several attempts");
		break;
	default:	/* nothing can be drawn */
		fail_draw = 1;
		a = come("A", HOW_GOOD, 0);
		if (!drawn_ok) {
			check(!cl[a].admitted && cl[a].state == CL_CLOSED && cl[a].out_n == 0, "without a nonce the connection is dropped");
			witness("no nonce");
		}
		fail_draw = 0;
		b = come("A", HOW_GOOD, 0);
		check(cl[b].admitted, "the next client is admitted");
	}
	net_end();
}
