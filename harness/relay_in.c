/* UDP -> client: datagrams of any size on either port, in any order, some empty, with a receive failure or a client
 * connection that fails */
#define NDG 8
#include "slot.h"
#ifndef ROUNDS
#define ROUNDS 3
#endif
static int bad, mode;
static int delivered_count(int kind)
{
	int i, n = 0;

	for (i = 0; i < ndg; i++)
		n += dgs[i].kind == kind && dgs[i].delivered;
	return n;
}
static int script(void)
{
	int i, n, step;

	mode = nd_pick(3);
	for (step = 0; step < ROUNDS; step++) {
		may_fail_client = mode == 1;
		n = step == 0 ? 1 + nd_pick(2) : 1;
		for (i = 0; i < n; i++) {
			int kind = nd_bool() ? K_DATA : K_CTRL, err = 0;

			if (mode == 2 && !bad && nd_bool()) {
				err = EIO;
				bad = 1;
			}
			add_datagram(kind, err);
		}
		settle();
		if (bad) {
			check(vp_fds[cli_fd - VP_FD0].shut, "a client whose UDP port fails is dropped");
			witness("receive failure");
			return 0;
		}
		if (cli_send_failed) {
			witness("send failure");
			return 0;
		}
		check(undelivered() == 0, "every datagram received is passed on to the client");
		check(om_hn == 0, "no message to the client is left incomplete");
		for (i = 0; i < ndg; i++)
			check(dgs[i].popped, "both ports are read all the time a client is connected");
	}
	if (delivered_count(K_DATA) >= 1 && delivered_count(K_CTRL) >= 1)
		witness("both ports used");
	return 0;
}
void vp_main(void)
{
	slot_setup();
	client_arrives();
	check(proxy_conn_accept(&pc, &cli, "CALL", 0) == 0, "the slot is taken");
	serve();
	client_leaves();
}
