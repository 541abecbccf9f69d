/* client -> UDP: messages of any size, with datagram failures and a connection that may be lost mid-message */
#include "slot.h"
#ifndef MSGS
#define MSGS 2
#endif
static int step, was_failed;
static int script(void)
{
	unsigned long size;
	int type, trunc;

	if (step > 0 && fails_left == 0)
		was_failed = 1;
	if (step == MSGS) {
		witness("all messages processed");
		if (was_failed)
			witness("session goes on after a failed datagram");
		return 0;
	}
	step++;
	type = 5 + nd_pick(2);
	trunc = nd_pick(3);
	size = trunc == 2 ? nd_u32() : nd_len();
	if (!trunc)
		assume(size <= (step == 1 ? PAYCAP : 5000));
	next_message(type, nd_u32(), size, trunc > 0);
	return 1;
}
void vp_main(void)
{
	slot_setup();
	client_arrives();
	check(proxy_conn_accept(&pc, &cli, "CALL", 0) == 0, "the slot is taken");
	may_fail_dgram = 1;
	serve();
	check(cli_gone, "the session only ends with the client connection");
	check(om_count == 0, "nothing is sent to the client");
	client_leaves();
	if (cm_trunc) {
		check((cm_size > BUFLEN) | (cm_dgrams == 0), "an incomplete payload that fits the buffer is not sent");
		witness("connection lost during a message");
	}
}
