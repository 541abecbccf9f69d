/* Arbitrary bytes from the client: every value of each header field, cut off anywhere */
#include "slot.h"
#ifndef MSGS
#define MSGS 2
#endif
static int step, invalid;
static int script(void)
{
	unsigned int type;
	unsigned long size;

	check(!invalid, "an invalid message ends the session");
	if (step > 0)
		witness("another message");
	if (step == MSGS)
		return 0;
	step++;
	type = nd_u8();
	/* connections are exercised elsewhere; what follows an open request or close request is the next message, whatever its size says */
	if (sx_branch((type == 0) | (type > 6) | (type == 4))) {
		invalid = 1;
		next_message((int)type, nd_u32(), nd_u32(), 0);
		cm_end = 9;
		return 1;
	}
	type = (unsigned int)sx_concretize(type);
	if (type == 1) {
		next_message(1, 0x076433c6u, nd_u32(), 0);
	} else if (type == 3) {
		next_message(3, nd_u32(), nd_u32(), 0);
	} else {
		size = nd_u32();
		if (nd_bool()) {
			next_message((int)type, nd_u32(), size, 1);
		} else {
			assume(size <= (step == 1 ? PAYCAP : 4500));
			next_message((int)type, nd_u32(), size, 0);
		}
	}
	return 1;
}
void vp_main(void)
{
	int ret;

	slot_setup();
	client_arrives();
	check(proxy_conn_accept(&pc, &cli, "CALL", 0) == 0, "the slot is taken");
	do {
		ret = proxy_conn_process(&pc);
		if (invalid)
			check(ret < 0, "an invalid message ends the session");
	} while (ret >= 0);
	check(cli_gone | invalid, "the session ends with the client connection or an invalid message");
	if (invalid)
		witness("invalid message");
	client_leaves();
	check(!proxy_conn_in_use(&pc), "the slot is free again");
}
