/* One TCP open request for an arbitrary address: where the connection goes, and where its data go */
#include "slot.h"
static int step;
static int script(void)
{
	if (step++ == 0) {
		next_message(1, nd_u32(), nd_u32(), 0);
		return 1;
	}
	settle();
	check(open_tries == 1 && tcp_up, "the connection is opened");
	check(st_sent == 1 && !open_pending, "the open request is answered");
	check(tcp_fd >= 0 && vp_fds[tcp_fd - VP_FD0].paddr == cm_addr, "the connection goes to the address in the message");
	witness("opened");
	return 0;
}
void vp_main(void)
{
	slot_setup();
	client_arrives();
	check(proxy_conn_accept(&pc, &cli, "CALL", 0) == 0, "the slot is taken");
	serve();
	client_leaves();
}
