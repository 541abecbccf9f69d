# The semantic properties of openelp; tools/gen.py writes properties.jsonl from this.
def P(id, title, statement, over, q, why, files, mech, observe=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=files, mech=mech, observe=observe, na=na))


PROPS = []
P("C01", "A slot is granted only to, and always to, an authenticated, authorised client",
  "A connection obtains a proxy slot if and only if it sends a newline-terminated callsign of at most ten characters followed by the 16-byte response that the configured password and this connection's own nonce demand, and the callsign passes the configured allow/deny patterns. "
  "Before that the proxy sends nothing but the nonce, as eight lowercase hexadecimal digits; a wrong response is answered with exactly the ten-byte system message with status 1, an unauthorised callsign with status 2, a malformed handshake with nothing, and each such connection is then closed. "
  "The slot is granted under exactly the callsign presented.",
  "inputs configurations fault_sequences", "every byte string a client may send during the handshake, every nonce, every password (bounded length), every outcome of the two patterns, a disconnect or send failure at every point",
  "the tests exercise one correct handshake with one password; wrong responses, near-miss responses, over-long callsigns and every combination of patterns are unbounded input spaces",
  ["src/proxy.c", "src/digest.c", "src/conn.c", "src/regex.c"],
  [("server side of the handshake", "src/proxy.c:proxy_worker_authorize"), ("decision whether to hand out a slot", "src/proxy.c:proxy_worker_func")], ["bytes sent on the client connection", "the slot (proxy_conn) accepted and the callsign given to it"])
P("C02", "The password response is the digest of the upper-cased password and the nonce",
  "For every nonce and every password the expected response is the 16-byte MD5 digest of the password, with the letters a-z upper-cased and every other byte unchanged, followed by the nonce as eight lowercase hexadecimal digits. "
  "Numbers are written as exactly eight lowercase hexadecimal digits, reading them gives the number back, and digits of either case are read; a digest is written as thirty-two uppercase digits and a terminator. "
  "When memory runs out the computation reports an error instead of producing a response.",
  "inputs fault_sequences", "every 32-bit nonce, every password byte string up to the bound, every digest and number, every digit string; allocation failure",
  "the tests compare a handful of fixed vectors; a fault in one digit position or one character class goes unnoticed",
  ["src/proxy.c", "src/digest.c", "include/digest.h"],
  [("response", "src/proxy.c:get_password_response"), ("codecs", "src/digest.c")])
P("C03", "Digests are MD5 as RFC 1321 defines it",
  "For every message the digest produced is the MD5 digest that RFC 1321 defines, whatever the message's content, length and placement relative to block boundaries, and however the message is divided into successive updates.",
  "inputs", "every message of each length up to two blocks and a half, every split of it into updates",
  "the tests hash a few fixed strings: padding at the 55/56/63/64 byte boundaries and splits across buffers are not sampled",
  ["src/md5.c", "src/digest.c"], [("padding and buffering", "src/md5.c:MD5_Update/MD5_Final"), ("compression", "src/md5.c:body")])
P("C04", "Callsign authorisation fails closed",
  "A callsign is authorised exactly when it does not match the denied-callsigns pattern, if one is configured, and does match the allowed-callsigns pattern, if one is configured; deny takes precedence. "
  "An error while matching either pattern means not authorised, and the whole callsign is what is matched. "
  "A configured pattern that cannot be compiled stops the proxy from opening rather than being ignored, and patterns from an earlier configuration have no effect after the proxy is reopened with another.",
  "inputs configurations fault_sequences histories", "every callsign up to the bound, every configuration of the two patterns, every result the pattern library may return (match, no match, any error), open/close/reopen with different configurations",
  "the tests match a few strings against fixed patterns and never see an error from the library or a reopened proxy",
  ["src/proxy.c", "src/regex.c"], [("decision", "src/proxy.c:proxy_authorize_callsign"), ("matching", "src/regex.c:regex_is_match")])
P("C05", "The client library and the proxy agree on the handshake",
  "For every nonce, callsign of at most ten characters and password, a client library session and a proxy that share the password complete the handshake and the proxy sees exactly that callsign; a client without a password uses the public password. "
  "With passwords whose upper-cased forms differ the handshake fails. "
  "When the connection cannot be made or breaks before the handshake is sent, or there is no memory, the client library reports failure, closes the connection and can connect again; it sends nothing before the whole nonce has arrived, and then, whatever the eight bytes were, nothing but callsign, newline and response.",
  "inputs fault_sequences", "every callsign and password up to the bound, every nonce, every eight bytes sent as a nonce, disconnect at every point",
  "the end-to-end test performs one handshake with one callsign and one password",
  ["src/proxy_client.c", "src/proxy.c", "src/digest.c"], [("client side of the handshake", "src/proxy_client.c:proxy_client_connect"), ("server side", "src/proxy.c:proxy_worker_authorize")])
P("C06", "UDP messages from the client leave as the datagram they describe",
  "A UDP data or UDP control message from the client with a payload that fits the relay buffer (4096 bytes) leaves the proxy as exactly one datagram with exactly that payload, addressed to the IPv4 address in the message at port 5198 for data and 5199 for control, from the slot's data or control socket respectively. "
  "Larger payloads leave as consecutive datagrams that concatenate to the payload, an empty payload sends nothing, and a failure to send a datagram neither ends the session nor disturbs later messages.",
  "inputs fault_sequences", "every address, every payload content and size up to more than two buffers, both message types, send failures, connection loss mid-message",
  "the end-to-end test relays one short datagram each way",
  ["src/proxy_conn.c", "src/conn.c"], [("outbound data and control", "src/proxy_conn.c:process_data_message, process_control_data_message")])
P("C07", "Datagrams received for a slot reach its client as exactly one message each",
  "Each datagram received on a slot's data or control socket is delivered to that slot's client as one message whose type says which socket it was, whose address field is the sender's IPv4 address, whose size is the datagram's length (for datagrams up to 4087 bytes) and whose payload is the datagram's content, in order of arrival on each socket. "
  "Nothing is delivered to any other client, and nothing is delivered for the slot after its client connection is gone. "
  "An empty datagram changes nothing, and a receive error other than the socket being closed drops the client rather than leaving it half connected.",
  "inputs histories fault_sequences", "every datagram content, length and sender, sequences of datagrams, receive and send errors at every point",
  "the end-to-end test relays one short datagram each way",
  ["src/proxy_conn.c", "src/conn.c"], [("inbound forwarding", "src/proxy_conn.c:forwarder_control, forwarder_data")])
P("C08", "TCP data is relayed byte for byte in order in both directions",
  "The bytes the client sends in TCP data messages arrive at the remote host, and the bytes the remote host sends arrive at the client in TCP data messages whose size field equals their payload, in each direction complete, in order and unmodified for as long as the TCP connection is open, whatever the division into messages and transfers. "
  "When the remote connection fails while data is being relayed to it, the rest of that message is consumed, the connection is closed and the client is told so with a TCP close message; the session continues.",
  "inputs histories fault_sequences", "every payload content and size up to more than two buffers, every division into transfers, a failure at every point",
  "the end-to-end test relays one short payload",
  ["src/proxy_conn.c", "src/conn.c"], [("client to remote", "src/proxy_conn.c:process_tcp_data_message"), ("remote to client", "src/proxy_conn.c:forwarder_tcp")])
P("C09", "Each TCP open request is answered by exactly one truthful status message",
  "A TCP open message makes the proxy connect from the slot's external address to the IPv4 address in the message at port 5200, and is answered with exactly one TCP status message carrying four bytes, which are zero if and only if the connection was established and is being relayed; no data and no close message about that connection comes before it. "
  "A failed attempt leaves no connection and no descriptor behind and the session continues; a later open can succeed. "
  "The end of an established TCP connection, by the remote host, by failure or on the client's request, is reported to the client with a TCP close message, and none is sent while the connection stays open.",
  "inputs histories fault_sequences", "every address, a failure at each system call of the connection attempt, sequences of open, close and data messages, remote close at every point",
  "the end-to-end test opens one connection that succeeds",
  ["src/proxy_conn.c", "src/conn.c"], [("open", "src/proxy_conn.c:process_tcp_open_message"), ("close", "src/proxy_conn.c:process_tcp_close_message, send_tcp_close")])
P("C10", "The stream to a client is always a sequence of whole messages",
  "Whatever the UDP data, UDP control, TCP and command-processing activities of a slot do concurrently, and however the operating system splits transfers, the bytes sent to the client after admission are a concatenation of complete messages, each with its header and payload contiguous and unmodified.",
  "schedules inputs fault_sequences", "every interleaving of the forwarding threads at lock and socket operations (bounded preemptions), every partial send",
  "the tests never make two sources send at the same time or the kernel accept part of a message; whether messages interleave depends on the schedule",
  ["src/proxy_conn.c", "src/conn.c"], [("send lock", "src/proxy_conn.c:mutex_client_send")])
P("C11", "Client input is parsed strictly by the message format and never harms the proxy",
  "Whatever bytes an admitted client sends, the proxy acts on exactly the messages the format defines (one type byte, a four-byte address, a four-byte little-endian size, then that many payload bytes for data messages), and the first message with an undefined type ends the session without any of its content being acted upon. "
  "No input makes the proxy access memory out of bounds, stop responding, or send anything that the messages do not call for.",
  "inputs histories", "every header (type, address, size) and every sequence of messages up to the bound, truncated at every point",
  "the tests send only well-formed messages",
  ["src/proxy_conn.c"], [("message dispatch", "src/proxy_conn.c:proxy_conn_process, process_message")])
P("C12", "Stream transfers are complete and in order under any segmentation",
  "A blocking receive of N bytes from a stream either delivers exactly the next N bytes of the stream or fails, and a send either transmits exactly the given bytes, once each and in order, or fails, however the operating system splits the transfer; datagram sends transmit the datagram given to the address and port given. "
  "A peer that closes the connection, an error, or a connection that is not open is reported as a failure and never as success.",
  "inputs fault_sequences", "every content, every sequence of partial transfer sizes, error or end of stream at every point",
  "loopback sockets in the tests never transfer partially",
  ["src/conn.c", "include/conn.h"], [("loops", "src/conn.c:conn_recv, conn_send, conn_send_to")])
P("C13", "Descriptors are never leaked, closed twice or used after close",
  "Through any sequence of initialise, listen, accept, connect, drop, shutdown, close and free on connections, with any of the underlying calls failing, every descriptor is closed exactly once by the time its connection is closed or freed, no operation reaches a closed descriptor, and all name-resolution results and memory are released. "
  "A failed listen or connect leaves the connection not in use, reports an error, and can be tried again.",
  "histories fault_sequences", "every bounded sequence of operations on a listening and an accepted or outgoing connection, a failure at each system call",
  "the tests perform the successful sequences only",
  ["src/conn.c", "include/conn.h"], [("ownership", "src/conn.c:conn_listen, conn_accept, conn_connect, conn_drop, conn_close")])
P("C14", "Closing a connection from another thread ends blocked transfers safely",
  "When a connection is closed, dropped or shut down by one thread while others are receiving, accepting or sending on it, the blocked calls return with a failure, the closing call returns, and no thread uses the descriptor after it is closed. "
  "After a drop or close returns the connection reports that it is not in use.",
  "schedules", "every interleaving at lock and socket operations of one closing thread with up to two transferring threads (bounded preemptions)",
  "which thread is where when a close happens depends on the schedule; the tests close idle connections",
  ["src/conn.c", "src/mutex_posix.c"], [("shutdown before the exclusive lock", "src/conn.c:conn_close, conn_drop")])
P("C15", "A slot serves at most one client, and a client holds at most one slot",
  "At any time each slot is held by at most one admitted client, however many clients authenticate at the same time, and no more clients are admitted than there are slots. "
  "A client never receives or causes traffic on a slot other than its own.",
  "schedules histories", "every interleaving at lock operations of two or three clients arriving, authenticating and leaving (bounded preemptions)",
  "simultaneous arrivals are schedules that no test produces",
  ["src/proxy.c", "src/proxy_conn.c"], [("slot acceptance", "src/proxy_conn.c:proxy_conn_accept"), ("idle pool", "src/proxy.c:idle_clients_head and its mutex")])
P("C16", "A reconnecting client gets its slot back, any other the longest-idle one",
  "When an admitted client's callsign is the last one that used some idle slot (one whose last session has ended and been cleaned up), it is given that slot; otherwise it is given the slot that has been idle longest, never-used slots counting in configuration order. "
  "This holds whatever callsigns hash to the same bucket and whatever the order of arrivals and departures.",
  "histories inputs", "every history of arrivals and departures up to the bound, arbitrary callsigns with every pattern of hash collisions",
  "the end-to-end test connects one client; the lists behind the selection are only exercised by long histories",
  ["src/proxy.c", "src/proxy_conn.c", "src/pearson.c"], [("hash chains and idle list", "src/proxy.c:proxy_worker_func")])
P("C17", "Capacity is conserved: after any history every slot can be used again",
  "A connection that arrives while fewer clients are connected than there are slots is served, one that arrives while all are taken is closed without being sent anything, and in both cases the proxy goes on accepting. "
  "However clients come and go, including refused, malformed and failed ones and failures of the operating system while a slot is being opened, the number of clients that can be connected at the same time never shrinks.",
  "histories fault_sequences schedules", "every bounded history of arrivals, refusals, failures at each step and departures",
  "a leaked slot or worker only shows after histories the tests do not run",
  ["src/proxy.c", "src/proxy_conn.c"], [("worker pool", "src/proxy.c:idle_workers_head"), ("slot pool", "src/proxy.c:idle_clients_head")])
P("C18", "Every slot uses its own external address for all of its traffic",
  "The first slot's data, control and TCP sockets are bound to the configured external address, and each further slot's to the corresponding additional external address in the order listed, data on port 5198, control on port 5199 and TCP on any port; without configuration they are bound to the wildcard address. "
  "The proxy listens for clients on exactly the configured bind address and port, also right after an earlier run on the same port, and has exactly one slot more than there are additional addresses.",
  "configurations inputs", "every number of additional addresses up to the bound, every port, each slot and each socket",
  "the tests use one slot on one address",
  ["src/proxy.c", "src/proxy_conn.c", "src/conn.c"], [("slot setup", "src/proxy.c:proxy_open"), ("socket setup", "src/proxy_conn.c:proxy_conn_init")])
P("C19", "A departed client leaves nothing behind",
  "Once a client's session ends, for whatever reason and however its forwarding activities interleave, the slot's data, control and TCP sockets and the client connection are closed, its forwarding activities are idle, and the next client on the slot starts with fresh sockets and receives only messages that belong to its own session. "
  "Ending a session never blocks forever.",
  "schedules histories fault_sequences", "every interleaving at lock and socket operations of the session's end with its three forwarders (bounded preemptions), every reason for ending",
  "races between forwarders and the end of a session are schedules no test controls",
  ["src/proxy_conn.c", "src/worker.c", "src/conn.c"], [("teardown", "src/proxy_conn.c:proxy_conn_finish")])
P("C20", "Registration reports state the proxy's true configuration and status",
  "Every report sent to the registrar is one well-formed HTTP request whose Content-Length equals the length of its body, and whose body carries the configured name and comment, the public flag, address, port and digest, the numbers of used and total slots unless there is exactly one slot, and the status: Off when the service is stopped, Busy when every slot is taken or there is none, otherwise Ready. "
  "No configured name or comment, of whatever length, or absence of it, corrupts memory or the report.",
  "inputs configurations fault_sequences", "every name and comment up to the bound, every port and slot count, every clock value, failures of the connection to the registrar",
  "the registration service is not covered by any test",
  ["src/registration.c"], [("report", "src/registration.c:send_report, registration_service_start")])
P("C21", "The registrar is told about every change, and about the end",
  "After any sequence of status updates the last report sent reflects the latest status, stopping the service sends a final Off report and returns only when no report is in flight, and a service that was never started sends nothing. "
  "The service reports only when a registration name is configured.",
  "schedules histories", "every interleaving of updates and stop with the reporting thread (bounded preemptions)",
  "the registration service is not covered by any test",
  ["src/registration.c", "src/worker.c"], [("updates", "src/registration.c:registration_service_update, registration_service_stop")])
P("C22", "The configuration file means what it says",
  "For every file, each line of the form key=value with a known key sets that setting and no other, with surrounding blanks removed, the last occurrence winning; comment lines, blank lines and unknown keys change nothing. "
  "Missing settings keep their documented defaults, and a value that is not usable (a port that is not a decimal number up to 65535, a time limit that is not a number, a missing or placeholder password) makes loading fail rather than be silently replaced.",
  "inputs configurations fault_sequences", "every file of up to the bounded number of lines and bytes, for every key",
  "the tests load no configuration with unusual syntax; the parser is reached with one fixed file",
  ["src/conf.c", "include/conf.h"], [("line reader and keys", "src/conf.c:conf_parse_file, conf_parse_pair, conf_readline")])
P("C23", "Configured settings are owned, released once, and replaceable",
  "Every setting the configuration holds is released exactly once when it is replaced or the configuration is freed, whatever the file contains, whatever keys repeat and whatever allocation fails, and a failed load leaves a configuration that can be freed safely. "
  "The list of additional external addresses contains exactly the listed addresses in order, and using it without an external address is refused.",
  "inputs fault_sequences configurations", "every bounded file with repeated keys, every allocation failing in turn, every address list up to the bound",
  "leaks, double frees and list bookkeeping are invisible to tests that load a file once",
  ["src/conf.c", "src/proxy.c"], [("ownership", "src/conf.c:conf_free, conf_parse_pair"), ("acceptance rule", "src/proxy.c:proxy_load_conf")])
P("C24", "A failed start-up is reported and leaves nothing behind",
  "When any allocation, socket, thread or lock creation fails while the proxy is being initialised, opened or started, that step reports an error, nothing crashes, and closing and freeing the proxy releases every descriptor, thread and block of memory. "
  "After a failed open or start the same proxy can be opened and started again successfully.",
  "fault_sequences configurations", "a failure at each resource acquisition of initialisation, opening and starting, for each number of slots up to the bound",
  "the tests never make an acquisition fail",
  ["src/proxy.c", "src/proxy_conn.c", "src/worker.c", "src/conn.c", "src/regex.c", "src/registration.c"], [("error paths", "src/proxy.c:proxy_init, proxy_open, proxy_start")])
P("C25", "Shutting down ends everything, whatever the clients are doing",
  "Shutdown followed by close terminates in bounded steps whatever clients are connecting, authenticating, connected or idle, and afterwards no thread of the proxy is running and every descriptor and block of memory is released exactly once. "
  "After shutdown no further connection is taken up, and waiting for a client returns.",
  "schedules histories", "every interleaving of shutdown and close with workers in each phase of serving a client (bounded preemptions)",
  "the end-to-end test shuts down once from one state",
  ["src/proxy.c", "src/proxy_conn.c", "src/worker.c", "src/conn.c"], [("order of teardown", "src/proxy.c:proxy_shutdown, proxy_drop, proxy_close")])
P("C26", "Workers run the work they are signalled for, one run at a time",
  "Each wake-up of a worker that reports success is followed by a complete run of its work function that starts after the wake-up, runs of one worker never overlap, and joining the worker waits for the pending run and leaves it stopped. "
  "Waiting for idleness returns only when no run is in progress or pending, or with an error when the worker is stopping or stopped, and neither waiting nor joining blocks forever once the work returns.",
  "schedules", "every interleaving of one or two threads waking, waiting and joining with the worker thread, including spurious wake-ups and time-outs (bounded preemptions)",
  "no test uses a worker from two threads",
  ["src/worker.c", "src/thread_posix.c", "src/mutex_posix.c"], [("state machine", "src/worker.c")])
P("C27", "Locks exclude: one writer or any number of readers, and no one waits forever",
  "While one thread holds a lock exclusively no other thread holds it in any mode, while threads share it none holds it exclusively, and every acquisition succeeds once the conflicting holders have released it. "
  "Waiting on a condition releases the lock while waiting and holds it exclusively on return, and a wake-up sent after a thread began to wait is not lost.",
  "schedules", "every interleaving at lock operations of up to three threads with arbitrary read/write sections and condition waits (bounded preemptions)",
  "lock correctness is a statement about schedules; the tests do not contend",
  ["src/mutex_posix.c", "include/mutex.h"], [("reader/writer lock", "src/mutex_posix.c")])
P("C28", "A timed wait waits for the time requested",
  "A timed wait on a condition sets a valid absolute deadline that is exactly the requested number of milliseconds after the current time, for every current time and every duration, and a periodic worker runs again after each period without being signalled.",
  "inputs schedules", "every clock reading (any nanosecond value) and every 32-bit number of milliseconds",
  "carry between nanoseconds and seconds only occurs for particular clock readings",
  ["src/mutex_posix.c", "src/worker.c"], [("deadline arithmetic", "src/mutex_posix.c:condvar_wait_time")])
P("C29", "Log messages are filtered by level and written in full to the selected medium",
  "A message is written to the selected medium if and only if its level is at most the configured level, exactly once, with its text complete and unmodified whatever it contains, and nothing is written while no medium is selected. "
  "Switching the medium closes the previous one exactly once, a medium that cannot be opened is reported as an error and leaves the previous one in use, and closing or freeing the log releases everything.",
  "inputs histories fault_sequences", "every level and configured level, every sequence of medium switches, opens and closes up to the bound, failure to open",
  "the tests do not look at what is logged",
  ["src/log.c", "include/log.h"], [("filter", "src/log.c:log_printf, log_vprintf, src/proxy.c:proxy_log"), ("media", "src/log.c:log_select_medium, log_open, log_close")])
P("C30", "Port numbers and peer addresses are rendered exactly",
  "Every 16-bit port number is rendered as its decimal representation without leading zeros, terminated, in at most six bytes. "
  "A peer's address is rendered as address and port as the peer uses it, with IPv6 addresses in brackets, always within the documented buffer, and anything else as a fixed placeholder.",
  "inputs", "all 65536 ports, every IPv4 address, every IPv6 address, every other address family",
  "the tests render a few ports",
  ["src/conn.c", "include/conn.h"], [("rendering", "src/conn.c:conn_port_to_str, conn_get_remote_addr")])
P("C31", "The command line selects exactly the documented behaviour",
  "Each documented option has its documented effect for every combination and order of options, the argument which is not an option is the path of the configuration file, which is otherwise ELProxy.conf in the working directory or the installed one, contradictory, unknown or incomplete options end the program with an error before anything is opened, and version and help requests end it without starting the proxy. "
  "The log goes where the options say once the proxy has been opened, the daemon goes to the background unless told not to, after opening and before starting the proxy, a failure of any step ends the program with a report and a non-zero status after releasing the proxy, and a termination signal at any moment ends it with status zero.",
  "inputs configurations fault_sequences", "every argument vector up to the bound over all documented and arbitrary options, failure of each start-up step",
  "the tests run three fixed command lines",
  ["src/proxyd.c"], [("option parsing and main loop", "src/proxyd.c:main")])
P("C32", "Callsigns are hashed consistently",
  "The bucket of a callsign depends on nothing but its bytes, each call gives the same result however calls interleave, changing any single byte changes the bucket, and every bucket index is within range.",
  "inputs", "every byte string up to the bound, every pair differing in one byte",
  "the function is not tested",
  ["src/pearson.c"], [("hash", "src/pearson.c:pearson_get")])
P("C33", "Every authentication attempt uses its own nonce",
  "Each connection is challenged with a nonce drawn for it alone from the random source after it connected, the whole value that was drawn appears in the challenge, and a response computed for another nonce is not accepted. "
  "If no nonce can be drawn the connection is dropped without being admitted.",
  "histories inputs fault_sequences", "every sequence of values from the random source for successive connections, failure of the source",
  "a nonce reused from an earlier attempt looks the same to a test that connects once",
  ["src/proxy.c", "src/rand.c"], [("nonce", "src/proxy.c:get_nonce, proxy_worker_authorize")])
P("C34", "Patterns match as their regular expressions define",
  "A callsign matches a configured pattern exactly when the regular expression, as the pattern library documents it, matches the callsign.",
  "inputs configurations", "every pattern and callsign", "the tests try a few patterns",
  ["src/regex.c"], [("matching is delegated to the PCRE2 library", "src/regex.c")],
  na="what a pattern matches is decided inside the PCRE2 library, whose source is not in the repository and cannot be encoded here; what this repository does with the library's answers is decided by C04")
P("C35", "Nonces cannot be predicted",
  "A client cannot predict the nonce of its next connection from anything it can observe.",
  "histories", "every history of observed nonces", "unpredictability is not an observable of a run",
  ["src/rand.c"], [("nonces come from rand() seeded with the time", "src/rand.c")],
  na="unpredictability is a statement about the distribution of the C library's generator, not a safety property over the repository's code; there is no assertion for a solver to decide (the code seeds rand() with the time, so it does not hold in the cryptographic sense)")
P("C36", "The Windows service behaves like the daemon",
  "On Windows the proxy can be installed, started and stopped as a service with the same behaviour as the daemon.",
  "histories configurations", "every sequence of service control requests", "the service is not built or tested on this platform",
  ["src/service.c", "src/mutex_win.c", "src/thread_win.c", "src/conn_wsa_errno.c"], [("service control", "src/service.c")],
  na="the Windows sources need the Windows headers and are neither compiled nor compilable here, so there is no code to encode")
P("C37", "A client that vanished is eventually disconnected",
  "Every client connection the proxy serves has TCP keep-alive switched on such that the system gives up on a peer that vanished after at most twelve minutes, and a connection for which this cannot be arranged is closed unserved. "
  "When the system gives up on a connection, whatever the client was doing, its session ends, its sockets are closed, its slot is free and reported free, and the proxy goes on; sending to such a client never ends the program.",
  "fault_sequences histories", "every phase of a session in which the client may vanish, every error the system reports it with, each option failing to be set",
  "it takes more than ten minutes and a network failure to see",
  ["src/conn.c", "src/proxy.c", "src/proxy_conn.c"], [("TCP keep-alive options", "src/conn.c:conn_accept"), ("end of a session on errors", "src/proxy_conn.c:proxy_conn_process")])
P("C38", "The registrar's view of the slots is current",
  "The number of slots in use and the number of slots are handed to the registration service when the proxy starts and after every client that is admitted or leaves, and what was handed over last is what is true once the proxy is at rest, however clients come and go at the same time. "
  "From the moment a shutdown is requested no slots are on offer, and the service is stopped when the proxy is closed.",
  "histories schedules", "every sequence of arrivals and departures up to the bound, every interleaving of two clients and of a shutdown (bounded preemptions)",
  "the tests use no registrar; stale counts only appear when clients come and go at the same time",
  ["src/proxy.c", "src/registration.c"], [("hand-over of the counts", "src/proxy.c:proxy_update_registration, proxy_start, proxy_shutdown, proxy_worker_func")])
P("C39", "Threads never touch shared data without an order between them",
  "Whenever two threads of the proxy access the same data and at least one of them changes it, a lock, the start of a thread or the end of one puts one access before the other, whatever clients, remote hosts and the registrar do, while starting, serving and shutting down. "
  "So no slot, connection, list, counter or setting is ever seen half changed, and no change is lost.",
  "schedules histories", "every pair of accesses by the proxy's own threads in every history and schedule within the bounds of the harnesses",
  "two accesses that nothing orders go well nearly always, so that a test sees nothing",
  ["src/proxy.c", "src/proxy_conn.c", "src/conn.c", "src/worker.c", "src/registration.c", "src/mutex_posix.c", "src/thread_posix.c"],
  [("locks of pool, workers and connections", "src/proxy.c, src/conn.c"), ("reader-writer lock", "src/mutex_posix.c"), ("worker state", "src/worker.c"), ("registration state", "src/registration.c")])

P("C40", "A time limit on receiving is exactly the one requested",
  "Setting a time limit on a connection, whether it was accepted, opened or bound, limits receiving on the socket that connection receives from to exactly the requested number of milliseconds, for every 32-bit number, where zero means none. "
  "A receive that takes longer fails, also when part of the data has arrived, one in time succeeds, and a connection that is not open, or a refusal of the system, is reported as a failure.",
  "values faults", "every 32-bit number of milliseconds and every way to open a connection",
  "the tests use one duration on one kind of connection",
  ["src/conn.c"], [("conn_set_timeout", "src/conn.c"), ("conn_recv, conn_recv_any", "src/conn.c")])