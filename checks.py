"""Harnesses (one symbolic execution each) and the properties they decide."""
COMMON_ASSUMPTIONS = [
    "the operating system and C library behave as modelled in lib/os.h and lib/libc.c (POSIX semantics of sockets, mutexes, condition variables; IPv4 only)",
    "threads interleave at lock, condition, thread and socket operations; code between two such points runs without interruption (sequential consistency)",
    "symbolic execution covers the stated bounds only",
]
PX = ["proxy.c", "conn.c", "digest.c", "regex.c", "rand.c", "mutex_posix.c"]
CONN = ["conn.c", "mutex_posix.c"]
NET = ["proxy.c", "proxy_conn.c", "conn.c", "worker.c", "thread_posix.c", "mutex_posix.c", "digest.c", "regex.c", "rand.c"]
NETR = NET[:-1] + [("rand.c", "-Drand_get=real_rand_get")]
SLOT = ["proxy_conn.c", "conn.c", "worker.c", "thread_posix.c", "mutex_posix.c"]
# branches which only choose a value become selections of the value
MERGE = "function(simplifycfg<sink-common-insts;hoist-common-insts>,instcombine<no-verify-fixpoint>,simplifycfg)"
HARNESSES = {
    "auth_gate": dict(file="auth_gate.c", sources=PX, passes=MERGE, defines=["PWMAX=10"], jobs=8, thorough=dict(defines=["PWMAX=40"], timeout=600),
                      bounds="one connection; 28 arbitrary client bytes, cut off anywhere; passwords of 0-10 (thorough: 0-40) arbitrary bytes; every pattern outcome; arbitrary random numbers; at most one failing allocation"),
    "relay_out": dict(race=1, file="relay_out.c", sources=SLOT, jobs=8, preempt=-1, forksel=1, thorough=dict(defines=["MSGS=3"], timeout=600),
                      bounds="2 (thorough: 3) UDP messages of either type, any address, 0-9000 arbitrary bytes, or cut off anywhere with any announced size; one datagram failure with any error; one fixed schedule"),
    "relay_in": dict(race=1, file="relay_in.c", sources=SLOT, jobs=8, preempt=-1, forksel=1, thorough=dict(defines=["ROUNDS=5"], timeout=600),
                     bounds="up to 4 (thorough: 6) datagrams in 3 (thorough: 5) batches on either port, each of 0-4087 arbitrary bytes from any address; one receive failure, or one send failure with any error; one fixed schedule"),
    "tcp": dict(race=1, file="tcp.c", sources=SLOT, jobs=8, preempt=-1, forksel=1, thorough=dict(defines=["STEPS=5"], timeout=700),
                bounds="every sequence of 4 (thorough: 5) events: open, close, client data (0-9000 arbitrary bytes), remote data (up to 5000 bytes), remote end or error, connection and send failures with any error, partial transfers; one fixed schedule"),
    "tcp_race": dict(race=1, file="tcp_race.c", sources=SLOT, jobs=8, preempt=0, dedup=1, defines=["P=2"], timeout=400, thorough=dict(defines=["P=3"], timeout=880), bounds="one connection opened, sent something, closed or opened again at any moment while the remote host sends, closes or both, at once or later: every interleaving with two preemptions (thorough: three) and every choice whenever a thread blocks"),
    "tcp_addr": dict(race=1, file="tcp_addr.c", sources=SLOT, jobs=8, preempt=-1, forksel=1, bounds="one open request for every IPv4 address, succeeding or not; one fixed schedule"),
    "parse": dict(race=1, file="parse.c", sources=SLOT, jobs=8, preempt=-1, forksel=1, thorough=dict(defines=["MSGS=3"], timeout=700),
                  bounds="2 (thorough: 3) messages with every header (type, address, size up to 9000 whole, any size cut off anywhere) and arbitrary payload; one fixed schedule"),
    "session": dict(race=1, file="session.c", sources=SLOT, jobs=8, preempt=-1, forksel=1, thorough=dict(defines=["EVENTS=3"], timeout=700),
                    bounds="two sessions on one slot, the first with every sequence of 2 (thorough: 3) events (datagrams, open, connection failure, remote data or end, send failure, truncated message) and every way of ending; one fixed schedule"),
    "framing": dict(race=1, file="framing.c", sources=SLOT, jobs=8, preempt=0, dedup=1, timeout=600,
                    bounds="data, control, TCP data or end, and a status or close message competing for one client: every interleaving at lock, condition and socket operations with one preemption and every choice whenever a thread blocks; one transfer to the client split after 4 or 10 bytes"),
    "conn_str": dict(file="conn_str.c", sources=[("conn.c", "-Dinet_ntop=h_inet_ntop", "-Dvp_inet_ntop=h_inet_ntop"), "mutex_posix.c"], jobs=8, preempt=-1, bounds="every port; every IPv4, IPv6 and other address of the peer, its text of any length the family allows"),
    "conn_xfer": dict(file="conn_xfer.c", sources=CONN, jobs=8, preempt=-1, forksel=1, thorough=dict(defines=["SPLITS=3"], timeout=800), bounds="one transfer of 1-6000 arbitrary bytes on an accepted, connected or datagram socket, open, dropped or closed; up to 2 (thorough: 3) partial transfers of any size; end of stream or any error at any point"),
    "conn_limit": dict(file="conn_limit.c", sources=CONN, jobs=8, preempt=-1, bounds="every 32-bit number of milliseconds on an accepted, outgoing or datagram connection, open or not, with a failure of the system; then one receive, in time or not, in one or two pieces"),
    "conn_hist": dict(file="conn_hist.c", sources=CONN, jobs=8, preempt=-1, thorough=dict(defines=["STEPS=5"], timeout=800), bounds="every sequence of 4 (thorough: 5) operations (open, drop, close, shut down, send) on a listening, an accepted and a datagram or outgoing connection, with up to 2 failing system calls or allocations; a connection is closed or dropped before it is opened again"),
    "conn_race": dict(file="conn_race.c", sources=CONN, jobs=8, preempt=0, dedup=1, defines=["P=4"], thorough=dict(defines=["P=6"], timeout=800), bounds="one thread closing, dropping or shutting down an accepted, outgoing, datagram or listening connection while two others (one, accepting) receive, accept or send on it; every interleaving at lock, condition and socket operations with at most 4 (thorough: 6) preemptions"),
    "rwlock": dict(race=1, file="rwlock.c", sources=["mutex_posix.c"], jobs=8, preempt=0, timeouts=1, dedup=1, defines=["P=3"], thorough=dict(defines=["P=5"], timeout=800), bounds="three threads, each locking exclusively or shared, waiting (with or without a time-out) or waking, and the main thread; every interleaving at lock and condition operations with at most 3 (thorough: 5) preemptions; one time-out or spurious wake-up"),
    "deadline": dict(file="deadline.c", sources=["mutex_posix.c"], jobs=8, preempt=-1, timeouts=1, qtime=250, timeout=500, bounds="every clock reading up to 2^62 seconds, every 32-bit duration"),
    "worker": dict(race=1, file="worker.c", sources=["worker.c", "thread_posix.c", "mutex_posix.c"], jobs=8, preempt=0, timeouts=1, dedup=1, defines=["P=4"], thorough=dict(defines=["P=6"], timeout=800), bounds="two threads each waking and waiting twice in every combination, a third waking and joining; every interleaving at lock and condition operations with at most 4 (thorough: 6) preemptions; one spurious wake-up"),
    "periodic": dict(race=1, file="periodic.c", sources=["worker.c", "thread_posix.c", "mutex_posix.c"], jobs=8, preempt=0, timeouts=3, dedup=1, defines=["P=3"], thorough=dict(defines=["P=6"], timeouts=5, timeout=800), bounds="a periodic worker with any period through up to 2 (thorough: 3) periods, woken or not, joined at any point; at most 3 (thorough: 6) preemptions and 3 (thorough: 5) time-outs"),
    "reg_long": dict(file="reg_report.c", steps=100000000, defines=["TEXTMAX=2100"], timeout=600, sources=["registration.c", "digest.c", "conn.c", "worker.c", "thread_posix.c", "mutex_posix.c"], jobs=8, preempt=-1, timeouts=0, thorough=dict(defines=["TEXTMAX=9000"], timeout=700), bounds="names, comments and public addresses of fourteen lengths up to 2100 (thorough: 9000) bytes, one of them or all, three bytes of each arbitrary; one slot or 65535; one fixed schedule"),
    "reg_report": dict(file="reg_report.c", timeout=600, sources=["registration.c", "digest.c", "conn.c", "worker.c", "thread_posix.c", "mutex_posix.c"], jobs=8, preempt=-1, timeouts=0, thorough=dict(defines=["NAMEMAX=9"], timeout=700), bounds="every name, comment and public address of up to 5 (thorough: 9) arbitrary bytes or absent; five passwords; every port; up to 255 slots; any reply; one failure of the connection, or one refusal of the system, at any point; one fixed schedule; MD5 as an arbitrary function"),
    "reg_sched": dict(race=1, file="reg_sched.c", sources=["registration.c", "digest.c", "conn.c", "worker.c", "thread_posix.c", "mutex_posix.c"], jobs=8, preempt=0, timeouts=1, dedup=1, defines=["P=2"], thorough=dict(defines=["P=3"], timeout=800), bounds="four sequences of up to four updates, by one or two threads, before the start, in operation or while stopping, one connection failure, one period, two starts: every interleaving with two preemptions (thorough: three), states merged"),
    "proxy_hist": dict(race=1, file="proxy_hist.c", sources=NET, jobs=8, preempt=-1, thorough=dict(defines=["NSLOT=3", "STEPS=5"], timeout=880), bounds="two slots (thorough: three), every sequence of four (thorough: five) arrivals (three callsigns; wrong password, malformed, silent or gone, the same kind each time) and departures, every pattern of hash collisions; then as many clients as there are slots; one fixed schedule"),
    "proxy_chain": dict(race=1, file="proxy_hist.c", sources=NET, jobs=8, preempt=-1, defines=["VISITS", "NSLOT=4", "STEPS=6"], thorough=dict(defines=["VISITS", "NSLOT=4", "STEPS=8"], timeout=880), bounds="four slots; every sequence of six (thorough: eight) visits by three callsigns, one leaving before the next comes, with every pattern of hash collisions; then as many clients as there are slots; one fixed schedule"),
    "proxy_race": dict(race=1, file="proxy_race.c", sources=NET, jobs=8, preempt=0, dedup=1, defines=["P=2"], timeout=400, thorough=dict(defines=["P=3"], timeout=880), bounds="two slots; two clients arriving at once, one or both leaving while others arrive or come back, or with traffic: every interleaving with two preemptions (thorough: three) and every choice whenever a thread blocks"),
    "md5": dict(file="md5.c", sources=["md5.c", "digest.c"], jobs=8, preempt=-1, thorough=dict(defines=["MAXLEN=1000", "CUTS=1"], timeout=800), bounds="every message of 0-200 (thorough: 0-1000) arbitrary bytes in one piece at two placements; three pieces with lengths and cuts on and around block boundaries up to 192 bytes (thorough: also one cut anywhere in up to 140 bytes); continued from every chaining value at seven byte counts around 2^29, 2^32, 2^35 and 2^64"),
    "response": dict(file="response.c", sources=PX, passes=MERGE, jobs=8, preempt=-1, defines=["PWMAX=100"], thorough=dict(defines=["PWMAX=400"], timeout=800), bounds="every nonce; every password of 0-100 (thorough: 0-400) bytes; one allocation failure; every number and every digest"),
    "response_long": dict(file="response.c", defines=["PWLONG=1000"], sources=PX, passes=MERGE, jobs=8, preempt=-1, bounds="every nonce; passwords of 24 lengths up to 1000 bytes with three arbitrary bytes each; one allocation failure"),
    "pearson": dict(file="pearson.c", sources=["pearson.c"], jobs=8, preempt=-1, thorough=dict(defines=["LEN=64"], timeout=800), bounds="every byte string of 1-16 (thorough: 1-64) bytes, any one byte of it changed"),
    "nonce": dict(race=1, file="nonce.c", sources=NETR, jobs=8, preempt=-1, bounds="two slots; two connections at once or one after another, four in sequence, with right, wrong, exchanged or repeated responses, or a failing random source; every distinct numbers drawn; one fixed schedule"),
    "policy": dict(file="policy.c", sources=PX, jobs=8, preempt=-1, thorough=dict(defines=["CSMAX=40"], timeout=800), bounds="every callsign of 0-12 (thorough: 0-40) bytes; every result of matching; two configurations one after the other, each with or without either pattern; one failure of memory, compilation or matching anywhere"),
    "client": dict(file="client.c", sources=PX+["proxy_client.c"], passes=MERGE, jobs=8, preempt=-1, thorough=dict(defines=["PWMAX=16"], timeout=800), bounds="every callsign of 0-10 characters, every nonce, passwords of 0-4 (thorough: 0-16) arbitrary characters on either side; digests that differ, any one byte of them arbitrary; any eight bytes as nonce; one failure anywhere; transfers whole or byte by byte"),
    "addr": dict(race=1, file="addr.c", sources=NET, jobs=8, preempt=-1, bounds="one to three slots, with and without external address and bind address; every port; all slots in use with datagrams and TCP connections, one of them used again; one fixed schedule"),
    "faults": dict(race=1, file="faults.c", sources=NET+["registration.c"], jobs=8, preempt=-1, thorough=dict(defines=["FAULTS=2"], timeout=850), bounds="one or two slots, with and without registration and patterns; one failure (thorough: two) of memory, sockets, name resolution, patterns, threads or locks at every place initialising, opening and starting acquire something; then retried, closed or freed; one fixed schedule"),
    "shutdown": dict(race=1, file="shutdown.c", sources=NET, jobs=8, preempt=0, dedup=1, thorough=dict(defines=["P=2"], timeout=880), bounds="one slot; no client, or one that is silent, arriving, quiet, sending, connected or connecting by TCP, leaving, being turned away or getting a datagram, and possibly another that comes too late: every interleaving with one preemption (thorough: two) and every choice whenever a thread blocks"),
    "refuse": dict(race=1, file="refuse.c", sources=NET, jobs=8, preempt=-1, bounds="two slots; the system refuses memory, a socket operation, a name or a lock once, anywhere while a client arrives and is given a slot, while it opens a TCP connection or while it leaves; then as many clients as there are slots; one fixed schedule"),
    "long_sessions": dict(file="long.c", sources=NET, race=1, steps=300000000, jobs=8, preempt=-1, defines=["SESSIONS"], bounds="two slots; 270 (thorough: 600) pairs of sessions, or as many connections refused for three reasons, one after another; then every slot is used again; one fixed schedule", thorough=dict(defines=["SESSIONS", "N=600"], timeout=800)),
    "long_dgrams": dict(file="long.c", sources=NET, race=1, steps=300000000, jobs=8, preempt=-1, defines=["DATAGRAMS", "M=66000"], bounds="two slots; 66000 messages to be sent as datagrams, or datagrams received, one after another in one session, with arbitrary content; then every slot is used again; one fixed schedule"),
    "long_tcp": dict(file="long.c", sources=NET, race=1, steps=300000000, jobs=8, preempt=-1, defines=["N=600"], bounds="two slots; 600 (thorough: 3000) TCP connections opened and closed one after another in one session; then every slot is used again; one fixed schedule", thorough=dict(defines=["N=3000"], timeout=800)),
    "many": dict(file="many.c", sources=NET, steps=300000000, jobs=8, preempt=-1, bounds="260 slots; as many clients, one more, all of them gone in either order and back again; one fixed schedule"),
    "vanish": dict(race=1, file="vanish.c", sources=NET, jobs=8, preempt=-1, bounds="one slot; a client that vanishes while silent, served, connected by TCP, in the middle of a message or while it is sent something, found out with any of four errors; one option that cannot be set; the next client; one fixed schedule"),
    "conf": dict(file="conf.c", sources=PX+["conf.c"], jobs=8, preempt=-1, thorough=dict(defines=["VALUE=6"], timeout=800), bounds="files of a password and one more line: each key with up to 2 arbitrary bytes before it, before or after the equals sign or after the value; each key with every value of up to 4 (thorough: 6) bytes, ports of up to 7; each key with one byte changed, added, left out or in other case; values of 120-131 and 248-259 bytes; up to 4 arbitrary bytes; with LF, CR LF or no line end"),
    "conf_own": dict(file="conf.c", sources=PX+["conf.c"], defines=["OWN"], jobs=8, preempt=-1, thorough=dict(defines=["OWN", "LIST=7", "PAIRS"], timeout=800), bounds="files with two settings (the same, or neighbours in the list; thorough: any two) of three values each; every list of addresses of up to 5 (thorough: 7) bytes with every form of external address; up to 4 bytes of any value after a key or none; a file that cannot be opened; one allocation failing anywhere; then freed, freed twice, or loaded again with every setting"),
    "conf_list": dict(file="conf_list.c", sources=PX+["conf.c"], steps=300000000, jobs=8, preempt=-1, bounds="lists of 2, 255-257, 300, 1000 and 65535-65537 addresses; each text setting with values of eleven lengths between 511 and 9000 bytes; two or three bytes arbitrary"),
    "logmedia": dict(file="logmedia.c", sources=PX+["log.c"], jobs=8, preempt=-1, thorough=dict(defines=["STEPS=5"], timeout=800), bounds="every sequence of 3 (thorough: 5) steps: another medium (file that can or cannot be opened, console, system log, event log, none), another level, freed and used again; after each a message at each level; texts of 0-3 arbitrary bytes or 255, 257 and 1100 bytes; one fixed schedule"),
    "cli": dict(file="cli.c", sources=[("proxyd.c", "-Dmain=proxyd_main", "-Dvp_close=h_close")], jobs=8, preempt=-1, thorough=dict(defines=["NARG=4"], timeout=800), bounds="up to 3 (thorough: 4) arguments, each one of 23 (all options in every spelling, bundled, with and without value, paths, unknown ones), the last of two (thorough: three) anything of up to 4 bytes; one failing step of initialising, loading, opening, forking, detaching, starting or processing; signals at any step"),
}
PROPERTIES = {
    "C01": dict(harnesses=["auth_gate"], note="every client byte string of the handshake, every nonce, password length bounded"),
    "C06": dict(harnesses=["relay_out", "long_dgrams"], note="message count and size bounded; contents, addresses, types, failures arbitrary"),
    "C07": dict(harnesses=["relay_in", "long_dgrams"], note="datagram count and size bounded; contents, lengths, senders, ports, failures arbitrary; one schedule (schedules: C10, C19)"),
    "C08": dict(harnesses=["tcp", "tcp_race"], note="event count and sizes bounded; contents, sizes, splits and errors arbitrary in one schedule; interleavings with two preemptions at fixed sizes"),
    "C09": dict(harnesses=["tcp", "tcp_race", "tcp_addr", "long_tcp"], note="event count bounded; every address, every failure of the attempt; two connections under two preemptions"),
    "C10": dict(harnesses=["framing"], note="four concurrent sources, one preemption; concrete message lengths"),
    "C11": dict(harnesses=["parse"], note="message count bounded; every header value, truncated anywhere; memory safety of every access decided"),
    "C19": dict(harnesses=["session", "refuse", "long_sessions"], note="two sessions, bounded events; one fixed schedule"),
    "C12": dict(harnesses=["conn_xfer"], note="one transfer of bounded size and number of pieces; contents, sizes, splits, errors arbitrary"),
    "C13": dict(harnesses=["conn_hist"], note="bounded sequence of operations and number of failures; every error number"),
    "C14": dict(harnesses=["conn_race"], note="one closing and two transferring threads, bounded preemptions"),
    "C26": dict(harnesses=["worker"], note="three threads, bounded operations and preemptions, one spurious wake-up"),
    "C27": dict(harnesses=["rwlock"], note="three threads with one section each, bounded preemptions"),
    "C28": dict(harnesses=["deadline", "periodic"], note="every clock reading (seconds below 2^62) and duration; bounded number of periods"),
    "C30": dict(harnesses=["conn_str"], note="every port and every address of the peer; the text of the address itself is the C library's"),
    "C20": dict(harnesses=["reg_report", "reg_long"], note="names, comments, addresses, ports and slot counts arbitrary up to the bound; connection failures; one schedule"),
    "C21": dict(harnesses=["reg_sched"], note="every interleaving within the preemption bound"),
    "C15": dict(harnesses=["proxy_hist", "proxy_race"], note="arrivals and departures bounded; every pattern of hash collisions; one schedule for long histories, two preemptions for two clients at once"),
    "C16": dict(harnesses=["proxy_hist", "proxy_chain", "proxy_race", "long_sessions"], note="arrivals and departures bounded; every pattern of hash collisions; one schedule for long histories, two preemptions for two clients at once"),
    "C17": dict(harnesses=["proxy_hist", "proxy_race", "refuse", "long_sessions"], note="arrivals and departures bounded; one schedule for long histories, two preemptions for two clients at once"),
    "C02": dict(harnesses=["response", "response_long"], note="password length bounded; every nonce, number and digest"),
    "C03": dict(harnesses=["md5"], note="message length bounded; every content; lengths near the counters' limits for given byte counts"),
    "C32": dict(harnesses=["pearson"], note="length bounded; every content and every changed byte"),
    "C33": dict(harnesses=["nonce", "auth_gate"], note="arbitrary distinct numbers; connections bounded; fixed schedule"),
    "C04": dict(harnesses=["policy"], note="callsign length and history bounded; every result of the pattern library, one failure"),
    "C05": dict(harnesses=["client"], note="password length bounded; every callsign, nonce and single failure"),
    "C18": dict(harnesses=["addr", "many"], note="one to three slots in every configuration, and 260; every port; one schedule"),
    "C24": dict(harnesses=["faults"], note="one or two slots; one failure (thorough: two); one schedule"),
    "C25": dict(harnesses=["shutdown"], note="one slot; one preemption; one client connecting at any moment of the shutdown; states merged"),
    "C22": dict(harnesses=["conf", "conf_list", "conf_own"], note="one line of each kind with bounded arbitrary parts"),
    "C23": dict(harnesses=["conf_own", "conf_list"], note="two settings or one list per file, one failure, one further load"),
    "C29": dict(harnesses=["logmedia"], note="steps and text length bounded; every level, medium and order"),
    "C31": dict(harnesses=["cli", "faults"], note="arguments bounded; one failing step; signals between steps only"),
    "C37": dict(harnesses=["vanish"], note="four errors at five moments; that the system's own timers work is assumed"),
    "C38": dict(harnesses=["proxy_hist", "proxy_race", "shutdown", "vanish"], note="histories bounded as for C15 and C25; one schedule for long histories, two preemptions for two clients at once"),
    "C40": dict(harnesses=["conn_limit"], note="one connection, one limit, one receive; every duration"),
    "C39": dict(technique="symbolic execution of the compiled sources (LLVM IR) with happens-before tracking of every access on every path and schedule; feasibility decided by an SMT solver (z3)", thorough_extra=["reg_sched", "proxy_race", "rwlock"], harnesses=["framing", "tcp_race", "shutdown", "proxy_hist", "session", "faults", "worker", "periodic", "refuse"], note="histories and schedules bounded as in the harnesses named; accesses through the system (a received datagram's address) are not watched"),
}
