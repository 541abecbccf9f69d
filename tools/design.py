#!/usr/bin/env python3
"""Writes DESIGN.md from the texts here, checks.py, tools/props.py, known_findings.json and seeded/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
import checks, props

HEAD = r"""# Design

Generated by `tools/design.py`; the texts live there, bounds in `checks.py`, properties in `tools/props.py`.

## The technique

Every property is decided by **symbolic execution of the real C code**. On every run `run.py`

1. compiles the current files of `/repo/src` to LLVM IR (clang 18, `-O0`; the flags of the real build otherwise),
2. links them with a model of the operating-system boundary (`lib/os.h`, `lib/files.h`, `lib/libc.c`) and one harness
   (`harness/*.c`) that drives the code through its non-static interfaces (`include/*.h`) and states the property as
   assertions (`check(...)`) over symbolic inputs,
3. runs the result in `engine/sx`, a forking symbolic executor written for this task (C++ over the LLVM 18 API and
   z3): inputs, lengths, fault choices, partial transfers and scheduling choices are symbolic or forked; every branch
   on symbolic data and every assertion that does not fold away is a z3 query over **all** values within the bounds;
   memory safety (bounds, use after free, double free, null, uninitialised pointers, leaks of memory, descriptors and
   address lists at the end) is checked along the way in every harness;
4. on a violation, writes the model z3 gives (inputs, choices and schedule) to `replays/<harness>` and re-executes it
   natively: the same sources compiled by gcc with AddressSanitizer and UBSan, the same harness fed the concrete
   values (`lib/vp_native.c`), once with automatic variables zero and once with a pattern. A violation is reported only
   when the real code reproduces it; otherwise the run is inconclusive (exit 2).

Threads: code that creates threads (`thread_posix.c`, `mutex_posix.c`, `worker.c` and everything above) really does
create them in the executor. A scheduler switches at every lock, condition-variable, socket and thread operation; `-p N` explores every schedule with at most N preemptions plus every
choice whenever the running thread blocks. Between those points a thread runs alone; that this loses nothing
follows from the absence of data races, which is checked on every path of the harnesses with threads (`race=1`, see C39). Harnesses about data use one fixed schedule (said in their bounds), harnesses
about interleavings use concrete data. A state in which every thread waits for ever is reported as a deadlock, a step
limit as non-termination.

State merging (`dedup=1`): states that agree on everything reachable (stacks, heap, path condition, remaining
preemptions) are explored once. States are compared by a 128-bit hash of a canonical form (hash compaction): a collision
could hide a state, with a probability that is negligible for the number of states here (<10^7). Equalities of
8-bit choice variables with constants, which stem from `sx_choose` only, are left out of the hash: such a variable is
never looked at again, so this is sound. Cycles between merged states are not examined, so liveness in those harnesses is
"no deadlock, and each path ends", not fairness. In this mode stack objects are reused by name, so a dangling pointer to a
stack frame would not be seen there (it would in the others).

What the executor's verdict depends on: clang's lowering at -O0 (not gcc's optimiser, so undefined behaviour the
optimiser exploits is caught as undefined behaviour, not as its consequence); the models of libc and of the
operating system, which are part of the trusted base:
sockets (per-direction shutdown, blocking, options, adopted and inherited descriptors, `MSG_NOSIGNAL`, keep-alive),
pthreads (mutexes and condition variables with spurious wake-ups and time-outs where the bounds say so), files (contents, failing
opens), clock, `fork`/`setsid`, signals delivered between steps, `getaddrinfo`, `syslog`. PCRE2 and, outside C03, MD5
are uninterpreted: any result is possible, equal inputs give equal results. Sequential consistency is assumed (all
shared data is ordered by locks, see C39).

Evidence (`evidence/<id>.json`) is written by each run: functions of /repo that were executed, paths, forks, solver queries
and time, checks, schedule points, and the witnesses (`witness(...)`: points that have to be reached by at least one
path, so that a check cannot pass by never getting there; a missing witness fails the run as *inconclusive*, exit 2).

No hooks were needed in /repo: all commits there are `fix:` commits.

## How each property is decided
"""

HOW = {
"C01": "The real proxy, authentication and slot code run against a client whose 28 bytes are all symbolic, cut anywhere. The oracle recomputes, from the recorded nonce, the symbolic password and an uninterpreted MD5, whether the response is right, and from the pattern outcomes whether the callsign is authorised; granted ⇔ both, and the error code sent is compared.",
"C02": "get_password_response with symbolic nonce and password; the input handed to MD5 must be the upper-cased password followed by eight hex digits, byte for byte; digest_to_* helpers for all inputs. Passwords of up to 1000 bytes in `response_long`.",
"C03": "The MD5 implementation against an independent transcription of RFC 1321, as bit-vector terms over symbolic message bytes: equality of the digests folds because both sides are the same term per round, otherwise z3 decides. Also split updates and counters near their limits.",
"C04": "proxy_authorize_callsign (through the public interface) with the pattern library returning anything; any outcome but 'allowed matches and denied does not' must refuse; failed compilations refuse to open.",
"C05": "The client library's code against the proxy's code inside one execution, each side's bytes handed to the other; and the client alone against a symbolic peer. Digests are arbitrary.",
"C06": "One slot with real worker threads; every header field and payload byte of the client's messages is symbolic, the modelled network compares each datagram with what the message says. 66000 messages with arbitrary content in one session (`long_dgrams`) look for counters that wrap.",
"C07": "As C06, in the other direction: datagrams of symbolic length, content and origin, and failures of the sockets. 66000 datagrams with arbitrary content in one session (`long_dgrams`).",
"C08": "Every sequence of TCP events with symbolic data; each transfer in either direction is compared with a reference stream position by position (`sx_same`: for one arbitrary position). tcp_race repeats it with fixed sizes under preemptions.",
"C09": "The same harnesses with the monitor for status and close messages: one status per request, zero ⇔ connected, before anything else about that connection, and a close for every end. 600 connections one after another (`long_tcp`).",
"C10": "Four concurrent sources of messages to one client under preemption; the monitor parses the byte stream and knows which thread sent each part.",
"C11": "Two or three messages with all header bytes symbolic; unknown types and short messages end the session, nothing else happens; memory safety for every size.",
"C12": "conn_send/recv with partial transfers of symbolic size; stream positions are compared for an arbitrary position.",
"C13": "Every sequence of connection operations with failing system calls; the model knows every descriptor, reports use after close and leaks, and in the end that a closed handle can be opened again.",
"C14": "Blocked transfers and a closing thread under up to six preemptions; no deadlock, no use of a closed descriptor; the peer's half-closed state is modelled per direction.",
"C15": "The whole proxy (proxy.c, proxy_conn.c, worker.c, conn.c, ...) with histories of arrivals and departures; which slot serves which client is observed by sending a datagram to each slot's address and seeing who gets it.",
"C16": "As C15, compared with a reference list of idle slots and last callsigns; every pattern of hash collisions; proxy_chain goes through four slots to reach chains longer than the pool's ends.",
"C17": "As C15; after each history as many clients as there are slots are admitted, the next one is turned away; also after the system refused anything once (harness `refuse`). Long histories (270 pairs of sessions, 270 refused connections: `long_sessions`) look for counters that wrap.",
"C18": "One to three slots with all kinds of traffic; every bind and connect is compared with the configuration; a proxy of 260 slots is filled, emptied in either order and filled again (harness `many`).",
"C19": "Two sessions on one slot; what the second client gets is compared with a fresh slot's behaviour, and the sockets between are gone.",
"C20": "One report with symbolic configuration; the bytes sent are parsed and compared; the digest's input is compared. Names, comments and addresses of up to 2100 bytes in `reg_long`.",
"C21": "The registration service with its thread under preemptions; the registrar's last report must be the last update.",
"C22": "Configuration text with symbolic bytes against a reference reading of the file format as ELProxy.conf.ex documents it; other keys must stay at their defaults.",
"C23": "Ownership: allocation model with leak, double-free and use-after-free detection over loads, reloads, failures and frees. Lists of up to 65537 addresses and values of up to 9000 bytes (`conf_list`).",
"C24": "One (thorough: two) failure at each acquiring call of start-up; the failure must be returned, everything released, and a second try works.",
"C25": "Shutdown under preemption against each state of a client; everything ends, no deadlock, sockets closed.",
"C26": "Workers under up to six preemptions: every wake leads to a run that starts after it, never two at once, join waits.",
"C27": "Three threads over the reader-writer lock and its condition variable.",
"C28": "The deadline arithmetic for every clock reading and duration as bit-vectors; the periodic worker's waits.",
"C29": "Steps of opening media with a modelled file system; each message's text, level and line end compared on every medium.",
"C30": "Port printing and address rendering for every value; reference rendering is independent.",
"C31": "proxyd's main() with argument lists; the modelled process records configuration path, forks, signals, logging, exit status.",
"C32": "The hash is a function of the bytes only and a change of one byte changes it (the table is a permutation): z3 decides for every byte string of bounded length.",
"C33": "Connections with a symbolic source of random numbers; a response to one nonce never admits another connection.",
"C37": "Vanished clients: the modelled kernel applies the keep-alive settings the code made; a peer that never answers has to be noticed.",
"C39": "Happens-before tracking in the executor: every thread carries a vector clock, advanced by locks, thread creation and joining; every load, store and memory copy of the repository's code to memory that is not the thread's own stack is compared with the last write and reads of the same bytes. A pair with no order is a data race; it is confirmed natively with ThreadSanitizer on the same schedule, where handing over between threads is made invisible to it. This also justifies that schedules only switch at synchronisation: without races nothing in between can be observed.",
"C40": "The duration is an arbitrary bit-vector; the value handed to the system is compared with it by division-free arithmetic, on the descriptor that the receive then uses; the receive is split and timed out at every point.",
"C38": "The registrar's counts after every event of the histories, and at start and shutdown.",
}
NOTES = r"""
## Limits, and what is deliberately not specified

- `log_vprintf`'s choice between stdout and stderr, `SIGUSR1` (the daemon idles until SIGTERM), `Port=0`, negative numbers or
  odd white space in numbers, time-outs beyond 32 bits, an empty password: undocumented, so the properties leave them open.
- Registration does not URL-encode names; the registrar's format is not documented in the repository, so only the
  composition is specified.
- A registrar that accepts the connection and never answers blocks a shutdown; a TCP connect to a host that does not answer
  can delay it until the operating system gives up. Unspecified (C25 assumes the network answers or fails).
- The signal handler calls functions that are not async-signal-safe; the checks deliver signals between steps only.
- `rand()` seeded with the time gives nonces that differ but can be predicted: C35, not applicable.
- A temporary failure of accept() ends proxyd's loop by design. A failed start of a slot leaves the workers that were
  started running until it is closed (benign). `stop` may report Off twice (benign).
- The report's buffer is one byte short only with two 20-digit slot counts, which cannot be configured.
- The client library does not verify that the nonce is hexadecimal (C05 is stated for a proxy's nonces).

## Defects found

Each was repaired by one `fix:` commit in /repo (see `known_findings.json`; no finding is left open):

%(fixed)s

## False alarms met while building, and what was corrected

- proxy_race counted bytes from a client that had been turned away as unread: the model's count was wrong.
- proxy_conn_start "leaves workers running after a failure": the property was too strong; they end with the slot.
- logmedia demanded an immediate flush to stderr that nothing promises: relaxed to "written when the call returns or the medium is closed".
- vanish let setsockopt fail on sockets that do not belong to a client: restricted to the client's own.
- Several harnesses first depended on the order of internal steps (order of closing sockets, order of workers); they now
  identify sockets and workers by address and port and compare outcomes only.

## Keeping quiet on refactorings

About thirty rewrites that keep the behaviour (helpers extracted, loops rewritten, statements and fields reordered, functions split
or renamed, locks taken in another function) were applied to every source file in scratch copies, and the checks of the properties
concerned were run: all quiet after the corrections above. Harnesses use only the interfaces in `include/`, are linked against
whatever static functions exist, and never name a static function or a private structure.

## Planted bugs

Every bug in `seeded/` was written from a property's text and the code, then run against the checks. Those that were missed at first
led to the extension named.

%(seeds)s

Mutation runs (`tools/mutate.py`: negated conditions, dropped calls, off-by-one constants in a copy) were used to look for
further gaps; survivors were equivalent, dead, in log messages, or led to C38 and the option checks of C37.

## Not applicable

%(na)s
"""
MISSED = {
"c02-long-password": "outside the bound at first; `response_long` added", "c20-long-comment": "outside the bound at first; `reg_long` added",
"c16-many-sessions": "needs a long history; `long_sessions` added", "c18-byte-count": "needs many slots; `many` added",
"c05-nul-response": "missed at first (model digests never held a zero byte); digests in `client` now have an arbitrary byte",
"c16-hash-chain": "needs four slots; `proxy_chain` added",
"c14-drop-open": "missed at first; shutdown is modelled per direction now",
"c10-close-unlocked": "", "c01-no-memory": "class found as a surviving mutant; `auth_gate` now fails one allocation anywhere in the handshake", "c37-idle": "property added with the bug class in mind", "c38-shutdown": "found as a surviving mutant; property C38",
}
out = [HEAD]
for p in props.PROPS:
    i = p["id"]
    if i not in checks.PROPERTIES:
        continue
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(HOW[i] + "\n")
    for h in checks.PROPERTIES[i]["harnesses"]:
        c = checks.HARNESSES[h]
        out.append("- `harness/%s` (%s): %s." % (c["file"], h, c["bounds"]))
    out.append("- Why tests do not reach this: %s." % p["why"])
    out.append("")
kf = json.load(open(os.path.join(V, "known_findings.json")))
fixed = "\n".join("- %s `%s`: %s" % (e["property"], e["commit"], e["what"]) for e in kf if e["status"] == "fixed")
rows = ["| planted bug | property | what it needs | caught by | note |", "|---|---|---|---|---|"]
S = os.path.join(V, "seeded")
catch = json.load(open(os.path.join(V, "tools", "catches.json"))) if os.path.exists(os.path.join(V, "tools", "catches.json")) else {}
for s in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, s, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["needs"], catch.get(s, m["property"]), MISSED.get(s, "")))
na = "\n".join("- **%s** %s: %s" % (p["id"], p["title"], p["na"]) for p in props.PROPS if p["id"] not in checks.PROPERTIES)
out.append(NOTES % dict(fixed=fixed, seeds="\n".join(rows), na=na))
out.append("## Cost\n\nQuick checks take 2-60 s each on eight cores (all of them together about eight minutes), thorough ones up to 15 minutes; the executor\nis compiled once by `setup` (about 12 s). Per-run figures are in the evidence files.\n")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
