#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mechanism],
        "observe_at": list(observe), "hook_needed": None}})

prop("C01", "A client that has not logged in gets nothing from the proxy",
 "Until a client has answered the challenge sent on its own connection with its callsign and the MD5 of (upper-cased password + that challenge), and the callsign is permitted, the proxy binds no external UDP port, opens no outbound connection and sends no datagram on its behalf, and relays nothing to it. Before that the client receives only the 8-character challenge and at most one 10-byte refusal. The challenge is never skipped, and no bytes sent in place of, before or after a wrong login are ever acted upon.",
 ["inputs", "schedules", "histories"],
 "every byte string a client may send instead of a login, every fragmentation of it, every interleaving with other clients' sessions, every earlier session on the same slot",
 "The end-to-end test performs one well-formed login from one client; wrong passwords, malformed callsigns, partial logins and concurrent logins are never tried.",
 ["src/proxy.c", "src/proxy_conn.c", "src/digest.c", "src/md5.c"],
 [("challenge/response check before a slot is claimed", "src/proxy.c: proxy_worker_authorize, proxy_worker_func")],
 observe=["bytes on the client socket", "bind/connect/sendto system calls"])

prop("C02", "Every login gets the right verdict, however its bytes arrive",
 "A client that sends a callsign of at most ten characters, a newline and the correct 16-byte response is admitted, and the bytes that follow are its first message; letters in the password are case-insensitive. A wrong response gets exactly the bad-password notice (07 00000000 01000000 01), a right response with a refused callsign gets exactly the access-denied notice (same with 02), and input without a newline in the first eleven bytes gets no notice; in all three cases the proxy then closes the connection. How the bytes are split into packets never changes the verdict.",
 ["inputs", "schedules"],
 "every callsign, password, response and trailing data, under every split of the byte stream into packets",
 "Tests compute one response digest and log in once with the bytes arriving whole; refusals, callsign lengths and splits are not exercised.",
 ["src/proxy.c", "src/digest.c", "src/md5.c", "src/conn.c"],
 [("variable-length login read and comparison", "src/proxy.c: proxy_worker_authorize"), ("response computation", "src/proxy.c: get_password_response")],
 observe=["bytes on the client socket"])

prop("C03", "The proxy serves exactly as many clients as it has slots, forever",
 "A proxy with N external addresses has at most N clients challenged and not yet disconnected at any time, and a client arriving while all N are taken is disconnected without a challenge. Capacity never leaks: whenever fewer than N clients hold a place, a newly connecting client is challenged, after any history of departures, failed logins, refusals, errors and reconnections. A client waiting its turn is never left hanging while the proxy is running.",
 ["histories", "schedules", "fault_sequences"],
 "every sequence and interleaving of connects, failed and successful logins and disconnects of any number of clients",
 "The end-to-end tests have one client that is served and at most one that comes too early; no client leaves and is followed by another, and none has to share the slots with others.",
 ["src/proxy.c", "src/worker.c", "src/proxy_conn.c"],
 [("idle worker list", "src/proxy.c: proxy_process, proxy_worker_func")],
 state=[("idle_workers_head", "workers not serving a client", "src/proxy.c")],
 observe=["accepted client sockets: challenge or close"])

prop("C04", "Each client has its own external address; returning callsigns keep theirs",
 "An admitted client holds one external address, on which UDP ports 5199 and 5198 are bound for it and for nobody else until it leaves. A callsign that was the last to use an address that is free again gets that address back; any other client gets the free address that has been idle longest, starting in configuration order. No two clients ever share an address and no address is ever lost.",
 ["histories", "schedules"],
 "every sequence and interleaving of logins and departures over any number of addresses and callsigns (including callsigns that collide in any internal index)",
 "Slot reuse needs several clients over time; tests have one client and one slot.",
 ["src/proxy.c", "src/proxy_conn.c", "src/pearson.c"],
 [("idle list and callsign buckets", "src/proxy.c: proxy_worker_func"), ("callsign hash", "src/pearson.c")],
 state=[("idle_clients_head/tail, clients_by_call", "free addresses in release order; last user of each", "src/proxy.c")],
 observe=["bind/close of UDP sockets per external address"])

prop("C05", "What a client sends as UDP leaves the right port unchanged and in order",
 "Each UDP message of 1 to 4096 bytes from an admitted client is sent as exactly one datagram with the same payload to the address named in the message, control messages from and to port 5199 and data messages from and to port 5198 of that client's external address, in the order sent on each port. Nothing else is ever sent, and larger messages lose no byte and keep their order. A destination that cannot be reached costs only that datagram.",
 ["inputs", "schedules", "fault_sequences"],
 "every message length, content and address, every fragmentation and interleaving with other traffic, every send failure",
 "No test sends a UDP message through the proxy.",
 ["src/proxy_conn.c", "src/conn.c"],
 [("message dispatch and relay", "src/proxy_conn.c: process_message, process_data_message, process_control_data_message"), ("datagram send", "src/conn.c: conn_send_to")],
 observe=["sendto system calls"])

prop("C06", "Every datagram reaching a client's ports is relayed to that client only",
 "Each non-empty datagram that arrives on an admitted client's control or data port is relayed to that client as one message of the matching type, carrying the sender's address and the first 4087 bytes of the payload, once, and in arrival order per port. It reaches no other client, and traffic from an earlier session never reaches a later one. No datagram, whatever its size (including empty) or origin, stops later ones from being relayed.",
 ["inputs", "schedules", "histories"],
 "every datagram size, content, sender and arrival order, interleaved with every other activity",
 "No test sends a datagram to the proxy.",
 ["src/proxy_conn.c", "src/conn.c"],
 [("forwarder loops", "src/proxy_conn.c: forwarder_control, forwarder_data"), ("receive", "src/conn.c: conn_recv_any")],
 observe=["messages on the client socket"])

prop("C07", "Every TCP open request is tried once and answered with one truthful status",
 "For each open request the proxy makes one connection attempt, to port 5200 of the requested address from the client's own external address, and sends exactly one status message, whose 4-byte value is zero if and only if the connection was established. Statuses come in request order, and nothing from a connection precedes its status. An attempt that fails leaves the client's session otherwise undisturbed.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "every address, every outcome of the attempt, every sequence of opens, closes and data around it",
 "No test opens a tunnel connection.",
 ["src/proxy_conn.c", "src/conn.c"],
 [("open handling", "src/proxy_conn.c: process_tcp_open_message"), ("connect", "src/conn.c: conn_connect")],
 observe=["connect system calls", "status messages on the client socket"])

prop("C08", "The TCP tunnel carries both byte streams exactly",
 "Bytes a client sends as TCP data reach the remote host of the currently open connection, and bytes the remote host sends reach the client as TCP data messages, with nothing lost, duplicated, altered or reordered, whatever the sizes, segmentation, partial writes or slowness of either side. Everything sent before a close is delivered before that close takes effect.",
 ["inputs", "schedules", "fault_sequences"],
 "every size and segmentation of data in both directions, every partial write and stall, every interleaving with UDP traffic",
 "No test moves a byte through the tunnel; partial writes never happen in the tests of the connection layer.",
 ["src/proxy_conn.c", "src/conn.c"],
 [("relay loops", "src/proxy_conn.c: process_tcp_data_message, forwarder_tcp"), ("send until done", "src/conn.c: conn_send")],
 observe=["bytes received by the remote host and by the client"])

prop("C09", "TCP closes propagate both ways and connections never bleed into each other",
 "When the remote host closes, the client receives all remaining data and then a close message; when the client closes, the remote connection is closed and the client gets a close message, and when it leaves, the remote connection is closed; data sent with no open connection is discarded and answered with a close message. A new open request while a connection is open replaces it. No byte of one connection is ever delivered on or attributed to another, and closing an old connection never disturbs a newer one.",
 ["histories", "schedules"],
 "every sequence and interleaving of open, data, close and remote close, including immediate re-opening",
 "No test opens or closes a tunnel connection, let alone two in a row.",
 ["src/proxy_conn.c", "src/worker.c", "src/conn.c"],
 [("forwarder end and re-open", "src/proxy_conn.c: forwarder_tcp, process_tcp_open_message, process_tcp_close_message")],
 observe=["messages on the client socket", "remote connections"])

prop("C10", "The client's stream is always a sequence of whole, well-formed messages",
 "Everything an admitted client receives parses as complete messages - one type byte, four address bytes, a four-byte little-endian length, and that many bytes - of the types defined for the proxy, each carrying at most 4096 bytes in total. Messages from the concurrent sources (both UDP ports, tunnel data, statuses and closes) are never interleaved or cut, even when the client reads slowly or writes complete partially. A client that sends an undefined message type is disconnected.",
 ["schedules", "inputs", "fault_sequences"],
 "every interleaving of the senders, every partial write and stalled reader",
 "No test has more than one source sending to a client, and none sees a partial write.",
 ["src/proxy_conn.c", "src/conn.c"],
 [("send lock", "src/proxy_conn.c: mutex_client_send"), ("send until done", "src/conn.c: conn_send")],
 observe=["bytes on the client socket"])

prop("C11", "When a session ends everything it held is released, and nobody else notices",
 "However a session ends - the client closes, resets, is dropped, or sends an undefined message type - the proxy closes the client's connection, both UDP ports and any remote connection, without waiting for anything further from client or network (an attempt to open an outbound connection, or a delivery, that is already under way runs its course first). Messages completely sent before an orderly close are still acted upon. Other clients' sessions continue unaffected.",
 ["histories", "schedules", "fault_sequences"],
 "every way and moment a session can end, including in the middle of a message, of a connection attempt, or while data is being relayed in either direction",
 "Tests end one idle session in one way.",
 ["src/proxy_conn.c", "src/proxy.c", "src/conn.c", "src/worker.c"],
 [("session teardown", "src/proxy_conn.c: proxy_conn_finish, proxy_conn_drop")],
 observe=["close of sockets"])

prop("C12", "Shutdown, drop and close always finish, and the proxy can be opened again",
 "Dropping disconnects every connected client; shutting down ends the wait for clients and lets nobody new in while connected clients carry on; closing always returns, whatever clients are doing at that moment (once an outbound connection attempt already under way has run its course), with every client disconnected, every socket closed and the listening port free. After a close the proxy can be opened and started again and then behaves like a fresh one.",
 ["schedules", "histories", "fault_sequences"],
 "every moment at which the calls can be made relative to every stage of every client's session, and every sequence of open, start, shutdown, drop, close",
 "One test closes a proxy with one authenticated idle client; a client in mid-login, racing arrivals and re-opening are not tried.",
 ["src/proxy.c", "src/proxy_conn.c", "src/worker.c", "src/conn.c"],
 [("close sequence", "src/proxy.c: proxy_shutdown, proxy_drop, proxy_close")],
 observe=["return of the API calls", "sockets"])

prop("C13", "The directory is always told the truth about the proxy",
 "With a registration name configured, reports carry the configured name, comment, address, port, public flag and the matching checksum; they say Busy exactly when the reported used count has reached the reported total, and Ready otherwise. Once activity settles, the last report states how many places are occupied out of how many are usable, after every way of joining or leaving; the report is repeated every ten minutes. The last report of a closed proxy is Off, and without a registration name nothing is ever sent.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "every history and interleaving of clients coming and going, every registrar failure or delay, every configuration of name, comment, address, password",
 "The registrar is never contacted in tests.",
 ["src/registration.c", "src/proxy.c", "src/worker.c"],
 [("status computation", "src/proxy.c: proxy_update_registration"), ("report worker", "src/registration.c: registration_func, send_report")],
 observe=["HTTP posts to the registrar"])

prop("C14", "A background worker runs its work once per pending request and never loses one",
 "A wake accepted by a started worker is always followed by a run of its function that begins after the wake, runs never overlap, and wakes arriving during a run lead to one more run. Waiting for idle returns only when no run is pending or in progress (or reports an error because the worker is stopping), and joining returns only after accepted work has run, with the worker stopped and able to be started again. A worker with a period runs again when the period passes without a wake.",
 ["schedules", "histories"],
 "every interleaving of wake, wait, join, start and the function's own completion, with spurious wakeups",
 "There is no worker test that explores interleavings; a lost wake-up needs one particular schedule.",
 ["src/worker.c", "src/thread_posix.c", "src/mutex_posix.c"],
 [("state machine under one lock", "src/worker.c")],
 observe=["return values of worker calls", "runs of the function"])

prop("C15", "Exclusive and shared locks exclude as promised and never get stuck",
 "While a thread holds a lock exclusively nobody else acquires it in either mode, and any number of threads may hold it shared at once. A thread that asks for the lock gets it once the conflicting holders have released it; no release is ever missed. Waiting on a condition releases the lock, and a wake given under the lock reaches every thread already waiting; a timed wait ends when its time has passed.",
 ["schedules"],
 "every interleaving of any number of exclusive and shared lockers, waiters and wakers, with spurious wakeups",
 "Tests use the lock only incidentally; exclusion and missed wake-ups need adversarial schedules.",
 ["src/mutex_posix.c"],
 [("reader count plus condition variable", "src/mutex_posix.c")],
 observe=["acquisition and release order"])

prop("C16", "A configuration file means what its lines say",
 "Each known key sets exactly its own setting to the value with surrounding blanks removed, the last occurrence winning and an empty value clearing an optional setting; comments, blank lines, unknown keys and lines without '=' change nothing, and unset settings keep their defaults (port 8100). An unparsable or out-of-range port or timeout, and the placeholder password, are refused with an error. The list of additional addresses is exactly the comma-separated items given, in order, and is refused without a primary external address.",
 ["inputs", "configurations"],
 "every file content: any lines, order, repetition, whitespace, lengths, missing final newline, special characters",
 "One test loads no file and another the sample file; the parser's behaviour on other inputs is untested.",
 ["src/conf.c", "src/proxy.c"],
 [("line parser", "src/conf.c: conf_parse_line, conf_parse_pair")],
 observe=["settings after loading", "return value"])

prop("C17", "Only callsigns the operator's patterns permit are let in",
 "A callsign is admitted if and only if it does not match the deny pattern (when one is set) and matches the allow pattern (when one is set), deny winning over allow; a pattern that fails while matching counts against the callsign. An invalid pattern makes opening the proxy fail, and the patterns in force are those of the last open.",
 ["inputs", "configurations", "histories"],
 "every pair of patterns and every callsign, and every sequence of reconfigurations",
 "Tests try a handful of patterns against the matcher, not the admission decision.",
 ["src/proxy.c", "src/regex.c"],
 [("decision", "src/proxy.c: proxy_authorize_callsign"), ("matcher", "src/regex.c")],
 observe=["return of the authorization call", "verdict on the wire"])

prop("C18", "Log messages at or above the chosen level reach exactly the chosen place",
 "A message is written, once and in order, to the medium currently selected if and only if its severity is at least the configured level. Switching medium takes effect for the next message, releases the previous medium, and on failure leaves the previous one working; a log file is appended to, never truncated. Closing the log stops all output and leaves no file open.",
 ["histories", "configurations", "fault_sequences"],
 "every sequence of level changes, medium switches (including failing ones) and messages",
 "No test looks at log output.",
 ["src/log.c", "src/proxy.c"],
 [("medium switch", "src/log.c: log_select_medium"), ("level filter", "src/log.c: log_vprintf, src/proxy.c: proxy_log")],
 observe=["stdio and syslog calls"])

prop("C19", "The daemon starts as told, serves until told to stop, and exits cleanly",
 "The command line is honoured (configuration path, foreground, log destination and level; help and version exit successfully; anything unknown or contradictory is refused with a nonzero status before anything is opened). Configuration, listening or start failures exit with a nonzero status; after a termination or interrupt signal, whenever it arrives and whatever clients are doing, the daemon disconnects everyone, closes everything, and exits with status zero. A user signal only stops new clients from being admitted, and a client that vanishes before it is accepted never stops the daemon.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "every argument vector, every moment a signal can arrive, every startup failure",
 "The daemon's main program is not run by any test.",
 ["src/proxyd.c", "src/proxy.c"],
 [("main loop and signal handler", "src/proxyd.c: main, graceful_shutdown, parse_args")],
 observe=["exit status", "sockets", "log output"])

prop("C20", "Network connections transfer exactly what was asked or report an error",
 "A receive of n bytes returns after exactly n bytes, in order, or reports an error; a send returns success only after every byte has been handed over in order. Closing or shutting down a connection, or dropping an accepted one, from another thread promptly ends every blocked operation on it with an error, after which operations fail rather than touch any other socket. A connection can be used again after it was closed, and failed listens, connects and accepts report the error.",
 ["schedules", "inputs", "fault_sequences"],
 "every split of the byte stream, every partial transfer and error, every moment a concurrent close can happen, every reuse sequence",
 "Tests transfer a few bytes that arrive whole and close in one fixed order.",
 ["src/conn.c"],
 [("lock around descriptors; shutdown before exclusive lock", "src/conn.c: conn_close, conn_drop, conn_recv, conn_send")],
 observe=["system calls", "return values"])

prop("C21", "Running out of a resource costs one client or one call, never the proxy",
 "When a socket, bind, listen, connect, send, receive, thread or memory request fails, the call or the one session that needed it fails with an error - opening or starting the proxy reports the failure and can be retried, a client whose ports cannot be bound is disconnected - and every other client and all later clients are served as before. Nothing crashes, hangs or stays half-initialised. Once the resource is back, full capacity is back.",
 ["fault_sequences", "histories"],
 "every single failure (and pairs) of a system or allocation call at every point of start-up, login, session and teardown",
 "No test makes a system call fail.",
 ["src/proxy.c", "src/proxy_conn.c", "src/conn.c", "src/worker.c", "src/registration.c"],
 [("error paths", "throughout")],
 observe=["return values", "client-visible behaviour after the fault"])

prop("C22", "No memory or descriptor is misused or leaked",
 "No memory outside a live allocation is ever read or written, nothing is freed twice, no lock is used before it is initialised or after it is destroyed or released by a thread that does not hold it, and no descriptor is used or closed that is not open. Sessions, reconfigurations, connection attempts (successful or not) and open/close cycles leave nothing behind: when the proxy is closed every descriptor it opened is closed, and when it is freed all memory is released.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every input, history, interleaving and single failure",
 "Tests run without any memory checking and never repeat an operation often enough to notice a leak.",
 ["src/proxy.c", "src/proxy_conn.c", "src/conn.c", "src/conf.c", "src/registration.c", "src/log.c", "src/digest.c", "src/mutex_posix.c"],
 [("matching init/free pairs", "throughout")],
 observe=["memory accesses", "allocation and descriptor tables at close"])

prop("C23", "A recorded login cannot be replayed",
 "Each connection is challenged with eight lower-case hexadecimal digits drawn afresh from the generator, so no two connections to a running proxy share a challenge merely because of how or when they were made. A response is judged only against the challenge sent on the same connection, so a response that was right for another connection is refused with the bad-password notice. The expected response is the MD5 of the upper-cased password followed by the challenge digits as sent.",
 ["histories", "inputs", "schedules"],
 "every sequence and interleaving of connections, every challenge value including those with leading zeros, every password",
 "A replay needs two connections and a recorded response; the tests make one.",
 ["src/proxy.c", "src/rand.c", "src/digest.c"],
 [("fresh challenge per connection", "src/proxy.c: proxy_worker_authorize, get_nonce")],
 observe=["bytes on client sockets"])

prop("C24", "The library's own client logs in correctly or reports why it did not",
 "Connecting a client opens exactly one connection, to the configured host and port, waits for the eight-digit challenge however its bytes arrive, and answers with exactly the configured callsign (which may be empty or absent), a newline and the MD5 response for the configured password (PUBLIC when none is set) and that challenge; nothing is sent before the whole challenge is there, and nothing after the response. Success is reported only after every byte of the answer has been handed over; any refusal, early close or error is reported as a failure and leaves no connection behind, and the client can connect again. Disconnecting or freeing closes the connection and releases everything. The response helper yields the MD5 of the upper-cased password and the eight lower-case digits for every password and challenge.",
 ["inputs", "fault_sequences", "histories"],
 "every callsign, password and challenge, every fragmentation of the challenge and of the answer, every point at which the proxy or a system call can fail, every sequence of connects and disconnects of several clients at once",
 "The tests log in once, with a cooperative proxy and one short password.",
 ["src/proxy_client.c", "src/proxy.c", "src/digest.c", "src/md5.c", "src/conn.c"],
 [("login sequence", "src/proxy_client.c: proxy_client_connect"), ("response computation", "src/proxy.c: get_password_response")],
 observe=["connections made, bytes sent", "return values"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
