# What each check drives, and which violation classes it answers for.
# what any workload relies on: calls reach their handler and return their own result, connections and the server stay up
CORE = ["call:", "client:", "stream:", "response:", "server:", "await:", "wait:"]
GENERIC = ["memory:", "crash:", "hang:", "resource:"]
PROPS = {
 "C01": dict(classes=CORE + [], workload="1-4 library clients (up to 3 extra threads each, optional pump thread), optional raw-byte client and event-sending application thread; all functions of four generated protocols; messages up to the configured maximum; every message carries a unique id and checksummed payload, the oracle is a ledger of calls against handler runs and results"),
 "C02": dict(classes=CORE + ["event:"], workload="1-2 clients with up to 4 threads sharing one connection plus a pump; any/all/context waits in synchronous and asynchronous mode, mixed with polling, events and deferred answers"),
 "C03": dict(classes=CORE + ["event:", "leak:"], workload="2-6 clients sending bursts of posts and calls to few, slow workers so that worker queues and the receive arena are exhausted"),
 "C04": dict(classes=CORE + ["leak:", "setup:", "shutdown:", "foreign-fd:", "notify:", "event:"], workload="rounds of identical load (calls, malformed and unknown messages, connects and disconnects, packet clients) with heap and descriptor census at quiescence between rounds and after shutdown"),
 "C05": dict(classes=CORE + ["event:", "order:", "notify:"], workload="subscribing and unsubscribing stream and packet clients while 1-3 application threads and handlers broadcast and target events; stalled readers and crashing clients"),
 "C06": dict(classes=CORE + ["event:", "order:"], workload="mixed traffic over streams with aggressive segmentation, latency, tiny socket buffers, short transfers, EINTR and concurrent senders"),
 "C07": dict(classes=CORE + ["event:", "notify:", "leak:", "foreign-fd:", "order:"], workload="clients that close, reset or crash at seeded instants (mid-frame, with calls outstanding, while answered) next to witnesses whose every call is checked"),
 "C08": dict(classes=CORE + ["event:", "notify:", "foreign-fd:"], workload="raw clients that leave with calls (immediate and deferred) outstanding while others connect and are given the same descriptors; colliding message ids"),
 "C09": dict(classes=CORE + ["shutdown:", "leak:", "notify:", "foreign-fd:"], workload="shutdown requested from handlers, application threads or before the main loop, at seeded instants under load, stalled and crashing clients"),
 "C10": dict(classes=CORE + ["leak:", "event:"], workload="server shutdown, server process crash or connection reset at seeded instants while client threads call, wait and await"),
 "C11": dict(classes=CORE + ["event:", "notify:", "order:", "leak:"], workload="packet clients over inet and unix datagrams (with loss, duplication, sends the operating system refuses, bounded queues), malformed and truncated datagrams, stream clients on the same server"),
 "C12": dict(classes=CORE + ["event:", "leak:", "notify:"], workload="raw clients sending malformed headers, cut frames and maximum-size frames next to witnesses; one kind of failure repeated more often than there are receive buffers"),
 "C13": dict(classes=CORE + ["defer:", "event:", "order:", "leak:"], workload="calls whose handler defers its message; answered by other threads or handlers later, in any order, also after the caller left"),
 "C14": dict(classes=CORE + ["register:", "event:"], workload="calls to protocols and functions that are (un)registered while traffic flows, duplicate registrations"),
 "C15": dict(classes=CORE + ["notify:", "event:", "leak:"], workload="many short-lived stream connections and packet subscriptions, with crashes and resets; callbacks matched against the simulated kernel's connections"),
 "C16": dict(classes=CORE + ["order:", "event:"], workload="pipelined requests and events on servers with and without workers"),
 "C17": dict(classes=CORE + ["event:", "foreign-fd:", "notify:", "order:", "shutdown:", "setup:", "leak:", "defer:", "register:"], workload="the same mixture over main loop and application-driven event sets (event batches 1-32), 1-4 links at once, some of them added while others are being served, 0-16 workers"),
 "C18": dict(classes=CORE + ["setup:", "leak:", "notify:", "foreign-fd:", "shutdown:"], workload="allocation and system-call failures during creation of servers, clients and links, during connect and accept, followed by clean use"),
 "C21": dict(classes=CORE + ["workers:", "event:", "notify:", "leak:"], workload="servers with 2-16 workers; groups of calls whose handlers block until all of the group run, or until the application lets them go while other calls, connects and events must get on"),
 "C22": dict(classes=CORE + ["instance:", "event:", "notify:", "order:", "leak:", "foreign-fd:", "shutdown:", "defer:"], workload="the main server of another workload next to 1-3 further servers of the same process (own handlers and callbacks for the same protocol id, own workers, message sizes and links), each created, used by raw clients, shut down and created again up to four times while the others are at work"),
}
RULE = "one case = one seed = one simulated execution: the seed picks configuration, workload, fault rates and every scheduling decision. Non-trivial: at least one handler ran (or a set-up step was made to fail) and at least one non-default decision (preemption, delay, fault) was injected; distinct: the 64-bit interleaving hashes differ"
COMPONENTS = dict(
 real=["/repo/runtime/*.c with the generic dispatcher", "/repo/runtime/link/socket/*.c", "client and server code generated by /repo/generator from /verif/sim/proto/*.gr", "the C library's memory and string functions"],
 simulated=["threads, mutexes, condition variables, rwlocks, semaphores (one fiber runs at a time, preemptible at every memory access)", "stream and datagram sockets, epoll, eventfd, pipes", "clock and sleeps (discrete-event time)", "heap (bounds, lifetime and leak tracking)", "process crash (client and server processes)"],
 stub=["applications: handlers, client programs, raw peers are the harness's own"])
ASSUMPTIONS = ["sequentially consistent memory: fibers interleave at memory-access granularity, weak-memory reorderings are not simulated", "the simulated kernel follows Linux semantics for the calls the library makes", "library globals are shared between the simulated processes (they are constant tables)", "seeded sampling: a clean batch is evidence for the explored runs, not a proof"]
