import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=None)))
R="runtime/"
p("C01","Every call runs its handler exactly once and returns that call's own result",
 "When a connected client invokes a function of a registered protocol, the server runs the handler of exactly that function exactly once with exactly the argument values that were passed, and the values the client reads back for that call are exactly the ones the handler responded with for it. This holds however many calls are outstanding, from however many threads and clients, and whatever the number of server workers, the message sizes (up to the configured maximum) and the argument types.",
 ["schedules","inputs","configurations","histories"],
 "every interleaving of client threads, server main loop and workers; every mix of functions, argument values and sizes; 0..N workers; any set of protocol ids",
 "The 14 tests run one client thread against an idle server with a handful of fixed payloads; they cannot reach interleavings of workers and client threads, colliding outstanding ids, table growth, buffer reuse or odd sizes.",
 [R+"client.c",R+"server.c",R+"dispatch_generic.c",R+"arena.c",R+"stack.c",R+"queue.c",R+"hashtable.c",R+"shared.c","generator/languages/langc.py"],
 [("message ids and outstanding-message table",R+"client.c gracht_client_invoke, __handle_response"),("dispatch by protocol/action id",R+"server.c server_invoke_action; "+R+"shared.c get_protocol_action"),("receive buffers and send buffer pool",R+"arena.c; "+R+"stack.c; "+R+"server.c gracht_server_get_buffer/respond"),("generated (de)serializers","generator/languages/langc.py")],
 [("messages","outstanding calls of a client by message id",R+"client.c struct gracht_client"),("clients","connected clients by handle",R+"server.c struct gracht_server")],
 ["handler invocations on the server","values returned by the generated *_result functions"])
p("C02","Awaits and waits return exactly when what they wait for has arrived",
 "Awaiting any/all of a set of calls returns success only when any/all of them have a result available, and it always returns once the needed responses (or errors) have been delivered to the process - whichever of the client's threads happened to receive them, in synchronous or asynchronous await mode, with events interleaved. Waiting for one specific message likewise returns success only when that message has completed.",
 ["schedules","histories","configurations"],
 "every interleaving of several threads sharing one client (awaiters, pumps, pollers), every arrival order of responses and events relative to the calls, every combination of await flags",
 "The tests await from one thread with one outstanding order; lost wakeups, a response consumed by another thread, and any-versus-all confusion need particular interleavings of at least two threads or particular arrival orders.",
 [R+"client.c"],
 [("completion test of awaits",R+"client.c gracht_client_await_multiple, __await_completed"),("single receiver at a time",R+"client.c gracht_client_wait_message")],
 [("messages_event","condition on which awaits wait for the statuses of their calls to change",R+"client.c struct gracht_client")],
 ["return value and time of gracht_client_await, gracht_client_await_multiple, gracht_client_wait_message"])
p("C03","No accepted request is lost when the server is overloaded",
 "However many requests arrive faster than they are handled - more than the workers' queues, more than the receive buffers - the server keeps running, handles every one of them exactly once, and answers every call that expects an answer, as soon as handlers make progress.",
 ["schedules","histories","configurations"],
 "every burst size and arrival pattern, slow handlers, any worker count and maximum message size",
 "No test ever has more than a few requests outstanding, so queue-full, buffer-exhausted and table-resize paths are never executed.",
 [R+"server.c",R+"dispatch_generic.c",R+"queue.c",R+"arena.c"],
 [("receive buffer pool and back-pressure",R+"server.c handle_client_event, get_in_buffer_mt; "+R+"arena.c"),("per-worker job queue",R+"dispatch_generic.c gracht_worker_pool_dispatch; "+R+"queue.c")],
 None,["handler invocations","answers received by clients"])
p("C04","Serving any number of calls and clients does not consume the system",
 "A server (and a client) that has returned to idle can always serve as much as it could at start, after any number of calls, events, errors, connects and disconnects: buffers, memory and descriptors taken for them are given back. After shutdown of a server or client every resource it allocated is released, and no memory is ever used after release or outside its bounds.",
 ["histories","schedules","fault_sequences"],
 "every sequence of calls, events, connects, disconnects and failures, in every order of completion",
 "A leak or fragmentation only shows after many messages in particular completion orders; the tests send fewer messages than the smallest pool holds and never look at memory.",
 [R+"arena.c",R+"server.c",R+"client.c",R+"stack.c",R+"dispatch_generic.c",R+"link/socket/server.c",R+"link/socket/client.c"],
 [("arena allocate/free and coalescing",R+"arena.c"),("send-buffer stack",R+"stack.c"),("client record and descriptor release",R+"server.c client_destroy; "+R+"link/socket/server.c")],
 None,["heap and descriptor table of the simulated process","continued service late in long runs"])
p("C05","Events reach exactly their subscribers or their target, intact and in order",
 "A broadcast event of a protocol is delivered exactly once to every client that is connected and subscribed to that protocol when it is sent, and to no client that is not subscribed; an event targeted at one client is delivered to that client only. Events arrive complete, with the values sent, and in the order in which one server thread sent them; an event may be missing only when that client's connection cannot take it (it does not read, or it is gone).",
 ["schedules","histories","configurations","fault_sequences"],
 "every sequence of subscribe, unsubscribe, connect, disconnect and emission, any set of protocol ids, any number of clients, slow readers included",
 "The one event test has a single client, one protocol id and no unsubscription; membership over many clients and ids, ordering, and slow readers are not touched.",
 [R+"server.c",R+"control.c",R+"client.c",R+"hashtable.c",R+"link/socket/server.c","generator/languages/langc.py"],
 [("subscription bitmap",R+"server.c client_subscribe/client_unsubscribe/client_is_subscribed"),("enumeration of clients",R+"hashtable.c gr_hashtable_enumerate"),("event dispatch on the client",R+"client.c __invoke_action")],
 [("subscriptions","per client protocol bitmap","include/gracht/link/link.h struct gracht_server_client")],
 ["event handler invocations on the clients"])
p("C06","Streams survive any fragmentation, partial transfer or interrupted call",
 "Messages on a stream link are delivered intact whatever way the transport cuts, delays or batches the bytes, and whether system calls transfer only part of the data or are interrupted by signals; a message is never lost, truncated, merged or misparsed because of it, and frames written by concurrent senders never interleave.",
 ["fault_sequences","schedules","inputs"],
 "every segmentation and delay of the byte stream in both directions, every short read/write and EINTR placement, every buffer size",
 "Over a local socket with small messages the kernel practically always transfers whole messages at once; a test cannot choose where a read or write stops.",
 [R+"link/socket/server.c",R+"link/socket/client.c",R+"server.c",R+"client.c"],
 [("header then body reads",R+"link/socket/server.c socket_link_recv_client; "+R+"link/socket/client.c socket_link_recv_stream"),("whole-message writes",R+"link/socket/server.c socket_link_send_client; "+R+"link/socket/client.c socket_link_send_stream")],
 None,["handler arguments, results and events compared with what was sent"])
p("C07","A client that disconnects or crashes at any moment harms nobody else",
 "If a client closes, resets or crashes at any point - idle, in the middle of sending a message, with calls outstanding, or while it is being answered - the server process keeps running and every other client keeps being served correctly. Complete requests that client had sent before an orderly close are still handled, exactly once, and an incomplete one is never handled.",
 ["crash_points","schedules","fault_sequences"],
 "every instant (byte position, handler state, worker state) at which a peer goes away, orderly or abruptly, single or many",
 "Tests disconnect only when idle, at the end; the shutdown test is known to lose its request when it disconnects early.",
 [R+"server.c",R+"link/socket/server.c",R+"dispatch_generic.c"],
 [("disconnect handling and pending input",R+"server.c handle_client_event, client_destroy"),("writes to a vanished peer",R+"link/socket/server.c socket_link_send_client")],
 None,["server liveness","service to the surviving clients","handler invocations for the vanished client"])
p("C08","A response never reaches a client that did not make the call",
 "The response to a call, immediate or deferred, is delivered only on the connection that made the call, or nowhere if that connection is gone - even when another client has connected meanwhile and the operating system has given it the same descriptor, and even when message ids coincide across clients.",
 ["schedules","histories","crash_points"],
 "every interleaving of disconnects, new connections and late responses",
 "Needs a disconnect, a new connection that reuses the handle and a late response in one particular order; tests never have two clients at once.",
 [R+"server.c",R+"link/socket/server.c"],
 [("lookup of the caller when responding",R+"server.c gracht_server_respond"),("connection identity",R+"server.c handle_connection; include/gracht/types.h struct gracht_message")],
 None,["values read by every client for each call, and raw frames received by a client with nothing outstanding"])
p("C09","Server shutdown always completes and leaves nothing behind",
 "After shutdown is requested - from a handler, from a worker thread or from any other thread, at any time, under any load - the server stops at its next event: its main loop (or event call) returns once, running handlers finish first, no handler runs afterwards, all worker threads end, every client connection is closed, and nothing hangs or is accessed after being freed.",
 ["schedules","histories","configurations"],
 "every moment of the request relative to message arrival, dispatch, worker start-up, wake-up and sleep; 0..N workers; main loop or external event loop",
 "The shutdown test stops an idle server; a worker missing its wake-up, work still queued, or a request during start-up depend on interleavings it cannot choose.",
 [R+"server.c",R+"dispatch_generic.c"],
 [("server state machine",R+"server.c gracht_server_request_shutdown, gracht_server_handle_event, gracht_server_shutdown"),("worker stop protocol",R+"dispatch_generic.c gracht_worker_pool_destroy, worker_dowork")],
 None,["return of the main loop","threads, descriptors and memory of the server process","connection end seen by clients"])
p("C10","A lost connection is reported to the client, never hidden or hung on",
 "When the server goes away (shutdown, crash, reset) at any moment, every client call, wait and await on that stream connection returns within bounded time with an error unless its result had already arrived; no call is reported as completed without its real response, results that did arrive stay readable, and the client process survives and can be shut down cleanly.",
 ["crash_points","schedules","fault_sequences"],
 "every instant at which the connection ends relative to sends, receives and waits of any number of client threads, synchronous and asynchronous",
 "No test ever stops the server while a client is using it.",
 [R+"client.c",R+"link/socket/client.c"],
 [("receive error propagation",R+"client.c gracht_client_wait_message, gracht_client_await_multiple"),("send error handling",R+"client.c gracht_client_invoke; "+R+"link/socket/client.c socket_link_send_stream")],
 None,["return values of calls, waits, awaits and results"])
p("C11","Packet links answer the right sender and tolerate what datagrams do",
 "On a packet link each datagram that carries one well-formed request is handled once per arrival with its exact arguments, and its response goes to the address that sent it; subscribed packet clients receive broadcast events and others do not. Loss, duplication, reordering and malformed or truncated datagrams never crash the server, never corrupt another message and never affect stream clients of the same server.",
 ["fault_sequences","inputs","schedules","configurations"],
 "every loss/duplication/reordering pattern, every datagram content at framing level, IPv4 and local-domain addresses, 0..N workers, any number of senders",
 "No test uses the packet link that the test servers open.",
 [R+"link/socket/server.c",R+"link/socket/client.c",R+"server.c",R+"crc.c"],
 [("datagram receive and address capture",R+"link/socket/server.c socket_link_recv_packet"),("response and event to a packet client",R+"link/socket/server.c socket_link_send_packet, socket_link_send_client, socket_link_create_client")],
 None,["handler invocations per datagram","responses and events received by packet clients"])
p("C12","Malformed frames from one peer are contained",
 "Whatever bytes a stream client sends as frame headers - lengths shorter than a header, longer than the server's maximum message, unknown protocol, function or type values, a truncated frame followed by a close - the server does not crash, does not write outside its buffers, does not run a handler for a frame that is not there, and keeps serving all other clients correctly; a frame no larger than the configured maximum is always accepted.",
 ["inputs","fault_sequences","schedules"],
 "every header value and truncation point, mixed with correct traffic of other clients; every configured maximum size including those near the frame size",
 "Tests only send what the generated client code produces, far from any limit.",
 [R+"link/socket/server.c",R+"server.c",R+"shared.c"],
 [("frame length handling",R+"link/socket/server.c socket_link_recv_client"),("unknown protocol/function",R+"server.c server_invoke_action")],
 None,["server liveness and memory","handler invocations","service to well-behaved clients"])
p("C13","Deferred messages can be answered later, from anywhere, exactly once",
 "A handler may copy its message with the defer facility and return without answering; a response made later from that copy - from another handler, another thread, after any amount of other traffic and in any order among deferred calls - reaches the original caller as the response to that very call. The copy stays valid and unchanged until the application drops it, and answering for a caller that has left is harmless.",
 ["schedules","histories"],
 "every order and delay of deferred answers, any number deferred at once, interleaved with any other traffic, disconnects included, 0..N workers",
 "The deferral test defers one message of one client and answers it immediately after.",
 [R+"server.c","include/gracht/types.h"],
 [("copy of the message context",R+"server.c gracht_server_defer_message, GRACHT_MESSAGE_DEFERRABLE_SIZE"),("respond from a copied context",R+"server.c gracht_server_respond")],
 None,["results obtained by the callers"])
p("C14","Calling something the server does not offer fails that call and only that",
 "A call to a protocol that is not registered, or to a function the protocol does not have, runs no handler and completes at the caller with an error status, without disturbing any other call or client. Registering or unregistering protocols while traffic flows takes effect for the messages handled afterwards, never crashes, and registering an id twice is refused without replacing the first.",
 ["schedules","histories","inputs"],
 "every protocol/function id, every interleaving of (un)registration with message handling on main thread and workers, any number of registered protocols",
 "No test calls an unknown function or changes the registrations while serving.",
 [R+"server.c",R+"shared.c",R+"hashtable.c",R+"control.c",R+"client.c"],
 [("protocol table under lock",R+"server.c gracht_server_register_protocol, gracht_server_unregister_protocol, server_invoke_action"),("error event to the caller",R+"control.c gracht_control_event_error_single; "+R+"client.c gracht_control_error_invocation")],
 None,["status of the call","handler invocations"])
p("C15","Connect and disconnect notifications match reality one to one",
 "The server's connect callback runs exactly once for every stream client that connects, before any of its requests is handled, and the disconnect callback exactly once for every such client that leaves while the server runs, after its last request was taken in and never for a client that was not announced. Packet clients are announced on first subscription and retired on unsubscribing from everything.",
 ["schedules","histories","crash_points"],
 "every sequence and timing of connects, orderly disconnects, resets and crashes, with and without requests pending, many clients at once",
 "No test installs the callbacks.",
 [R+"server.c"],
 [("accept path",R+"server.c handle_connection"),("teardown path",R+"server.c client_destroy, handle_client_event"),("packet subscription",R+"server.c gracht_control_subscribe_invocation, gracht_control_unsubscribe_invocation")],
 None,["callback invocations versus connections of the simulated kernel"])
p("C16","Requests of one client are handled and answered in the order they were sent",
 "On a server without worker threads, requests a client sends on one stream connection are handled in the order in which they were sent, and what one server thread sends to one client (responses and events) arrives at that client in the order in which it was sent.",
 ["schedules","histories"],
 "every interleaving of arrivals from any number of clients, any segmentation",
 "Tests have one client, so order among many outstanding requests is never exercised.",
 [R+"server.c",R+"link/socket/server.c",R+"client.c"],
 [("event loop and receive order",R+"server.c gracht_server_main_loop, handle_client_event"),("one send per message",R+"link/socket/server.c socket_link_send_client")],
 None,["order of handler invocations and of deliveries"])
p("C17","How the server is run changes nothing for its clients",
 "The same requests have the same outcome whether the server runs its own main loop or is driven by the application through its event call on an application-provided event set, whether it serves one link or several at once, and whatever worker count is configured; a provided event set is never closed by the library and descriptors the library does not own are never touched.",
 ["configurations","schedules","histories"],
 "every combination of loop mode, number and kinds of links (up to the maximum) and worker count, with connects, calls, events, disconnects and shutdown",
 "Tests only use the built-in main loop with one fixed pair of links.",
 [R+"server.c",R+"link/socket/server.c"],
 [("event routing by handle",R+"server.c gracht_server_handle_event, get_link_by_conn"),("provided event set",R+"server.c configure_server, gracht_server_shutdown"),("link table",R+"server.c gracht_server_add_link")],
 None,["results seen by clients","descriptor table of the server process"])
p("C18","Failures while setting up are reported and undone",
 "If memory or an operating-system resource runs out (or an address is unusable) while a server, client or link is created, connected or added, the call reports the failure, nothing crashes or hangs, what had been taken is given back, and the object (or a new attempt) remains usable.",
 ["fault_sequences","configurations"],
 "every single failure position of allocation, thread creation and socket calls during set-up",
 "Tests never make an allocation or system call fail.",
 [R+"server.c",R+"client.c",R+"arena.c",R+"dispatch_generic.c",R+"hashtable.c",R+"link/socket/server.c",R+"link/socket/client.c"],
 [("error paths of create/connect/add_link",R+"server.c gracht_server_create, configure_server, gracht_server_add_link; "+R+"client.c gracht_client_create, gracht_client_connect; "+R+"link/socket/server.c socket_link_setup")],
 None,["return codes, memory and descriptors after the failure"])
p("C19","Generated code is correct for every protocol definition",
 "For every protocol definition the generator accepts, the generated client and server code compile and a value of any declared type survives serialization and deserialization unchanged.",
 ["programs","inputs"],"every accepted protocol definition and every value of its types",
 "The tests compile one definition and send a few values.",
 ["generator/parser.py","generator/languages/langc.py"],[("code emission","generator/languages/langc.py")])
p("C20","The other platform back ends keep the same guarantees",
 "On Windows and on Vali/MollenOS the library gives the same guarantees as on Linux.",
 ["configurations"],"the IOCP socket back end and the vali-ipc link",
 "They cannot be compiled here.",
 [R+"link/vali-ipc/server.c",R+"link/vali-ipc/client.c",R+"dispatch_vali.c"],[("platform links",R+"link")])
p("C21","The configured workers work at the same time and block nobody else",
 "A server configured with several worker threads runs that many handlers at the same time: while some handlers block, the remaining workers keep handling the requests given to them, and even when every worker is blocked the server still takes in new clients, subscriptions and (as far as its receive buffers reach) requests, and delivers the events the application sends. A handler may therefore wait for another request's handler that was given to a free worker.",
 ["schedules","histories","configurations"],
 "every worker count, every split of blocking handlers over clients and workers, every interleaving of dispatch, blocking and release",
 "Tests never let handlers depend on each other, so a server that quietly handles one request after the other passes all of them.",
 [R+"dispatch_generic.c",R+"server.c",R+"server_config.c"],
 [("round-robin dispatch and worker loop",R+"dispatch_generic.c gracht_worker_pool_dispatch, worker_dowork"),("handlers run without the server's locks",R+"server.c server_invoke_action"),("worker count",R+"server_config.c gracht_server_configuration_set_num_workers")],
 None,["handlers running at once","requests handled, clients taken in and events delivered while handlers block"])
p("C22","Servers and clients in one process are independent",
 "Any number of servers and clients may exist in one process at the same time and one after the other, used by threads of their own. Each server runs only the handlers and callbacks registered with it, for its own clients' requests, and answers them with its own results; its configuration, events, connections, errors and shutdown concern nobody else. Creating, using or shutting down one server or client never changes, delays or breaks what another one does.",
 ["schedules","histories","configurations"],
 "every set of servers and clients of a process, every interleaving of their threads, every order in which they come and go",
 "Tests have one server per process, so state shared by mistake between instances never shows.",
 [R+"server.c",R+"client.c",R+"shared.c",R+"dispatch_generic.c",R+"crc.c",R+"link/socket/server.c"],
 [("server state is reached through its handle only",R+"server.c struct gracht_server"),("message carries its server",R+"server.c get_in_buffer_st, get_in_buffer_mt; gracht_server_respond"),("protocol lookup in the instance's table",R+"shared.c get_protocol_action"),("shared checksum table",R+"crc.c")],
 None,["handlers and callbacks run for each server","what the clients of each server receive"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P),[len(x['title']) for x in P])
