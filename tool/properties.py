BASE = ("Every path of every function of the library (helpers inlined, function tables resolved) is covered; trusted: the clang front end, "
        "the exporter and the analysis engine, and the tables of the rule. ")

prop("C01", "Every lock that is taken is given back exactly once",
     "Whatever happens inside a call of the library - success, refusal, failure of an allocation or of the transport - the call returns with "
     "every lock it acquired released, and it never releases a lock it does not hold. The only calls that leave a lock behind are the ones "
     "whose purpose it is: obtaining the client's send buffer, which the matching invocation always gives back, including in every generated stub.",
     ["inputs", "fault_sequences", "histories"], "every path through every function of the client, the server, the links and the generated client stubs, including all error paths",
     TESTS + "error paths (duplicate registration, failed sends, unknown clients, exhausted memory) are hardly taken, and a lock left behind only shows in the next call that needs it.",
     ["runtime/server.c", "runtime/client.c", "runtime/arena.c", "runtime/stack.c", "runtime/dispatch_generic.c", "runtime/link/socket/server.c", "include/rwlock.h", "generator/languages/langc.py"],
     [("lock/unlock pairs", "runtime/*.c"), ("send buffer hand-over", "gracht_client_get_buffer / gracht_client_invoke and generated stubs")],
     technique="path-sensitive lock typestate over inlined LLVM IR, runtime and generated stubs",
     note=BASE + "Assumes locking an initialised mutex succeeds where the result is ignored.")

prop("C02", "Shared state is only touched under the lock that guards it",
     "While the server's workers, its orchestrating thread and an application's client threads run concurrently, no table of clients, services, pending calls or "
     "waiters, no memory pool, buffer pool or job queue is read or changed without the lock that guards it. An entry obtained from such a table is not used after that lock was released.",
     ["schedules", "histories"], "all interleavings of worker, orchestrator and application threads: decided by a lock discipline that holds on every path",
     TESTS + "a race or a use of a removed client needs one particular interleaving, which running cannot enumerate.",
     ["runtime/server.c", "runtime/client.c", "runtime/arena.c", "runtime/stack.c", "runtime/dispatch_generic.c"],
     [("client table lock", "clients_lock in runtime/server.c"), ("pending call lock", "messages_lock in runtime/client.c"), ("pool mutexes", "runtime/arena.c, runtime/stack.c")],
     technique="guarded-by analysis: lockset typestate with stale-element tracking",
     note=BASE + "The guard of each field is a frozen table (props/c02.py); objects that were allocated in the function and not yet published are exempt.")

prop("C03", "The library never deadlocks itself",
     "No thread ever waits for a lock it already holds, and no two threads can wait for each other's locks, whatever public calls applications make concurrently or from inside request handlers. "
     "Application code (request handlers, event handlers, connection callbacks) is never run while a lock is held that calls allowed there need, and the library never waits for a thread or a condition while holding an unrelated lock.",
     ["schedules", "histories", "programs"], "all interleavings and all allowed calls from handlers, through the call graph with resolved function tables",
     TESTS + "lock-order inversions need two threads at two specific places at the same time.",
     ["runtime/server.c", "runtime/client.c", "runtime/dispatch_generic.c", "runtime/arena.c", "include/rwlock.h"],
     [("lock acquisition order", "all lock sites, propagated through calls and function tables"), ("callbacks", "clientConnected/clientDisconnected and handler invocations")],
     technique="lock-order graph with context propagation over the call graph",
     note=BASE + "Assumes applications only call the documented server functions from request handlers.")

prop("C04", "No wakeup is lost and no waiter continues too early",
     "A worker never sleeps while work or a shutdown request is pending for it, a caller waiting for replies is woken as soon as the replies it waits for are in, and a thread waiting for exclusive access is woken when the last reader leaves. "
     "A thread that is woken up, for whatever reason, never proceeds unless what it waited for is really the case.",
     ["schedules"], "all interleavings of waiters and signallers, including spurious wakeups",
     TESTS + "lost and spurious wakeups need a signal at one exact moment.",
     ["runtime/dispatch_generic.c", "runtime/client.c", "include/rwlock.h"],
     [("worker wait loop", "worker_dowork, gracht_worker_pool_dispatch, gracht_worker_pool_destroy"), ("awaiter", "gracht_client_await_multiple, mark_awaiters"), ("reader/writer lock", "include/rwlock.h")],
     technique="condition-variable typestate: predicate tested under the mutex before and after each wait, signal owed after each change",
     note=BASE + "The state each condition stands for is a frozen table (props/c04.py).")

prop("C05", "Nothing a peer sends makes the library leave its buffers",
     "Whatever bytes arrive from the other side of a link - any length field, any packet size, any service or action id - the library never reads or writes beyond the buffer of the message or the tables of links and subscriptions, "
     "and a message that is handed on has a complete header and is not larger than its buffer. Buffers handed out for outgoing messages are as large as the configured message size.",
     ["inputs"], "all byte streams and packets a peer can produce, in every fragmentation, for every configured message size",
     TESTS + "they only exchange well-formed messages between the library's own two ends.",
     ["runtime/link/socket/server.c", "runtime/link/socket/client.c", "runtime/server.c", "runtime/client.c"],
     [("length checks", "socket_link_recv_client, socket_link_recv_packet, socket_link_recv_stream"), ("buffer capacity", "get_in_buffer_st/mt, gracht_client_wait_message"), ("table indices", "link_table, subscriptions, events in runtime/server.c")],
     technique="linear-inequality dataflow with widening over every path of the receiving operations and of all accesses to fixed-size tables",
     note=BASE + "Covers the library up to the point where a payload is handed to generated code; the generated deserializers do not know the size of the payload, so their bounds are not claimed (see DESIGN.md).")

prop("C06", "Messages keep their boundaries on every transport",
     "A message that is sent arrives as exactly one message: however a stream fragments or coalesces the bytes, the receiver delivers exactly the announced bytes at the start of a message or nothing, and stays in step with the stream; if a message that has begun can not be completed, "
     "the connection is reported as broken instead of continuing in the middle. Messages sent by several threads to the same client are never mixed, a message is reported as sent only if all of it was sent, truncated packets are not delivered and complete messages that fit the configured size are never refused.",
     ["inputs", "schedules", "fault_sequences"], "all fragmentations and failures of the transport at every receive and send operation, all interleavings of senders",
     TESTS + "on a local socket small messages are practically never fragmented and sends are practically never partial.",
     ["runtime/link/socket/server.c", "runtime/link/socket/client.c", "runtime/link/socket/socket_os.h"],
     [("receiving", "recv_client, recv and client recv operations"), ("sending", "send_client, send and client send operations, socket_send_all")],
     technique="byte-position typestate with linear inequalities over every path of the link operations",
     note=BASE + "The transport is modelled by its contract (a call transfers a prefix, fails or reports the end).")

prop("C12", "Every received message is handled exactly once and then released once",
     "Every message the server receives is invoked exactly once - right away, by exactly one worker, or right away when no worker can take it - and its memory is given back exactly once afterwards and never touched again; "
     "a buffer into which nothing was received is given back as well. Every message the client receives is either handled and released or handed to exactly one pending call, and not touched after that.",
     ["inputs", "schedules", "fault_sequences", "histories"], "every path from obtaining a receive buffer to its release, on the single- and the multi-threaded server and on the client, including failures of the transport and full queues",
     TESTS + "a lost or doubly released message only shows under load, after a failed receive or with an unexpected response.",
     ["runtime/server.c", "runtime/dispatch_generic.c", "runtime/client.c"],
     [("server operation tables", "g_stOperations/g_mtOperations in runtime/server.c"), ("worker", "worker_dowork, gracht_worker_pool_dispatch"), ("client receive", "gracht_client_wait_message, handle_response")],
     technique="ownership typestate (acquire, dispatch/invoke, release) over every path",
     note=BASE + "Messages still queued when the server is told to stop may be dropped.")

prop("C11", "Buffers of outgoing messages are given back exactly once",
     "Every buffer that is obtained for a response or an event is handed to exactly one sending call, and that call gives it back to the server's pool exactly once, whether the message was sent, the client is unknown, the link is gone or the transport failed. "
     "A buffer is never used after it was given back, a buffer that is handed out belongs to the caller alone and starts empty, and the outcome of the send is what the caller of the generated function gets to see.",
     ["inputs", "fault_sequences", "histories"], "every path of the sending calls, of the control protocol and of all generated response and event functions, including every failure",
     TESTS + "a buffer leaked per failed send or given back twice only shows after many failures or under concurrent senders.",
     ["runtime/server.c", "runtime/control.c", "generator/languages/langc.py"],
     [("borrowing", "gracht_server_get_buffer"), ("giving back", "gracht_server_respond, gracht_server_send_event, gracht_server_broadcast_event"), ("generated users", "response and event functions of langc.py")],
     technique="ownership typestate over every path of runtime and generated server code",
     note=BASE + "Generated code is analysed for a corpus of service descriptions that covers each construct in each position.")

prop("C07", "Answers and events reach exactly the party they belong to",
     "Every call carries a new id that the caller's context and the pending call share, and a response carries the id of the request it answers - also when the request was deferred. A response is sent exactly once, to the client that made the request and on the link it came from; an event goes to the client it is addressed to, "
     "a broadcast to each client through its own link. On connection-less links answers go to the address the request came from. On the client a response completes exactly the pending call with its id. What the sending functions return is what happened to the message.",
     ["inputs", "histories", "schedules"], "all combinations of clients, links, message ids and outstanding calls; every path of the functions between a handler and the wire, on both ends",
     TESTS + "with one link and few clients nearly any mix-up of ids, links or addresses goes unnoticed.",
     ["runtime/server.c", "runtime/client.c", "runtime/link/socket/server.c", "runtime/link/socket/client.c", "include/utils.h"],
     [("answering", "gracht_server_respond, gracht_server_send_event, gracht_server_broadcast_event, gracht_server_defer_message"), ("calling", "gracht_client_invoke"), ("correlation", "__handle_response in runtime/client.c"), ("client records", "handle_connection, gracht_control_subscribe_invocation, accept/create_client")],
     technique="path-sensitive value-flow analysis of ids, handles, links and addresses",
     note=BASE + "A client that has disconnected and whose descriptor was reused, and two connection-less clients whose address checksums collide, are not told apart (see DESIGN.md).")

prop("C13", "A pending call is completed once and waiting never ends too early",
     "A call is pending exactly from when it was sent until its result was taken. Exactly one response or error ends it; a second one, or one for a call that is not in progress, changes nothing. Asking for the result of a call in progress leaves it pending; a completed call hands its response out exactly once and the generated function releases it exactly once. "
     "Waiting for all of several calls succeeds only when each of them was answered, failed or is gone, waiting for any of them only when at least one was; every pending call that is waited for knows its waiter, and its completion is counted for that waiter exactly once. Waiting for one call is not ended by the answer to another. When the transport fails, waiting ends with an error, and only then.",
     ["inputs", "schedules", "histories"], "all orders of responses, errors, status queries and waits, on every path of the client and of all generated result functions",
     TESTS + "responses arrive one at a time and in order, and hardly any call ever fails.",
     ["runtime/client.c", "generator/languages/langc.py"],
     [("recording", "gracht_client_invoke, __add_message, __remove_message"), ("completing", "__handle_response, gracht_control_error_invocation, mark_awaiters"), ("waiting", "gracht_client_await_multiple, __await_loop"), ("taking results", "gracht_client_get_status_buffer, gracht_client_status_finalize, generated _result functions")],
     technique="typestate of pending-call records with counting discipline for waiters",
     note=BASE + "That a response eventually arrives is not claimed; that a sleeping waiter is woken is C04.")

prop("C17", "Broadcast events reach exactly the clients that are subscribed",
     "For every service id, subscribing sets the subscription of the requesting client to that service and changes nothing else, unsubscribing clears exactly it; id 255 stands for all services at once. A broadcast event is sent to a client if and only if that client is subscribed to the service of the event. "
     "Clients of stream links start out subscribed to everything, connection-less clients to nothing and are recorded when they first subscribe.",
     ["inputs", "histories"], "all 256 service ids, all previous subscription states, every path of the control protocol and of the broadcast",
     TESTS + "they use one or two service ids, so a wrong bit, word or comparison for any other id goes unnoticed.",
     ["runtime/server.c", "runtime/control.c", "runtime/link/socket/server.c", "include/gracht/link/link.h"],
     [("subscription bits", "client_subscribe, client_unsubscribe, client_is_subscribed"), ("broadcast", "gracht_server_broadcast_event, client_enum_broadcast"), ("initial state", "handle_connection, socket_link_create_client"), ("control actions", "runtime/control.c")],
     technique="bit-exact effect analysis: the update and test expressions are evaluated from the IR for all 256 ids and arbitrary previous words",
     note=BASE + "A loop that replaces a whole-table operation is assumed to run over the whole table.")

prop("C23", "Each message is served by exactly the handler registered for it",
     "A received request or event is passed exactly once to the function that is registered for its service id and action id - among all registered functions of that service, and never to any other - together with the message and positioned at its payload. "
     "If and only if nothing is registered for it, the server answers with one error event that names the message and goes to the client it came from, and the client reports that the event is not supported. Registering a service enters exactly that one and says so, and on a server never displaces another one; unregistering removes exactly the one it is given.",
     ["inputs", "histories"], "all service and action ids and all registered function tables, on both ends",
     TESTS + "they only send actions that exist, in small dense tables.",
     ["runtime/server.c", "runtime/client.c", "runtime/shared.c", "include/utils.h"],
     [("server dispatch", "server_invoke_action"), ("client dispatch", "gracht_client_wait_message, __invoke_action"), ("lookup", "get_protocol_action"), ("registering", "gracht_server_register_protocol, gracht_server_unregister_protocol, gracht_client_register_protocol, gracht_client_unregister_protocol")],
     technique="path-sensitive value-flow analysis with an inductive search invariant for the handler table",
     note=BASE + "That the table of services finds what was registered is C18; that the table cannot grow for want of memory is not reported by the registration and not considered here.")

prop("C14", "Clients come and go in an orderly way",
     "A client that connects (or, on connection-less links, subscribes for the first time) is recorded exactly once and announced to the application exactly once, after it was recorded. It is removed if and only if its connection ended or failed, or, on connection-less links, it unsubscribed from everything; "
     "its end is announced exactly once, before it is removed, and never for a client that was not known; its record is destroyed exactly once by the link it belongs to. Events are handled by the link or client they are for, according to the type of the link, and requests that change clients are always processed by the thread that runs the server.",
     ["histories", "fault_sequences", "inputs"], "all sequences of events, transport failures and control requests, on every path of the event handling",
     TESTS + "clients hardly ever disconnect abnormally, twice, or while being unknown, and the callbacks are not observed.",
     ["runtime/server.c", "include/aio.h"],
     [("connecting", "handle_connection, gracht_control_subscribe_invocation"), ("disconnecting", "handle_client_event, client_destroy, gracht_control_unsubscribe_invocation"), ("routing", "gracht_server_handle_event, get_link_by_conn"), ("orchestrator", "dispatch_mt")],
     technique="typestate of client records with value-flow of handles over every path",
     note=BASE + "Which transport conditions a link reports as fatal is C06; clients that are still connected at shutdown are destroyed without being announced.")

prop("C24", "What is set up is listened to, and every reported event is handled",
     "A link that was added to a server has a socket of the kind and domain it was configured with, bound to the address it was configured with, and as long as there is something to read or a connection to accept on it the server is told so, under the handle of the link; the same holds for every accepted client, whose hang-up is reported as well. "
     "If any of this fails the link or client is refused. A link is entered with its own handle in a free place, or not at all; a client reports success only when it is connected to exactly the address of its link, and holds that connection. The main loop handles every event it is told of exactly once, with its own handle and flags, and ends only when the server was shut down.",
     ["fault_sequences", "inputs", "histories"], "all failures of the socket calls, all numbers of reported events, on every path of setting up, accepting, connecting and waiting",
     TESTS + "socket calls do not fail there, events come one by one, and a missed registration only shows as silence.",
     ["runtime/server.c", "runtime/client.c", "runtime/link/socket/server.c", "runtime/link/socket/client.c", "runtime/link/socket/socket_os.h", "include/aio.h"],
     [("set-up and accepting", "socket_link_setup, socket_link_accept, socket_aio_add"), ("connecting", "socket_link_connect, gracht_client_connect"), ("entering links", "gracht_server_add_link"), ("waiting", "gracht_server_main_loop")],
     technique="typestate of sockets and value-flow of handles, addresses and events over every path",
     note=BASE + "The socket interface of Linux is trusted. Which events lead to which actions is C14; an application that runs its own loop has to pass the events on itself.")

prop("C25", "Instances start out as configured and completely set up",
     "What an application configures is what it gets: every configuration call stores exactly what it is given, and a server or client that was created has the event descriptor, callbacks, link, send buffer, message size and number of workers its configuration asks for, with the documented defaults for what was left open. "
     "Messages of the configured size fit into its buffers; all its tables, its memory for messages and its workers exist; every worker runs with a queue and knows its server; the control protocol is registered. A new client is not connected, a new server is running. Every lock and condition variable is initialised exactly once, before the object it guards is used, handed to a thread or handed out, and every link provides all operations of its role.",
     ["inputs", "fault_sequences"], "all configurations, on every path of every configuration call and of the creation of servers, clients, worker pools, links and containers",
     TESTS + "they use one configuration each, mostly the default one, and a lock that was not initialised works by chance because its memory is zero.",
     ["runtime/client_config.c", "runtime/server_config.c", "runtime/server.c", "runtime/client.c", "runtime/dispatch_generic.c", "runtime/link/socket/*.c", "include/rwlock.h"],
     [("configuration", "gracht_client_configuration_*, gracht_server_configuration_*, gracht_link_socket_set_*"), ("creation", "gracht_server_create, gracht_client_create, gracht_worker_pool_create, gracht_link_socket_create"), ("locks", "mtx_init, cnd_init and rwlock_init against all uses"), ("operations of links", "gracht_link_client_socket_api, gracht_link_server_socket_api")],
     technique="value-flow from configurations to instances, and initialisation typestate of locks and workers over every path",
     note=BASE + "Failures of mtx_init and cnd_init are not considered; that the application does not change a configuration while it is used is assumed.")

prop("C26", "Nobody waits unless told to, or gives up when told to wait",
     "A call that was not told to block never waits for a message to begin, for space to send the first part of one, or for its turn to receive; one that was told to block does not come back merely because there is nothing yet or another thread receives. The flags a caller gives reach the transport as they are, also for broadcasts, and once a message has begun it is always completed. "
     "The server polls when it handles an event, so that no client can make it wait by not sending, and does not drop a response because it cannot be sent at once. A thread that waits for a message keeps no other thread from sending or picking up replies. Awaiting replies receives messages itself unless the caller left that to another thread, and then it does not.",
     ["inputs", "schedules", "histories"], "all flags and all kinds of links and clients, on every path that receives, sends or waits",
     TESTS + "they always block, from one thread, and messages are always there or about to come.",
     ["runtime/client.c", "runtime/server.c", "runtime/link/socket/client.c", "runtime/link/socket/server.c", "runtime/link/socket/socket_os.h"],
     [("waiting", "gracht_client_wait_message, gracht_client_await, gracht_client_await_multiple"), ("server", "gracht_server_handle_event, gracht_server_respond, gracht_server_send_event, gracht_server_broadcast_event"), ("links", "socket_link_recv, socket_link_recv_client, socket_link_recv_packet, socket_link_send_client, socket_send_all")],
     technique="value-flow of flags to the socket calls, evaluated for every combination of flags a path admits, with tracking of what is held while waiting",
     note=BASE + "A peer that sends a part of a message and then nothing makes the receiver wait for the rest; that is how the library is meant to work. recv and send are taken to be interruptible only before they transfer something.")

prop("C22", "What may be absent is not used as if it were there",
     "The result of an allocation, of a lookup of a client, a message, a handler, an awaiter or a link, of taking from a queue, a buffer stack or a memory pool, and a callback the application did not provide is used - read, written, called or handed to code that uses it - only after it has been established to be there. "
     "Every public call that is given nothing where it needs a handle or pointer refuses with an error and touches nothing; a call that could not get memory for what it creates or hands out fails instead of claiming success; a client is not created without a link. Generated code does not use memory it could not get.",
     ["inputs", "fault_sequences", "histories"], "every path of the runtime and of the generated code, for every combination of present and absent things",
     TESTS + "everything is there: no allocation fails, no client vanishes between two calls, all callbacks are given and no argument is NULL.",
     ["runtime/client.c", "runtime/server.c", "runtime/dispatch_generic.c", "runtime/arena.c", "runtime/hashtable.c", "runtime/queue.c", "runtime/stack.c", "runtime/link/socket/*.c", "generator/languages/langc.py"],
     [("lookups", "gr_hashtable_get and gr_hashtable_remove callers, get_link_by_conn"), ("callbacks", "handle_connection, client_destroy, gracht_control_subscribe_invocation"), ("refusals", "all public calls in include/gracht"), ("generated allocations", "*_add, *_copy and deserialize_* of langc.py")],
     technique="null-ness dataflow over every path of inlined LLVM IR, with a fixpoint over what functions use of their arguments",
     note=BASE + "The setters of configurations and links take their object without looking, as they always did, and so do three calls the generated stubs alone make for their own buffer. Elements of the application's arrays are taken to be there.")

prop("C30", "A call that fails says why",
     "Whenever a call of the library, a container or a transport fails, errno holds a positive error code of this failure: the library sets it on that path, or a call it made has failed and set it. "
     "A public call that was not given what it needs fails with EINVAL; one that finds no memory with ENOMEM; an event for an unknown client or the status of an unknown message with ENOENT; a response over a link that is gone with ENODEV; a service registered twice with EEXIST; "
     "what is only possible before or while the server runs with EPERM; connecting twice with EISCONN; an event for an instance that is shutting down with EPIPE; polling while another thread receives with EBUSY; and an event nobody handles with ENOTSUP, by which waiting for replies tells it from a broken connection.",
     ["inputs", "fault_sequences", "histories"], "every path on which a function fails",
     TESTS + "almost no call fails there, and none looks at the error code.",
     ["runtime/client.c", "runtime/server.c", "runtime/shared.c", "runtime/queue.c", "runtime/stack.c", "runtime/arena.c", "runtime/hashtable.c", "runtime/dispatch_generic.c", "runtime/link/socket/*.c"],
     [("public calls", "all calls in include/gracht"), ("transports", "socket_link_recv, socket_link_recv_client, socket_link_recv_packet, socket_link_send, socket_link_accept, socket_link_setup"), ("dispatch", "get_protocol_action, __await_loop")],
     technique="value-flow of error codes and of results of failing calls along every failing path",
     note=BASE + "System calls and allocations are taken to set errno when they fail; that releasing things while failing does not disturb errno is not decided, and failures of locks are not considered.")

prop("C15", "Shutdown releases everything an instance owns, exactly once and in order",
     "Shutting down a client, server, worker pool, link, client record, memory pool or container releases everything it owns and nothing that the user provided, on every path. The server is shut down exactly when that was requested: by the main loop, or by the next event handled, which reports it with EPIPE, and is not touched afterwards. "
     "It first stops all its workers (each is told to stop, joined and then cleaned up; every worker that was started is stopped), then releases all client records, then all its links, then its event descriptor, and frees all pooled message buffers.",
     ["histories", "fault_sequences", "schedules"], "all configurations (own or provided descriptor and buffers, with and without workers, any set of links, clients and pooled buffers), on every path of every destructor",
     TESTS + "they end the process without ever shutting an instance down, or do so with one link and no workers.",
     ["runtime/server.c", "runtime/client.c", "runtime/dispatch_generic.c", "runtime/arena.c", "runtime/hashtable.c", "runtime/stack.c", "runtime/queue.c", "runtime/link/socket/server.c", "runtime/link/socket/client.c"],
     [("server", "gracht_server_shutdown, gracht_server_handle_event, gracht_server_main_loop, gracht_server_request_shutdown"), ("client", "gracht_client_shutdown"), ("workers", "gracht_worker_pool_destroy, gracht_worker_pool_create"), ("links", "socket_link_destroy, socket_link_destroy_client"), ("containers", "gr_hashtable_destroy, stack_destroy, gr_queue_destroy, gracht_arena_destroy")],
     technique="typestate of owned resources in every destructor, with inductive coverage of the tables that are released in loops",
     note=BASE + "The link of a client that never connected stays with the application; loops that run through a table in another direction than upwards are assumed to cover it; a failing system call of a link is assumed not to report EPIPE.")

prop("C16", "Nothing that is obtained is lost, released twice or used after its release",
     "Every block of memory, descriptor, memory pool, worker pool and container that a call obtains is released by it, stored in something that outlives the call, or returned; a call that fails has released everything it obtained and leaves no reference to it behind. Nothing is released twice or used after it was released, and what an object that is in use held is released before it is replaced. "
     "Objects remember correctly whether what they hold is theirs or was provided by the user.",
     ["fault_sequences", "inputs"], "all failures of allocations and system calls at any point, on every path of every function",
     TESTS + "no allocation and hardly any system call fails in them, and leaks are not looked for.",
     ["runtime/*.c", "runtime/link/socket/*.c"],
     [("creation", "gracht_server_create, gracht_client_create, gracht_worker_pool_create, gracht_arena_create, gr_hashtable_construct, stack_construct, gr_queue_construct"), ("links", "socket_link_setup, socket_link_accept, socket_link_connect, gracht_link_socket_create"), ("growth", "hashtable_resize, stack_push"), ("threads", "initialize_worker, worker_dowork")],
     technique="path-sensitive ownership analysis of heap blocks, descriptors and constructed objects",
     note=BASE + "Message buffers are the subject of C11 and C12; mutexes and condition variables are not tracked.")

prop("C18", "The hash tables behave like maps",
     "For every history of insertions, replacements and removals a hash table holds exactly one element per key, the one inserted last: a lookup finds it if and only if it was inserted and not removed since, whatever the hashes collide with; inserting returns the element it replaces, removing the one it removed. "
     "Growing and shrinking keep every element, a search always ends because the table is never full, the number of elements is always right, and enumerating visits every element exactly once. Two keys are the same for the comparison of a table exactly when what is hashed of them is the same.",
     ["inputs", "histories"], "all hash values and collisions, all occupancies and capacities, on every path of every table operation",
     TESTS + "they insert a few keys with distinct hashes; displacement, wrap-around, removal within a chain and shrinking are hardly reached.",
     ["runtime/hashtable.c", "include/hashtable.h", "runtime/client.c", "runtime/server.c"],
     [("search and insertion", "gr_hashtable_get, gr_hashtable_set"), ("removal", "gr_hashtable_remove, gr_hashtable_remove_and_bump"), ("resizing", "hashtable_resize, __hashtable_clone"), ("enumeration", "gr_hashtable_enumerate"), ("keys", "protocol_hash/cmp, client_hash/cmp, message_hash/cmp, awaiter_hash/cmp")],
     technique="inductive-step analysis of probe sequences: abstract interpretation with roles for the current, previous, carried and swapped element",
     note=BASE + "Capacities are taken from the powers of two from 16 to 2^27 that the limits are evaluated for; a resize that fails for want of memory makes insertion and removal fail; distances are assumed to fit 16 bits; the table is not changed while it is enumerated.")

prop("C19", "Worker queues are first in first out and buffer stacks last in first out",
     "The queue of a worker returns its elements in the order in which they were added, each exactly once: it refuses an element only when it is full and reports that it is empty only when it is, and no element overwrites another one, however often its counters have wrapped around. "
     "The stack of message buffers returns the element that was added last and reports that it is empty only when it is; it grows when it is full without losing an element.",
     ["inputs", "histories"], "all fill levels, all positions including those around the wrap of the counters, on every path of every operation",
     TESTS + "the queue of a worker rarely holds more than one message and its counters never get near their limits.",
     ["runtime/queue.c", "runtime/stack.c", "include/queue.h", "include/server_private.h"],
     [("queue", "gr_queue_construct, gr_queue_enqueue, gr_queue_dequeue"), ("stack", "stack_construct, stack_push, stack_pop, stack_resize")],
     technique="evaluation of the path conditions, slot expressions and position updates collected from the IR over all fill levels",
     note=BASE + "Fill levels are evaluated exhaustively for the capacities in use and some others, positions at and around the start, the sign change and the wrap of the counters.")

prop("C20", "Memory that is handed out belongs to its owner until it is given back",
     "For every history of allocations, extensions and complete or partial releases in every order, the memory pool for messages is divided completely into blocks that do not overlap and that it can find again. What an allocation returns lies inside the pool, is at least as large as asked for, and was free before; no operation writes to, resizes or moves memory that belongs to another allocation. "
     "Extending an allocation keeps its content, also when it moves, and leaves it as it was when it fails. Releasing a part leaves exactly the rest with its owner, releasing all of it (or a size of zero) makes all of it available again. An allocation is refused only when no run of free memory is large enough, however often memory was split before.",
     ["inputs", "histories"], "all arena sizes, all sequences of blocks, all requested sizes: by one induction step from an arbitrary well-formed arena, on every path and for every number of iterations",
     TESTS + "they allocate a few messages of equal size; splitting, merging, moving and running out of memory need particular orders of operations.",
     ["runtime/arena.c", "include/arena.h"],
     [("block headers", "create_header, move_header, merge_free_headers, GET_NEXT_HEADER in runtime/arena.c"), ("first fit", "find_free_header"), ("operations", "gracht_arena_create, gracht_arena_allocate, gracht_arena_free")],
     technique="shape analysis of the block list by abstract interpretation with linear inequalities, folding and template loop invariants",
     note=BASE + "The layout of a header (24 bits of length, then the allocated bit, four bytes in all) is fixed. Callers pass what they were given and release it once (C12, C16), sizes passed to a release are below 4 GiB. Alignment of blocks and fairness are not claimed.")

prop("C09", "What one side encodes the other side decodes",
     "For every interface description the generator accepts, the generated code carries values faithfully: every parameter, result, event argument and structure member - numbers of every width, enumerations, flags, strings, structures, variants, and arrays of them, inherited members included - is written "
     "in the declared order with its whole value, and read back in the same order and width into the place it belongs to. All elements of an array are written, in order, and all are read, and delivered as far as the receiver provides room; the items behind it are found where they are, whatever the lengths. "
     "A variant arrives as the entry that was set. The handler, the result function or the structure gets exactly the values that were passed to the stub.",
     ["inputs", "programs"], "all values and lengths of all items, for every kind of item the description language has (a corpus of descriptions that contains every type in every position, generated anew on every run)",
     TESTS + "they use a handful of descriptions, small arrays and short strings; an item of another kind, or an array longer than the room for it, is not tried.",
     ["generator/languages/langc.py", "generator/languages/shared.py"],
     [("serializers and deserializers", "langc.py: serializer and deserializer bodies, primitive macros"), ("stubs", "langc.py: client stubs, responses, events, result functions, server internals")],
     technique="specification-driven abstract interpretation of the generated code with an inductive array-position domain",
     note=BASE + "The generated code is regenerated from /repo on every run and analysed, not run. 'Every accepted description' is represented by a corpus with every type in every position and neighbouring kinds; memory for arrays is assumed to be available. Hostile payloads are out of scope.")

prop("C08", "Both ends mean the same action by the same ids",
     "Every message a generated stub, response or event produces carries, where the other end looks for them, the id of its service, the id of its action and the kind of message it is, exactly as the description says; a function with results is sent as one that is answered, one without as one that is not. "
     "The tables the generated code registers contain every action of the service exactly once, under that id, and lead to the handler of that action. Subscribing, unsubscribing and error reports - the control protocol - agree in the same way on both ends, and every client and server that could be created knows it.",
     ["inputs", "programs"], "all actions, events and services of any description (a corpus with every kind of item, several services, ids in no particular order and over the whole range, written in every notation)",
     TESTS + "they use two small services with small, consecutive ids.",
     ["generator/languages/langc.py", "runtime/control.c", "include/utils.h", "runtime/server.c", "runtime/client.c"],
     [("stubs, responses, events", "langc.py: write_function_body_prologue"), ("callback tables", "langc.py: write_client_callback_array, write_server_callback_array"), ("control protocol", "runtime/control.c")],
     technique="value analysis of the header bytes along all paths, and of the static tables in the compiled code",
     note=BASE + "The generated code is regenerated from /repo on every run and analysed, not run. What the runtime does with the ids is C23, C17 and C07.")

prop("C10", "Generated code owns the memory of what it handles",
     "A generated structure that was initialised, filled from a message, copied or extended element by element can always be destroyed, and destroying it releases each string, array, array element, nested structure and variant entry it holds exactly once and nothing else. "
     "A copy holds all of the original in memory of its own. Growing an array keeps its elements, initialises the new ones and makes room for all of them; looking up an element that does not exist creates exactly what is missing. A variant that is set owns its value, one that is cleared holds nothing. "
     "What the generated code obtains to call a request or event handler, or to take results apart, is released exactly once, after it was used, and whatever is handed to a handler is not released before it returns.",
     ["inputs", "programs", "histories"], "all contents, lengths and variant entries, for every kind of member, parameter and result the description language has (a corpus of descriptions, generated anew on every run)",
     TESTS + "leaks, shared memory between copies and truncated copies are not looked for, and most kinds of members do not occur.",
     ["generator/languages/langc.py"],
     [("structure functions", "langc.py: write_structure_functionality, write_structure_member_functions"), ("deserializers", "langc.py: struct deserializers"), ("handlers and results", "langc.py: write_deserializer_destroy_members, result functions")],
     technique="specification-driven ownership analysis of the generated code, inductive over its loops",
     note=BASE + "The generated code is regenerated from /repo on every run and analysed, not run. What happens when memory is exhausted is not decided; loops are expected to run upwards; setting a variant that already holds something requires clearing it first, as documented by its interface.")

prop("C27", "Every call a client makes is eventually answered or fails",
     "When the peer keeps running and the transport keeps delivering, every invocation that was sent is completed after finitely many steps of both sides, whatever the order in which threads, workers and sockets make progress.",
     ["schedules", "histories"], "all fair schedules of clients, workers and transports",
     TESTS + "that a call returns there says nothing of other schedules.",
     ["runtime/client.c", "runtime/server.c", "runtime/dispatch_generic.c"],
     [("completion", "gracht_client_await_multiple, gracht_client_wait_message, worker_dowork")],
     na="Liveness over all fair schedules of two processes depends on ranking arguments over runtime quantities (queue contents, socket state, the application's handlers) that no sound static argument in reach bounds. The safety half is claimed: no lost wakeups (C04), no self-deadlock (C03), every received message handled once (C12), every error ends exactly its call (C13), no unasked waiting (C26).")

prop("C28", "Clients without a connection are never taken for one another",
     "Two clients of a packet link with different addresses are never given the same identity, so that a response, an event or a subscription of one never reaches the other.",
     ["inputs"], "all pairs of peer addresses",
     TESTS + "only a few addresses ever occur.",
     ["runtime/link/socket/server.c", "runtime/crc.c"],
     [("identity", "socket_link_recv_packet: crc32 of the peer's address")],
     na="The identity is a checksum of the address; whether two addresses collide depends on their runtime values, and for 32 bits collisions exist by counting. What the code does with an identity once computed is claimed in C07, C14 and C17.")

prop("C29", "The memory an instance uses is bounded under every load",
     "However many messages arrive and however slowly the application handles them, the library uses no more memory than its configuration provides for.",
     ["inputs", "histories"], "all arrival and handling rates",
     TESTS + "the load is that of a few sequential calls.",
     ["runtime/server.c", "runtime/arena.c", "runtime/stack.c", "runtime/hashtable.c"],
     [("receive buffers", "gracht_arena_allocate"), ("send buffers", "gracht_server_get_buffer"), ("tables", "gr_hashtable_set")],
     na="Buffers of outgoing messages are allocated on demand and tables grow with the number of clients and pending calls, which are runtime quantities the code does not bound. The fixed receive memory and its recovery are claimed in C12 and C20, the absence of leaks in C11 and C16.")
