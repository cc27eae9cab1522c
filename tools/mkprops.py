"""Writes properties.jsonl (kept in one place so that text stays reviewable)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "The persistent queue is a FIFO map keyed by span key, across restarts",
 "For every history of queue operations (push, pop, pop by key, inspect by key, first-keys listing, size, emptiness, clear) interleaved with clean shut-downs and re-opens, possibly with a different page size, the queue returns exactly what a plain in-memory FIFO with unique keys would return: same objects, same order, same sizes. An operation that fails because the disk reports an error raises that error, removes, reorders or duplicates nothing, and the queue behaves as the model again once the disk works.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "all operation sequences, page sizes, payloads, restart points and disk-error positions",
 "The unit tests run one fixed push/pop script per page layout and never compare order after re-opening with entries in all three places (front page, database, back page), never change the page size and never fail the disk.",
 ["ekosis/queues/paginated_queue.py"],
 [("three-part queue: front page in RAM, middle in SQLite, back page in RAM", "PaginatedQueue.push/pop"), ("negative/positive record ids keep order on shut down", "PaginatedQueue.shut_down"), ("unique span key", "PaginatedQueue.push")],
 ["return values of the queue API"])

prop("C02", "A crash loses at most the two RAM pages of a queue, and nothing else",
 "If the process is killed, or the machine loses power, at any instant, then after restart each queue loses at most two pages of acknowledged messages plus the one message in flight, and every surviving message is delivered with its original content and in its original order. No message whose processing had completed before the crash is processed again, and the queue files always open again.",
 ["crash_points", "schedules", "histories", "fault_sequences"],
 "all crash instants (between any two lines of the application and at any disk write, with lost and torn unsynced writes), all backlog shapes and page sizes, repeated crashes",
 "No existing test kills a process; durability after kill -9 or power loss depends on where in a SQLite write the crash lands.",
 ["ekosis/queues/paginated_queue.py", "ekosis/queues/pending_queue.py", "ekosis/requests/buffered_handler_base.py"],
 [("full back page written in one transaction", "PaginatedQueue.__write_back_page"), ("loaded page deleted in one transaction", "PaginatedQueue.__load_front_page")],
 ["acknowledgements on the wire", "handler invocations after restart"])

prop("C03", "Graceful termination never loses an acknowledged or enqueued message",
 "Whenever an application is ended by SIGTERM, SIGINT or SIGHUP, or by an exception that ends it, at any instant, every buffered request it had acknowledged and every message handed to a buffered sender is, after the next start, either already completed or still in its pending or error queue, with retry count and content intact. The application does terminate within a bounded time of the signal, and trouble in saving one queue does not cost the messages of another.",
 ["schedules", "crash_points", "histories", "fault_sequences"],
 "all instants of signal delivery relative to receive, push, handler, retry, send and shut-down steps, all page sizes, any number of queues, disk errors on one queue during shut-down",
 "Tests stop their applications only when they are idle and never restart them on the same queue files.",
 ["ekosis/application_base.py", "ekosis/requests/buffered_handler_base.py", "ekosis/sending/buffered_sender_base.py", "ekosis/queues/pending_queue.py", "ekosis/queues/paginated_queue.py"],
 [("context-manager shut-down saves all queues", "ApplicationBase.__exit__/__do_shutdown"), ("signal handlers", "ApplicationBase.__setup_signal_handlers")],
 ["acknowledgements on the wire", "handler invocations and queue contents after restart"])

prop("C04", "Every accepted buffered request is processed to success or parked as an error",
 "Each request acknowledged by a buffered endpoint is handed to its handler until one attempt succeeds, or until the configured number of failed attempts (at least one) is used up, after which it is in the error queue and is not attempted again unless it is reprocessed; an attempt that raises counts as a failed attempt. Attempts on one queue never overlap, first attempts start in the order of acknowledgement, and no outcome of one message keeps the others from being processed.",
 ["schedules", "histories", "configurations"],
 "all interleavings of requests, handler durations and outcomes (success, failure, exception), page sizes and retry limits, several queues, several connections",
 "The tests send a handful of requests to an otherwise idle queue; nothing checks overlap, order, the exact attempt count, or handlers that raise.",
 ["ekosis/requests/buffered_handler_base.py", "ekosis/requests/buffered_handler.py", "ekosis/queues/pending_queue.py"],
 [("single processing task per queue", "BufferedRequestHandlerBase.__check_process_queue"), ("retry / error decision", "BufferedRequestHandlerBase.__do_queue_processing")],
 ["handler invocations", "management endpoint responses"])

prop("C05", "A buffered sender delivers, keeps or parks every message it was given",
 "Every message handed to a buffered sender is delivered to the server, or remains in its pending queue, or ends in its error queue; it never disappears, and first sends happen in the order given. Only a busy server or exhausted communication retries lead to another send, a bounded and exact number of times; every other failure parks the message at once, and a message whose acceptance the server has confirmed to the sender is not sent again.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "all interleavings of enqueueing, sending, server pauses, connection refusals, resets, stalls, partitions, server crashes and restarts, page sizes, retry limits and wait periods",
 "The tests use a healthy local server; failures of the peer at each protocol step are never produced.",
 ["ekosis/sending/buffered_sender_base.py", "ekosis/sending/buffered_sender.py", "ekosis/queues/pending_queue.py", "ekosis/clients/client_base.py"],
 [("send loop with retry/park decision", "BufferedSenderBase.__do_queue_processing")],
 ["requests seen by the server", "management endpoint responses"])

prop("C06", "A client call only ever returns the response to its own request",
 "Whatever is delayed, lost, duplicated, reset or timed out, and however many calls share one client object, a call on any of the five clients that returns a result returns the server's answer to exactly that request, and a call that raises a server-reported error raises the error reported for that request. Late answers to calls that were given up are never handed to another call.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of concurrent calls and heartbeats on a shared client, server delays around the time-out, message loss/duplication/reordering (UDP), resets and reconnects",
 "Tests use one call at a time against a server that answers at once.",
 ["ekosis/clients/client_base.py", "ekosis/clients/stream_client_base.py", "ekosis/clients/persistent_stream_client_base.py", "ekosis/clients/datagram_client_base.py"],
 [("connection ownership and request/response pairing", "ekosis/clients/*"), ("span key echoed in every response", "ServerBase._route_request")],
 ["values returned by and exceptions raised from client calls"])

prop("C07", "Client calls end in bounded time, with documented errors, and recover",
 "Every client call ends within the time its timeout, retry count and retry delay allow, either with a result or with one of the library's documented exceptions, and never hangs or fails with an internal error. It makes at most the configured number of attempts, tries again after a time-out or reset until they are used up, and leaves no connection open that it will not use again. Once the network and the server are healthy again the next calls on the same client object succeed without the application doing anything, heartbeats included.",
 ["schedules", "fault_sequences", "configurations", "histories"],
 "all fault sequences (refused, reset, stall, partition, half-open connection, loss, server crash and restart) at any step of a call, for all clients, retry counts, time-outs and heartbeat periods, with concurrent calls",
 "No test takes the server away from a client or lets a call time out.",
 ["ekosis/clients/stream_client_base.py", "ekosis/clients/persistent_stream_client_base.py", "ekosis/clients/datagram_client_base.py", "ekosis/clients/client_base.py"],
 [("retry loops", "_send_message_retry_loop"), ("reconnect", "PersistentStreamClientBase"), ("heartbeat", "PersistentStreamClientBase.__heartbeat_check")],
 ["duration and outcome of client calls", "connections and requests seen by the server"])

prop("C08", "Every complete request gets exactly one correct response, in order",
 "For every byte stream a TCP or Unix-socket peer sends, in any segmentation, and every datagram a UDP peer sends, the server answers each complete line exactly once, on the connection it came from and in order, carrying the request's span key and the status its kind calls for (success, parse error, validation error, unknown route, processing failure, unhandled exception), and answers a heartbeat with an acknowledgement. Each routed request passes every installed middleware once, in registration order, before and after its handler. No input, disconnect or handler failure of one peer delays, alters or drops the responses of another, or stops the server.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "all byte sequences below the line-length limit (datagrams end in a line feed), segmentations, pipelining depths, disconnect points, handler outcomes and durations, and numbers of peers on the three transports",
 "The tests send well-formed requests one at a time through the library's own clients.",
 ["ekosis/servers/server_base.py", "ekosis/servers/stream_server_base.py", "ekosis/servers/json/tcp.py", "ekosis/servers/json/uds.py", "ekosis/servers/json/udp.py", "ekosis/requests/request_router.py"],
 [("read-route-write loop per connection", "StreamServerBase._handle_request"), ("exception to status mapping", "ServerBase._route_request")],
 ["bytes on the wire"])

prop("C09", "Pausing a queue stops exactly what it says, until it is unpaused",
 "While receiving is paused on a buffered endpoint, requests to it are refused as busy and none is queued; while processing (or sending) is paused, no new attempt starts, though messages keep being accepted and at most the attempt already running finishes. Nothing but an unpause or a restart changes a pause (not error-queue management, traffic or failures), the reported pause state is the effective one, other queues are unaffected, and after an unpause everything pending is worked off without further stimulus.",
 ["schedules", "histories", "configurations"],
 "all interleavings of pause and unpause operations with requests, running attempts, retries and error-queue operations, on several queues",
 "Tests pause an idle queue and look only at the reported flags.",
 ["ekosis/requests/buffered_handler_base.py", "ekosis/sending/buffered_sender_base.py", "ekosis/state_keepers/buffered_handler_keeper.py", "ekosis/state_keepers/buffered_sender_keeper.py", "ekosis/standard_endpoints/buffered_handler_manager.py", "ekosis/standard_endpoints/buffered_sender_manager.py"],
 [("pause flags tested before each attempt", "__do_queue_processing"), ("unpause restarts the processing task", "unpause_processing / unpause_send_process")],
 ["handler invocations", "response statuses", "management endpoint responses"])

prop("C10", "Queue management operations act exactly on the queue they name",
 "At any moment, also while messages are arriving and being processed, the management endpoints (data, first ten, inspect, pop, clear, reprocess one, reprocess all) report and change the pending and error queues exactly as a model of two ordered maps per queue would: an inspected or popped request is returned with the content it was sent with, an unknown key or queue is reported as such and changes nothing, and a reprocessed request goes back to pending with a fresh retry budget, exactly once.",
 ["histories", "schedules", "configurations"],
 "all sequences of management operations interleaved with traffic, retries and failures, on endpoint and sender queues, for all page sizes and error-queue lengths",
 "Tests call each operation once on a queue with one entry.",
 ["ekosis/standard_endpoints/buffered_handler_manager.py", "ekosis/standard_endpoints/buffered_sender_manager.py", "ekosis/state_keepers/buffered_handler_keeper.py", "ekosis/state_keepers/buffered_sender_keeper.py", "ekosis/queues/pending_queue.py", "ekosis/queues/paginated_queue.py"],
 [("error queue operations", "PendingQueue.*"), ("route key lookup", "BufferedHandlerKeeper / BufferedSenderKeeper")],
 ["management endpoint responses", "handler invocations"])

prop("C11", "Content, span key and middleware metadata reach every attempt unchanged",
 "Every attempt at a buffered request, also after retries, error-queue round trips, graceful restarts and page writes, receives exactly the content and span key of the request that was acknowledged, and the buffered middleware sees exactly the metadata collected when it was pushed together with the number of failed attempts so far. Middleware hooks run once per attempt, in registration order, before and after it, and are told the attempt's outcome.",
 ["histories", "schedules", "configurations", "inputs"],
 "all payloads, metadata, middleware combinations, retry/error/reprocess/restart histories and concurrent requests",
 "The middleware unit tests call the hooks directly with one message and no restart.",
 ["ekosis/middleware/buffered_middleware_manager.py", "ekosis/requests/buffered_handler_base.py", "ekosis/queues/pending_queue.py", "ekosis/queues/paginated_queue.py"],
 [("metadata stored with the entry", "PendingQueue.push_pending/push_error/move_*"), ("hook order", "BufferedMiddlewareManager")],
 ["handler and middleware invocations"])

prop("C12", "Statistics count every request once and report queue sizes truthfully",
 "For every schedule of requests and gathering periods, each successfully answered request is counted in exactly one period: a gathered period holds exactly the calls answered since the previous one, the current statistics hold those since the last gathering, and reading statistics never changes a count. Custom counters follow the same periods. The history is newest first and never longer than configured, latency percentiles lie between the shortest and the longest call of that period, and reported queue sizes are the actual sizes; trouble reading them never ends the application.",
 ["schedules", "histories", "configurations"],
 "all interleavings of requests of all durations with gathering and reading, all gathering periods and history lengths, clock jumps included",
 "The tests read the statistics once after one request.",
 ["ekosis/state_keepers/statistics_keeper.py", "ekosis/standard_endpoints/statistics.py", "ekosis/servers/server_base.py"],
 [("gather, copy, reset", "StatisticsKeeper.gather_statistics"), ("count on success", "ServerBase._route_request")],
 ["statistics endpoint responses"])

prop("C13", "Each log record is written once, in order, with the ids of its own request",
 "Every record logged by the application appears in its log files exactly once, as one complete JSON line, in the order logged, with its message, time and severity and with the trace and span id of the request whose handling logged it, and of no other; outside a request it has none. This holds for every log buffer size, for changes of level or buffer size at run time, and across size-based rotation, and when the application ends (also by a signal) nothing buffered is lost; a record is logged exactly if it is at or above the level in force.",
 ["schedules", "histories", "configurations"],
 "all interleavings of concurrent requests that log, buffer sizes, rotation sizes, level and buffer changes, and shut-down points",
 "The tests read the log endpoints' responses, not the log files, and never log from concurrent requests with a buffer.",
 ["ekosis/logs/buffered_rotating_file_handler.py", "ekosis/logs/otlp_formatter.py", "ekosis/logs/logger.py", "ekosis/requests/request_context.py", "ekosis/servers/server_base.py", "ekosis/requests/buffered_handler_base.py"],
 [("context variable per task", "request_context"), ("buffer flushed at capacity and shut-down", "BufferedRotatingFileHandler.flush")],
 ["log files"])

prop("C14", "The log shipper ships every log line, in order, once unless it crashes",
 "While the shipper runs, every complete line of every watched log file is delivered to the collector with its content, in file order and in exactly one accepted request, whatever the timing of writes, partial lines, rotations, failing or slow collector requests and clean restarts of the shipper. If the shipper is killed, lines may be delivered again after its restart but none is skipped.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "all interleavings of the writer's appends and rotations with the shipper's reads, posts and state saves; all collector failures; all kill points",
 "One ctest covers one rotation with a healthy in-process writer; restart, failing collector and kills are not tested.",
 ["ekosis_log_shipper/src"],
 [("inode tracking and drain of the rotated file", "ekosis_log_shipper/src"), ("position saved after delivery", "ekosis_log_shipper/src")],
 ["requests received by the collector"])

prop("C15", "Nothing in a log directory stops the log shipper",
 "Malformed, empty or over-long lines, files that appear, vanish, shrink or are replaced at any instant, and a collector that rejects, times out or disappears, never end the shipper or keep it from shipping the other lines and files: once the faults stop, every complete well-formed line still present is delivered within a bounded number of polls.",
 ["schedules", "inputs", "fault_sequences"],
 "all file contents and all instants of file and collector faults",
 "No test feeds the shipper a malformed line or removes a file under it.",
 ["ekosis_log_shipper/src"],
 [("poll loop", "ekosis_log_shipper/src/main.cpp")],
 ["requests received by the collector", "exit of the shipper"])

prop("C16", "One running process per application instance, and a crash never locks it out",
 "While an instance of an application is running, every attempt to start the same instance is refused, naming the process that runs, and leaves the running one undisturbed, while other instances and applications start freely. After an instance ends in any way and at any point of its life, including a kill in the middle of starting up, the next start succeeds.",
 ["crash_points", "histories", "schedules"],
 "all sequences of starts, kills at any step of start-up or run, graceful ends and refused starts, over several instances and applications",
 "Tests start each instance once; no stale, empty or foreign lock file is ever present.",
 ["ekosis/application_base.py"],
 [("lock file with process id", "ApplicationBase.__lock_file_check")],
 ["outcome of starting an application"])

prop("C17", "Metrics are isolated per target and a scrape always completes truthfully",
 "Whatever the scraped applications do (refuse, hang, crash, answer late, answer with an error or with odd data), each scrape round ends in bounded time, marks exactly the targets that answered as healthy, publishes each healthy target's own values under the name and instance it reports itself as, and no target's failure changes or withholds another's values. Values published for a target are those it last reported, and once a target recovers the next round publishes it again.",
 ["schedules", "fault_sequences", "histories"],
 "all combinations of target behaviours and their timing over successive scrape rounds",
 "There are no tests of the scraper.",
 ["ekosis_prometheus/ekosis_prometheus"],
 [("per-target scrape with isolation", "ekosis_prometheus/ekosis_prometheus")],
 ["published metrics"])

prop("C18", "Tracing emits one ended span per request and per attempt, correctly parented",
 "With the tracing middleware installed, every successfully answered request produces exactly one finished span carrying its trace and span identity, and every attempt at a buffered request produces exactly one finished span whose parent is the request's own, in the same trace, also across retries, error-queue round trips and restarts. Concurrent requests never exchange, merge or lose spans.",
 ["schedules", "histories"],
 "all interleavings of concurrent requests and attempts, outcomes, retries and restarts",
 "There are no tests of the tracing middleware.",
 ["ekosis_otlp_traces/ekosis_otlp_traces"],
 [("span per request / per attempt keyed by span key", "ekosis_otlp_traces/ekosis_otlp_traces")],
 ["exported spans"])

prop("C21", "A command-line tool does exactly what its command line asks, or fails visibly",
 "Each run of the tools bem, bsm, log and stat sends to the application named on its command line exactly the operation asked for, on exactly the queue and item named, over the transport named, at most three times, and nothing else; a command line that is not usable sends nothing. It exits 0 only if the application answered that operation with success, having printed the answer: the message, the queue data, the request, the statistics or the new value. Refused, unanswered or undeliverable operations end in bounded time with a non-zero exit. Undisturbed, a usable command succeeds with a single request.",
 ["inputs", "schedules", "fault_sequences"],
 "all command lines, over all timings and combinations of network faults, slow, stopped, killed and restarting applications, and concurrent tools",
 "There are no tests of the command-line tools.",
 ["ekosis/cli"],
 [("option to operation mapping", "ekosis/cli/bem.py, ekosis/cli/bsm.py, ekosis/cli/log.py, ekosis/cli/stat.py"), ("what is printed", "ekosis/cli/senders")],
 ["requests on the wire", "standard output", "exit code"])

prop("C22", "Error states count every increment and every clear exactly once",
 "While an application runs, the count of an error state is the number of times it was raised less what was cleared: clearing a number lowers it by that number but never below zero, clearing with count zero sets it to zero, and both affect only the error state named, whose name is not case sensitive. Every answer of eco.error_states.get and eco.error_states.clear lists exactly the states whose count is above zero, each once, with its description and its count at one instant between request and answer, for every interleaving of handlers and clients. A restart begins with no error states.",
 ["schedules", "histories"],
 "all interleavings of increments by concurrent handlers with get and clear requests of several clients, and restarts",
 "Tests call the list and the endpoints one at a time.",
 ["ekosis/state_keepers/error_state_list.py", "ekosis/standard_endpoints/errors.py"],
 [("counters by upper-cased id", "ErrorStateList"), ("management endpoints", "ekosis/standard_endpoints/errors.py")],
 ["responses of eco.error_states.get and eco.error_states.clear"])

prop("C23", "Every request passes the middleware in order, whole and on its own",
 "Every request to a route of the application, standard endpoints included, over every transport, passes the before_routing hooks of the middlewares in the order and as often as they were added, then its endpoint, then the after_routing hooks in that same order. Each is given what the previous one returned, and the request as it left the last before_routing hook is dispatched by its route key and, for a buffered endpoint, is what is queued; what the last after_routing hook returned is the response. When a hook or the endpoint raises, the rest is skipped and only that request is answered with an error, of the status that belongs to the exception. No request sees anything of another, for every interleaving of requests inside hooks, and every request that is answered passed once.",
 ["inputs", "schedules", "fault_sequences"],
 "all chains of middlewares, all interleavings of concurrent requests at their awaits, all exceptions they raise, over duplicated and lost datagrams, reset connections, stalls and restarts",
 "Tests call the manager with one request at a time.",
 ["ekosis/middleware/manager.py", "ekosis/requests/request_router.py", "ekosis/servers/server_base.py"],
 [("chain of hooks", "MiddlewareManager.run_before_routing, run_after_routing"), ("dispatch", "RequestRouter.route_request"), ("status of exceptions", "ServerBase._route_request")],
 ["what hooks and endpoints are given", "responses"])

prop("C19", "Each process runs with the configuration in force when it was started",
 "A process takes each setting from the configuration file it is started with, else from the environment: the value for its instance, else for its application, else for the machine, else the documented default; TCP, UDP and UDS addresses only at instance level. Settings for other instances and applications, and changes made after the start, have no effect on it. It answers at exactly the configured addresses, and its logging (directory, level, size and number of files, buffer), lock file, statistics gathering and the directory of its queues are the configured ones, so that a restarted instance finds its queues again. With a configuration file that is missing, incomplete, not valid or without this instance, or with buffered endpoints and no buffer directory, it does not run.",
 ["inputs", "histories", "crash_points"],
 "all environments and configuration files, changing over time under starts, stops and kills of several instances and applications of one machine, including files that are read while they are written",
 "Tests use one fixed environment.",
 ["ekosis/configuration/config_models.py", "ekosis/application_base.py", "ekosis/logs/logger.py"],
 [("environment lookup order", "get_eco_env"), ("configuration file", "ConfigApplication"), ("use of the settings", "ApplicationBase, EcoLogger, StatisticsKeeper, BufferedHandlerBase")],
 ["addresses that answer", "files written", "statistics responses", "whether the process runs"])

prop("C20", "The LRU cache holds exactly the most recently used entries",
 "For every sequence of operations by the tasks of an application, an LRUCache of capacity n >= 1 holds the entries that were set and neither removed nor evicted since. Setting a new key in a full cache evicts exactly the least recently used entry, and nothing else ever evicts. Setting, get and [] count as use, peek, in and iteration do not. items, keys, values and iteration give every entry once, most recently used first; pop removes the most recently used entry; pop_item, del and clear remove what they name. An operation that fails, such as one with an unhashable key, changes nothing, and the cache keeps no reference to values that are no longer in it.",
 ["histories", "schedules"],
 "all sequences of operations, from all interleavings of tasks, and all capacities",
 "Tests run one fixed sequence on one cache.",
 ["ekosis/cacheing/lru_cache.py"],
 [("ring of items plus dictionary", "LRUCache")],
 ["return values", "contents in order"])

prop("C24", "A span key accompanies a message through every hop between applications",
 "When an endpoint or buffered endpoint calls another application through a sender (decorated function, SenderBase, decorated buffered sender or BufferedSenderClass) and gives a span key, the handler of the called application is given exactly that span key, in every attempt, including those after a queue was restored by a restart or the message was reprocessed from an error queue, and the response to it carries that span key. When none (or None) is given, the message gets a span key of its own, with a trace id and a span id that no other call has, the same in every attempt once it is queued. Concurrent and nested calls over shared or separate clients never exchange keys, contents or responses: each call returns the response to that very call, as the response type the sender was declared with, or raises the exception that stands for its status. Without faults every call is carried out exactly once; with them, a call that returned a response was carried out, and one that was queued is eventually.",
 ["schedules", "histories", "fault_sequences", "crash_points"],
 "all trees of calls over several applications and kinds of senders, endpoints and clients, all interleavings of several such trees, and losses, partitions, resets, stalls, stops, restarts and kills of the applications",
 "Tests call one sender once with a mocked client.",
 ["ekosis/sending/sender.py", "ekosis/sending/sender_base.py", "ekosis/sending/buffered_sender.py", "ekosis/sending/buffered_sender_base.py", "ekosis/clients/client_base.py", "ekosis/requests/buffered_handler_base.py", "ekosis/servers/server_base.py"],
 [("span key of a call", "sender, SenderBase.send_data, ClientBase.send_message"), ("span key of a queued message", "BufferedSenderBase.enqueue, PendingQueue"), ("span key given to a handler", "ServerBase._route_request, BufferedHandlerBase")],
 ["span keys and contents handlers are given", "what calls return", "responses on the wire"])

prop("C25", "An application and its background tasks start, run and end as a whole",
 "The tasks that setup_tasks adds are running before any request (one that was left over in a buffered endpoint's queue included) reaches an endpoint, however long setup_tasks itself waits. The application goes on when a background task completes, and ends (promptly, whatever else is in progress) when one raises an exception of any kind, when setup_tasks raises, when an address it is to listen at is taken, or on TERM, INT or HUP, at any point of its life, start-up included; nothing else ends it, and as long as it runs it answers. It is only gone when its background tasks have been cancelled and are through. However it ends short of being killed, all that its queues had accepted (from requests, tasks, or the clean-up of tasks) is kept, and it can be started again at once and processes it. What a handler leaves to fire_and_forget_task or run_soon is run exactly once, with the arguments given, while the application runs.",
 ["schedules", "histories", "crash_points", "fault_sequences"],
 "all sets of background tasks (endless, completing, raising, pushing messages, with clean-up) and successive starts, all points at which it is told to end or fails, and all interleavings with requests",
 "Tests never run a whole application with background tasks, let alone end it at a chosen point.",
 ["ekosis/application_base.py", "ekosis/util/fire_and_forget_tasks.py", "ekosis/servers/json/tcp.py", "ekosis/servers/json/uds.py", "ekosis/servers/json/udp.py"],
 [("life cycle", "ApplicationBase.start, __run_until_done, __do_shutdown"), ("left to be run", "fire_and_forget_task, run_soon")],
 ["whether the process runs", "responses", "what endpoints and tasks do, and when"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
