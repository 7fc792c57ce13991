#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only so that the long texts stay readable)."""
import json, os
H="src/handlers/broker_handler.cpp"; HH="src/handlers/broker_handler.h"
SQ="src/queuing/single_queue_manager.h"; MQ="src/queuing/multi_queue_manager.cpp"
W="src/worker.cpp"; WH="src/worker.h"; RG="src/worker_registry.cpp"
R="src/reactor/reactor.cpp"; RS="src/reactor/router_socket_wrapper.cpp"; SB="src/reactor/socket_wrapper_base.cpp"
CH="src/reactor/command_holder.cpp"; MC="src/reactor/message_container.cpp"
N="src/notifier/reactor_status_notifier.cpp"; SN="src/handlers/status_notifier_handler.cpp"; CU="src/helpers/curl.cpp"
CF="src/config/broker_config.cpp"; BC="src/broker_connect.cpp"; CO="src/broker_core.cpp"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))
p("C01","Every eval request is acknowledged and then answered exactly once",
 "For every 'eval' message from a client the broker first sends exactly one 'ack' to that client; if the message has a job id and a header list closed by an empty frame, it then sends that same client exactly one further reply, 'accept' or 'reject' with a reason. A message that ends before the header list is closed gets the 'ack' only, and then the broker sends nothing else and changes no state.",
 ["inputs","histories"],"all frame lists (any number and content of headers), all worker populations, frozen or not",
 "Tests send four fixed eval messages; the reply protocol must hold on every path through the header loop, the freeze check and the queue outcome.",
 [H],[("eval command",H+": process_client_eval")],obs=["messages passed to the response callback for clients"])
p("C02","Accepted means taken over; rejected means nobody will ever run the job",
 "A client is told 'accept' exactly when the queue took the job over (it is queued or assigned to a worker), and 'reject' exactly when the broker kept nothing of it: a rejected job is not offered to, kept by or sent to anything. If taking the job over put it on an idle worker at once, the job is sent to that very worker.",
 ["inputs","histories"],"all eval messages, all outcomes of the queue manager (assigned, queued, refused), frozen or not",
 "Tests sample two worker populations; whether the reply and the fate of the job agree must hold for each path and both queue managers.",
 [H,SQ,MQ],[("reply after enqueue",H+": process_client_eval"),("enqueue_request",SQ+", "+MQ)],obs=["client replies","messages to workers","queue manager contents"])
p("C03","Queue managers never lose, duplicate or invent a job",
 "Across every operation of both queue managers each accepted job is in exactly one place: waiting, being some worker's current job, or gone from the manager because that very operation declared it finished or handed it back (cancelled, orphaned). No operation drops a job, keeps one twice, or produces one that was not given to it, and the reported number of waiting jobs is the number actually waiting.",
 ["histories","inputs"],"all states of the managers reachable by any history of operations, all requests and workers",
 "Tests execute about ten fixed histories with at most two workers and three jobs; conservation has to hold from every state.",
 [SQ,MQ],[("job containers",SQ+": jobs_, worker_jobs_"),("job containers",MQ+": queues_, current_requests_")],obs=["return values and observers of queue_manager_interface"])
p("C04","Jobs go only to workers that satisfy their headers; refusal iff none does",
 "In both queue managers a job is placed on (assigned to, or queued for) a worker only if that worker is registered and satisfies all of the job's headers. A job is refused exactly when no registered worker satisfies them, and when a worker goes away, the shared queue keeps waiting exactly those jobs that some remaining worker satisfies and hands the others back.",
 ["inputs","histories"],"all worker sets, header sets and queue states",
 "Tests use one or two headers and two workers.",
 [SQ,MQ],[("selection and assignability test",SQ+": first_idle_worker_selector, is_request_assignable, assign_request"),("worker scan",MQ+": enqueue_request")],obs=["enqueue_result, returned requests"])
p("C05","Header matching semantics",
 "A worker satisfies a set of job headers iff it satisfies each of them, and a header iff one of the worker's headers of the same name accepts the value: 'threads' accepts numbers not above the worker's own, 'hwgroup' accepts a '|'-separated list one item of which equals the worker's group, any other header accepts exactly its own value. A 'threads' value that is not a number satisfies nothing.",
 ["inputs"],"all header names and values, all worker header sets",
 "Tests check a dozen concrete values.",
 [W,WH],[("matchers",W+": header_matcher, multiple_string_matcher, count_matcher"),("check_headers",W)],obs=["worker::check_header(s)"])
p("C06","A worker gets exactly the jobs assigned to it, one at a time",
 "Every assignment of a job to a worker is followed by exactly one message carrying that job to that worker, and no job is sent to a worker without having been assigned to it in the same step. A worker that has a current job is never assigned another before that one is finished, cancelled or orphaned.",
 ["histories","inputs"],"all messages and timer ticks, all manager states",
 "Tests compare the messages of about twenty fixed scenarios.",
 [H,SQ,MQ],[("send_request",H),("assignment",SQ+", "+MQ)],obs=["messages to workers"])
p("C07","Only a matching 'done' from a known worker has any effect",
 "A 'done' message changes jobs, statistics or anything visible to frontend, monitor and workers only if it comes from a registered worker, carries a job id and a status (and a message where the status requires one), and its job id equals that of the job the worker is currently processing. In every other case (unknown worker, no current job, other job id, too few frames, unknown status) nothing is sent and no job moves.",
 ["inputs","histories"],"all done messages and all states of the sender",
 "Tests cover one mismatched id.",
 [H],[("done command",H+": process_worker_done")],obs=["messages to all peers","queue manager operations"])
p("C08","Job outcome is reported to the frontend exactly once with the right status",
 "A matching 'done' reports to the frontend exactly once: OK for status OK, FAILED with the worker's message for status FAILED. For INTERNAL_ERROR nothing is reported as long as the job is retried, and when it is not retried because of its failure count or because its data are unknown, exactly one FAILED notification carrying the worker's message is sent for that job.",
 ["inputs","histories"],"all statuses, failure counts, completeness of the request, queue outcomes",
 "Tests sample one message of each kind.",
 [H,N],[("status dispatch",H+": process_worker_done, check_failure_count"),("notifier",N)],obs=["messages to the status notifier"])
p("C09","Retries are bounded by the configured number of failures",
 "Each failed attempt (INTERNAL_ERROR or the death of the worker processing it) raises the failure count of exactly that job by one, and a job whose count has reached the configured maximum is never put back into the queue or sent to a worker again but reported as failed. A job below the maximum whose data are known is put back, so that it is retried.",
 ["histories","configurations"],"all failure histories, all configured maxima",
 "Tests use maxima 1, 10 and 9999 with one failure.",
 [H],[("failure count check",H+": check_failure_count, reassign_request")],state=[("failure_count","failed attempts","src/worker.h")],obs=["queue manager operations","frontend notifications"])
p("C10","Liveness: reset by every message, lowered once per silent interval",
 "Any non-empty message from a known worker restores its liveness to the configured maximum and restarts its silence timer, and a newly registered worker starts the same way. A timer tick adds the elapsed time to the silence of every registered worker; when it exceeds the ping interval the liveness drops by one and the timer restarts, and the worker is expired exactly when its liveness has reached zero, which no wrap-around can prevent.",
 ["histories","schedules"],"all interleavings of messages and ticks, all elapsed times",
 "Tests tick once with liveness preset to one.",
 [H],[("on_request, process_timer",H)],state=[("liveness","missed intervals left","src/worker.h"),("worker_timers_","silence so far",HH)],obs=["worker::liveness","expiry"])
p("C11","An expired worker disappears and each of its jobs is reassigned or reported",
 "When a worker expires it is removed from the registry, the queue manager and the liveness bookkeeping. Every job it held (current or queued) is then either put back and, if thereby assigned, sent to its new worker, or reported to the frontend as failed exactly once; none is dropped silently.",
 ["histories","fault_sequences"],"all numbers and kinds of held jobs, several workers expiring in one tick",
 "Tests let one worker with at most two jobs expire.",
 [H,SQ,MQ],[("expiry",H+": process_timer"),("worker_terminated",SQ+", "+MQ)],obs=["frontend notifications, messages to workers"])
p("C12","Ping is answered: pong to known workers, intro to unknown ones",
 "Every 'ping' gets exactly one reply to its sender: 'pong' if that identity is registered, 'intro' otherwise. It has no other visible effect on jobs or peers.",
 ["inputs","histories"],"all identities and registries","Tests ping once known, once unknown.",
 [H],[("ping command",H+": process_worker_ping")],obs=["messages to workers"])
p("C13","Progress messages are relayed verbatim",
 "Every 'progress' message is relayed to the monitor exactly once with all frames after the command, unchanged and in order, and has no effect on jobs, workers or the frontend.",
 ["inputs"],"all frame lists","One fixed message is tested.",[H],[("progress command",H+": process_worker_progress")],obs=["messages to the monitor"])
p("C14","A frozen broker takes no new jobs and loses none",
 "While frozen (after 'freeze' until 'unfreeze') every complete eval request is rejected and never reaches a queue or worker; processing of workers' messages and timers is unaffected. 'freeze' and 'unfreeze' are each acknowledged to their sender exactly once and change nothing but this state.",
 ["histories"],"all histories of freeze/unfreeze/eval","One freeze scenario is tested.",
 [H],[("is_frozen_",HH)],state=[("is_frozen_","frozen state",HH)],obs=["client replies","queue manager operations"])
p("C15","Runtime statistics tell the truth",
 "'get-runtime-stats' is answered to its sender exactly once with name/value pairs including queued-jobs, evaluated-jobs, failed-jobs, worker-count, idle-worker-count and is-frozen. Evaluated counts each job finished with OK exactly once, failed each FAILED or INTERNAL_ERROR outcome exactly once, and each tick sets queued, worker, idle and in-progress counts to the actual numbers (workers = idle + in progress).",
 ["histories"],"all histories","Tests read the initial values.",
 [H],[("runtime_stats_",H)],obs=["reply to get-runtime-stats"])
p("C16","No message from the network can crash the broker",
 "No message, whatever its origin, number or content of frames and the state it meets, makes message handling throw, dereference an absent object, read outside a container or a string, or wrap an unsigned counter below zero.",
 ["inputs","histories"],"all byte strings in all frames, all frame counts, all states",
 "Tests send well-formed messages; a single short message kills the process.",
 [H,W,R,RS],[("guards",H),("numeric headers",W)],obs=["absence of exceptions and undefined behaviour"])
p("C17","Job payload reaches the worker unchanged",
 "A job message sent to a worker is exactly 'eval', the client's job id and the frames that followed the empty header terminator, unchanged and in order, on the first and on every later attempt. Headers named 'meta.*' never restrict the choice of the worker; every other header does, with its name and value split at the first '='.",
 ["inputs","histories"],"all frame lists","One message with two payload frames is tested.",
 [H,WH],[("parsing",H+": process_client_eval"),("job_request_data",WH)],obs=["messages to workers","headers given to matching"])
p("C18","Reactor routing",
 "A message for a key that has a socket goes to exactly that socket; any other message goes once to every handler subscribed to its key and to no other. A message received from a socket carries that socket's key and goes to the handlers of that key; what a handler sends back is routed by its own key, for synchronous and asynchronous handlers alike.",
 ["inputs","configurations"],"all sets of sockets and handlers, all messages","Tests use one or two handlers and mocked sockets.",
 [R],[("send_message, process_message, start_loop",R)],obs=["socket and handler calls"])
p("C19","Multipart framing is exact on every socket",
 "Every message is written to its socket as one properly terminated multipart message: the addressing frames and then exactly its data frames in order and with their exact bytes (embedded zero bytes included), all but the last marked as followed by more; with no data frames it is refused with nothing written, or properly terminated all the same. Reading reassembles identity and data frames the same way, and a failed send or receive is reported as failure and never handled as a message.",
 ["inputs","fault_sequences"],"all frame counts and contents, all points of failure","Tests use two or three short text frames.",
 [RS,R],[("send_message, receive_message",RS),("async wrappers",R)],obs=["ZeroMQ calls"])
p("C20","Broker state is confined to one thread; the main loop never waits for HTTP",
 "Handlers registered as synchronous, and all broker state, are only touched by the thread running the main loop; another thread only talks to it through its own socket. The main loop blocks nowhere but in polling its sockets, with a finite timeout of at most one second; in particular it never performs HTTP requests, sleeps or waits for another thread while it runs. A termination request may come from any thread and touches nothing but the termination flag.",
 ["schedules"],"all interleavings of the handler threads and the main loop","Data races and stalls appear only under particular schedules.",
 [R,CO,SN],[("asynchronous_handler_wrapper",R),("handler registration",BC)],obs=["call graph from each thread's entry point"])
p("C21","Status notifications are delivered to the frontend with bounded retries",
 "Each notification (job done, job failed, job rejected, generic error) leads to a POST to the configured address followed by '/type' and '/id' where given, with all remaining pairs as correctly encoded parameters and with the configured port and credentials. It is attempted until the first success and given up only after four failed attempts; the pauses between the attempts are one, two and four seconds. A failure never escapes as an exception.",
 ["inputs","fault_sequences"],"all notification contents, all failure sequences","The notifier has no tests.",
 [SN,CU],[("retry loop",SN),("query encoding",CU)],obs=["HTTP requests and pauses"])
p("C22","Configuration values reach the settings they name; bad files are errors",
 "Every documented configuration item, if present, sets exactly the setting it names, and absent items leave the default (shared queue 'single'; clients and workers at '*' port 0, monitor at 127.0.0.1 port 7894; liveness 4, ping interval 1000 ms, 3 failures; no notifier address, port or credentials; debug log /var/log/recodex/broker, 1 MiB, 3 files). A document that is not a mapping, or a value that cannot be converted to the type of its setting, is reported as a configuration error; a section that is not a mapping or an item that is not a scalar counts as absent.",
 ["configurations","inputs"],"all combinations of present, absent and malformed items","One complete and one default configuration are tested.",
 [CF,"src/config/broker_config.h","src/config/notifier_config.h"],[("constructor",CF)],obs=["getters of broker_config"])
p("C23","Termination ends the loop and every handler thread",
 "A termination request, whenever made, ends the main loop after the iteration in progress; all handlers are then destroyed, each asynchronous one being told to terminate before its thread is joined. A handler thread runs until it is told so and then ends without handling anything else.",
 ["schedules"],"all moments of the request, all numbers of asynchronous handlers","Tests terminate from one thread after a delay.",
 [R,"src/reactor/reactor.h"],[("terminate, start_loop, ~asynchronous_handler_wrapper",R)],obs=["return of start_loop, threads joined"])
p("C24","First come, first served",
 "Among the waiting jobs a worker may process, the one accepted first is given to it first, in both queue managers, however many jobs arrive and however close together; jobs it may not process are skipped without losing their place.",
 ["histories","inputs"],"all queue contents and arrival patterns","Tests queue two or three jobs.",
 [SQ,MQ],[("fcfs ordering",SQ+": assign_request"),("per-worker FIFO",MQ)],obs=["order in which jobs are returned"])
p("C25","The per-worker queue manager rotates among matching workers",
 "With per-worker queues a new job goes to the least recently chosen registered worker that satisfies its headers, and that worker then becomes the most recently chosen one. Newly added workers come first, and the order of the others is unaffected.",
 ["histories"],"all worker orders and histories","Tests see at most two workers.",
 [MQ],[("worker_queue_",MQ+": enqueue_request, add_worker")],obs=["assigned_to / queues"])
p("C26","No worker idles while a job it may take is waiting for it",
 "Whenever a worker registers or loses its current job (finished, failed, cancelled by an internal error) and stays registered, it is given a waiting job it may take, if there is one, in that same step. A new job that an idle registered worker satisfies is assigned at once under the shared queue.",
 ["histories"],"all queue states","Tests cover one waiting job after OK and FAILED.",
 [H,SQ,MQ],[("next job after done",H+": process_worker_done"),("assign on add",SQ)],obs=["messages to workers"])
p("C27","Worker registration",
 "An 'init' with a hardware group from an unknown identity registers exactly one worker under that identity with the given group and headers (those before the first empty frame), its description and the job it says it is processing, with registry, queue manager and liveness bookkeeping in step. At most one worker is ever registered per identity; a repeated init with the same headers changes nothing, one with different headers is reported to the frontend as an error, and one without a hardware group does nothing.",
 ["inputs","histories"],"all init messages and registries","Five fixed init messages are tested.",
 [H,RG],[("init command",H+": process_worker_init"),("registry",RG)],obs=["registry contents","queue manager operations"])
p("C28","Elapsed time is neither lost nor counted twice",
 "The elapsed milliseconds announced to timer subscribers over any run of the loop add up to the monotonic time that passed since the loop was entered, up to the last fraction of a millisecond, however long handlers take and however short the polls are. Every iteration announces it exactly once.",
 ["schedules","histories"],"all poll durations and handler durations","Tests use no clock.",
 [R],[("start_loop",R)],obs=["timer messages"])
p("C29","Commands are dispatched by exact name and origin; others are ignored",
 "A message's first frame selects the command by exact match among those of its origin: eval, freeze, unfreeze, get-runtime-stats for clients; init, done, ping, progress for workers. Any other command, a command from the other kind of peer, or an unknown origin has no effect but the liveness refresh, and each matching message is handled exactly once.",
 ["inputs"],"all command strings and origins","Tests use valid commands.",
 [H,CH],[("command tables",H),("call_function",CH)],obs=["effects of on_request"])
p("C30","Monitor is told about jobs that fail or are moved by the broker",
 "Whenever a job (new or to be retried) is refused by the queue, has failed too often, or is lost with a dead worker because its data are unknown, the monitor gets exactly one message with that job's id and FAILED; whenever a dead worker's job is put back it gets exactly one with ABORTED. In no other case does the broker itself send either of them.",
 ["histories","inputs"],"all job fates","Tests sample four fates.",
 [H],[("notify_monitor",H)],obs=["messages to the monitor"])
p("C31","Startup wiring matches the configuration",
 "ROUTER sockets of clients and workers are bound, and that of the monitor connected, at tcp://address:port as configured, under the keys handlers use; the broker handler subscribes clients, workers and the timer synchronously and the status notifier its own key asynchronously. The queue manager is the configured one ('multi': per-worker queues, 'single': shared queue). The configuration file is the one given by --config, else config.yml; an unreadable or invalid file, invalid options or an unknown queue manager end the program with a failure status and nothing started.",
 ["configurations"],"all configurations","Startup code is not tested.",
 [BC,CO,SB],[("broker_connect constructor",BC),("broker_init",CO)],obs=["socket and handler registration"])
p("C32","HTTP requests are authenticated, verified and their failures reported",
 "Every HTTP request verifies the server's certificate and host name, treats HTTP error statuses as failures, and sends basic credentials exactly when a user name or password is configured. Any failure, including one to set the request up, is raised as an exception and never looks like success; nothing is left allocated.",
 ["inputs","fault_sequences"],"all URLs, parameters, credentials and failure points","No HTTP tests exist.",
 [CU],[("curl_get, curl_post",CU)],obs=["libcurl calls"])
p("C33","Accepted jobs are eventually evaluated",
 "As long as matching workers keep responding, every accepted job is eventually sent to a worker and its outcome reported within bounded real time.",
 ["schedules","histories"],"all fair schedules of broker, workers and network","Liveness over unbounded histories with network timing.",
 [H,R],[("the whole broker",H)],obs=["frontend notifications"])
p("C34","The frontend really receives each notification",
 "Every status notification handed over by the main loop is eventually received by the frontend unless the frontend is unreachable for all retries, also around startup and shutdown.",
 ["schedules","fault_sequences"],"all thread schedules at startup and shutdown, network faults","Depends on ZeroMQ connection timing and the remote server.",
 [R,SN],[("asynchronous handler socket",R)],obs=["HTTP requests at the frontend"])
p("C35","The log is written where, and with what, the configuration says",
 "The broker logs to the configured file (base name in the configured directory; without a directory, in the current one), rotated at the configured size with the configured number of files kept, at the configured level: off, critical, err, warn, info and debug select those levels, any other name logs everything. A missing directory is created with its parents; if the log cannot be set up, the program ends with a failure status and nothing is started.",
 ["configurations","fault_sequences"],"all logging configurations and failures of the file system","Startup code is not tested.",
 [CO,"src/helpers/logger.cpp"],[("log_init",CO),("get_log_level","src/helpers/logger.cpp")],obs=["the log file","exit status"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
