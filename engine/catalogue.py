"""Which rules decide which property, and what those rules say."""
import rules_config as c
import rules_handler as h
import rules_handler2 as h2
import rules_http as hp
import rules_log as lo
import rules_manager as m
import rules_net as n
import rules_registry as g
import rules_threads as th
import rules_wiring as wi
import rules_worker as w
from rules_handler import Ctx  # noqa: F401

HANDLER = (
    "Every path of broker_handler::on_request is enumerated by a trace-partitioning abstract interpretation of the "
    "type-checked source (clang AST), one entry per kind of message, with an arbitrary message (symbolic frames, any "
    "number of them), an arbitrary handler state (tables, counters, flags, registry) and loops summarised by a "
    "fixpoint over one generic iteration; the queue manager is replaced by its contract, which the rules for C03, C04, "
    "C06, C24 - C26 establish on both implementations. "
)
ASSUME_H = [
    "the C++ standard library, spdlog and cppzmq behave as documented (their models are in engine/stl.py)",
    "the queue manager satisfies its contract (decided separately on both implementations, C03/C04/C06/C26)",
    "registry entries and stored requests are non-null pointers; memory allocation does not fail",
    "where the analysis meets a construct it has no model for the obligation is listed as undecided, not as violated",
]

# property -> (rules, rule text)
TABLE = {
    "C01": ([h.c01], "Rule: on each path of 'eval' the sends to the client are counted: one ack first; exactly one accept/reject iff the path knows an empty frame at index >= 2; a path that ends before the terminator has no further effect."),
    "C02": ([h.c02], "Rule: on each path of 'eval' accept is sent iff enqueue_request took the job, reject iff it did not (or was never called); an assigned job is sent to the worker enqueue_request named."),
    "C03": ([m.rule("C03")], "Rule: for every operation of both queue managers, run from an arbitrary state in which the collections of workers agree, the change of the queue(s) and of the table of current jobs is computed as a term over the old state; each job that leaves a place is in exactly one other place or returned, the result says what happened, and the count is the size of the queue(s)."),
    "C04": ([m.rule("C04")], "Rule: each placement of a job on a worker happens on a path that established check_headers(worker, job's headers) for an element of the manager's own collections; a refusal (or giving up a waiting job) only after an exhaustive search over the (remaining) workers all of whose iterations established the opposite; after a worker's removal each job kept has a remaining worker established to satisfy it; worker collections change in step."),
    "C05": ([w.c05], "Rule: check_header is true iff, in the run of matchers stored under the header's name, some matcher accepted the value (search loop with exhaustive refusal); check_headers iff check_header holds for every element; the constructor stores for every header one matcher under its own name and one for the group; for each matcher object so stored the paths of its accepting method are compared with the meaning of its kind (equality, '|'-list of items, number not above)."),
    "C18": ([n.c18], "Rule: on every path of send_message with a socket under the key exactly that socket gets exactly that message, on every other path (and always in process_message) a complete loop over the handlers registered under the key calls each once with it; registration stores every origin; the responses of both kinds of handlers end in send_message; in the main loop every socket is initialised and polled, exactly the sockets reported ready are read, and each received message is processed once with the key of the socket polled at that position."),
    "C23": ([n.c23], "Rule: terminate() sets the flag on every path; every continuing iteration of the main loop reads the flag anew and found it unset, it is never reset, the loop ends only when it was found set and all handlers are removed afterwards; the destructor of an asynchronous handler writes [own identity, word] and then joins; the thread's loop returns exactly when it receives that word, without calling the handler; nothing the thread uses is initialised after it started."),
    "C28": ([n.c28], "Rule: every continuing iteration of the main loop processes exactly one timer message; its value x and the variable P holding the clock position satisfy x = floor((now - P)/1ms) and P' = P + x ms as terms, P starting at the clock when the loop is entered; the clock is monotonic."),
    "C19": ([n.c19], "Rule: the frames written on every completed path of each socket wrapper's send, of the call of an asynchronous handler and of its response are the term [addressing frames, data...] with exact bytes; each frame is marked 'more' iff another one follows on that path; a path with a failed send or receive returns false; received messages have each field equal to the frame at its position and reading stops exactly at the frame without 'more'."),
    "C22": ([c.c22], "Rule: the constructor from a YAML document is interpreted with an arbitrary document; values set under conditions become tables of cases over the atoms 'given', 'mapping', 'scalar', 'converts' of the nodes used. For each documented item every case of the getter's value is compared: the converted node of that very item where it is usable, the default where it is not; each path that throws does so with config_error and only because the document is no mapping or a value of a setting does not convert."),
    "C24": ([m.rule("C24")], "Rule: jobs are appended at the back; the job taken is the first one in queue order that suits (earlier iterations established it does not); queue order is arrival order: no reordering, or a stable sort by a strictly ascending comparison of a key read from a monotonic clock at arrival."),
    "C25": ([m.rule("C25")], "Rule: the worker chosen is the first suitable element of the list, afterwards the list is [others in order, chosen]; add puts at the front; nothing else changes the list."),
    "C06": ([h.c06, m.rule("C06")], "Rule: every assignment (enqueue/assign/finished/add returning a job) is followed in the same step by exactly one message with that job's payload to that worker's identity and no other job message exists; assign_request is only reached where the worker's current job is known to be null."),
    "C07": ([h.c07, g.find_rule], "Rule: each path of 'done' with any effect has established: sender registered, at least 3 (4) frames, a current job, job id equal to the current job's, a known status; and touches only the sender's job."),
    "C08": ([h.c08], "Rule: each effective path of 'done' has exactly the notification its status calls for, with the job's id and the worker's message."),
    "C09": ([h.c09], "Rule: each failed attempt increments the failure count of exactly the job concerned by one; a path putting a job back has established count < maximum, a path not putting back a complete job has established count >= maximum."),
    "C10": ([h.c10, g.find_rule, g.list_rule], "Rule: every path of a worker's message with the sender registered sets liveness to the maximum and its timer to zero; in each iteration over the workers in a tick timer' and liveness' are the specified functions of timer, liveness, elapsed time and ping interval."),
    "C11": ([h.c11, g.remove_rule], "Rule: each iteration ending in worker_terminated also removes the worker from registry and timers, and each handed back job is put back exactly once or reported FAILED exactly once."),
    "C12": ([h2.c12, g.find_rule], "Rule: each path of 'ping' has exactly one send, pong/intro according to the registry lookup, to the sender, and no other effect."),
    "C13": ([h2.c13], "Rule: each path of 'progress' has exactly one send, to the monitor, whose data is the term data[1..|data|), and no other effect."),
    "C14": ([h2.c14], "Rule: the state set by freeze and reset by unfreeze is known false on every path of 'eval' that reaches the queue, every path on which it is true rejects; no other message changes it or is handled differently because of it."),
    "C15": ([h2.c15, g.list_rule], "Rule: the reply consists of all entries of the statistics table and is-frozen; evaluated/failed change by exactly one on the effective paths of 'done' and nowhere else; a tick assigns the counts of the final queue and registry state."),
    "C16": ([h2.c16, m.rule("C16")], "Rule: no path of any message throws out of on_request, dereferences a pointer not known to be non-null, indexes outside the known bounds of a container, or stores the result of an unsigned subtraction that may wrap."),
    "C17": ([h2.c17], "Rule: the payload stored with a job is the term ['eval', data[1], data[t+1..|data|)] where data[t] is the empty terminator, later sends use exactly the stored payload and nothing modifies it; header names and values are the two parts of a frame split at its first '=', 'meta.' excluded."),
    "C26": ([h2.c26h, m.rule("C26")], "Rule: on each path of 'done' a worker whose job was cancelled is afterwards offered another one unless it is known to have one."),
    "C27": ([h2.c27, g.all_rules], "Rule: each path of 'init' with a group from an unknown sender puts one new worker (constructed from sender, data[1] and the header frames) into registry, queue manager and timers; known senders: nothing, or an error report; nobody else changes the registry."),
    "C29": ([h2.c29], "Rule: for a command outside the origin's set (and for any other origin) every path is free of effects; for each command of the set it is handled on every path exactly once."),
    "C30": ([h2.c30], "Rule: per path and per iteration over orphaned jobs the messages to the monitor are exactly those the fate of each job calls for."),
    "C20": ([th.c20], "Rule: the call graph is walked from every thread's entry (start_loop with the handlers registered as synchronous; each closure given to std::thread, with the handlers registered as asynchronous; terminate()) with an ownership analysis of this, references and pointers: no field or static variable that is not atomic, constant or a zmq context is written by one thread and used by another; synchronous handlers are unreachable from handler threads and asynchronous ones from the main loop; no call that sleeps, waits, joins or performs HTTP is reachable from the main loop; every poll in it has a timeout within [0, 1000] ms."),
    "C21": ([hp.c21], "Rule: each notification of reactor_status_notifier (arbitrary strings) is composed with status_notifier_handler::on_request, every request of which may fail: on each path the requests are to address/type/id with the configured port and credentials and exactly the remaining pairs as parameters; requests and pauses form the sequence post, 1 s, post, 2 s, post, 4 s, post cut off at the first success; nothing is thrown. The same for a message of three arbitrary pairs; rejected_jobs does it for every element."),
    "C31": ([wi.c31], "Rule: broker_connect's constructor and main (with broker_core) are interpreted with an arbitrary configuration, reading and converting the file and parsing the options each failing or not: the socket registered under each peer's key is a ROUTER whose initialize() binds (clients, workers) or connects (monitor) at exactly tcp://<configured address>:<configured port>; broker_handler, with the broker's configuration, registry and queue manager, is subscribed synchronously and once to clients, workers and timer, the status notifier asynchronously to its key; the timer key is the reactor's; the class of the queue manager follows the configured name on every path, and every path with an unknown name or a failed step ends with a failure status and starts nothing."),
    "C35": ([lo.c35], "Rule: main (with broker_core) is interpreted with an arbitrary configuration, creating the directory, opening the file and creating the logger failing or not: on each path the rotating file is the term directory/name of the configuration with its size and number of files, the directory is known to exist or created with its parents first unless its name is empty, the level set is the one the configured name stands for, the broker gets that logger, and every failure ends with a failure status and nothing started."),
    "C32": ([hp.c32], "Rule: every path of curl_get and curl_post with libcurl's calls as events, each of which may fail: a path returns normally iff exactly one request was performed successfully and nothing failed, otherwise it throws curl_exception; the options in force at curl_easy_perform verify peer and host, fail on HTTP errors, name the address, port and encoded parameters given and carry user:password iff one of them is not known empty; the handle and each encoded string is released exactly once on every path; in the loop building the query each parameter appends its encoded name, '=' and encoded value, separated by '&'."),
}

CHECKS = {k: v[0] for k, v in TABLE.items()}

NOT_APPLICABLE = {
    "C33": "quantifies over real time and the fairness of workers and network: whether a worker keeps responding and how long it takes is not a property of the source; the static parts (no job lost, no idle worker beside a waiting job, bounded retries) are C03, C09, C11, C26",
    "C34": "depends on zmq's asynchronous connection of the inproc pair, on the frontend's availability and on the moment of shutdown, which no static argument about this source bounds; the static parts (each outcome handed over once, attempts and back-off, failures contained) are C08, C21, C32",
}


def explain(pid):
    return HANDLER + TABLE[pid][1], ASSUME_H
