"""The properties, their checks and the texts that go into properties.jsonl, MANIFEST.json and DESIGN.md."""
O0 = ["-O0", "-g1"]
O1 = ["-O1", "-g1"]
NOTE = "Exploration by generated inputs: a pass means no counterexample among the cases of this run (counts in the evidence file), on x86-64 Linux, " \
       "against the code compiled with stand-ins for the score_baselibs headers (see DESIGN.md). "
E2E_NOTE = NOTE + "The whole stack runs for real over POSIX shared memory, flock, inotify and UNIX domain sockets; thread schedules are the kernel's. "
E2E_ASSUME = ["score_baselibs stand-ins in shim/ behave like the originals where the stack uses them"]
L = "score/mw/com/impl/bindings/lola/"
I = "score/mw/com/impl/"


def e2e(name, only=None, **kw):
    h = {"name": name, "src": ["harness/%s.cpp" % name], "hint": "e2e", "flags": O0}
    if only:
        h["only"] = only
    h.update(kw)
    return h


def unit(name, only=None, hint=None, **kw):
    h = {"name": name, "src": ["harness/%s.cpp" % name], "hint": hint or name, "flags": O1}
    if only:
        h["only"] = only
    h.update(kw)
    return h


def py(name, **kw):
    return dict({"name": name, "src": ["harness/%s.py" % name], "kind": "py"}, **kw)


def owned(name, only, **kw):
    """schedules of real code owned by lib/owned_sched"""
    kw.setdefault("src", ["harness/%s.cpp" % name, "lib/owned_sched.cpp"])
    return unit(name, only, repo_flags=["-fsanitize=thread"], libs=["-lpthread", "-ldl"], **kw)


OWNED_NOTE = ("Schedules are explored over sequentially consistent values; the memory orders the code asks for are honoured by a happens-before race "
              "detector on the payload, so missing ordering is seen as a race and not as a stale value.")
OWNED_ASSUME = ["the interleaving points are the atomic operations, locks, sleeps and payload accesses of the compiled code (gcc's thread sanitizer hooks)",
                "values read are those of a sequentially consistent execution; orderings weaker than that are judged by the race detector"]

PROPS = []
NOT_APPLICABLE = []


def P(**kw):
    kw.setdefault("technique", "property-based testing")
    PROPS.append(kw)


P(id="E01", title="Event consumers see only sent samples, once, in order and unchanged",
  statement="Every sample a consumer receives is bit-identical to one the provider sent, samples arrive strictly newest-limited and in sending order, none twice per subscription, and at most as many as asked for and as its subscription allows. "
            "What a consumer holds keeps its content until it gives it back, whatever the provider sends meanwhile. Allocation, sending, subscription and the free-slot and new-sample counts succeed, fail and read exactly as the configured slots, subscriber limits and enforcement flag say.",
  over=["histories", "configurations"],
  qtext="all histories of allocate, send, drop, subscribe, unsubscribe, receive, hold, release and count queries of up to three consumers, over all small slot, subscriber and enforcement configurations of QM and ASIL-B instances",
  why="The unit tests exercise single operations on mocked bindings and a few fixed sequences; whether slots are ever reused too early or samples reordered depends on the whole history and on the configuration.",
  files=[L + "skeleton_event_common.h", L + "proxy_event_common.cpp", L + "slot_collector.cpp", L + "provider_event_data_control_local_view.cpp", L + "consumer_event_data_control_local_view.cpp", L + "event_subscription_control.cpp", I + "skeleton_event.h", I + "proxy_event.h"],
  mechanism=[("slot allocation and publication", L + "provider_event_data_control_local_view.cpp"), ("collecting new samples", L + "slot_collector.cpp"), ("subscription limits", L + "event_subscription_control.cpp"), ("sample accounting", I + "sample_reference_tracker.h")],
  rule="a case is a configuration and a history of 20 to 80 operations on a real skeleton and up to three real proxies, run next to a reference model of slots and subscriptions; non-trivial when a consumer held samples over later sends and at least one limit (slots, subscription or sample count) was hit",
  design="The whole stack is brought up in one process per case from a generated JSON configuration. A model of slots, time order, subscriptions and held samples predicts the result of every call and the exact sequence of samples each consumer gets; payloads carry a checksum over all bytes and every held sample is re-read after each step. Unit tests cannot reach this because it quantifies over histories and configurations of the composed system.",
  harnesses=[e2e("e2e_events")], level_note=E2E_NOTE, assumptions=E2E_ASSUME)

P(id="F01", title="Fields deliver their latest value to every reader and setter",
  statement="A subscriber of a field receives the current value right after subscribing and every later update in order; Get returns the latest value, and Set takes effect with the value the provider's handler made of it, is returned to the caller and is published to all subscribers. "
            "Get, Set and updates behave the same after a stop and a re-offer, and a service cannot be offered before each field has a value.",
  over=["histories", "configurations"],
  qtext="all histories of update, get, set, subscribe, unsubscribe, receive, stop-offer and re-offer over up to three consumers, for fields with and without getter, setter and notifier",
  why="Unit tests replace either the event or the method side by mocks, so the value seen over the two paths together, and over re-offers, is never compared.",
  files=[I + "skeleton_field.h", I + "skeleton_field_base.h", I + "proxy_field.h", L + "skeleton_event.h", L + "proxy_method.cpp"],
  mechanism=[("initial value deferred to the offer", I + "skeleton_field_base.h"), ("set handler, publish and reply", I + "skeleton_field.h"), ("get by copying the latest slot", L + "skeleton_event.h")],
  rule="a case is a configuration and a history of 10 to 60 operations against a model of the field's value and each consumer's view; non-trivial when a Set or Get succeeded after at least one update with a subscriber present",
  design="Real skeleton and proxies in one process per case, next to a model of the latest value. Get, Set (with a handler that clamps the value), notifications and re-offers are interleaved freely; a second property re-offers with and without surviving proxies. Two recorded defects are reported as known findings.",
  harnesses=[e2e("e2e_fields")], level_note=E2E_NOTE, assumptions=E2E_ASSUME)

P(id="M01", title="Method calls run the handler exactly once with the caller's arguments",
  statement="Each successful method call runs the registered handler exactly once with exactly the arguments of that call and returns exactly its result to that caller, also with many callers at once. "
            "A call on a service that is not offered, or whose queue of pending results is exhausted, fails with an error and never runs the handler; results a caller still holds do not change.",
  over=["histories", "schedules", "configurations"],
  qtext="all histories of calls, zero-copy calls, held results, stop-offers and re-offers by several proxies, and concurrent calls from several threads, with generated argument and return types",
  why="The tests call single methods against mocked messaging; mixing up of argument slots, results or callers only shows over histories and concurrent callers.",
  files=[L + "proxy_method.cpp", L + "skeleton_method.cpp", L + "skeleton.cpp", L + "methods/type_erased_call_queue.cpp", I + "methods/proxy_method_with_in_args_and_return.h", I + "methods/skeleton_method.h"],
  mechanism=[("argument and result slots in shared memory", L + "methods/type_erased_call_queue.cpp"), ("registration of call handlers on subscription", L + "skeleton.cpp"), ("call dispatch", L + "messaging/message_passing_service_instance.cpp")],
  rule="a case is a history of up to 60 operations on up to three proxies, or a set of concurrent caller threads; non-trivial when calls succeeded before and after a failure cause (held result, stop-offer), or when at least two threads completed calls",
  design="Argument and result values are generated over several signatures (none, one, several arguments, with and without result); the handler records what it received. The model knows which calls must fail. A concurrent property calls from several threads and proxies and compares every answer and the multiset of handler invocations.",
  harnesses=[e2e("e2e_methods")], level_note=E2E_NOTE, assumptions=E2E_ASSUME)

P(id="S01", title="Service discovery reports exactly the offered instances",
  statement="Searches return, and find handlers are last told, exactly the instances that are offered with a quality the search accepts, once the file events so far are handled; find-any covers all instances, a stopped search never calls its handler again, and no handler is called twice in a row with the same set. "
            "This holds for offers from several processes, killed providers, quality changes, searches started or stopped inside handlers, and any batching of file system events.",
  over=["histories", "schedules", "crash_points"],
  qtext="all histories of offers, stop-offers, QM-only stops, searches, handler actions and provider deaths over several services and instances, with every batching and delay of the inotify events",
  why="The tests deliver single, ideal event sequences; lost or phantom instances need particular batches of events and histories of earlier searches.",
  files=[L + "service_discovery/client/service_discovery_client.cpp", L + "service_discovery/flag_file.cpp", L + "service_discovery/flag_file_crawler.cpp", L + "service_discovery/known_instances_container.cpp", I + "service_discovery.cpp"],
  mechanism=[("inotify event handling and caches", L + "service_discovery/client/service_discovery_client.cpp"), ("flag files", L + "service_discovery/flag_file.cpp"), ("crawling", L + "service_discovery/flag_file_crawler.cpp"), ("handler bookkeeping", I + "service_discovery.cpp")],
  rule="a case is a history of 15 to 60 operations on up to two services with up to three instances, with owned delivery of inotify events; non-trivial when at least one search saw an instance appear and disappear, or events were delivered in batches",
  design="The real discovery stack runs against a scratch file tree; the harness decides when and in which batches inotify events are delivered. A set model of offers predicts FindService and, after a drain, the last notification of every running search. Offers come from this and from a second, killable process.",
  harnesses=[e2e("sd_histories")], level_note=E2E_NOTE, assumptions=E2E_ASSUME)

P(id="S03", title="Proxies survive stop, re-offer and death of their provider",
  statement="After the provider stops and re-offers, or dies and is restarted in a new process, proxies that existed before become subscribed again by themselves, receive the samples sent afterwards, and their method calls reach the new provider; their subscription state is pending exactly while nothing is offered, and each change is told once. "
            "Samples held over a stop, re-offer or death keep their content, no slot is leaked by a dead provider, and receive handlers are called for new samples.",
  over=["histories", "crash_points", "configurations"],
  qtext="all histories of offers, stop-offers, provider deaths at any operation and restarts, with subscriptions, held samples, pending allocations, handlers and calls by two proxies",
  why="Restart behaviour is only tested with mocks or single scenarios; it depends on what proxies and allocations were alive at the stop or the death.",
  files=[L + "skeleton.cpp", L + "proxy.cpp", L + "subscription_state_machine.cpp", L + "event_data_control_composite.cpp", L + "methods/offered_state_machine.cpp", L + "skeleton_memory_manager.cpp", L + "messaging/message_passing_service_instance.cpp"],
  mechanism=[("reuse or re-creation of shared memory", L + "skeleton.cpp"), ("availability handling in the proxy", L + "proxy.cpp"), ("subscription states", L + "subscription_state_machine.cpp"), ("notification and re-registration", L + "messaging/message_passing_service_instance.cpp")],
  rule="a case is a history of 10 to 50 operations with the provider in this or a killable second process; non-trivial when a proxy lived through at least one re-offer or restart",
  design="The provider lives in the same process or in a forked process that is killed without warning (also with allocations in flight). A model of slots in use, subscriptions, last received samples and availability predicts every result, subscription state, state-change callback and receive notification. Two recorded defects are reproduced by dedicated properties and reported as known findings.",
  harnesses=[e2e("e2e_reoffer")], level_note=E2E_NOTE, assumptions=E2E_ASSUME)

P(id="E02", title="A slot is never rewritten while referenced, under any schedule",
  statement="Under every interleaving of one provider with any number of consumers and threads giving samples back, no slot is given to the provider while a consumer holds a reference to it, a consumer only ever references completely written samples, and provider writes and consumer reads of a payload are ordered by the code's own synchronisation. "
            "Reference counts end equal to the references held, no slot stays marked as being written, an allocation only fails when all slots are in use, and once all is quiet each consumer finds exactly the newest samples it has not seen.",
  over=["schedules", "histories", "configurations"],
  qtext="all interleavings, at the granularity of single atomic operations, of a provider's allocations, writes, sends and discards with up to three consumers' subscriptions, receptions and releases from one or two threads, for QM and ASIL-B controls",
  why="The control words are lock-free; the unit tests run them sequentially or with the operating system's few schedules, and cannot see a missing memory order on this hardware.",
  files=[L + "provider_event_data_control_local_view.cpp", L + "consumer_event_data_control_local_view.cpp", L + "event_data_control_composite.cpp", L + "slot_collector.cpp", L + "slot_decrementer.cpp", L + "event_slot_status.cpp", L + "transaction_log_local_view.cpp"],
  mechanism=[("allocation by compare and exchange", L + "provider_event_data_control_local_view.cpp"), ("reference counting", L + "consumer_event_data_control_local_view.cpp"), ("allocation on both controls", L + "event_data_control_composite.cpp"), ("collecting new samples", L + "slot_collector.cpp")],
  rule="a case is a configuration, one program per task and a schedule, all generated; non-trivial when at least one task was preempted inside an operation and a sample was received",
  design="The repository's sources are compiled with the thread sanitizer's hooks, which lib/owned_sched implements itself: every atomic operation is a scheduling point of coroutines and the next task is drawn from the generator, so schedules shrink and replay like any other input. Weak compare-exchange may fail spuriously. The payload words are watched by a vector clock race detector that follows the memory orders used. The oracle is a bookkeeping of sent and held samples, kept in schedule order.",
  harnesses=[owned("lola_schedules", "slots_under_schedules")], level_note=OWNED_NOTE, assumptions=OWNED_ASSUME, quick_s=22)

P(id="E04", title="Concurrent subscriptions never exceed the limits nor leak",
  statement="However subscriptions and unsubscriptions of several consumers interleave with each other and with the provider going away and coming back, the accepted subscriptions never exceed the maximum number of subscribers nor, where enforced, the number of slots. "
            "A subscription is refused only for a limit that was reached while it ran or for contention, with the matching error; asking again changes nothing and succeeds for the same number of samples only; a consumer ends in the state of its last call, is told each state once, and exactly the unused subscriptions remain available.",
  over=["schedules", "histories", "configurations"],
  qtext="all interleavings of subscribe and unsubscribe calls of two to five consumers and of availability changes, over subscriber limits, slot counts up to 1100, sample counts beyond 16 bits (for sequences of calls: the whole range of numbers) and enforcement flags",
  why="The subscription word and the transaction log table are shared lock-free between processes; the tests use them from one thread.",
  files=[L + "event_subscription_control.cpp", L + "subscription_state_machine.cpp", L + "subscription_not_subscribed_states.cpp", L + "transaction_log_set.cpp", L + "transaction_log_registration_guard.cpp"],
  mechanism=[("packed subscription word", L + "event_subscription_control.cpp"), ("log registration", L + "transaction_log_set.cpp"), ("states", L + "subscription_state_machine.cpp")],
  rule="a case is a configuration, programs and a schedule; non-trivial when a task was preempted inside a call and a subscription was refused or availability changed",
  design="Real subscription state machines on real shared control structures as coroutine tasks under generated schedules. The oracle keeps, for each call in flight, the largest number of other subscriptions and samples that existed meanwhile and the number of interfering changes; at the end further subscriptions are tried until refused and must be exactly as many as free.",
  harnesses=[owned("lola_schedules", "subscriptions_under_schedules,subscription_counters")], level_note=OWNED_NOTE, assumptions=OWNED_ASSUME, quick_s=22)

P(id="E05", title="A consumer's death at any point is rolled back or reported",
  statement="When consumers die at any point of any operation, rolling back their transaction logs either succeeds and gives back exactly the references and subscriptions they held, or reports that the consumer cannot be restarted; it succeeds whenever the death was not inside an operation. "
            "References and subscriptions of the living, also of other proxies of the same process, are never touched, provider and consumers go on correctly meanwhile, and nothing is leaked.",
  over=["crash_points", "schedules", "histories"],
  qtext="all interleavings of a provider and up to three consumers, with one or more consumers (also two of one process) abandoned before any single atomic operation, then rolled back by restarted ones",
  why="Crash points inside lock-free operations cannot be produced by unit tests; the recovery depends on which log bits were set at that instant.",
  files=[L + "transaction_log_local_view.cpp", L + "transaction_log_set.cpp", L + "transaction_log_slot.cpp", L + "consumer_event_data_control_local_view.cpp", L + "event_subscription_control.cpp"],
  mechanism=[("transaction log", L + "transaction_log_local_view.cpp"), ("rollback", L + "transaction_log_set.cpp"), ("logged references", L + "consumer_event_data_control_local_view.cpp")],
  rule="a case is a configuration, programs, kill points and a schedule; non-trivial when a task was preempted and at least one victim held samples when it died",
  design="Coroutine tasks are abandoned, without unwinding, before a generated scheduling point. Then the rollback runs as a restarted process would run it. The oracle compares all reference counts and the remaining subscriptions with what the living hold and lets restarted consumers subscribe and read again.",
  harnesses=[owned("lola_schedules", "consumer_death")], level_note=OWNED_NOTE, assumptions=OWNED_ASSUME, quick_s=22)

P(id="E07", title="A misbehaving QM side never disturbs the ASIL-B side",
  statement="Whatever values a QM process writes into the QM control structures at whatever moments, an ASIL-B provider neither terminates, blocks nor loses samples, and ASIL-B consumers keep receiving exactly what was sent, in order, with their references and subscriptions intact; the provider at most disconnects the QM side, and an ASIL-B allocation only fails when the ASIL-B side itself uses all slots.",
  over=["schedules", "inputs", "histories"],
  qtext="all sequences of arbitrary writes to the QM slot states at any scheduling point of an ASIL-B provider with one or two ASIL-B consumers",
  why="Freedom from interference quantifies over arbitrary corrupt values at arbitrary moments; tests only make QM consumers hold slots.",
  files=[L + "event_data_control_composite.cpp", L + "provider_event_data_control_local_view.cpp", L + "event_slot_status.cpp"],
  mechanism=[("allocation on both controls and disconnection", L + "event_data_control_composite.cpp")],
  rule="a case is a configuration, programs, a list of writes to the QM words and a schedule; non-trivial when the QM side was disconnected and ASIL-B consumers received samples",
  design="One coroutine task overwrites QM slot words with generated, boundary and bit-flipped values between any two atomic operations of the provider. All checks of E02 apply to the ASIL-B side. This found that the provider terminated on such values (fixed in the repository).",
  harnesses=[owned("lola_schedules", "qm_misbehaviour")], level_note=OWNED_NOTE, assumptions=OWNED_ASSUME, quick_s=22)

P(id="L01", title="Each application id maps to the process id registered last",
  statement="Registering a process id for an application id returns the id registered before, or the own one if there was none, under any interleaving of registrations and deaths of registering processes. "
            "Registrations of different applications never disturb each other, each application uses at most one entry, registration fails only when all entries are taken, and a registration that died half way is taken over.",
  over=["schedules", "crash_points", "histories"],
  qtext="all interleavings and deaths of up to four concurrent registrations in up to four rounds, over tables of one to five entries and all application ids including the largest",
  why="The table is lock-free and shared between processes; a lost or doubled entry needs concurrent first registrations or a death between two stores.",
  files=[L + "application_id_pid_mapping.cpp", L + "application_id_pid_mapping_entry.h", L + "application_id_pid_mapping_entry.cpp"],
  mechanism=[("registration", L + "application_id_pid_mapping.cpp"), ("packed entry", L + "application_id_pid_mapping_entry.h")],
  rule="a case is a table size and rounds of concurrent registrations with kill points and a schedule; non-trivial when tasks were preempted and the table became full or a task died",
  design="Registrations run as coroutine tasks over a real table, compared after each round with a map model that knows which registrations are certain, half made or impossible.",
  harnesses=[owned("lola_schedules", "process_registration")], level_note=OWNED_NOTE, assumptions=OWNED_ASSUME, quick_s=15)

P(id="E03", title="Sample and allocation counts are exact under concurrent use",
  statement="The number of samples a consumer may still take and the number of allocations a provider has out are always exact: references are never granted beyond the limit, are refused only while the limit is used up, and each is given back exactly once, however guards are moved, assigned (also to themselves) and dropped, from however many threads. "
            "After everything is given back the full limit is available; destroying the accounting while allocations are out terminates.",
  over=["histories", "schedules"],
  qtext="all programs of one to three tasks that allocate, take, move, assign, self-assign and drop guards, and all their interleavings, for limits 0 to 8",
  why="A lost or doubled count needs an interleaving inside the counter update, or a particular sequence of moves; unit tests check single steps.",
  files=[I + "sample_reference_tracker.h", I + "sample_reference_tracker.cpp", I + "sample_allocatee_tracker.cpp", I + "sample_allocatee_guard.cpp"],
  mechanism=[("reference counter and guards", I + "sample_reference_tracker.cpp"), ("allocation counter", I + "sample_allocatee_tracker.cpp"), ("allocation guard", I + "sample_allocatee_guard.cpp")],
  rule="a case is a limit, one program per task and a schedule; non-trivial when several tasks were preempted, references were taken and (for samples) a request was cut short",
  design="The real trackers run as coroutine tasks under generated schedules (lib/owned_sched). A ledger of owned references, with bounds for calls in progress, decides every grant; at the end the counters must equal the ledger.",
  harnesses=[owned("core_schedules", "sample_references,allocation_counting", src=["repo:harness/core_schedules.cpp", "lib/owned_sched.cpp"])], level_note=OWNED_NOTE, assumptions=OWNED_ASSUME, quick_s=15)

P(id="N03", title="A future's value is complete and seen by every waiter",
  statement="Waiting on a future returns only after it was marked ready, always returns once it was, for any number of waiters and whether they came before or after, and then the value and every effect before the marking are visible to the waiter without a data race. Futures that share a mutex and condition variable do not disturb each other.",
  over=["schedules"],
  qtext="all interleavings of one to three waiters and one or two setters over one to three futures sharing one mutex and condition variable, with copied, moved and in-place values and with none",
  why="Lost wake-ups and missing orderings need an interleaving between the waiter's test and its wait.",
  files=["score/message_passing/non_allocating_future/non_allocating_future.h"],
  mechanism=[("marking and waiting", "score/message_passing/non_allocating_future/non_allocating_future.h")],
  rule="a case is a set of futures, waiters, setters and a schedule; non-trivial when at least two waits ended and there were more than two task switches",
  design="Futures over std::mutex and std::condition_variable run as coroutine tasks; mutexes and condition variables are scheduling points (with spurious wake-ups) and a vector clock race detector watches flag and value. A wait that can never end is reported as a deadlock.",
  harnesses=[owned("core_schedules", "future_delivery", src=["repo:harness/core_schedules.cpp", "lib/owned_sched.cpp"])], level_note=OWNED_NOTE, assumptions=OWNED_ASSUME, quick_s=10)

W = "score/message_passing/"
P(id="N01", title="Message passing keeps order, content and replies through any restart",
  statement="A client connection hands over every accepted message unchanged and in the order its configuration promises, gives each request exactly one reply or error through its callback or call, and each reply to the request it answers; notifications arrive complete and in order while the connection lasts. "
            "States change only starting-ready-stopping-stopped (or straight to stopping), callbacks run on the engine's thread and never after the stop, and Stop, Restart, destruction, full queues, a peer that leaves, rejects, fails or sends garbage never hang, crash or leak, at any moment and from any thread or callback. "
            "A server calls the connection, message and disconnection callbacks of each client in this order and exactly once where promised, refuses what is above the agreed sizes and serves all other clients regardless of one that misbehaves.",
  over=["schedules", "histories", "inputs", "fault_sequences"],
  qtext="all interleavings of up to three threads and the engine using one client connection (all kinds of sends, stops, restarts, destruction, from threads and callbacks) with failing sends, lost peers and unexpected input; all histories of up to three clients and one server over real sockets; all byte streams up to a torn end",
  why="The unit tests drive the state machine step by step with mocks; restarts racing with sends, queues left over from a former session and torn peers need schedules and histories.",
  files=[W + "client_connection.cpp", W + "client_connection.h", W + "unix_domain/unix_domain_server.cpp", W + "unix_domain/unix_domain_engine.cpp", W + "unix_domain/unix_domain_socket_address.h"],
  mechanism=[("state machine and send queue", W + "client_connection.cpp"), ("server connections", W + "unix_domain/unix_domain_server.cpp"), ("framing", W + "unix_domain/unix_domain_engine.cpp")],
  rule="a case is a program for threads and callbacks plus a schedule (client_schedules: non-trivial when at least one message was accepted and the tasks were switched), a set of clients, sessions and endings (message_exchange: more than two messages delivered and one reply), or a byte stream (protocol_roundtrip: at least one message)",
  design="client_schedules runs the real ClientConnection over a model engine and peer whose every step is a scheduling point; an oracle per request, message, state and pool entry is evaluated over the whole history, deadlocks included. message_exchange runs real engines, clients and server over real sockets against the sent/received histories; protocol_roundtrip sends generated and torn streams through the framing code.",
  harnesses=[owned("client_schedules", "client_schedules", flags=["-O1", "-g1", "-DVERIF_NO_DBG_ASSERT"]), unit("message_sockets", "message_exchange,protocol_roundtrip", libs=["-lpthread"])],
  level_note=NOTE + OWNED_NOTE, assumptions=OWNED_ASSUME + ["message_exchange runs under the kernel's schedules; sockets closed by a client are kept from being reused while its senders run (see the known finding)"], quick_s=45)

P(id="N02", title="Timed commands run once, in time order, unless cleaned up before",
  statement="Every command given to an engine runs exactly once on the engine's thread, never before its time and promptly at it, in the order of the times and, for equal times, of registration, also when commands register or clean up others (or themselves again) while they run. "
            "After CleanUpOwner returned no command of that owner runs any more and none of its callbacks is alive, while all others are unaffected; cleaning up no owner changes nothing.",
  over=["histories", "schedules"],
  qtext="all histories of registering, cleaning up and processing of commands with equal and different times and owners, with nested operations from commands; and commands from several threads of a real engine",
  why="Unit tests register two or three commands; order among equal times, nesting and clean-up between the due time and the wait need histories.",
  files=[W + "timed_command_queue.cpp", W + "timed_command_queue.h", W + "unix_domain/unix_domain_engine.cpp"],
  mechanism=[("queue", W + "timed_command_queue.cpp"), ("waiting", W + "unix_domain/unix_domain_engine.cpp")],
  rule="a case is a history of operations on the queue (or of threads on an engine); non-trivial when more than two commands ran",
  design="timed_queue_model compares the queue with a model that sorts by time and registration, after each operation; engine_timers runs commands from threads on a real engine and checks thread, time, order, clean-up and a bound on the delay.",
  harnesses=[unit("message_sockets", "timed_queue_model,engine_timers", libs=["-lpthread"])], level_note=NOTE, quick_s=20)

G = "score/mw/com/gateway/transport_layer/sample/"
P(id="G01", title="Gateway messages arrive unchanged, in order and acknowledged",
  statement="The sample gateway transport delivers every message it accepts unchanged (type, names, sizes, numbers), whatever pieces the network cuts it into and although sending threads mix, in the order it was sent; nothing arrives that was not sent. "
            "A request that succeeds was acknowledged by the other side; one that is not is repeated up to its limit, and it fails at once when the connection is lost or the transport is shut down. Over a good connection each message arrives exactly once and promptly. "
            "After connections broke or a side restarted, both sides find each other again; Setup returns when the first connection is there or cannot be had, Shutdown ends everything at any moment, and afterwards no handler runs and no descriptor is left open. "
            "Bytes that are no message, too large, cut off or of unknown type are refused without harm.",
  over=["schedules", "fault_sequences", "inputs"],
  qtext="all schedules of two transports with several sending threads and sending handlers, all cuts, delays and interruptions of the stream, all moments of breaking connections, restarts and shutdowns; all messages and damaged streams",
  why="Unit tests use mocked sockets or one good loopback connection; lost wake-ups, crossing shutdowns, half-made connections and cut frames need owned schedules and a simulated network.",
  files=[G + "bidirectional_transport.cpp", G + "message_framer.cpp", G + "pending_request_tracker.cpp", G + "messages/gateway_messages.cpp", G + "messages/serialization.h", G + "unique_socket.cpp"],
  mechanism=[("connection and dispatch", G + "bidirectional_transport.cpp"), ("framing", G + "message_framer.cpp"), ("acknowledgements", G + "pending_request_tracker.cpp"), ("wire format", G + "messages/serialization.h")],
  rule="a case is a run of two transports over the simulated network (or a stream of messages); non-trivial when a message was delivered, or a stream held one",
  design="gateway_exchange runs two real transports over a simulated network in virtual time under owned schedules: partial transfers, late data, EINTR, refused accepts, broken connections, restarts, shutdown at any event, no free descriptors. "
         "Every message has a unique content; the history of deliveries is judged for content, multiplicity, order, outcome and promptness, and a race detector watches the transport's memory. acknowledgements does so for the waiting alone; "
         "gateway_codec sends random messages through real framers in pieces and reads whole, cut and damaged streams under AddressSanitizer.",
  harnesses=[owned("gateway_schedules", "gateway_exchange,acknowledgements", flags=["-O1", "-g1", "-DVERIF_NO_DBG_ASSERT", "-DVERIF_MAX_TASKS=24"]),
             unit("gateway_units", "gateway_codec", flags=["-O1", "-g1", "-fsanitize=address"], libs=["-lpthread"])],
  level_note=NOTE + OWNED_NOTE,
  assumptions=OWNED_ASSUME + ["network buffers are unbounded in the simulation, so two sides that flood each other are not judged", "a single one of the two connections breaks only once both sides have both",
                              "a request may be delivered once per attempt, as its repetition is part of the design"], quick_s=35)

P(id="G02", title="Events without a compile-time type behave like typed ones",
  statement="A generic skeleton and a generic proxy, together or with a typed counterpart, transport samples of any size and alignment byte for byte, each sample aligned as declared and apart from all others, in order, with the same rules for slots, references, subscriptions, notifications, "
            "re-offers and moves as typed events. A generic proxy knows exactly the events of its service and their sample sizes; it releases what it holds when it is destroyed or assigned to. Descriptions that cannot be used (alignment no power of two, size no multiple of it, doubled or unknown names) are refused without effect.",
  over=["inputs", "histories", "configurations"],
  qtext="all histories of offers, sends, allocations, subscriptions, receptions, moves and re-offers of generic and typed skeletons and proxies, over all sample sizes up to a few KiB and alignments up to 16, one to three events, both ways of sizing shared memory",
  why="Type-erased offsets, strides and sizes go wrong for particular size and alignment combinations only, and ownership only for particular histories; unit tests use one or two sizes and mocked bindings.",
  files=[I + "generic_skeleton.cpp", I + "generic_skeleton_event.cpp", I + "generic_proxy.cpp", I + "generic_proxy_event.cpp", L + "generic_skeleton_event.cpp", L + "generic_proxy_event.cpp", L + "skeleton_memory_manager.cpp"],
  mechanism=[("generic provider", I + "generic_skeleton.cpp"), ("generic consumer", I + "generic_proxy.cpp"), ("slots of run-time size", L + "skeleton_memory_manager.cpp")],
  rule="a case is a configuration, shapes of the events and a history; non-trivial when at least three samples of generic events were delivered",
  design="The event model of E01 runs next to the real stack, with generated shapes; contents are pseudo-random bytes that depend on the sample number, so that overlapping, misplaced or cut samples differ. This found that destroying a subscribed generic proxy aborted (fixed).",
  harnesses=[e2e("e2e_generic")], level_note=E2E_NOTE, assumptions=E2E_ASSUME + ["samples with an alignment above 16 are not used (not supported by the code under test)"], quick_s=40)

GA = "score/mw/com/gateway/gateway_application/"
P(id="G03", title="A gateway forwards what the other domain offers, as long as it does",
  statement="A service instance that the source gateway forwards and the destination gateway expects is found in the destination domain while, and only while, it is offered in the source domain; others never are. Consumers there receive the provider's samples unchanged, in order and without copies, subscriptions survive stop and re-offer, "
            "and consumers with receive handlers are notified of every new sample: updates are requested from the source exactly while handlers are set. A failed provision, a service stopped before or after it, and a gateway that ends at any time with subscriptions open harm neither the provider nor the other gateway, and the next offer is forwarded again.",
  over=["histories", "schedules", "fault_sequences"],
  qtext="all histories of offers, stops, provider restarts, failing provisions, sends, consumers, subscriptions and handlers over three instances, forwarded or not and expected or not, for QM and ASIL-B services",
  why="Unit tests use a mocked transport and one gateway; a service crosses two processes, two service discoveries and two requests per update, with callbacks on several threads of each.",
  files=[GA + "gateway_application.cpp", GA + "gateway_application.h", L + "skeleton.cpp", L + "skeleton_memory_manager.cpp", L + "skeleton_event_common.h", I + "generic_proxy.cpp"],
  mechanism=[("forwarding", GA + "gateway_application.cpp"), ("forwarded shared memory", L + "skeleton.cpp"), ("handlers present or not", L + "skeleton_event_common.h")],
  rule="a case is a whitelist, a configuration and a history; non-trivial when samples and notifications crossed the gateways",
  design="Provider and source gateway run in one process, destination gateway and consumers in another; each domain has its own files and sockets, only shared memory names are common (what a hypervisor does). The gateways are joined by a transport of the harness over socket pairs. "
         "After each step visibility, states, registrations and samples are compared with the model. Found: services were never forwarded (alignment 0), a gateway that aborted or crashed (three causes), stale memory after a re-offer (all fixed); the known finding below.",
  harnesses=[e2e("e2e_gateway", hint="e2e_gateway")], level_note=E2E_NOTE,
  assumptions=E2E_ASSUME + ["the transport between the gateways is reliable (G01 covers the sample one)", "no consumer runs in the source domain besides the gateway", "samples are not sent while a re-offer is still being forwarded"], quick_s=45)

P(id="T01", title="Tracing reports each point truthfully and holds samples only while read",
  statement="Each traced point reaches the trace library with the identity of exactly its service instance, version, event or field, kind of point, data id and place in shared memory, and flagged with data loss exactly when something was lost since the last success. A sample handed to the library keeps its slot until the library is done with it, the trace fails, "
            "or the element is no longer offered, and is then given back exactly once; slots of different elements never mix, and without a free slot nothing waits. Errors of the library end the tracing of nothing (recoverable), of the one element (fatal) or of everything (terminal), shared memory is registered and unregistered in pairs, and nothing reaches the library once tracing is disabled.",
  over=["histories", "schedules", "fault_sequences"],
  qtext="all histories of traces, callbacks, registrations, ends of offers and errors of the trace library over several instances with events and fields of equal names, and all interleavings of senders with the library's callbacks and with services that are created, offered and stopped",
  why="Unit tests mock the binding or the library one call at a time; slots, flags and registrations are state that many elements and the library's thread share over time.",
  files=[I + "tracing/tracing_runtime.cpp", L + "tracing/tracing_runtime.cpp"],
  mechanism=[("trace calls and errors", I + "tracing/tracing_runtime.cpp"), ("slots and registrations", L + "tracing/tracing_runtime.cpp")],
  rule="a case is a configuration and a history or schedule; non-trivial when several samples were traced and either errors occurred, slots ran out or callbacks met senders",
  design="Both tracing runtimes run over a model of the trace library that answers as generated, keeps what it was given and calls back in any order. The histories are predicted completely (every call, its content, every result, which samples are alive); the schedules run up to three senders against the library's thread, services that are created and one that is offered and stopped, with every word of both runtimes watched for data races. Found: registrations, the data loss flag and the debouncing counters were shared without synchronisation (fixed). "
         "Known finding: a shared-memory registration that failed with a recoverable error is never repeated, because it is remembered under another name than it is looked up by. Not explored: the limit of 2^32 consecutive failures.",
  harnesses=[owned("tracing_schedules", "tracing_histories,tracing_schedules")], level_note=OWNED_NOTE,
  assumptions=OWNED_ASSUME + ["the trace library is the repository's interface over a model (its implementation is not part of the repository)"], quick_s=15)

P(id="E08", title="Packed shared-memory words keep exactly what was put into them",
  statement="A slot's status word holds time stamp and reference count independently and tells free, in writing, used and newer-than correctly for every value, including the largest; log bits, registry entries (status and full 32 bit application id) and slot totals read back exactly as set, and different contents never share a word. "
            "An offer's life goes offered, stopped, re-offered, stopped and so on; any other step terminates.",
  over=["inputs", "histories"],
  qtext="all sequences of setters on slot words, log slots, registry entries and offer states, over the whole value ranges with boundaries preferred",
  why="Masks, shifts and comparisons go wrong for particular values only, which fixed examples do not contain.",
  files=[L + "event_slot_status.h", L + "event_slot_status.cpp", L + "transaction_log_slot.h", L + "application_id_pid_mapping_entry.cpp", L + "skeleton_event_properties.h", L + "methods/offered_state_machine.cpp"],
  mechanism=[("slot word", L + "event_slot_status.cpp"), ("log bits", L + "transaction_log_slot.h"), ("registry key", L + "application_id_pid_mapping_entry.cpp"), ("offer states", L + "methods/offered_state_machine.cpp")],
  rule="a case is a history of setters with generated values; non-trivial when the history has several steps with a valid time stamp, an application id above 16 bit, all kinds of extra slots, or a re-offer",
  design="Each type runs next to a model of its parts; after every step everything readable is compared, including the raw word and comparisons against bounds right next to the value.",
  harnesses=[unit("core_units", "slot_status_words,log_and_registry_entries,slot_numbers,offer_states")], level_note=NOTE, quick_s=12)

P(id="U01", title="Helper types keep ownership and content through any history",
  statement="Flags, movable references, element pointers, copyable atomics, argument buffers, sockets, region bounds, socket addresses, element views, search handles and provided-service sets behave like their plain models for every history of construction, copy, move (also to themselves), swap, assignment and release: ownership is transferred and given up exactly once, moved-from objects own nothing, content and sizes read back unchanged, and comparison, ordering and hash agree.",
  over=["inputs", "histories"],
  qtext="all histories of up to 16 operations on up to four objects of each type, all values and argument lists of sixteen signatures, and all address strings around the maximum length",
  why="Mistakes in move and ownership code show only in particular sequences (self-move, move over a used object, use after conversion); layout mistakes only for particular type orders.",
  files=[I + "flag_owner.h", I + "enable_reference_to_moveable_from_this.h", I + "methods/method_signature_element_ptr.h", I + "methods/callable_traits_impl.h", I + "util/copyable_atomic.h", I + "util/type_erased_storage.h", I + "service_element_map_view.h", I + "find_service_handle.cpp",
         I + "field_tags_store.cpp", I + "tracing/configuration/hash_helper_utility.h", "score/mw/service/provided_service_container.h", "score/mw/service/backend/mw_com/provided_service_decorator.h",
         "score/mw/com/gateway/transport_layer/sample/unique_socket.cpp", "score/message_passing/unix_domain/unix_domain_socket_address.h", "score/memory/shared/memory_region_bounds.cpp"],
  mechanism=[("ownership flags and references", I + "flag_owner.h"), ("element pointers", I + "methods/method_signature_element_ptr.h"), ("argument layout", I + "util/type_erased_storage.h"), ("descriptor ownership", "score/mw/com/gateway/transport_layer/sample/unique_socket.cpp"),
             ("addresses", "score/message_passing/unix_domain/unix_domain_socket_address.h")],
  rule="a case is a history on a few objects of one type, or a set of values; non-trivial by type: several moves, a conversion, more than one argument, more than one container, two different addresses that fit",
  design="One generator and model per type. Descriptors are real sockets (also number 0), checked for being closed exactly once; argument buffers have guard zones and are compared with the layout of the corresponding structure; forbidden steps are run in a child process and must terminate.",
  harnesses=[unit("core_units", "flags_and_references,method_element_pointers,copyable_and_traits,element_views_and_handles,argument_storage,provided_services,socket_addresses,region_bounds,socket_ownership")], level_note=NOTE, quick_s=20)

K = "score/mw/com/impl/configuration/"
P(id="C01", title="Configuration files mean what they say; malformed ones are refused",
  statement="For every well-formed configuration document, whatever the order of its members and with any unknown additional members, the parsed configuration holds exactly the configured service types, instances, element ids, slot, subscriber and queue numbers, sizes, permissions, quality levels, global and tracing settings, with the documented default for each that is absent. "
            "A document in which a required member is missing, a value has the wrong type or is out of range, a name or element id is used twice, or an unknown enumeration value or unsupported key occurs is refused by termination and never yields a configuration.",
  over=["inputs"],
  qtext="all configuration documents over small sets of names with up to four types and five instances, any subset of the optional members, any order of members, and every single corruption out of forty kinds at any place",
  why="The unit tests parse a few fixed documents; whether each setting survives next to every combination of others, and whether every corruption at every place is noticed, needs generation.",
  files=[K + "configuration_json_parsing_strategy.cpp", K + "config_parser.cpp", K + "config_validate.cpp", K + "configuration.cpp", K + "global_configuration.cpp", K + "tracing_configuration.cpp", K + "lola_event_instance_deployment.cpp", K + "lola_field_instance_deployment.cpp", K + "quality_type.cpp", I + "instance_specifier.cpp"],
  mechanism=[("parsing", K + "configuration_json_parsing_strategy.cpp"), ("unique element ids and valid names", K + "config_validate.cpp"), ("storage of the settings", K + "configuration.cpp")],
  rule="a case is a generated model of a configuration printed as a document (and corrupted once for rejection); non-trivial when it has several types or instances with optional settings, or when the corruption applied to it changed the document",
  design="The generator builds a model first and prints it as JSON; the parsed configuration is compared with the model, setting by setting, through the public getters. Corruptions are made on the document tree with a rule saying that the result must be refused; parsing then runs in a child process that must terminate.",
  harnesses=[unit("config_units", "config_parsing,config_rejection")], level_note=NOTE, quick_s=25)

P(id="C02", title="Configurations validate, merge and answer queries consistently",
  statement="Validation accepts a configuration exactly when every instance refers to a configured service type with its version, uses only elements this type has, and does not exceed the quality of the process, and reports the right reason otherwise. "
            "After any sequence of merging and adding entries, all queries (types, instances, elements, deployments, allowed users) answer for the union of what was successfully put in; references handed out earlier stay valid; a duplicate is refused with the documented error.",
  over=["inputs", "histories"],
  qtext="all sequences of up to eight merges, additions and queries over generated configurations with overlapping names",
  why="The unit tests merge two fixed configurations; loss of earlier entries or of one kind of entries shows only after several merges of particular kinds.",
  files=[K + "configuration.cpp", K + "configuration.h", K + "configuration_error.cpp", K + "lola_service_instance_deployment.cpp"],
  mechanism=[("validation", K + "configuration.cpp"), ("merging", K + "configuration.cpp"), ("queries", K + "configuration.cpp")],
  rule="a case is a base configuration and a history of merges, additions and queries; non-trivial when at least two merges succeeded or an entry was duplicated",
  design="The union of the successfully merged models is kept next to the real object, every query is compared with it, and pointers taken earlier are read again at the end.",
  harnesses=[unit("config_units", "config_merging")], level_note=NOTE, quick_s=20)

P(id="C03", title="Identifiers and deployments keep identity through text and containers",
  statement="Every deployment, identifier, instance id and version comes back equal, with every detail, from its serialized form (except tracing slots, which are documented to stay in the process), and other serialization versions are refused. "
            "Equality, order, hash and compatibility of identifiers, handles, element ids and deployments are consistent: equality is an equivalence that agrees with what was configured, order is a strict weak order, equal values have equal hashes, and different elements have different keys. "
            "Instance specifiers accept exactly the documented names; the paths of shared memory objects and marker files of different instances, elements and qualities differ; known-instance containers behave as sets.",
  over=["inputs", "histories"],
  qtext="all identifiers and deployments over the full range of ids with coinciding parts, all texts as instance specifiers, all histories of up to sixteen container operations",
  why="Unit tests compare a few hand-picked values; orders that are inconsistent for three values, hashes that separate equal values, or keys that collide for large ids need generated sets of values.",
  files=[K + "service_instance_deployment.cpp", K + "lola_service_instance_deployment.cpp", K + "service_type_deployment.cpp", K + "service_identifier_type.cpp", K + "service_version_type.cpp", K + "service_instance_id.cpp", K + "lola_service_instance_id.cpp", K + "lola_event_instance_deployment.cpp",
         I + "instance_identifier.cpp", I + "handle_type.cpp", I + "instance_specifier.cpp", L + "element_fq_id.cpp", L + "shm_path_builder.cpp", L + "partial_restart_path_builder.cpp", L + "service_discovery/known_instances_container.cpp"],
  mechanism=[("serialization", K + "lola_service_instance_deployment.cpp"), ("identity and order", I + "instance_identifier.cpp"), ("element keys", L + "element_fq_id.cpp"), ("names of shared objects", L + "shm_path_builder.cpp"), ("known instances", L + "service_discovery/known_instances_container.cpp")],
  rule="a case is a set of values (or a container history); non-trivial when details, not only the id, are present, when values coincide in part, or when containers were merged",
  design="Values are generated from a model with few distinct parts; all pairs and triples are checked against the laws and against the model. Serialized forms go through the JSON text or the object directly.",
  harnesses=[unit("config_units", "deployment_serialization,identifier_laws,element_ids,instance_specifiers,object_names,known_instances,deployment_equality")], level_note=NOTE, quick_s=25)

H = "score/memory/shared/"

P(id="H01", title="Shared memory allocations never overlap and containers keep their contents",
  statement="Every block handed out by a shared memory resource lies inside its region, is aligned as asked, is disjoint from all other blocks handed out before and concurrently from any number of threads, and an allocation that does not fit is refused without harming earlier ones; the bytes counted as allocated equal what was used. "
            "The sizes computed for a layout suffice exactly for building it. "
            "Vectors, strings and maps placed in shared memory behave like their standard counterparts and read the same through another mapping of the region, also after moves, copies and swaps between resources.",
  over=["inputs", "histories", "schedules"],
  qtext="all sequences of sizes and alignments against any region size, all layouts of nested element types, all histories of container operations, and all interleavings of concurrent allocations",
  why="Unit tests allocate a few round sizes from one thread; overlap, exhaustion off by one, or a lost update between threads need unusual sizes, alignments and schedules.",
  files=[H + "shared_memory_resource.cpp", H + "pointer_arithmetic_util.cpp", H + "new_delete_delegate_resource.cpp", H + "memory_resource_proxy.cpp", H + "polymorphic_offset_ptr_allocator.h", H + "vector.h", H + "map.h", H + "string.h", H + "managed_memory_resource.cpp"],
  mechanism=[("bump allocation", H + "shared_memory_resource.cpp"), ("aligned sizes", H + "pointer_arithmetic_util.cpp"), ("size simulation", H + "new_delete_delegate_resource.cpp"), ("containers", H + "vector.h")],
  rule="a case is a region and a sequence of allocations, a layout, a container history, or a schedule of concurrent allocations; non-trivial when alignment padding and exhaustion occurred, the container was changed repeatedly and compared through a second mapping, or a task was preempted inside an allocation",
  design="The real resource over real shared memory is driven next to a list of blocks; containers next to their std counterparts, read back through a second mapping at another address. Concurrent allocations run under the owned scheduler.",
  harnesses=[unit("memory_units", "allocator_model,sized_layouts,containers_in_shm,resource_proxies"), owned("memory_schedules", "allocator_schedules")], level_note=NOTE + OWNED_NOTE, assumptions=OWNED_ASSUME, quick_s=25)

P(id="H02", title="Offset pointers resolve wherever they are copied and are bounds-checked",
  statement="An offset pointer, however it was created, copied, moved, swapped, compared, converted or advanced, and wherever it lies (inside a region, on the stack, in another region or in a byte-wise copy of its region), yields the object it refers to, and null stays null. "
            "An access through an offset pointer that lies in a registered region and whose target, with its full size, is not completely inside that region stops the process instead of reading or writing, and no access inside the region is refused.",
  over=["inputs", "histories"],
  qtext="all histories of creating, copying, moving, swapping, shifting and dereferencing pointers in several regions and on the stack, with targets in, at the edges of and outside the regions, and all conversions between pointer types",
  why="Unit tests check single copies between two places; the remembered bounds of a pointer copied out of and between regions depend on the whole history.",
  files=[H + "offset_ptr.h", H + "offset_ptr.cpp", H + "offset_ptr_bounds_check.cpp", H + "memory_region_bounds.cpp", H + "pointer_arithmetic_util.cpp"],
  mechanism=[("offset and remembered bounds", H + "offset_ptr.h"), ("bounds check", H + "offset_ptr_bounds_check.cpp")],
  rule="a case is a history of up to 40 operations on pointers in up to three regions and on the stack, or a chain of conversions; non-trivial when a pointer was copied between places and dereferenced near a region edge",
  design="A model keeps the target and the bounds of each pointer; accesses the model allows must succeed and yield the target, and accesses it forbids must terminate (observed in the same process through a replaced terminate path).",
  harnesses=[unit("memory_units", "offset_ptr_histories,offset_ptr_conversions")], level_note=NOTE, quick_s=20)

P(id="H03", title="The registry of memory regions resolves every address, under any schedule",
  statement="The region registry accepts exactly regions that neither share an id nor overlap with registered ones, resolves every address and id to exactly the region registered for it (or none), and forgets exactly what is unregistered, over every history. "
            "Readers of the region map, concurrent with any insertion and removal, always get the result of some consistent state: a region registered throughout is always found with its true bounds, an unregistered one never, and no update is lost.",
  over=["histories", "schedules"],
  qtext="all histories of registrations, removals, clears and lookups with touching, nested and duplicate regions at any address, and all interleavings of readers with the updater of the region map",
  why="The map is versioned and lock-free for readers; unit tests run it sequentially, so torn reads and reuse of a version under a reader are not exercised.",
  files=[H + "memory_region_map.cpp", H + "memory_resource_registry.cpp", H + "memory_region_bounds.cpp"],
  mechanism=[("versioned region map", H + "memory_region_map.cpp"), ("registry", H + "memory_resource_registry.cpp")],
  rule="a case is a history of registry operations, or a set of reader and updater programs with a schedule; non-trivial when overlapping registrations were refused and removals happened, or a reader was preempted by an update",
  design="Histories are compared with an ordered map of intervals. Schedules of readers and the updater are owned at the atomic operations; every lookup is checked against the states that were current between its start and its end.",
  harnesses=[unit("memory_units", "registry_model"), owned("memory_schedules", "region_map_schedules")], level_note=NOTE + OWNED_NOTE, assumptions=OWNED_ASSUME, quick_s=20)

P(id="H04", title="Named shared memory is created once and only opened when complete",
  statement="Of all processes that create or open a shared memory object at the same time, exactly one initialises it, and every process that opens it sees the complete content its creator wrote and its true size. "
            "Create fails for an object that exists or is being created, Open exactly for one that does not exist, and CreateOrOpen always yields the object. "
            "Content, size, owner check, access rights (whatever the umask), provider of typed or inter-VM memory and the identity of what is already open are as asked for; removing the name leaves users' mappings intact, and after a process died at any point, removing the stale artefacts makes a fresh creation possible. No descriptor or file is leaked.",
  over=["schedules", "crash_points", "histories", "inputs"],
  qtext="all interleavings, at the granularity of operating system calls, of up to three processes that create, open, use, drop and remove up to two objects, with the death of one process at any call, and all sequential histories over several paths, permissions, users, umasks and providers",
  why="Unit tests replace the operating system by mocks with one ideal order of calls; what a second process sees between two calls, or after a death, is not exercised.",
  files=[H + "shared_memory_resource.cpp", H + "shared_memory_factory_impl.cpp", H + "shared_memory_factory.cpp", H + "lock_file.cpp"],
  mechanism=[("creation under a lock file", H + "shared_memory_resource.cpp"), ("opening under the same lock", H + "shared_memory_resource.cpp"), ("one resource per path and process", H + "shared_memory_factory_impl.cpp")],
  rule="a case is a program per process, a schedule and possibly a death, or a sequential history; non-trivial when processes were switched inside operations and an object was created, a process died, or accesses succeeded and others were refused for a lock, provider or user",
  design="Real forked processes share a scratch file tree; every operating system call (and sleep) of the code under test is a scheduling point decided by the generator, which also picks the call at which a process dies. The existence of object and lock file is observed after every call, so each result is judged against what was true during the operation. Sequential histories run next to a model of paths, owners and holders, with a stand-in memory provider.",
  harnesses=[unit("memory_factory", "factory_schedules,factory_model", libs=["-lpthread"])], level_note=NOTE, quick_s=30)

P(id="H05", title="Lock files exclude others and disappear exactly with their owner",
  statement="A lock file can be created exclusively only while it does not exist and opened only while it does; it is removed exactly when the object that owns it ends (also through moves and assignments) and never by a non-owner, everyone may read it whatever the umask, and no descriptor is leaked even when an operation fails. "
            "Through these files, exclusive and shared mutexes grant a lock exactly when no other holder conflicts, and release it when unlocked or when the holder's file ends.",
  over=["histories", "inputs"],
  qtext="all histories of creating, opening, owning, moving, assigning and ending handles of several files, of outside removal, failing calls, and of exclusive and shared locking through any of the handles",
  why="Unit tests use mocks of the file calls; ownership through moves and real lock conflicts between handles need histories on the real file system.",
  files=[H + "lock_file.cpp", H + "flock/flock_mutex.cpp", H + "flock/exclusive_flock_mutex.cpp", H + "flock/shared_flock_mutex.cpp", H + "flock/flock_mutex_and_lock.h"],
  mechanism=[("ownership", H + "lock_file.cpp"), ("locking", H + "flock/flock_mutex.cpp")],
  rule="a case is a history of up to 30 operations on up to three files; non-trivial when a lock conflicted or an owner ended after its file had been replaced or shared",
  design="A model of files (by inode), handles, ownership and locks predicts every result and, after each operation, which files exist; descriptors are counted at the end.",
  harnesses=[unit("memory_factory", "lock_files", libs=["-lpthread"])], level_note=NOTE, quick_s=15)
