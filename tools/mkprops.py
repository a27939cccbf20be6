#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
R="crates/"
def a(files, mech, state=(), observe=(), hook=None):
    return dict(files=[R+f for f in files], mechanism=[dict(name=n, where=R+w) for n,w in mech],
                state=[dict(name=n, meaning=m) for n,m in state], observe_at=list(observe), hook_needed=hook)
P=[]
def p(id,title,st,over,text,why,anch): P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=anch))

p("C01","Every subscription obeys the notification grammar",
 "Whatever observables and operators are composed, an observer subscribed to the result sees any number of values followed by at most one terminal notification (one error or one completion). After a terminal notification, after the subscription was unsubscribed, and after the observer's side closed, it receives nothing more, no matter what the sources, the scheduler or the caller do afterwards.",
 ["programs","histories"],"every composition of observables and operators, every history of source notifications, ticks, unsubscriptions and drops",
 "the contract tests drive each operator alone with one or two fixed histories; compositions of operators and histories that close in the middle of a delivery are not sampled",
 a(["rx_core_common/src","rx_core_subject_publish/src/multicast.rs","rx_core_operator_take/src","rx_core_operator_end_with/src","rx_core_operator_count/src"],
   [("closed checks in every subscriber","rx_core_common/src/subscribers"),("multicast subscriber list","rx_core_subject_publish/src/multicast.rs")],
   [("closed","whether a subscriber has seen its end")],["observer callbacks"]))
p("C02","Closing is permanent and runs each teardown exactly once",
 "A subscription goes from open to closed at most once and never reopens. Every teardown attached to it runs exactly once: when the subscription closes through completion, error, unsubscription, drop or early close by its consumer, or immediately when it is attached to an already closed subscription; none runs while the subscription is still open.",
 ["programs","histories"],"every pipeline and every order of completing, erroring, unsubscribing, dropping and attaching teardowns, repeated and nested in teardowns included",
 "unit tests attach one or two teardowns and close in one way each; combinations of repeated closing, late attachment, shared handles and nested teardowns are not covered",
 a(["rx_core_common/src/subscriptions","rx_core_common/src/subscribers/subscriber_shared.rs","rx_core_operator_finalize/src","rx_core_subject_publish/src/multicast_subscription.rs"],
   [("closed flag plus finalizer list","rx_core_common/src/subscriptions/subscription_data.rs"),("deferred unsubscribe of shared subscriptions","rx_core_common/src/subscriptions/subscription_shared.rs")],
   [("finalizers","teardowns not yet run")],["teardown closures","is_closed"]))
p("C03","Early close by the consumer releases everything upstream",
 "When the consumer side of a pipeline closes before its sources do (a bounded take, a closed destination, or unsubscription), every operator and input upstream becomes closed, the teardowns of all inputs run, and no further work is done for it. When no open subscription is left, the scheduler holds no work for any of them, neither timed nor invocable.",
 ["programs","histories"],"every pipeline over subjects, iterators, timers and inner observables, closed at every point of its history including immediately on subscription",
 "the contract harness closes a fixed pipeline at one point (take 0 or take n) per operator; closing in other states (pending delayed values, queued inners, buffered values) is not sampled",
 a(["rx_core_common/src","rx_core_subscriber_higher_order_concurrent/src","rx_core_operator_delay/src","rx_core_operator_observe_on/src","rx_core_observable_timer/src","rx_core_observable_interval/src","rx_core_observable_iterator_on_tick/src"],
   [("closedness delegates downstream; cancellations registered as teardowns","rx_core_common/src/subscriptions/teardown.rs")],
   [("scheduled works","work held by the scheduler")],["is_closed","finalize callbacks","scheduler emptiness"]))
p("C04","Synchronous operators compute their documented function of the input",
 "For every input history the output of mapping, filtering, taking, skipping, finding, counting, folding, pairing, buffering, prefixing, suffixing, tapping and materializing operators, alone or composed in any order, equals the documented function of that history, value for value and in order, with the terminal notification at exactly the documented point. Values that a call-back produces are used exactly once, for the input that produced them.",
 ["inputs","programs"],"every sequence of values ending in completion, error or nothing, every parameter (zero included) and every composition of the operators",
 "each operator has a few example sequences; boundary parameters combined with every position of the terminal, and compositions, are not enumerated",
 a(["rx_core_operator_map/src","rx_core_operator_filter/src","rx_core_operator_scan/src","rx_core_operator_reduce/src","rx_core_operator_take/src","rx_core_operator_skip/src","rx_core_operator_pairwise/src","rx_core_operator_buffer_count/src","rx_core_operator_find/src","rx_core_operator_is_empty/src","rx_core_operator_start_with/src","rx_core_operator_end_with/src"],
   [("per operator subscriber state","rx_core_operator_scan/src/scan_subscriber.rs")],[("accumulator","operator state")],["observer callbacks"]))
p("C05","A subject delivers every notification to every subscriber once, in order",
 "While a subject is open, every subscriber present when a value is sent receives that value exactly once and in the order sent, unaffected by how many others subscribe, unsubscribe or finish. Completion, error or unsubscription of the subject reaches every open subscriber exactly once, closes the subject for good, and subscribers arriving later receive only that terminal (or are closed when it was an unsubscription).",
 ["histories"],"every history of subscribing, unsubscribing, sending values, completing, erroring and unsubscribing, over any number of subscribers and handles to the subject",
 "tests use one or two subscribers and one fixed order of calls",
 a(["rx_core_subject_publish/src"],[("subscriber map and deferred notification queue","rx_core_subject_publish/src/multicast.rs")],
   [("subscribers","currently attached subscribers"),("observed state","terminal seen")],["subscriber callbacks","is_closed"]))
p("C06","Re-entrant calls are neither lost, reordered nor deadlocked",
 "A call made on a subject, or on a pipeline behind it, from inside one of its own notifications (sending, completing, erroring, subscribing, unsubscribing itself or a sibling) takes effect exactly once after the notification being delivered, in the order in which such calls were made. It never deadlocks or panics short of the documented recursion limit, and every subscriber observes the same order of notifications.",
 ["programs","histories"],"every assignment of re-entrant reactions to subscribers (what they call back, on which notification, up to the recursion limit)",
 "tests exercise a handful of single re-entrant calls; combinations of several reacting subscribers and nested reactions are not covered",
 a(["rx_core_subject_publish/src","rx_core_common/src/subscribers/subscriber_shared.rs","rx_core_common/src/subscriptions/subscription_shared.rs"],
   [("try_lock plus deferred queue drained by the lock holder","rx_core_subject_publish/src/multicast.rs")],
   [("deferred queue","calls waiting for the delivery in progress")],["subscriber callbacks","termination of the call"]))
p("C07","Value-remembering subjects replay exactly what they promise",
 "A new subscriber first receives what the subject remembers - the latest value of a behaviour subject, the last N values of a replay subject in order, the last value of an asynchronous subject together with its completion, the value with its provenance of a provenance subject - and then the live notifications, with no value missed or repeated. What is remembered reflects only values accepted while the subject was open, and an error or completion is handed to late subscribers as documented for that subject.",
 ["histories"],"every history of sending, subscribing, unsubscribing, completing and erroring, every replay capacity",
 "tests fix one capacity and one or two subscribers; values sent after the subject closed, and subscribing at each point, are not enumerated",
 a(["rx_core_subject_behavior/src","rx_core_subject_replay/src","rx_core_subject_async/src","rx_core_subject_provenance/src"],
   [("stored value or buffer next to a multicast subject","rx_core_subject_replay/src/replay_subject.rs")],[("remembered values","what a late subscriber receives")],["subscriber callbacks"]))
p("C08","The scheduler runs each work exactly when it is due, and never after cancel",
 "Delayed work runs once at the first tick at or after its due time; repeated work runs once per elapsed interval up to its per-tick bound; continuous work runs once per tick until done; immediate work runs once in the tick it is picked up; invoked work runs once per invocation. Works run in the order they were scheduled, works scheduled or invoked by a running work are picked up in the same tick, cancelled work never runs again, cancelling one work affects no other, and time never runs backwards.",
 ["schedules","histories"],"every history of scheduling, cancelling and invoking (also from inside running work) and every sequence of tick lengths",
 "tests use one kind of work at a time with regular ticks; mixtures of kinds, irregular ticks and requests made by running work are not covered",
 a(["rx_core_scheduler_ticking/src","rx_core_common/src/scheduling"],[("action queue drained until nothing changes","rx_core_scheduler_ticking/src/ticking_executor.rs")],
   [("active works","works waiting for their time"),("clock","scheduler time")],["work closures","executor emptiness"]))
p("C09","Timing operators emit the right values at the right ticks",
 "Delaying, re-scheduling, debouncing, throttling, silence-fallback and envelope operators emit, for every history of source notifications and ticks, exactly the values their documentation promises, in order, at the first tick at or after they are due. Errors are immediate and cancel what is pending where documented, completion follows the last pending value, and nothing pending is emitted after the subscription closed.",
 ["inputs","schedules","histories"],"every interleaving of source notifications with ticks of every length, every duration (zero included) and option",
 "tests use one regular tick pattern per operator",
 a(["rx_core_operator_delay/src","rx_core_operator_observe_on/src","rx_core_operator_subscribe_on/src","rx_core_operator_debounce_time/src","rx_core_operator_throttle_time/src","rx_core_operator_fallback_when_silent/src","rx_core_operator_adsr/src"],
   [("work scheduled per value, counted until completion","rx_core_operator_delay/src/delay_subscriber.rs")],[("pending emissions","values waiting for their tick")],["observer callbacks per tick"]))
p("C10","Creation observables produce their sequence and then finish",
 "Creation observables emit exactly their documented sequence and terminal: values of an iterator in order, a single value, an error, nothing, or on schedule - an interval its counter once per elapsed period within its per-tick bound, a timer once and then completion, a ticking iterator one item per requested number of ticks with completion right after the last. They stop as soon as the consumer closes, and pull nothing further from what they iterate.",
 ["inputs","schedules"],"every sequence, duration, tick pattern and option, and every point at which the consumer closes",
 "tests use one tick size and one closing point",
 a(["rx_core_observable_interval/src","rx_core_observable_timer/src","rx_core_observable_iterator/src","rx_core_observable_iterator_on_tick/src","rx_core_observable_just/src","rx_core_observable_throw/src","rx_core_observable_empty/src","rx_core_observable_create/src","rx_core_observable_deferred/src"],
   [("repeated or delayed work plus cancellation teardown","rx_core_observable_interval/src/interval_observable.rs")],[("counter","next value")],["observer callbacks per tick"]))
p("C11","Flattening operators follow their concurrency policy",
 "Merging and concatenating run at most the configured number of inner observables at a time and start the waiting ones in arrival order as soon as a place frees up, dropping none; switching unsubscribes the previous inner when a new one arrives; exhausting ignores new inners while one is running. Values of running inners pass in the order they are emitted, the first error ends everything, and completion happens exactly when the outer and all started or queued inners have completed.",
 ["histories","configurations"],"every interleaving of outer arrivals, inner values, completions, errors and unsubscriptions, every concurrency limit, synchronous and asynchronous inners",
 "tests use two or three inners in one fixed interleaving per policy",
 a(["rx_core_subscriber_higher_order_concurrent/src","rx_core_subscriber_higher_order_switch/src","rx_core_subscriber_higher_order_exhaust/src","rx_core_subscriber_higher_order_all/src","rx_core_subscriber_higher_order_map/src","rx_core_observable_merge/src","rx_core_observable_concat/src"],
   [("queue and slab of inner subscriptions","rx_core_subscriber_higher_order_concurrent/src")],[("queue","inners waiting"),("running","inners subscribed")],["observer callbacks","inner subscribe and finalize callbacks"]))
p("C12","Combining observables emit the right combinations and complete on time",
 "Latest-value combination emits one tuple of the most recent values for every input value once all inputs have produced one; change combination additionally says which input changed; zipping pairs the n-th values of its inputs respecting its buffer limit and overflow policy; joining emits the last values when all inputs completed; sampling with the latest from another source emits only on the main source. They complete as soon as, and not before, no further combination is possible, and an error of any input is passed on once.",
 ["histories","configurations"],"every interleaving of the inputs' values, completions, errors and unsubscriptions, every buffer limit and overflow policy",
 "tests use a few fixed interleavings per operator",
 a(["rx_core_observable_combine_latest/src","rx_core_observable_combine_changes/src","rx_core_observable_zip/src","rx_core_observable_join/src","rx_core_operator_with_latest_from/src","rx_core_notification_store/src","rx_core_notification_variadics/src"],
   [("per input state and stored notifications","rx_core_notification_store/src")],[("latest or queued values per input","what is combined next")],["observer callbacks"]))
p("C13","Error handling operators recover exactly as configured",
 "Retrying resubscribes after an error at most the configured number of times and passes on the error only when the attempts are used up; catching switches once to the replacement and continues with it; mapping, materializing, dematerializing and result conversions of errors lose, duplicate or reorder nothing. A successful run passes through unchanged, and unsubscribing at any point stops every attempt.",
 ["fault_sequences","configurations"],"every sequence of failing and succeeding attempts, synchronous or not, every retry limit (zero included), every point of unsubscription",
 "tests use one or two failures at fixed positions",
 a(["rx_core_operator_retry/src","rx_core_operator_catch/src","rx_core_operator_map_error/src","rx_core_operator_materialize/src","rx_core_operator_dematerialize/src","rx_core_operator_into_result/src","rx_core_operator_lift_result/src","rx_core_operator_error_boundary/src"],
   [("caught error counter and resubscription","rx_core_operator_retry/src")],[("attempts","number of failures so far")],["observer callbacks","source subscription callbacks"]))
p("C14","Shared and connectable observables subscribe to the source once per connection",
 "However many consumers a shared or connectable observable has, the source is subscribed exactly once per connection, every consumer sees each value emitted during its own subscription exactly once, and nothing reaches consumers before the connection is made. With reference counting the source is released when the last consumer leaves and not before; after disconnection, completion or error it is reset and reconnected only as the options say.",
 ["histories","configurations"],"every history of subscribing, unsubscribing, connecting, disconnecting and source notifications, every combination of options and connector kind",
 "tests use one or two consumers and the default options",
 a(["rx_core_observable_connectable/src","rx_core_operator_share/src"],[("connector subject plus reference count","rx_core_observable_connectable/src")],
   [("connected","whether the source is subscribed"),("reference count","number of consumers")],["source subscribe and finalize callbacks","consumer callbacks"]))
p("C15","Subscriptions of the same observable are independent",
 "Subscribing several times to the same composed observable creates independent runs: every subscription gets its own operator state and, for cold sources, its own source run, so what one subscriber sees is the same as if it were alone. Clones of an observable or operator behave like the original, and closing one subscription leaves the others untouched.",
 ["programs","histories"],"every pipeline, every number of subscriptions and every interleaving of their lifetimes",
 "tests subscribe once per pipeline almost everywhere",
 a(["rx_core_common/src/operator_composable.rs","rx_core_common/src/pipe","rx_core_operator_scan/src","rx_core_operator_enumerate/src","rx_core_operator_take/src","rx_core_operator_composite/src","rx_core_common/src/observables/erased_observable.rs"],
   [("subscriber state created at subscribe time","rx_core_common/src/pipe/pipe_observable.rs")],[("operator state","per subscription")],["observer callbacks"]))
p("C16","Subscription entities live and die with their subscription",
 "In the game engine integration a subscription requested through commands becomes an entity related to the observable it runs on. Despawning that entity, removing its subscription component, or unsubscribing ends the subscription exactly once, runs its teardowns once and removes the entity; a subscription that finishes by itself removes its entity too. A subject living on an entity is closed with its component or entity, and so are its subscriptions; a despawned observable takes no further subscriptions. A subscription that cannot be made is retried in the following frame and otherwise given up, closing its destination. What is emitted after a subscription ended is not delivered, nothing is delivered to an entity that does not exist any more, and when the app exits every remaining subscription entity is closed.",
 ["histories","crash_points"],"every history of spawning, subscribing, sending, despawning (each side, in any frame and order) and app exit",
 "tests cover single despawn orders in isolation",
 a(["rx_bevy_common/src","rx_bevy/src"],[("component hooks and linked despawn relationship","rx_bevy_common/src")],
   [("subscription entity","owner of the running subscription")],["destination events","entity existence","finalize callbacks"]))
p("C17","Engine sources and schedules deliver each item once, in their own schedule",
 "Events of an entity, messages, additions and changes of a resource, keyboard input and proxied entity streams are delivered to their subscribers once each (keys held down: once per run) and in the order they happened, from the first run of their schedule after subscribing until the subscription ends; a new subscriber also receives the messages that are still buffered, and the stream of an entity's events completes when the entity is despawned or missing. Scheduled work in the engine, and everything observables deliver through it, runs only in the schedule it was assigned to, by that schedule's own clock, and stops when cancelled or when its subscription ends.",
 ["schedules","histories"],"every sequence of frames, frame durations, pauses, writes and subscriptions",
 "tests cover single frames with a fixed time step",
 a(["rx_bevy_observable_event/src","rx_bevy_observable_message/src","rx_bevy_observable_resource/src","rx_bevy_observable_keyboard/src","rx_bevy_observable_proxy/src","rx_bevy_common/src"],
   [("per schedule and clock executor systems","rx_bevy_common/src")],[("executor per schedule","works bound to a schedule")],["destination events per frame"]))
p("C18","Subjects and shared subscribers used from several threads lose nothing",
 "When several threads use one publish subject, shared subscriber or shared subscription at the same time, every value sent while it is open is delivered exactly once to every subscriber attached throughout, each thread's values arrive in that thread's order, all subscribers agree on a single order, and once all threads are done nothing is left undelivered. All subscribers are told the same end, at most once, and nothing follows it; nobody who joins while it ends is left behind, and every teardown added runs exactly once. No interleaving deadlocks or panics.",
 ["schedules"],"every interleaving of the threads' calls",
 "the tests are single-threaded",
 a(["rx_core_subject_publish/src","rx_core_common/src/subscribers/subscriber_shared.rs","rx_core_common/src/subscriptions/subscription_shared.rs"],
   [("try_lock or defer to the lock holder","rx_core_subject_publish/src/multicast.rs")],
   [("deferred queue","calls handed to the lock holder")],["subscriber callbacks after all threads joined"]))
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
