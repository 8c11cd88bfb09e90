import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
H="cfg(dam_sim): the crate's std imports (threads, locks, atomics, clocks) resolve to the simulator's"
SCH="The tests run each program once under whatever interleaving the OS picks; "
p("C01","A program's results do not depend on thread scheduling",
 "A program whose contexts only interact through channels and clock views, and only act on what peeks and waits guarantee, produces the same values, the same element timestamps, the same context clocks at every operation, the same outcome of every operation and the same set of failures in every execution, whatever the thread scheduling. The only quantities that may differ are those the documentation leaves open: how far an answer of \"nothing yet\" or a clock view looks ahead, and the clock of a receiver after its channel has closed.",
 ["schedules","programs"],"Every pair of executions of one program, under any two thread schedules, spurious wake-ups, stalls, clock jumps and stale relaxed loads.",
 SCH+"none of them runs a program twice and compares.",
 ["src/channel","src/view/basic.rs","src/simulation/initialized.rs","src/templates"],
 [("cyclic peek waits for the sender's clock","src/channel/receiver/mod.rs ReceiverCommon::peek"),("senders wait for responses in simulated time","src/channel/sender/bounded.rs"),("clock release/acquire and signalling","src/view/basic.rs")],
 ["what each context's enqueue/dequeue/peek calls return and its clock around them","Executed::elapsed_cycles, run_failures"],hook=H)
p("C02","Channels deliver every element exactly once, in order, then closure",
 "The sequence of elements a receiver takes from a channel is a prefix of the sequence successfully enqueued, unmodified and without loss, duplication or reordering, for bounded, unbounded, cyclic, acyclic and self-connected channels. If the receiver keeps receiving it gets all of them, and it is told the channel is closed only after the sender is gone and every element was taken; once closed, a channel stays closed. A send fails only if the receiver is gone, and sends on a discarding channel always succeed.",
 ["schedules","programs","fault_sequences"],"All programs, capacities, flavors and schedules, including either side ending, failing or panicking at any operation.",
 SCH+"closure racing with the last elements, with peeks, or with an early end of the receiver is met by luck only.",
 ["src/channel"],[("head caching across peek/dequeue","src/channel/receiver/cyclic.rs, acyclic.rs"),("re-check after waiting for the sender's clock","src/channel/receiver/mod.rs"),("termination of ends on drop and cleanup","src/channel/mod.rs, handle.rs")],
 ["Sender::enqueue results","Receiver::dequeue/peek/peek_next results"],[("head","element peeked but not yet taken","src/channel/receiver/mod.rs ReceiverData")],H)
p("C03","Channel operations obey the latency and clock laws",
 "An element enqueued with requested time r by a sender whose clock then is s arrives stamped with the larger of r and s plus the channel's latency (one cycle unless configured), and receiving it moves the receiver's clock to exactly the maximum of its own clock and that stamp. Enqueueing on a channel with free space never moves the sender's clock, waiting for an element moves the receiver's clock never beyond the next element's stamp, and no clock ever runs backwards.",
 ["inputs","programs","schedules"],"All latencies, requested times, clock distances, capacities and flavors under all schedules.",
 "Tests use latencies 0 and 1 and mostly look at values only; whether clocks overshoot depends on when the receiver looked.",
 ["src/channel/sender","src/channel/receiver","src/channel/channel_spec.rs","src/view/basic.rs"],[("stamping on enqueue","src/channel/sender/mod.rs, bounded.rs, unbounded.rs"),("advance on receipt","src/channel/receiver/cyclic.rs, acyclic.rs")],
 ["ChannelElement.time","TimeManager::tick around each operation"],hook=H)
p("C04","Bounded channels model backpressure cycle-exactly",
 "At most the configured number of elements is ever outstanding on a bounded channel, counted in simulated time: the n-th enqueue onto a full channel takes effect only when the element that frees its slot was received and the response latency has elapsed. The sender's clock is then advanced to exactly that moment (if it was earlier) and not otherwise, so stall cycles are the same under all schedules; waiting for availability has the same effect without sending, and occupies nothing.",
 ["schedules","programs","inputs"],"All capacities, latencies, response latencies, rates and interleavings of both sides; availability waits mixed with sends.",
 SCH+"the tests check capacities on straight producer/consumer pairs and never the clock at which a blocked send resumes relative to receipts in another order.",
 ["src/channel/sender/bounded.rs","src/channel/receiver/mod.rs","src/channel/channel_spec.rs"],[("delta and response accounting","src/channel/sender/bounded.rs"),("responses","src/channel/receiver/mod.rs register_recv")],
 ["sender's clock after enqueue and wait_until_available","number of elements sent but not received"],[("send_receive_delta, next_available","slots in use; response known but not used yet","src/channel/sender/bounded.rs")],H)
p("C05","Peeks and event queries are sound, and change nothing",
 "A peek that answers with an element names exactly the element and stamp the next receive returns; one that answers nothing up to time t guarantees that the next element is stamped later than t, with t not earlier than the receiver's own clock; one that answers closed guarantees that no element follows. Peeking never moves the own clock, consumes an element or changes what later operations return; waiting for the next element moves the clock to it but leaves it in place. The event of several channels combined (any, all) is ready only if, and no earlier than, the respective channels are.",
 ["schedules","programs","histories"],"All interleavings of peeks, receives, waits and event queries with the sender's progress, on all flavors.",
 "The one test of events peeks at a single unbounded channel; a wrong answer needs the sender to move between two looks at the queue.",
 ["src/channel/receiver","src/channel/utils.rs"],[("second look after waiting for the sender's clock","src/channel/receiver/mod.rs ReceiverCommon::peek"),("event combination","src/channel/utils.rs EventAll, EventAny")],
 ["PeekResult, EventTime answers against the elements received later"],hook=H)
p("C06","Clock views never lie and never miss a wake-up",
 "Waiting for another context's clock to reach t returns only when it has, with a value that clock actually reached, and does return once it has or the context has ended; a lower bound read from a view is never above the true clock and never decreases. An ended context's view is at infinity, the view of a composite context is the minimum over its parts, and advancing a clock to the past changes nothing.",
 ["schedules","histories"],"Any number of waiters with any targets, any interleaving of registrations, increments, jumps and the owner's end; spurious wake-ups and stale loads.",
 SCH+"a lost wake-up needs the owner to pass between a waiter's check and its registration.",
 ["src/view/basic.rs","src/view/parent.rs","src/context/mod.rs","src/channel/channel_spec.rs"],[("signal registration under lock with re-check","src/view/basic.rs BasicContextView::wait_until"),("scan on advance and cleanup","src/view/basic.rs TimeManager"),("minimum over children","src/view/parent.rs")],
 ["ContextView::wait_until, tick_lower_bound return values","TimeManager::tick"],[("signal_buffer","parked waiters and their targets","src/view/basic.rs")],H)
p("C07","Programs that can finish do finish",
 "If some order of operations lets every context of a program run to its end, then every execution of the program ends: run() returns after a bounded number of steps once the scheduler is fair, and no context is left waiting for an element, a slot or a clock that has already arrived. This holds for cyclic and acyclic graphs, for contexts that end early, and independent of the order in which contexts were registered.",
 ["schedules","programs","fault_sequences"],"All programs for which the reference model completes, under all schedules, starvation patterns, stalls and spurious wake-ups.",
 SCH+"a hang that needs one particular interleaving would show as a rare time-out.",
 ["src/channel","src/view","src/simulation/initialized.rs","src/shim","src/context"],[("park/unpark protocol","src/view/basic.rs"),("end of a context releases its channels and clock","src/context, dam-macros context_macro"),("scoped threads","src/shim/os_threads.rs")],
 ["whether run() returns; which tasks are blocked and on what if not"],hook=H)
p("C08","Channel flavor inference changes speed, never results",
 "Initializing a program with flavor inference yields the same values, stamps, clocks, outcomes and elapsed cycles as without it, and never makes a program hang or panic whose waits do not depend on a full channel or on another context's clock; in particular inference treats a channel as acyclic only if no element sent on it can come back to its sender through the connections the contexts declare. Composite contexts declare all the connections they have.",
 ["programs","schedules","configurations"],"All graphs (chains, diamonds, cycles, self-loops, merges, memories) with and without inference under all schedules.",
 "Tests enable inference on a handful of fixed graphs, mostly a memory with one reader and writer.",
 ["src/simulation/building.rs","src/channel/flavors.rs","src/channel/handle.rs","src/context/mod.rs","src/templates/pmu.rs","src/utility_contexts"],[("strongly connected components over contexts and channels","src/simulation/building.rs initialize"),("explicit connections","Context::edge_connections implementations")],
 ["everything an execution shows, with run_flavor_inference on and off"],hook=H)
p("C09","One failing context is contained, and reported",
 "If contexts return errors or panic at any point, run() still returns: every context that failed is listed among the failures exactly once with its own identifier and error, no context that succeeded is listed, and passed() is true exactly if nothing is listed. The others see closed channels and a finished clock where the failed context was connected, lose nothing that had been delivered to them before, and go on to their own end.",
 ["fault_sequences","schedules","crash_points","programs"],"Errors and panics at every operation of every context, several at once, failing thread creation, within composite contexts and their internal threads, under all schedules.",
 "The one test of failures lets a checker fail at a fixed element; the crash point relative to other contexts' waits is what matters.",
 ["src/simulation/initialized.rs","src/simulation/executed.rs","src/context/mod.rs","src/templates/pmu.rs","dam-macros/src"],[("catch_unwind around run","src/context/mod.rs run_falliable"),("cleanup on drop","dam-macros context_macro; src/templates/pmu.rs"),("failure queue","src/simulation/initialized.rs")],
 ["Executed::passed, run_failures, elapsed_cycles","what the surviving contexts observe"],hook=H)
p("C10","Ending early closes cleanly in both directions",
 "When a context ends or drops its end of a channel, its peers are told: receivers first get everything sent, then closure; senders, including ones blocked on a full channel or waiting for availability, get an error instead of waiting forever. A context that has ended never holds back another's clock, and closure propagates through a whole pipeline of contexts until all have ended.",
 ["schedules","crash_points","programs"],"Every point at which either side may end relative to the other side's operations, waits and full or empty queues, under all schedules.",
 "Existing tests let consumers outlive producers; ending the receiver while the sender is blocked is a race that they never set up.",
 ["src/channel/mod.rs","src/channel/handle.rs","src/channel/sender","src/channel/receiver","src/view/basic.rs"],[("terminated ends","src/channel/sender/terminated.rs, receiver/terminated.rs"),("cleanup on Drop","src/channel/mod.rs"),("infinite clock on cleanup","src/view/basic.rs")],
 ["EnqueueError::Closed, DequeueError::Closed and when they appear"],hook=H)
p("C11","The pattern memory unit is a linear, timed scratchpad",
 "Reads and writes of the memory unit act in simulated-time order: a read at cycle t returns the latest value written to its address at or before t (or the configured default), never a later one, whatever the order in which its internal reader and writer threads run. Every read request yields one response and every write one acknowledgement, in request order per port and with the stamps the ports' clocks imply; out-of-range and unset accesses follow the configured behaviour; ports ending or failing at different times neither hang nor lose pending requests, and the unit is reported as failed if it has a response that it cannot deliver.",
 ["schedules","programs","inputs","fault_sequences"],"All numbers of reader and writer ports, address patterns, relative timings and schedules.",
 "Tests use one reader and one writer in lock step, so reads never race with writes in real time.",
 ["src/templates/pmu.rs","src/templates/datastore.rs"],[("reader waits for the writers' clock","src/templates/pmu.rs"),("time-ordered store","src/templates/datastore.rs"),("parent view over both pipelines","src/templates/pmu.rs, src/view/parent.rs")],
 ["elements on read-data and acknowledgement channels with their stamps"],hook=H)
p("C12","The DRAM model conserves requests and respects its timing",
 "Each read request on any port of the DRAM yields exactly the requested data, each write exactly one acknowledgement after its data is visible, in request order per port, with no more requests in flight than configured. Responses carry stamps no earlier than the request's arrival plus the configured latency and transfer time, are identical under every schedule, and requests are served in the order of their simulated arrival times. When ports end early, every response still comes from data written or preset, nothing hangs, and the unit is reported as failed exactly if a request is cut off or a response cannot be delivered.",
 ["schedules","programs","inputs"],"All mixes of read and write ports, sizes, arrival times and limits under all schedules.",
 "The only test writes and reads back through one port each.",
 ["src/templates/dram.rs"],[("event selection over bundles","src/templates/dram.rs run"),("bandwidth and latency accounting","src/templates/dram.rs")],
 ["elements on data and acknowledgement channels with their stamps"],hook="cfg(dam_sim_dram): constructors for the bundle and configuration types, whose fields are private")
p("C13","The time-indexed store answers by simulated time",
 "A read of an address at time t returns the value with the largest write time not after t, and the default (or the configured failure) if there is none, however many later writes there are and whatever reads and writes go on at the same time. Writes of one address are issued in increasing time; one into the past of its address is refused, never recorded out of order. Capacity and address wrapping follow the configuration, and concurrent access never loses a write.",
 ["schedules","histories","inputs"],"All histories of concurrent timed reads and writes, including attempted writes into the past and reads before any write.",
 "The unit tests write in increasing time order from a single thread.",
 ["src/templates/datastore.rs"],[("ordered history per address","src/templates/datastore.rs"),("lock","src/templates/datastore.rs")],
 ["Datastore::read results"],hook=H)
p("C14","Utility contexts do exactly what they say",
 "Generators emit every item of their iterator in order, one per cycle or at the traced times; broadcasts hand each element to all targets exactly once with its order and timing kept; consumers and printers take everything; checkers pass exactly if the received sequence equals (or approximates within tolerance) the expected one, including its length, and otherwise fail with an error that names the context. All of them stop without hanging or panicking when their peer ends early; one that could not deliver all it had is reported as failed, one that could is not.",
 ["programs","inputs","schedules","fault_sequences"],"All item sequences, lengths, capacities, mismatch positions, early-ending peers and schedules.",
 "The tests use each of them as scaffolding with matching lengths and lasting peers.",
 ["src/utility_contexts"],[("context run functions","src/utility_contexts/*.rs")],
 ["elements with stamps seen by the peers","failures reported"],hook=H)
p("C15","Log events reach the database, filtered, once, correctly attributed",
 "With a database configured, every event that a context logs and its filter allows, and the end of every context, is stored exactly once when run() returns, with the identifier of the context that logged it, its clock at that moment and non-decreasing real timestamps that all count from one start; this includes what channels and clocks log themselves. Events the filter forbids are not stored, and nothing is logged outside of contexts or without a logger. This holds however insertions are delayed or reordered and also for events logged right before a context ends, fails or panics; if the database fails, contexts that suffer from it are reported and nothing hangs.",
 ["schedules","fault_sequences","programs"],"All programs and schedules, with delayed, reordered and failing insertions, blanket and per-context filters.",
 "There is no database in the test environment: the logger is never run.",
 ["src/logging","src/simulation/initialized.rs","dam-macros/src"],[("batching and final flush","src/logging/mongo_logger.rs"),("thread-local interface and clock copy","src/logging/log_interface.rs, log_functions.rs"),("sender dropped before join","src/simulation/initialized.rs")],
 ["documents in the database when run() returns"],hook=H+"; the mongodb and futures crates are replaced by facades")
p("C16","The compute pipeline computes its stages with exact latency",
 "For every complete set of input elements the compute unit emits exactly one set of outputs, in order, whose values are those of the configured stages applied to the inputs in sequence with registers forwarded as configured, stamped by the cycle in which all inputs were present plus the pipeline depth. When any input ends, everything in flight is still emitted, nothing else is, and the unit ends.",
 ["programs","inputs","schedules"],"All stage configurations, numbers of inputs and outputs, depths, arrival patterns, backpressure and schedules.",
 "Tests run two fixed pipelines with generators at full rate.",
 ["src/templates/pcu.rs","src/templates/ops.rs"],[("pipeline registers and progress","src/templates/pcu.rs run"),("stage evaluation","src/templates/pcu.rs PipelineStage::run")],
 ["elements on the output channels with their stamps"],hook=H)
p("C17","The execution summary tells the truth",
 "When run() returns all contexts have ended and their clocks are final: elapsed_cycles() is the largest clock at which a successful context (or one of its parts) ended, none only if no context succeeded, and the failures and passed() agree with what the contexts did. Nothing of the program is still running or still holds its resources.",
 ["schedules","programs","fault_sequences"],"All programs, ends, failures, failed thread creations and schedules.",
 "Tests assert elapsed cycles on a few fixed programs without failures.",
 ["src/simulation/executed.rs","src/simulation/initialized.rs","src/context/summary.rs","src/context/proxy.rs"],[("summaries and failures collected per thread","src/simulation/initialized.rs run"),("max_time over children","src/context/summary.rs")],
 ["Executed::elapsed_cycles, passed, run_failures, dump_failures"],hook=H)
p("C18","Programs in one process do not influence each other",
 "Several programs built and run at the same time in one process behave exactly as each would alone, whether or not some of them fail, panic or hang up early. Identifiers of contexts and channels are unique across all programs of the process, however their construction interleaves.",
 ["schedules","programs","fault_sequences"],"Any two or three programs, built and run concurrently, under all interleavings.",
 "Each test builds one program; cross-talk needs two at once.",
 ["src/datastructures/identifier.rs","src/channel/channel_id.rs","src/logging/log_functions.rs","src/simulation"],[("atomic identifier counters","src/datastructures/identifier.rs, src/channel/channel_id.rs"),("thread-local logger","src/logging/log_functions.rs")],
 ["each program's observations against its reference alone","identifiers"],hook=H)
p("C19","All build configurations implement the same semantics",
 "Built with unbounded instead of bounded underlying queues, with the cycle-by-cycle variant of clock advancement, or with database logging enabled, the library gives every program the same values, stamps, clocks, backpressure, closure, failures and progress as in its default build. Switching logging on or off, or choosing another run mode, changes no result.",
 ["configurations","programs","schedules"],"All programs and schedules, in each of the three non-default builds, in default and FIFO run modes.",
 "The test suite is built in one configuration.",
 ["Cargo.toml","src/channel/sender","src/view/basic.rs","src/logging","src/shim"],[("feature-dependent queue construction","src/channel/channel_spec.rs, src/channel/flavors.rs, src/channel/handle.rs"),("run modes","src/shim/os_threads.rs")],
 ["everything an execution shows, against the same reference model"],hook=H)
p("C20","Malformed programs are rejected at initialization",
 "Initialization returns an error, naming the culprit, for every program with a channel end that was never attached or is attached to a context that was not registered, and succeeds for all others.",
 ["programs","configurations","fault_sequences"],"All program graphs with a fault in the wiring of any end or the registration of any context, and all whole ones, with and without inference.","No test initializes a malformed program.",
 ["src/simulation/programdata.rs","src/simulation/building.rs"],[("connectivity check","src/simulation/programdata.rs check")],["ProgramBuilder::initialize result"])
p("C22","Typed channel adapters are transparent",
 "A channel used through the converting adapters behaves in every respect as when used directly: the same elements in the same order with the same stamps, clocks, peeks, waiting, backpressure and closure, each value converted exactly once by the given conversions. Attaching an end through an adapter connects it like attaching it directly.",
 ["programs","schedules","inputs"],"All operations through adapters on either or both ends, on all flavors and capacities, under all schedules.",
 "The adapters are only exercised inside the memory unit with identity conversions.",
 ["src/channel/adapters.rs","src/channel/mod.rs"],[("delegation","src/channel/adapters.rs"),("element conversion","src/channel/mod.rs ChannelElement::convert, try_convert")],
 ["results of operations through RecvAdapter and SendAdapter"],hook=H)
p("C23","The graph exported of a program shows the program and its execution",
 "The DOT graph of an initialized program shows every registered context exactly once under its own identifier and name, composites as clusters of exactly their parts at any depth, and every channel between two contexts exactly once, from its sender to its receiver, with its identifier, capacity and latencies. That of an executed program shows in the same way exactly the contexts that succeeded, each with the clock at which it ended, whatever the order in which they finished, and all channels. Exporting can be repeated with the same result, does not influence the run, and the text exported denotes the same graph.",
 ["programs","schedules","fault_sequences"],"All programs, nestings and connections, and all ends, failures and orders of completion of their contexts.",
 "No test exports a graph; the summaries it is made of are collected by racing threads.",
 ["src/simulation/dot.rs","src/simulation/initialized.rs","src/simulation/executed.rs"],[("clusters from the contexts' ids","src/simulation/initialized.rs emit_node"),("nodes from summaries","src/simulation/executed.rs add_node"),("channels with their specs","src/simulation/dot.rs generate_edge")],
 ["DotConvertible::to_dot, to_dot_string of Initialized and Executed"],hook=H)
p("C21","Simulated time arithmetic is total, ordered and saturates at infinity",
 "Times compare like their cycle counts with infinity above all of them, adding to or subtracting from infinity leaves it unchanged, and finite arithmetic agrees with integers.",
 ["inputs"],"All pairs of times and cycle counts.","Tests sample a few values.",
 ["src/datastructures/time.rs"],[("operator implementations","src/datastructures/time.rs")],["operator results"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
