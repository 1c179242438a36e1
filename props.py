"""What each check runs."""
LOCAL_REAL = ["core/*.c", "core/threaded/*.c (scheduler NP, GEDF_NP, ADAPTIVE)", "core/modal_models/modes.c", "core/utils/**", "lib/schedule.c", "low_level_platform/impl (Linux, unix clock)", "platform/impl", "tag.c, clock.c"]
LOCAL_STUB = ["pthread mutexes, conditions, threads (cooperative fibers with pthread semantics)", "clock_gettime and nanosleep (simulated time)", "malloc/free (checked arena)", "stdio (in memory)",
              "the code the LF compiler would generate (sim/node/glue.c, interpreted from a generated program description)"]
ASSUME = ["Reactions behave as the LF compiler and the API documentation require (declared effects only, tokens not modified after they were sent, no lf_schedule on undeclared actions).",
          "Interleavings are sequentially consistent: preemption happens at synchronisation calls, library calls and at drawn instrumented memory accesses; weak-memory effects are not simulated.",
          "Search is by seeds; a clean run is evidence for the executions that were run, not a proof."]
ALL4 = ["st", "np", "gedf", "adapt"]
def local(**kw):
    d = dict(images=ALL4, real=LOCAL_REAL, stub=LOCAL_STUB, assumptions=ASSUME, quick=60, thorough=600); d.update(kw); return d
PROPS = {p: local(profiles=[p]) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12")}
FED_REAL = LOCAL_REAL + ["core/federated/federate.c", "core/federated/network/net_util.c", "core/federated/RTI/main.c, rti_common.c, rti_remote.c (2 to 4 federates and the coordinator run as separate nodes of one process)"]
FED_STUB = LOCAL_STUB + ["sockets (simulated TCP and UDP with delay, fragmentation, short writes, EINTR, partitions and resets)"]
def fed(p, **kw):
    d = dict(profiles=[p], images=["fedc", "rti"], real=FED_REAL, stub=FED_STUB, assumptions=ASSUME, quick=60, thorough=600); d.update(kw); return d
PROPS.update({p: fed(p) for p in ("C13", "C14", "C15", "C16", "C17", "C18", "C19")})
PROPS["C21"] = fed("C21", images=["fedc", "afedc", "rti", "adv"])
PROPS["C21"]["real"] = PROPS["C21"]["real"] + ["federates and coordinator also with HMAC authentication (OpenSSL)"]
PROPS["C21"]["stub"] = PROPS["C21"]["stub"] + ["RAND_bytes (drawn from the seed)", "the processes that try to join without a right, and the false coordinator (sim/node/adv.c)"]
PROPS["C18"] = fed("C18", images=["fedd", "rti"])
PROPS["C20"] = fed("C20", images=["fedc", "fedci", "fedcs", "rti"])
PROPS["C20"]["real"] = PROPS["C20"]["real"] + ["core/federated/clock-sync.c in its modes init and on"]
PROPS["C22"] = fed("C22", images=["tst", "tnp", "tgedf", "tfedc", "rti"])
PROPS["C22"]["real"] = PROPS["C22"]["real"] + ["trace/impl/src/trace_impl.c", "core/tracepoint.c"]
PROPS["C22"]["stub"] = PROPS["C22"]["stub"] + ["the file system (simulated files with short writes, write errors, a full disk and failing open)"]
NOTES = {
 "C21": "Seeded search with up to three processes that try to join without a right to, concurrently with the genuine joins, at the coordinator and at the federates' own servers: wrong, truncated or prefixed federation identities, identities out of range or in use, garbage, truncated or unexpected messages, broken handshakes, invalid neighbour tables, wrong, reflected or replayed authentication responses, and a false coordinator. No attempt may be acknowledged, every federate is admitted once, and the federation must run as if nobody had tried.",
 "C22": "Seeded search over schedules of tracing threads, record counts around the buffer capacity and disk faults (failing open, write errors, short writes, full disk), for programs, federates and the coordinator; the decoded file is compared record by record with an independent record kept at the tracing interface and with the observed history.",
 "C01": "Seeded search: generated programs run on all schedulers; every invocation, its tag and its inputs compared with the sequential reference.",
 "C02": "Seeded search over worker counts, schedulers and interleavings (preemption at memory accesses); final behaviour must equal the sequential reference in every run.",
 "C03": "Seeded search; overlap, order and single execution checked at every invocation while the run proceeds.",
 "C04": "Seeded search over delays, spacings, policies, microsteps and stop tags; every event tag compared with the reference.",
 "C05": "Seeded search with concurrent external threads scheduling physical actions; each call's interval bounds the tag its event may get.",
 "C06": "Seeded search with oversleep, EINTR, spurious wake-ups and stalls; no reaction starts before its tag (within the runtime's 10 us granularity) and none later than the idle time allows.",
 "C07": "Seeded search over stop requests from reactions and threads, timeouts and starvation; stop tag, shutdown reactions and termination compared with the reference.",
 "C08": "Seeded search over lateness; the handler choice is judged from the clock readings of the executing worker.",
 "C09": "Seeded search; every access to a payload is checked against the simulated heap, contents against the reference, and leaks at exit.",
 "C10": "Seeded search over programs with modal and nested modal reactors; active modes, suspended, resumed and discarded events, timers, startup, reset and shutdown reactions compared with the reference at every tag.",
 "C11": "Seeded search with up to six watchdogs, several per reactor, started and stopped by reactions and handlers; each handler run must follow an expired, not cancelled start, none may be lost, none may overlap a reaction of its reactor.",
 "C13": "Seeded search over generated federations; every federate's tags, reactions, inputs and messages compared with the unfederated reference, and every grant on the wire checked while no federate may run a tag it was not granted.",
 "C14": "Seeded search with stop requests from reactions and threads of any federates, crossing messages, grants, resignations and timeouts; the stop tags of all federates and the negotiation on the wire are checked.",
 "C15": "Seeded search over topologies with cycles, delays, partitions that heal, slow and late federates; a run that stops making progress or does not end normally on every node is a violation.",
 "C16": "Seeded search with fragmented, short, interrupted and delayed reads and writes; every message received is compared in content, count, order and tag with those sent.",
 "C17": "Seeded search over join orders, start delays and clock offsets; start times compared across federates and with the proposals on the wire, no reaction may begin before the start time on its node's clock.",
 "C18": "Seeded search over decentralized federations with declared offsets (safe-to-advance and per-port) of zero to 200 ms and message delays within and beyond them, fragmented messages whose header arrives long before the payload, clock offsets, slow reactions and stops: a message that was there in time must be handled at its tag; a late one must be handled later, once, with its original tag, and every reaction it reaches must run its late-message handler until one has dealt with it; otherwise the federates must equal the unfederated reference and never block for ever.",
 "C19": "Seeded search over the loss of one federate after the start of the federation: killed, cut off by a connection reset, exiting with an error from a reaction, or leaving at a timeout of its own; at a random time or at the n-th write of or to the victim, cutting that write at a random byte. The survivors are compared with the reference (with the messages of the victim that arrived), must end with status 0 and in bounded time; the victim is compared up to its last tag; the coordinator must end, with a failure status if a failure was reported.",
 "C20": "Seeded search over clock offsets, drifts, network latency, lost, duplicated, delayed, short and foreign synchronisation datagrams and slow writes; every reading of the program's clock is compared with the coordinator's clock known to the simulator; rounds must go on after faults stop, converge, and the federation must end normally.",
 "C12": "Seeded search with concurrent readers and clock jumps of 10 ns to hours in both directions; every reading is compared with all readings that were complete before it began and, without jumps, with the system clock.",
}
NA = {
 "C23": "Pure data structures and arithmetic: no schedule, clock, I/O or fault can influence them, so a simulation adds nothing over ordinary property-based tests.",
 "C24": "The enclave code does not compile at this commit (LF_ENCLAVES build fails), so there is nothing to simulate.",
}
for _p in ["C%02d" % i for i in range(10, 23)]:
    if _p not in PROPS: NA[_p] = "The check is being built."
