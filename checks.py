"""What each property's check runs. A job: variant of the host, scenario and arguments,
seeds (quick, thorough), budget in seconds (quick, thorough)."""

ASSUMPTIONS = [
    "the runtime's Rust code is /repo's, unchanged; V8 is node's 12.4 behind a binding shim, openworkers-core is a stand-in (harness/core)",
    "exploration: only what the workloads reach is judged",
]


def job(scenario, *args, variant="base", seeds=(1, 4), budget=(30, 200), **kw):
    return dict(variant=variant, args=[scenario, *args], seeds=seeds, budget=budget, **kw)


CHECKS = {
    "C07": dict(
        technique="runtime monitoring: model-based oracle and concurrent stress on the real stream manager",
        level_note="Random histories judged step by step against a sequential model; concurrent rounds judged by per-stream order, loss, bound and termination monitors; pairs of operations that meet on one stream judged by what must hold afterwards. Interleavings are those the OS scheduler and injected jitter produce.",
        rule="a case is one random operation history (model), one concurrent round of producers/consumers/closers (stress), or one pumped body; distinct by operation trace or parameters",
        floor={"model_ops": 5000, "inflight_resolved": 5000, "chunks_delivered": 5000, "pump_chunks": 500, "races": 2000},
        jobs=[job("streams-model", seeds=(2, 6)), job("streams-inflight", seeds=(3, 8)), job("streams-stress", seeds=(4, 8), budget=(25, 200)), job("streams-stress", variant="jit", seeds=(2, 6), budget=(25, 200)), job("streams-inflight", variant="jit", seeds=(2, 6)), job("streams-pump", seeds=(2, 4)), job("streams-race", seeds=(1, 4), budget=(20, 150)), job("streams-race", variant="jit", seeds=(1, 4), budget=(20, 150))],
    ),
    "C14": dict(
        technique="runtime monitoring: model-based oracle and multi-thread stress with spurious polls",
        level_note="Random histories judged against a FIFO model; contention rounds on up to 8 threads judged for mutual exclusion and progress (20 s bound).",
        rule="a case is one random lock/wait/unlock history (model) or one multi-thread contention round (stress); distinct by trace or parameters",
        floor={"acquisitions": 100000, "waits": 20000},
        jobs=[job("waiter-model", seeds=(2, 6)), job("waiter-stress", seeds=(2, 6), budget=(25, 200)), job("waiter-stress", variant="jit", seeds=(2, 6), budget=(25, 200))],
        parallel=2,
    ),
    "C15": dict(
        technique="runtime monitoring: ledger model over V8's external-memory reports, concurrent stress",
        level_note="Every report reaching V8 is recorded per isolate at the binding; random guard/lock histories and multi-thread stress are judged against a ledger; sizes of derived types against their definition.",
        rule="a case is one random guard/lock history, one concurrent round, or one random value set; distinct by trace",
        floor={"ext_steps": 5000, "stress_ops": 2000, "size_checks": 10000},
        jobs=[job("ext-model", seeds=(2, 6)), job("ext-stress", seeds=(2, 4)), job("ext-stress", variant="jit", seeds=(2, 6)), job("gc-sizes", seeds=(2, 4))],
    ),
    "C26": dict(
        technique="runtime monitoring: handle and lock monitors at the V8 binding, model-based oracle and concurrent stress",
        level_note="Every reset of a V8 handle is attributed to its isolate and checked against the thread's lock; random and concurrent defer/lock/process histories judged for exactly-once and promptness.",
        rule="a case is one random defer/lock history, or one concurrent round; distinct by trace or parameters",
        floor={"deferred_steps": 3000, "handles_deferred": 5000, "mon_handles_reset": 5000},
        jobs=[job("defer-model", seeds=(2, 6)), job("defer-stress", seeds=(4, 8)), job("defer-stress", variant="jit", seeds=(2, 6))],
    ),
}

LIM_NOTE = "Scripts that never finish or exhaust memory in many different ways, each followed by ordinary requests on the same thread and isolate; scripts within the limits; random and concurrent histories of the guards and the allocator themselves. Time bounds carry a tolerance of 1.5 s and are re-confirmed."
CHECKS["C04"] = dict(technique="runtime monitoring: outcome and time oracles on endless and bounded executions, guard histories with a termination monitor", level_note=LIM_NOTE,
    rule="a case is one guard history, or one shape of execution in one mode and round", floor={"endless_executions": 80, "within_limit": 60},
    jobs=[job("guards-wall", seeds=(1, 4)), job("guards-wall", variant="jit", seeds=(1, 4)), job("wall-shapes", "worker", budget=(40, 200)), job("wall-shapes", "pool", budget=(40, 200)), job("within", "worker", solo=True), job("within", "pool", solo=True), job("neighbours", "pool", budget=(30, 150), solo=True), job("neighbours", "pool", "--mux", "1", variant="mux", budget=(30, 150), solo=True)], parallel=2)
CHECKS["C05"] = dict(technique="runtime monitoring: outcome and CPU-time oracles on computing executions, guard histories with a termination monitor", level_note=LIM_NOTE,
    rule="a case is one guard history, or one shape of execution in one mode and round", floor={"endless_executions": 50, "within_limit": 60},
    jobs=[job("guards-cpu", seeds=(1, 4)), job("guards-cpu", variant="jit", seeds=(1, 4)), job("cpu-shapes", "worker", budget=(40, 200)), job("cpu-shapes", "pool", budget=(40, 200)), job("within", "worker", solo=True), job("within", "pool", solo=True)], parallel=2)
CHECKS["C06"] = dict(technique="runtime monitoring: allocator ledger under concurrency, outcome oracle on memory-exhausting executions", level_note=LIM_NOTE,
    rule="a case is one allocator history or concurrent round, or one kind of allocation in one mode and round", floor={"exhaustions": 80, "within_memory": 30, "alloc_steps": 20000},
    jobs=[job("alloc-model", seeds=(2, 4)), job("alloc-model", variant="jit", seeds=(1, 4)), job("mem-shapes", "worker", budget=(60, 250)), job("mem-shapes", "pool", budget=(60, 250)), job("mem-creep", budget=(30, 200)), job("mem-within", "worker"), job("mem-within", "pool")], parallel=3)

DIFF_NOTE = "The same seeded cases run in plain node and in a worker; every outcome is compared. The reference is node 22's implementation, where it deviates from the standard the inputs avoid it."
DIFF_RULE = "a case is one round of generated calls run by both implementations; distinct by kind of call and input"
for pid, area, floor, what in [
    ("C17", "crypto", {"compared": 10000, "compared_failures": 1000}, "WebCrypto"),
    ("C18", "text", {"compared": 10000, "compared_failures": 1000}, "TextEncoder/TextDecoder"),
    ("C19", "web", {"compared": 10000, "compared_failures": 1000}, "base64, URLSearchParams, Headers, structuredClone, Blob, File, FormData, URL"),
    ("C27", "rstream", {"compared": 10000}, "ReadableStream"),
    ("C29", "body", {"compared": 10000, "compared_failures": 500}, "Request/Response bodies"),
]:
    CHECKS[pid] = dict(technique=f"runtime monitoring: differential oracle on generated call histories ({what})", level_note=DIFF_NOTE, rule=DIFF_RULE, floor=floor,
                       jobs=[job("diff", area, seeds=(3, 8), budget=(25, 300))])

NOT_APPLICABLE = {}

POOL_NOTE = "Random histories of executions with every way to end (answer, stream, failure, dropped halfway) on pools of several shapes, with and without multiplexing, judged step by step against a model of the pool or against what each execution says about itself."
CHECKS["C01"] = dict(technique="runtime monitoring: self-reporting workers in random histories of executions that leave work behind", level_note=POOL_NOTE,
    rule="a case is one history of executions on one worker; distinct by the work, endings and pauses chosen", floor={"executions": 1500, "warm_hits": 800, "left_interval": 150, "left_body": 150},
    jobs=[job("pool-isolation", seeds=(3, 8), budget=(60, 250)), job("pool-isolation", "--mux", "1", variant="mux", seeds=(1, 4), budget=(60, 250)), job("pool-idle", solo=True)], parallel=4)
CHECKS["C02"] = dict(technique="runtime monitoring: model-based oracle over histories of pooled executions", level_note=POOL_NOTE,
    rule="a case is one history of executions of several owners, workers, versions and environments; distinct by trace", floor={"warm_hits": 800, "cold": 2000},
    jobs=[job("pool-history", "--judge", "reuse"), job("pool-history", "--judge", "reuse", "--max", "1", "--cached", "1", "--reuses", "3"), job("pool-history", "--judge", "reuse", "--cached", "0"),
        job("pool-history", "--judge", "reuse", "--max", "5", "--cached", "4"), job("pool-history", "--judge", "reuse", "--mux", "1", "--conc", "3", "--max", "2", variant="mux")], parallel=4)
CHECKS["C03"] = dict(technique="runtime monitoring: model of slots and isolates judged against the pool's statistics and refusals after every step", level_note=POOL_NOTE,
    rule="a case is one history of overlapping executions of several owners; distinct by trace", floor={"refused": 500, "steps": 8000, "peak_isolates": 4},
    jobs=[job("pool-history", "--judge", "slots"), job("pool-history", "--judge", "slots", "--max", "1"), job("pool-history", "--judge", "slots", "--max", "3", "--per", "1"), job("pool-history", "--judge", "slots", "--max", "4", "--per", "2"),
        job("pool-history", "--judge", "slots", "--mux", "1", "--conc", "2", "--per", "1", "--max", "3", variant="mux"), job("pool-history", "--judge", "slots", "--mux", "1", "--conc", "3", "--max", "2", variant="mux")], parallel=4)

RESP_NOTE = "Generated handlers (7 styles) answer with every kind of body, header list and upstream; the client compares every byte, header and the end or failure of the body with what the case says."
CHECKS["C08"] = dict(technique="runtime monitoring: expected-response oracle over generated handlers, bodies, upstreams, client paces and pool overlap", level_note=RESP_NOTE,
    rule="a case is one generated answer in one style, buffer size and client pace; distinct by its description", floor={"body_bytes": 20000000, "oracle_checks": 9000, "kind_fetch": 300, "kind_stream": 300},
    jobs=[job("resp-fidelity", seeds=(2, 8), budget=(40, 250)), job("resp-pool", budget=(40, 250)), job("resp-pool", "--buf", "1", budget=(40, 250)), job("resp-pool", "--mux", "1", variant="mux", budget=(40, 250)), job("streams-pump", seeds=(1, 2))], parallel=4)

CHECKS["C13"] = dict(technique="runtime monitoring: producers, upstreams and later requests observed after clients leave at every point", level_note="Clients leave before the head or after any chunk of ten kinds of bodies, or stay and read slowly; what the script, its upstreams and the next request see is compared with what must follow.",
    rule="a case is one client of one producer, style, buffer size and moment of leaving; distinct by its description", floor={"clients_gone": 400, "clients_stayed": 60, "aborts_seen": 60, "cancels_seen": 60, "upstreams_released": 60},
    jobs=[job("gone", "worker", seeds=(2, 6), budget=(40, 250)), job("gone", "pool", seeds=(1, 4), budget=(40, 250)), job("gone", "pool", "--mux", "1", variant="mux", seeds=(1, 4), budget=(40, 250))], parallel=4)
CHECKS["C28"] = dict(technique="runtime monitoring: outcome oracle over generated failures, each followed by ordinary requests", level_note="Generated handlers and scripts fail with every kind of value at every point, for every kind of event; status, text, termination reason and task result are compared with what failed, and the following request with a fresh worker's answer.",
    rule="a case is one way to fail with one thrown value in one mode; distinct by both", floor={"handler_failures": 500, "task_failures": 200, "broken_scripts": 100, "terminated": 40, "requests_after": 1000},
    jobs=[job("outcomes", "worker", seeds=(2, 6), budget=(60, 250)), job("outcomes", "pool", seeds=(2, 6), budget=(60, 250))], parallel=4)

CHECKS["C09"] = dict(technique="runtime monitoring: echo oracle over generated requests, uploads and ways of reading them", level_note="Generated requests (method, URL, header names and values, buffered and streamed bodies that may be slow, fail or stall) are read in 29 ways by handlers that report what they saw or send it on; the report, the upstream and the client's own view of its upload are compared with what was sent.",
    rule="a case is one request with one way of reading it; distinct by its description", floor={"requests": 3000, "body_bytes": 20000000, "failing_uploads": 200, "stalled_uploads": 30},
    jobs=[job("req-fidelity", "worker", seeds=(2, 6), budget=(40, 250)), job("req-fidelity", "pool", seeds=(1, 4), budget=(40, 250)), job("req-fidelity", "pool", "--mux", "1", variant="mux", budget=(40, 250))], parallel=4)
CHECKS["C10"] = dict(technique="runtime monitoring: every operation of generated concurrent plans accounted for at the operations handler and at its promise", level_note="Plans of up to 40 lanes of operations (fetch, bindings to workers, assets, KV, storage, database; valid, failing, unusable, never answered) are run by a script; the operations handler records what arrives, answers late and out of order, and each promise's outcome is compared with its own reply.",
    rule="a case is one plan; distinct by its operations", floor={"operations": 15000, "plans": 1000, "op_bad": 800, "op_fetch": 2500},
    jobs=[job("operations", "worker", seeds=(2, 6), budget=(40, 250)), job("operations", "pool", seeds=(1, 4), budget=(40, 250)), job("operations", "pool", "--mux", "1", variant="mux", budget=(40, 250))], parallel=4)
CHECKS["C11"] = dict(technique="runtime monitoring: online trace checker over generated timer programs", level_note="Generated programs set, clear, nest and repeat timers with every form of delay and argument, throw, keep the thread busy, queue microtasks and await operations; every start, clear, run and microtask is logged with its time and the log is judged against the timer rules (lateness is allowed).",
    rule="a case is one timer program in one mode; distinct by the program", floor={"callbacks_run": 30000, "timers_cleared": 5000, "plans": 800},
    jobs=[job("timers", "worker", seeds=(2, 6), budget=(40, 250)), job("timers", "pool", seeds=(1, 4), budget=(40, 250)), job("timers", "pool", "--mux", "1", variant="mux", budget=(40, 250))], parallel=4)
CHECKS["C12"] = dict(technique="runtime monitoring: exactly-once ledger of background work and answer-before-work gates over generated events", level_note="Generated fetch, task and scheduled handlers hand nested, failing, slow and operation-bound work to waitUntil before and after answering, failing or being left; the work's operations are held back until the client has its answer, then what ran, how often, when, and the task's result are compared with the program. Stray timers and loops call the operations handler so that it is seen when they outlive the execution.",
    rule="a case is one generated event; distinct by its program", floor={"works": 2500, "task_results": 300, "ghost_calls_while_running": 600},
    jobs=[job("life", "worker", seeds=(2, 6), budget=(40, 250)), job("life", "pool", seeds=(1, 4), budget=(40, 250)), job("life", "pool", "--mux", "1", variant="mux", seeds=(1, 4), budget=(40, 250))], parallel=4)
CHECKS["C22"] = dict(technique="runtime monitoring: environment read back in full before and after generated attacks", level_note="Environments of 0 to 1500 variables with hostile names and values and bindings of every kind are given to workers which report all they see, attack `env` in 23 ways and report again, over several requests of one context.",
    rule="a case is one environment with one plan of attacks; distinct by both", floor={"environments": 2000, "variables": 150000},
    jobs=[job("env", "worker", seeds=(2, 6), budget=(40, 250)), job("env", "pool", seeds=(1, 4), budget=(40, 250)), job("env", "pool", "--mux", "1", variant="mux", seeds=(1, 4), budget=(40, 250))], parallel=4)
CHECKS["C20"] = dict(technique="runtime monitoring: in-worker API fuzzing with crash, panic, hang, outcome and neighbour oracles", level_note="A generator inside of the worker calls every function it can reach (826 of them, host natives included) with hostile values, pollutes globals, recurses, allocates and leaves streams open, at all points of an execution; the process, recovered panics, outcome, duration and the answers of ordinary workers before, meanwhile and afterwards are watched.",
    rule="a case is one hostile execution of one style and seed in one mode; distinct by them", floor={"calls": 10000, "requests_after": 500, "functions_reached": 500},
    jobs=[job("hostile", "worker", seeds=(2, 8), budget=(45, 250)), job("hostile", "pool", seeds=(2, 8), budget=(45, 250)), job("hostile", "pool", "--mux", "1", variant="mux", seeds=(1, 4), budget=(45, 250))], parallel=2)
CHECKS["C21"] = dict(technique="runtime monitoring: walk and fingerprint of the whole reachable object graph after attacks, canary values, identifier guessing against live victims", level_note="After each of 11 forms of tampering at 4 places, another worker's context (new or kept) walks all ~1000 objects it can reach, including those only syntax leads to, and compares structure, attributes and sources with an untouched context; marked values of other workers must not show up; attackers call all natives with guessed identifiers while victims stream, wait and set timers.",
    rule="a case is one attack or one round of guessing in one mode; distinct by its parameters", floor={"attacks": 300, "fingerprints": 200, "guesses": 500000, "victims": 80, "objects_reached": 500},
    jobs=[job("confine", "worker", seeds=(1, 4), budget=(40, 250)), job("confine", "pool", seeds=(2, 6), budget=(40, 250)), job("confine", "pool", "--mux", "1", variant="mux", seeds=(1, 4), budget=(40, 250))], parallel=2)
CHECKS["C23"] = dict(technique="runtime monitoring: log oracle over generated console calls from every place a script can call from", level_note="Generated programs log numbered lines with all kinds of values from the top level, the handler, timers, microtasks, concurrent lanes and waitUntil work, in executions that answer, fail, or are terminated; what the host's log handler received is compared with the program.",
    rule="a case is one program; distinct by its lines and its end", floor={"lines": 12000, "end_spin": 25, "end_throw": 150},
    jobs=[job("console", "worker", seeds=(2, 6), budget=(40, 250)), job("console", "pool", seeds=(1, 4), budget=(40, 250)), job("console", "pool", "--alone", "1", seeds=(1, 2), budget=(30, 150)), job("console", "pool", "--mux", "1", variant="mux", seeds=(1, 4), budget=(40, 250))], parallel=4)
CHECKS["C25"] = dict(technique="runtime monitoring: event and message ledger of every socket against a scripted peer", level_note="Generated scripts open sockets (constructor and fetch upgrade), send all kinds of values, close, leave them open or are refused, while scripted peers answer, close, fail or vanish; what each listener saw and what each peer received is compared entry by entry with what must follow.",
    rule="a case is one set of sockets in one mode; distinct by their ends, sends and peers", floor={"sockets": 3000, "messages_out": 15000, "refused": 300, "end_leave": 300},
    jobs=[job("websocket", "worker", seeds=(2, 6), budget=(40, 250)), job("websocket", "pool", seeds=(1, 4), budget=(40, 250)), job("websocket", "pool", "--mux", "1", variant="mux", seeds=(1, 4), budget=(40, 250))], parallel=4)

CHECKS["C16"] = dict(technique="runtime monitoring: twin execution of generated programs from source and from their caches, model of the bundle format, walk of the context with and without snapshot", level_note="Generated programs (26 kinds of pieces, one- and two-byte sources) run from source and from bundles with matching, empty, cut and foreign caches, made in this and in other processes; answers, outcomes, logs, stacks and function sources are compared. Malformed bundles are judged against a model of the format. All ~990 objects a script can reach are compared between processes with and without the runtime snapshot.",
    rule="a case is one bundle, one program with one kind of cache in one mode, or one context walked; distinct by them", floor={"bundles": 50000, "caches": 800, "cache_matching": 500, "broken": 80, "surface_objects": 1500, "snapshots": 3},
    jobs=[job("bundle"), job("cache", "worker", seeds=(1, 4), budget=(40, 250)), job("cache", "pool", seeds=(1, 4), budget=(40, 250)), job("cache", "pool", "--mux", "1", variant="mux", seeds=(1, 4), budget=(40, 250)), job("cache", "pool", snap=True, seeds=(1, 4), budget=(40, 250)), job("snapshot", snap=True, budget=(25, 100))], parallel=3)

CHECKS["C30"] = dict(technique="runtime monitoring: differential oracle on generated histories of signals and listeners", level_note=DIFF_NOTE, rule=DIFF_RULE, floor={"compared": 5000, "compared_abort-history": 2000, "compared_abort-timeout": 100},
    jobs=[job("diff", "abort", seeds=(3, 8), budget=(20, 250))])
CHECKS["C31"] = dict(technique="runtime monitoring: clock readings bracketed by operations whose arrival the host timed", level_note="Generated scripts read the clocks in bursts, loops, timers, microtasks and around operations; every reading is judged for order and grid, and the origin of each context's clock that the timed operations imply must stay possible over all its requests.",
    rule="a case is one request with one plan of readings; distinct by the plan", floor={"readings": 2000000, "marks": 3000, "contexts": 300, "contexts_again": 300},
    jobs=[job("clock", "worker", budget=(25, 200)), job("clock", "pool", budget=(25, 200)), job("clock", "pool", "--mux", "1", variant="mux", budget=(25, 200))], parallel=2)
CHECKS["C32"] = dict(technique="runtime monitoring: accounting of operations, channels, tasks, threads, timers and isolates after every execution", level_note="Generated scripts leave operations, bodies, sockets, uploads and timers of all kinds in flight and end in every way; afterwards (in pools: after another worker took the context's place) the host counts what is still alive. Bodies and uploads which a running script cancels in various ways have to be let go of before its next operation is answered. The bound of 1.5 s is re-confirmed.",
    rule="a case is one round of executions on one or more threads; distinct by round", floor={"operations": 2000, "bodies": 500, "sockets": 150, "isolates_disposed": 250, "handlers_gone": 450, "forwarded": 40, "cancel_points": 500},
    jobs=[job("cancelled", "worker", budget=(20, 150)), job("cancelled", "pool", budget=(20, 150)), job("leftovers", "worker", budget=(40, 250)), job("leftovers", "pool", budget=(40, 250)), job("leftovers", "pool", variant="mux", budget=(40, 250))], parallel=2)

def sanitized():
    b = dict(budget=(10, 150), only_san=True, seeds=(1, 3), hang=90)
    jobs = [job("canary", "--kind", k, variant=v, canary=c, budget=(5, 5), seeds=(1, 1)) for v, k, c in [("asan", "uaf", "heap-use-after-free"), ("asan", "over", "heap-buffer-overflow"), ("tsan", "race", "data-race"), ("tsan-mux", "race", "data-race")]]
    threads = [("waiter-stress",), ("ext-stress",), ("defer-stress",), ("streams-stress",), ("streams-inflight",), ("guards-cpu",), ("guards-wall",), ("alloc-model",)]
    whole = [("hostile", "pool"), ("pool-isolation",), ("websocket", "worker"), ("life", "worker"), ("gone", "worker"), ("req-fidelity", "worker"), ("operations", "worker"), ("outcomes", "worker")]
    values = [("hostile", "worker"), ("confine", "pool"), ("pool-history", "--judge", "reuse"), ("diff", "crypto"), ("diff", "text"), ("diff", "body"), ("streams-pump",), ("mem-shapes", "worker"), ("console", "worker")]
    jobs += [job(*a, variant="tsan", **b) for a in threads + whole] + [job(*a, variant="asan", **b) for a in threads[:5] + whole + values]
    mux = [("hostile", "pool", "--mux", "1"), ("pool-isolation", "--mux", "1"), ("gone", "pool", "--mux", "1"), ("operations", "pool", "--mux", "1")]
    return jobs + [job(*a, variant=v, **b) for a in mux for v in ("asan-mux", "tsan-mux")]


CHECKS["C24"] = dict(technique="runtime monitoring: AddressSanitizer and ThreadSanitizer builds of the runtime under the other checks' workloads", level_note="The runtime, its dependencies and the host are built with each sanitizer (TSan with an instrumented std) and run the workloads of the other checks inside node: stress of the concurrent parts, hostile scripts calling every native function, pools, streams, sockets, timers, limits. Planted faults prove in every run that each sanitizer is awake. V8 and the C++ shim are not instrumented (their allocations are tracked); races are found in executed interleavings only.",
    rule="a case is one case of the underlying workload in one sanitizer's build", floor={"canaries_found": 4, "handles_deferred": 5000, "acquisitions": 100000, "calls": 2000, "compared": 3000, "requests_after": 100},
    jobs=sanitized(), parallel=5)

# One more job of most checks starts the runtime from its snapshot, as deployments do.
SNAP = {"C01": ("pool-isolation",), "C08": ("resp-fidelity",), "C09": ("req-fidelity", "worker"), "C10": ("operations", "pool"), "C11": ("timers", "worker"), "C12": ("life", "pool"), "C13": ("gone", "worker"),
        "C20": ("hostile", "pool"), "C21": ("confine", "pool"), "C22": ("env", "worker"), "C23": ("console", "worker"), "C25": ("websocket", "pool"), "C28": ("outcomes", "worker"),
        "C17": ("diff", "crypto"), "C18": ("diff", "text"), "C19": ("diff", "web"), "C27": ("diff", "rstream"), "C29": ("diff", "body"), "C30": ("diff", "abort"), "C31": ("clock", "pool")}
for pid, args in SNAP.items():
    CHECKS[pid]["jobs"].append(job(*args, snap=True, seeds=(1, 2), budget=(25 if args[0] == "diff" else 30, 150)))
