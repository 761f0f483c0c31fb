#!/usr/bin/env python3
"""The source of properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))


prop("C01", "A later execution on a kept context sees nothing of an earlier one",
     "Whatever an execution on a pooled isolate leaves behind when it ends (timers and intervals, operations not awaited, bodies and sockets not read, its own streams, a response or task result, by any ending: answered, failed, client gone, cancelled), nothing of it takes effect in a later execution: no callback or promise of its operations runs, no chunk, response, header or result of it shows up. "
     "Each execution gets exactly its own request, its own operation results and its own answer; only what the worker itself stored in its globals is still there. A kept context does no work while no execution uses it.",
     ["histories", "schedules"], "all histories of executions of one worker, all kinds of work left behind and all delays of its results, with and without multiplexing",
     "The leftovers surface only when a result of one execution arrives while another runs in the same context.",
     ["src/execution_context.rs", "src/pool.rs", "src/runtime/scheduler.rs", "src/request_context.rs"],
     [("per-request reset", "ExecutionContext::reset"), ("ids never reused", "next_callback_id, __nextTimerId, StreamManager"), ("event loop of a kept context", "run_event_loop")],
     ["responses, task results, what scripts record about themselves, CPU time of the idle thread"])

prop("C02", "A context is shared only by executions of one owner, worker, version and env",
     "The globals of a script are seen only by executions with the same owner, worker id, version and environment timestamp; an execution always runs under the environment and code of such a key. A kept context serves at most the configured number of executions (CONTEXT_MAX_REUSES). "
     "An execution reuses a kept context exactly when one with its key is there: contexts are kept after executions that ended well, at most the configured number per isolate, the least recently used one is dropped first; a free isolate of the owner is used before a new one is made, and the least recently used free isolate makes room in a full pool. "
     "The warm-hit callback is called exactly on reuse, with the operations handle the context was made with, and the operations of the execution go to that handle.",
     ["histories"], "all histories of executions of any owners, workers, versions and environments, overlapping or not, all pool shapes",
     "A unit test can check one hit and one miss; the key, the bounds and the eviction order concern every history.",
     ["src/pool.rs"], [("cache lookup", "execute_pinned, CachedContext"), ("owner-tagged isolates", "ThreadLocalPool::acquire"), ("kept contexts", "TaggedIsolateInner")],
     ["what each execution reports about its globals and environment, warm-hit callbacks, operations handles"])

prop("C03", "Pool slots: never exceeded, always given back, statistics exact",
     "An execution is refused with 'Pool at capacity' exactly when its owner has the maximum number of isolates and all of them are taken; an isolate serves one execution at a time (with multiplexing, the configured number), an owner never has more isolates than allowed, and the pool exceeds its size only while all isolates are in use, returning to it as executions end. "
     "Every execution gives its slot back exactly once, however it ends: answered, failed, terminated, refused operations, or its future dropped at any point. After every step the pool's statistics (isolates, isolates in use, capacity, requests, hits and misses) say exactly that, and V8 handles are never released without their isolate's lock.",
     ["histories", "schedules"], "all histories of overlapping executions of any owners and all ways of ending them, all pool shapes, with and without multiplexing",
     "The unit tests acquire and release a few slots by hand; leaks come from endings in the middle of real executions.",
     ["src/pool.rs", "src/worker_future.rs"], [("slot guard", "execute_pinned"), ("acquire / evict / overcommit", "ThreadLocalPool::acquire"), ("reclaim", "ThreadLocalPool::cleanup_overlimit")],
     ["get_local_pool_stats, get_pinned_pool_stats, outcomes"])

prop("C07", "Streams deliver every chunk once, in order, within their buffer bound",
     "A stream of the stream manager delivers to its reader exactly the chunks written to it, in order, up to and including the first end or error marker, whatever the interleaving of writers, readers and other streams; never more than the configured number of chunks is accepted ahead of the reader (a further write waits, or is refused when it may not wait). "
     "After a stream was ended, closed, or lost its reader, every pending or later read and write on it fails promptly and it never comes back; stream ids are never handed out twice. "
     "A pumped request body yields the upstream chunks, then exactly one end marker (or the upstream error), and closing it releases the upstream sender.",
     ["schedules", "histories"], "all histories of create/write/try-write/read/take/close/clear, all thread interleavings, all buffer sizes >= 1",
     "The unit tests run five short single-threaded histories; order, bounds and termination must hold for all histories and interleavings.",
     ["src/runtime/stream_manager.rs"],
     [("bounded channel per stream, receiver taken out during a read", "StreamManager::{write_chunk,try_write_chunk,read_chunk}"), ("removal on close/clear", "StreamManager::{close_stream,clear}"), ("pump task", "StreamManager::pump_request_body")],
     ["StreamManager API"])

prop("C14", "The isolate turn queue: one holder, FIFO wake-ups, none lost",
     "At most one party holds the turn of an AsyncWaiter at any time: an attempt succeeds exactly when nobody holds it. Each release wakes the party which has been waiting longest, and only it, and the reported free state and queue length agree with that. "
     "As long as every woken party tries again and releases what it acquires, every waiting party eventually gets its turn, for any number of threads and also when waiting parties poll again without having been woken.",
     ["schedules", "histories"], "all lock/wait/unlock histories of any number of parties, on one or many threads, including repeated polls",
     "Three unit tests exercise single-threaded histories of four calls; lost wake-ups need a release between a failed attempt and its enqueueing, or stale queue entries.",
     ["src/async_waiter.rs"], [("compare-exchange under the queue lock, FIFO queue of wakers", "AsyncWaiter::{try_lock,unlock}")], ["AsyncWaiter API, wake counts"])

prop("C15", "External memory told to V8 equals the live tracked memory, per isolate",
     "What V8 was told about external memory of an isolate, plus what is pending for its next lock, equals at any moment the sum of the amounts of the live guards that belong to it, for every history of creating, adjusting, setting and dropping guards on any thread, inside or outside of (nested) locks: changes made under the isolate's own lock reach V8 at once, others reach it with its next lock and never another isolate, and once all guards are gone the total is back to where it was. "
     "A guard belongs to the isolate locked on its thread when it was created, or if there was none, when it was first adjusted under a lock; changes before that are told to nobody. "
     "The size of a tracked value is the heap memory its tracked fields own, for every combination the derive supports, and Tracked follows it on creation, update_size, into_inner and drop.",
     ["histories", "schedules", "inputs"], "all guard and lock histories over any number of isolates and threads; all derivable structs and values",
     "Unit tests perform a few adjustments on one thread; conservation concerns every history and must survive drops on threads which hold no lock or another isolate's lock.",
     ["src/gc/external_memory.rs", "src/gc/js_lock.rs", "src/gc/traceable.rs", "gc-derive/src/lib.rs"],
     [("RAII guard which remembers its isolate's accumulator", "ExternalMemoryGuard"), ("accumulator applied on lock", "JsLock::new"), ("sizes", "GcTraceable, derive(GcTraceable), Tracked")],
     ["AdjustAmountOfExternalAllocatedMemory calls, pending_memory_delta"])

prop("C26", "V8 handles are released exactly once, under their isolate's lock",
     "A handle put on the deferred destruction queue, by any thread and at any time, is destroyed exactly once: not by deferring it, but by the next lock of its isolate (or process_all under that lock), and the queue's length counts exactly the handles waiting in it. "
     "No handle of an isolate which is shared through locks is released, no scope opened on it and no memory reported to it by a thread that does not hold its lock, and nothing is released after the isolate is gone.",
     ["schedules", "histories"], "all histories and interleavings of defer, lock and process_all by any number of threads, and all pooled executions",
     "The unit test checks an empty queue; exactly-once and the lock discipline concern every interleaving and every way an execution can end.",
     ["src/gc/deferred_destruction.rs", "src/gc/js_lock.rs", "src/locker_managed_isolate.rs", "src/pool.rs"],
     [("queue drained on lock", "LockerManagedIsolate::lock, DeferredDestructionQueue::process_all")],
     ["Global reset, HandleScope and Locker calls at the V8 binding"])

prop("C17", "WebCrypto results are those of the named algorithm, for every input",
     "digest (SHA-1, SHA-256, SHA-384, SHA-512), HMAC sign/verify, PBKDF2 deriveBits, RSASSA-PKCS1-v1_5 sign/verify (PKCS#8 and SPKI keys) and ECDSA P-256 with SHA-256 give the standard's result for every ArrayBuffer or Uint8Array input, judged over exactly the bytes of that view: deterministic results equal those of an independent implementation, random signatures verify, and verify is true for the signed data under the matching key, hash and signature only. "
     "Keys and data are taken by value; a key is refused for an algorithm or operation it is not for; invalid lengths, hashes, formats and key data reject the promise instead of giving a result. "
     "getRandomValues fills exactly the bytes of an integer typed array, with fresh values every time, and returns it; it throws for anything else; randomUUID gives fresh version-4 UUIDs.",
     ["inputs", "histories"], "all algorithms, keys, message bytes and buffer views of the supported operations",
     "Unit tests check four hash constants and one key round trip; agreement with the standard, rejection of every altered signature and exact view bounds concern every input.",
     ["src/runtime/crypto/"], [("ring-backed native functions", "crypto::{digest,hmac,pbkdf2,rsa,ecdsa,random}"), ("JS dispatch", "crypto::subtle")], ["values seen by the worker script"])

prop("C18", "TextEncoder and TextDecoder convert text exactly",
     "TextEncoder.encode(x) gives the UTF-8 of String(x) (undefined: nothing), lone surrogates replaced by U+FFFD; encodeInto writes the longest prefix of whole characters that fits, nothing outside of its destination, and reports the code units read and bytes written. "
     "TextDecoder knows exactly the labels of the Encoding Standard, case-insensitively and with ASCII whitespace around, reports the encoding's name, fatal and ignoreBOM, and decodes exactly the bytes of the given ArrayBuffer or view: malformed input becomes U+FFFD by the standard's maximal-subpart rule or throws a TypeError if fatal, and a byte order mark is removed unless ignoreBOM is set. "
     "Decoding what was encoded gives the same well-formed text back, of any length; an instance behaves the same on every use.",
     ["inputs", "histories"], "all strings (lone surrogates included), byte sequences, views, options and labels",
     "Unit tests convert a handful of strings; malformed sequences, surrogates, view offsets and labels form an unbounded input space.",
     ["src/runtime/text_encoding.rs"], [("native encode/decode over encoding_rs", "text_encoding.rs")], ["values seen by the worker script"])

prop("C19", "Web data types keep their contents: base64, params, headers, clones, blobs",
     "For every input, like the web standard: atob(btoa(s)) is s for every Latin-1 string, btoa throws for others, atob tolerates ASCII whitespace and missing padding and throws for what is not base64. URLSearchParams parses, edits, sorts and serializes so that parsing what it serialized gives the same pairs in the same order. Headers are case-insensitive, combine repeated values in order, keep each Set-Cookie apart, and copies are independent. "
     "structuredClone of primitives, plain objects, arrays, Map, Set, Date, RegExp, ArrayBuffer and views gives an equal graph (shared references and cycles kept) which shares nothing with the original, and throws for functions and symbols. "
     "Blob and File hold exactly the concatenated bytes of their parts, copied, for every slice and way of reading; FormData keeps its entries in order. "
     "Absolute http(s) URLs in normal form (with credentials, ports and IPv6 hosts), and paths, sibling names, queries, fragments and //hosts resolved against one, are split and joined as the URL Standard does; searchParams, search and href stay in step, and the rest of the URL stays as it is.",
     ["inputs", "histories"], "all inputs and operation histories of these objects",
     "The repository's JS tests need a V8 build and sample a few calls; content preservation concerns all inputs and histories.",
     ["src/runtime/bindings/"], [("JS polyfills evaluated at start", "runtime/bindings/*.rs")], ["values seen by the worker script"])

prop("C27", "ReadableStream delivers, ends, fails and cancels in order",
     "A reader receives exactly the chunks the source enqueued, in order and each once, whether they were enqueued by start, by pull (synchronous or not) or from outside, and whether reads run ahead of the source or behind it; then done for every further read after close, or the source's error after error (queued chunks are dropped, closed rejects). pull is called while a read is waiting, one call at a time and after start is done; an error thrown or rejected by start or pull fails the stream. "
     "cancel, if the stream has not been closed or failed, drops queued chunks, ends pending reads with done, tells the source once with the reason, and rejects if the source's cancel throws. A stream has at most one reader at a time (getReader and tee throw a TypeError on a locked one), and releasing it between reads and getting another loses nothing. "
     "Both branches of tee deliver everything, in order, however they are read and even if the other one is cancelled; the source is cancelled when both are. Enqueueing or closing after close or error throws.",
     ["histories", "schedules"], "all sources, read patterns and operation histories",
     "Unit tests build a stream and read a few chunks; ordering of reads, pulls, errors and cancels needs all histories.",
     ["src/runtime/streams.rs"], [("queue, read requests and controller in JS", "runtime/streams.rs"), ("tee", "ReadableStream.tee")], ["values seen by the worker script"])

prop("C29", "Request and Response bodies come out as they went in, once",
     "The body of a Request or Response built from a string, ArrayBuffer, any view, Blob, ReadableStream of byte chunks, null or undefined is read by text, arrayBuffer, json or its reader as exactly those bytes (copied when it was built); it can be consumed once: bodyUsed tells, and further reads and clone fail. Clones (and clones of clones) deliver the same bytes in whatever order they are read and have headers of their own. "
     "A stream that fails makes the read fail with its error; text that is not JSON makes json fail with a SyntaxError. "
     "formData gives the entries of an urlencoded or multipart body, in order, with the exact bytes, name and type of each file, and fails for other content types. "
     "Status, statusText, ok, url, method and headers are as given, and copying a Request keeps them unless overridden; Response.json, Response.redirect and Response.error have their status and headers.",
     ["inputs", "histories"], "all body kinds, contents, ways and orders of reading",
     "The JS tests sample single reads of short bodies; content fidelity and single use concern all bodies and read histories.",
     ["src/runtime/bindings/"], [("body normalisation and readers in JS", "runtime/bindings/{fetch,request,response,form_data}")], ["values seen by the worker script"])

prop("C04", "Wall-clock limit: no execution outlives it, none within it is stopped",
     "With a wall-clock limit set, every execution ends within a bounded time after it, with WallClockTimeout, however it fails to finish (waiting for an operation, timer, promise, stream or body, or computing, in whatever callback or at the top level of the script) and for every kind of event; never before the limit. "
     "An execution that finishes within the limit is never stopped by it, each execution has the full limit to itself; stopping one disturbs no other, also when they run at the same time, on one thread or sharing an isolate (multiplexing), and the next ones are served normally. A limit of 0 means none. Dropping a guard is prompt and it terminates nothing afterwards.",
     ["inputs", "schedules"], "all scripts and event kinds, plain workers and pooled isolates, one or many threads",
     "The unit test builds a disabled guard; a limit must hold for every way of not finishing, and leave alone everything else.",
     ["src/security/timeout_guard.rs", "src/worker.rs", "src/pool.rs"], [("thread which terminates the isolate", "TimeoutGuard"), ("event loop checks", "Worker::exec, execute_pinned")], ["result of exec, elapsed time, TerminateExecution calls"])

prop("C05", "CPU limit: no script computes past it, waiting is free, threads are separate",
     "With a CPU limit set, every execution that keeps computing ends with CpuTimeLimit a bounded CPU time after it, in whatever callback, microtask, timer, stream or top-level code it computes, and for every kind of event; never before its thread has used that much. "
     "Time spent waiting is not charged, nor is what other threads or earlier executions used; several threads may reach their limits at the same time. After one was stopped, the next ones are served normally.",
     ["inputs", "schedules"], "all scripts and event kinds, plain workers and pooled isolates, one or many threads at once",
     "No unit test runs a script against a CPU limit; signal-driven termination must work from every point of execution and for every thread.",
     ["src/security/cpu_enforcer.rs", "src/security/cpu_timer.rs", "src/worker.rs", "src/pool.rs"], [("POSIX per-thread timer and signal", "CpuEnforcer"), ("event loop checks", "Worker::exec, execute_pinned")], ["result of exec, thread CPU time, TerminateExecution calls"])

prop("C06", "Memory limits: exhausting memory ends the execution, never the process",
     "A script that keeps allocating on the JavaScript heap, in whatever code and by whatever kind of object, ends with MemoryLimit close to the configured heap limit, without crashing the host or other executions, and every later execution on the same isolate has the same limit. "
     "Memory of ArrayBuffers allocated by the script, however (constructors, slice, clone, TextEncoder, bodies), never exceeds the configured limit: what does not fit is refused with a RangeError and the execution ends with MemoryLimit; what fits is granted, freed memory can be used again, contents are zeroed and never shared. The allocator's count equals the live bytes for every interleaving of allocations and frees.",
     ["inputs", "schedules", "histories"], "all allocating scripts and kinds of memory, allocation histories of several threads",
     "The unit tests do not allocate; limits must hold for every kind of allocation and every interleaving, and a violation is a crash of the whole process.",
     ["src/security/array_buffer_allocator.rs", "src/security/heap_limit.rs", "src/worker.rs", "src/locker_managed_isolate.rs", "src/platform.rs"],
     [("counting allocator", "CustomAllocator"), ("near-heap-limit callback", "security/heap_limit.rs")], ["result of exec, console output, process survival, allocator calls"])

prop("C08", "The client receives exactly the response the handler built",
     "Status, headers and body of the handler's Response (through respondWith with a value or a promise, a returned value, or an ES-module style fetch) reach the client: the status; every header, repeated names joined in order, Set-Cookie, WWW-Authenticate and Proxy-Authenticate values each on their own; and exactly the body's bytes in order, whatever the body was made from: string, ArrayBuffer, any view, Blob, File, URLSearchParams, null, a ReadableStream of such chunks produced at any time, or a fetched body that is returned, forwarded, buffered, teed or cloned. "
     "This holds for any size, any stream buffer size, however slowly the client reads, after the execution has ended, and while later requests use or evict the same pooled context. "
     "A body that ends without failure ends for the client without error, once; a body whose stream fails, or whose upstream fails, gives the client a prefix of its bytes and then an error, never an apparently complete body.",
     ["inputs", "schedules", "histories"], "all responses and body producers, buffer sizes, client paces, plain workers and pooled contexts",
     "The repository's response tests need a full V8 and compare a handful of short bodies; loss, reordering or truncation depends on sizes, timing, back-pressure and overlap with other requests.",
     ["src/worker.rs", "src/pool.rs", "src/execution_context.rs", "src/runtime/stream_manager.rs", "src/runtime/bindings/"],
     [("response streaming in JS and natives", "runtime/bindings/response*, fetch*"), ("stream manager channel", "runtime/stream_manager.rs"), ("response conversion and body pump", "execution_context.rs, worker.rs, pool.rs")], ["response head and body as received by the client"])

prop("C09", "The handler receives exactly the client's request",
     "The Request given to the handler has the client's method, URL and headers (each name once, lower-cased, any name and value), and its body is exactly the bytes the client sent, in order, however it is read: text, json, formData, arrayBuffer, a reader (early, late, with several reads pending), clone, tee, new Request(request), in waitUntil after the answer, or by sending it on with fetch, a worker binding, an assets binding, or as the response. "
     "This holds for buffered and streamed uploads of any size and chunking, any stream buffer size and pace, plain and pooled contexts. "
     "An upload that fails makes the reading fail with its error and is never passed on as complete. A second read fails; a body that is cancelled, read in part or not read at all gives a prefix and no error, and the client's upload is let go at the latest when the request is over.",
     ["inputs", "schedules"], "all requests, uploads and ways of reading, buffer sizes, plain workers and pooled contexts",
     "No test of the repository that can run here passes a streamed body through; loss or truncation depends on chunking, timing and how the body is consumed.",
     ["src/worker.rs", "src/execution_context.rs", "src/execution_helpers.rs", "src/runtime/stream_manager.rs", "src/runtime/bindings/"],
     [("request conversion", "trigger_fetch_handler in execution_helpers.rs"), ("upload pump", "StreamManager::pump_request_body"), ("Request class, __normalizeFetchInput, __bufferBody", "runtime/bindings/web_api.rs, fetch.rs")], ["what the handler reports, requests received by upstreams, closing of the upload channel"])

prop("C10", "Each operation is carried out once, as called, and settles its own promise once",
     "Every fetch, and every call on a worker, assets, KV, storage or database binding, reaches the host's operations handler exactly once with the arguments of the call: kind, binding, method, URL, headers, body bytes (string, ArrayBuffer, any view, Blob, ReadableStream, for fetch also URLSearchParams and FormData), key, value, options, SQL and parameters. "
     "Its promise settles exactly once with the reply to that very operation: status, headers and body of the response, the value, keys, rows, or a rejection with the error's message; however many operations are under way, in whatever order and however late the replies come. "
     "An operation is started at once, whatever others are waiting for, and not before the script calls it; one that is never answered holds up nothing else. Arguments that cannot be used reject the promise and reach nobody. Work handed to waitUntil does all of this after the answer as well.",
     ["inputs", "schedules", "histories"], "all operations, argument forms, reply orders and delays, plain workers and pooled contexts",
     "Unit tests here do not run operations; exact delivery and pairing of replies concern every interleaving of many operations.",
     ["src/runtime/bindings/fetch.rs", "src/runtime/bindings/web_api.rs", "src/runtime/scheduler.rs", "src/runtime/callback_handlers.rs", "src/runtime/mod.rs", "src/worker.rs", "src/execution_context.rs"],
     [("argument parsing and callback ids", "runtime/bindings/fetch.rs"), ("one task per operation", "runtime/scheduler.rs"), ("results to JS", "runtime/callback_handlers.rs, dispatch_binding_callbacks")], ["operations received by the handler, outcome of every promise"])

prop("C13", "A client that goes away stops the work done for it, and nothing else",
     "When the client of a response goes away (before the head or after any part of the body), the runtime notices at once, even if nothing else happens: the stream controller's signal aborts once, further enqueue calls throw a TypeError, a source being pulled is told once (cancel, or an enqueue that throws), nothing is produced any more, and fetched bodies which are still arriving are released. "
     "The execution ends successfully within a second or two, waitUntil work still runs to its end, once, and the same pooled worker serves the next requests. "
     "A client that stays is never treated as gone, however slowly it reads.",
     ["inputs", "schedules"], "all response producers, moments of leaving, client paces, plain workers and pooled contexts",
     "No test of the repository disconnects a client at a chosen point and watches what the script and its upstreams still do; when the client leaves relative to production decides.",
     ["src/worker.rs", "src/pool.rs", "src/execution_context.rs", "src/runtime/stream_manager.rs", "src/runtime/streams.rs"],
     [("disconnect detection and grace period in the event loops", "worker.rs, pool.rs, execution_context.rs"), ("controller.signal, cancel", "runtime/streams.rs, runtime/bindings")], ["console output of the producers, closed upstream channels, result of exec, next responses"])

prop("C28", "Failures are reported as what they are, and stay with the execution that failed",
     "Whatever value a fetch handler throws or rejects with, at whatever point before it answered, the client gets a 500 which tells the error's message and the execution ends Ok; a failing task or scheduled handler, or its waitUntil work, gives a TaskResult with success false and the message. "
     "A script that does not compile or throws while it is evaluated ends with Exception (SyntaxErrors named as such) and no answer; an event nobody handles gives 501 or a failed TaskResult. "
     "An execution stopped by a limit ends with that limit's reason, without an answer unless the handler gave one before, a started body being cut by an error; an aborted one ends with Aborted; a consumed event or code which is no JavaScript is an error. "
     "A handler that answered and fails afterwards keeps its answer. In every case the host survives and the next request is served, by a fresh context after a termination.",
     ["inputs", "histories"], "all thrown values, points of failure, kinds of events, plain workers and pooled contexts",
     "Unit tests look at one or two thrown Errors; what is reported must be right for every value, point and kind of event, and for the requests that follow.",
     ["src/worker.rs", "src/pool.rs", "src/execution_context.rs", "src/execution_helpers.rs"],
     [("error to response and TaskResult conversion", "execution_context.rs, worker.rs"), ("termination reasons", "execution_helpers.rs"), ("context eviction after failure", "pool.rs")], ["result of exec, response, TaskResult, next response"])

prop("C11", "Timers run once, in order, never early, and never after they were cleared",
     "A callback given to setTimeout runs exactly once (unless cleared, or the execution ends before), not before its delay has passed, with the arguments given; setInterval's runs again and again, its n-th run not before n intervals, until it is cleared, also from inside itself. "
     "Nothing cleared runs any more, even if it was due at the same moment as the callback that clears it. Of two timeouts the one set first with a smaller or equal delay runs first, however many there are. "
     "Delays which are missing, negative, NaN or no numbers count as 0 (numeric strings as their number), enormous ones do not fire; clearing an unknown or unusable handle does nothing. A callback that throws affects no other; microtasks queued by one callback run before the next callback.",
     ["inputs", "schedules", "histories"], "all programs of timers, clears, nested timers, operations and microtasks, plain workers, pooled and multiplexed contexts",
     "The tests of the repository that set timers do not run here; order, cancellation and exactly-once depend on what else is pending when a timer falls due.",
     ["src/runtime/bindings/timers.rs", "src/runtime/scheduler.rs", "src/event_loop.rs", "src/execution_context.rs", "src/runtime/mod.rs"],
     [("setTimeout and friends, __executeTimer", "runtime/bindings/timers.rs"), ("queue of timers", "runtime/scheduler.rs"), ("callbacks and microtask checkpoints", "event_loop.rs, execution_context.rs")], ["log of starts, clears, runs and microtasks with times"])

prop("C12", "Background work is finished before the execution ends; tasks report their result",
     "A promise handed to waitUntil while a handler runs (by a handler that answers, fails or does not answer, or by other such work still under way) is brought to its end, exactly once, before the execution ends, whatever operations and timers it needs; the client has its answer without waiting for it. Work which rejects changes neither the answer nor the other work. "
     "Task and scheduled handlers are waited for including that work; the result says success with the value returned (or given to respondWith), or failure with the error's message, and handlers see the task's id, payload, attempt and scheduled time. "
     "Nothing else keeps an execution alive, and nothing goes on afterwards: timers, intervals and loops left behind start no further operations once it has ended.",
     ["inputs", "schedules"], "all handlers, nestings, delays and failures of background work, kinds of events, plain workers, pooled and multiplexed contexts",
     "No test of the repository runs waitUntil; completeness, exactly-once and non-delay concern every interleaving of work, answer and end.",
     ["src/worker.rs", "src/execution_context.rs", "src/event_loop.rs", "src/execution_helpers.rs"],
     [("waitUntil bookkeeping, event objects", "worker.rs, setup_event_listener"), ("completion conditions of the event loops", "execution_context.rs, worker.rs"), ("task results", "execution_helpers.rs")], ["operations started by background work with times, response, TaskResult, end of exec"])

prop("C22", "A worker sees exactly its own environment and cannot change it",
     "`env` holds exactly the variables the host gave (any name, any value, character for character) and an object per binding with that kind's methods, and nothing else; the same object is visible at the top level, in handlers and as the argument of module handlers, on every request of the context. "
     "No value is ever taken as code. It is frozen and cannot be replaced: whatever a script does to `env` (assigning, deleting, defining, changing its prototype, redeclaring it), it reads the same afterwards and in later requests.",
     ["inputs", "histories"], "all variable names and values, bindings, forms of tampering, plain workers, pooled and multiplexed contexts",
     "Environment values end up inside of generated source; that no name or value breaks out, is lost or can be changed is about every string and every history of tampering.",
     ["src/worker.rs", "src/execution_context.rs"],
     [("setup_env", "worker.rs, execution_context.rs")], ["environment read back before and after tampering"])

prop("C23", "Console messages reach the host once, in order, as written",
     "Every call of console.error, warn, info, log, debug or trace hands the host exactly one message of that level (log counts as info), from wherever it is called: top level, handlers, timers, microtasks, background work; also when the script then fails or is terminated. Messages of one sequence of calls arrive in the order of the calls. "
     "The text is the arguments separated by blanks: strings as they are, other primitives as by String(), errors with their name and message, objects as JSON. Calling the console never throws, whatever the values.",
     ["inputs", "schedules"], "all values, places of calls and ends of executions, plain workers, pooled and multiplexed contexts",
     "Which messages survive a failing or terminated execution, and which values can be printed, cannot be sampled by a few log lines.",
     ["src/runtime/bindings/console.rs", "src/execution_context.rs", "src/worker.rs"],
     [("console methods and formatting", "runtime/bindings/console.rs"), ("delivery of log operations", "runtime/scheduler.rs")], ["messages received by the operations handler"])

prop("C20", "No script and no request takes the host down or harms other executions",
     "Whatever a script calls, with whatever values (host functions whose names start with __ included; detached, resizable and foreign buffers, throwing and lying objects, proxies, cyclic and huge values, replaced globals and prototypes), and however it recurses, allocates, loops or leaves things open: the process neither crashes nor aborts nor deadlocks, no internal panic escapes, the execution ends within its limits with one of the documented outcomes, and the client's body ends. "
     "Executions of other workers before, at the same time and afterwards are answered as if it had not been there.",
     ["inputs", "schedules", "histories"], "all scripts and requests under limits, plain workers, pooled and multiplexed contexts",
     "The tests of the repository call host functions with valid arguments only; this is about every value in every position, and about what is left behind for the next execution.",
     ["src/runtime/", "src/execution_context.rs", "src/worker.rs", "src/pool.rs", "src/security/"],
     [("native functions called with unchecked values", "runtime/bindings/*.rs, runtime/crypto/*.rs, runtime/text_encoding.rs"), ("streams left open", "execution_context.rs, AbortResponseStreams"), ("recovery after terminations", "pool.rs, execution_context.rs")], ["process survival, recovered panics, result and duration of exec, responses of neighbours and followers"])

prop("C21", "Scripts are confined: no ambient powers, no view of other workers",
     "A worker's script reaches, from the top level, handlers, timers, microtasks and background work, and also by way of eval, Function and the prototypes of every object it can get hold of, no SharedArrayBuffer or Atomics (the pieces of a timing attack), no module loader, process, file or engine debugging facility. "
     "Whatever one worker does to its globals, prototypes, classes and host functions, another worker's context (new, or kept since before) looks exactly as without it; no value, request, variable or stream of another worker can be read, and guessing identifiers of streams, timers, sockets and callbacks neither yields another execution's data nor disturbs it.",
     ["inputs", "histories", "schedules"], "all forms of tampering and guessing, plain workers, pooled isolates shared by several workers of an owner, multiplexed contexts",
     "What can be reached is a property of the whole graph of objects in every history of contexts; no test of the repository walks it.",
     ["src/runtime/bindings/web_api.rs", "src/runtime/bindings/", "src/execution_context.rs", "src/worker.rs", "src/pool.rs", "src/runtime/stream_manager.rs"],
     [("setup_security_restrictions", "runtime/bindings/web_api.rs"), ("one context per worker and version", "pool.rs"), ("identifiers handed to scripts", "runtime/stream_manager.rs, runtime/scheduler.rs")], ["graph of objects reachable in a context, its fingerprint, data received for guessed identifiers, victims' answers"])

prop("C24", "The native code is free of memory errors and data races",
     "Whatever scripts call and clients do, and however executions, limits, timers, streams, deferred destructions and operations interleave on any number of threads, the runtime's native code reads and writes only memory it owns (no use after free, no overrun of buffers or views, no double free), and never accesses the same memory from two threads without synchronisation.",
     ["inputs", "schedules"], "all scripts and values given to native functions, all interleavings of threads, plain workers, pooled and multiplexed contexts",
     "The code hands raw isolate pointers, extended lifetimes and hand-written Send/Sync to several threads; unit tests pass whether or not such accesses are sound.",
     ["src/async_waiter.rs", "src/gc/", "src/security/", "src/runtime/", "src/pool.rs", "src/locker_managed_isolate.rs", "src/execution_context.rs"],
     [("unsafe blocks, unsafe impl Send and Sync, raw pointers", "src/**"), ("views of script buffers read by native code", "runtime/bindings/, runtime/crypto/, runtime/text_encoding.rs"), ("atomics and locks", "async_waiter.rs, gc/, security/, runtime/stream_manager.rs")], ["every memory access of instrumented code, with its thread and the locks and orderings between them"])

prop("C16", "Code caches and snapshots change nothing but the start-up time",
     "A script run from a bundle of its source and its code cache behaves as from its source: same answers, errors, logs, stacks and function sources, on cold and kept contexts, whichever process made the cache; a cache that is empty, cut or another script's is ignored. Making a cache or a snapshot runs nothing of the script, ends with a cache or an error whatever the source, and disturbs no execution under way. "
     "Packing and unpacking a bundle returns exactly what was packed; malformed bundles are recognised, never panic, end with an error, and the worker's next request is served. A context started from the runtime snapshot offers exactly what one without offers.",
     ["inputs", "histories", "schedules"], "all scripts, caches, byte strings taken for bundles, plain workers, pooled and multiplexed contexts, with and without runtime snapshot",
     "The tests of the repository neither make nor run a code cache or snapshot; equivalence is a statement about every script, and robustness about every byte string.",
     ["src/snapshot.rs", "src/platform.rs", "src/execution_context.rs", "src/worker.rs", "src/runtime/mod.rs", "src/runtime/bindings/"],
     [("bundle format, creation of caches and snapshots", "snapshot.rs"), ("evaluation of bundles", "execution_context.rs, worker.rs evaluate_code_cache_in_context"), ("what a snapshot contains, what is set up afterwards", "runtime/mod.rs, execution_context.rs")], ["response, outcome, logs and task result of twin executions", "caches that V8 rejects", "graph of reachable objects with and without snapshot"])

prop("C25", "WebSocket events and messages arrive once, in order and complete",
     "Every WebSocket a script opens (constructor or fetch upgrade) makes exactly one connect operation with its URL and headers. The script sees open, every message the peer sent (text and binary, byte for byte), error and close, exactly once each, in that order, by handler properties and by listeners alike; a close event always comes (1006 when the connection is refused or lost), and neither a message nor a send is let through after close(). "
     "Messages the script sends reach the peer exactly once, in order, with the content they had when send() was called; unusable arguments throw and send nothing. Sockets do not mix, throwing listeners disturb nothing, a socket left open is closed when its execution ends, and none of its events reaches a later request.",
     ["inputs", "schedules", "histories"], "all numbers of sockets, sequences of sends, messages and closes by either side, moments at which connections are refused or lost, plain workers, pooled and multiplexed contexts",
     "No test of the repository opens a WebSocket against a peer; order, completeness and the end of a connection depend on how both sides' messages interleave with the event loop and the end of the request.",
     ["src/runtime/bindings/", "src/runtime/scheduler.rs", "src/runtime/callback_handlers.rs", "src/execution_context.rs"],
     [("WebSocket class", "runtime/bindings/websocket.rs"), ("connection pump", "runtime/scheduler.rs"), ("end of a request", "execution_context.rs, EndRequest")], ["connect operations, messages in both directions, events of every socket with their readyState"])

prop("C30", "AbortController and AbortSignal: aborted once, everyone told once",
     "A signal is aborted by the first abort() of its controller (or made aborted by AbortSignal.abort, or once the time of AbortSignal.timeout has passed, never before) and stays so with that reason, whatever the value (an AbortError or TimeoutError where none was given); throwIfAborted throws exactly it. Every listener added before and not removed is called exactly once, in the order added, with an abort event whose target is the signal and which already finds it aborted, "
     "also when listeners throw, abort, or add and remove listeners of this or other signals; adding a listener twice adds it once, other signals and events are not affected.",
     ["inputs", "histories"], "all sequences of adding, removing, aborting and reading on several signals, listeners that throw or interfere, all reasons, with and without runtime snapshot",
     "No test of the repository aborts anything; the order and number of calls depend on histories in which listeners themselves change the list.",
     ["src/runtime/bindings/web_api.rs"],
     [("AbortSignal, AbortController", "runtime/bindings/web_api.rs setup_abort_controller")], ["every call of a listener with the signal's state, aborted and reason after every step"])

prop("C31", "Clocks are true, never go back, and are no finer than 0.1 ms",
     "performance.now(), however it is called, counts the milliseconds since its context was made: it never decreases, agrees with real time to within 0.1 ms while the script computes, waits, and over all requests of a kept context, and is never finer than 0.1 ms (the precision given to scripts against timing attacks); Date.now() gives the host's time in whole milliseconds.",
     ["inputs", "schedules", "histories"], "all points of executions at which a clock is read, plain workers, pooled and multiplexed contexts, with and without runtime snapshot",
     "The value of a clock is a statement about every moment of a context's life; no test of the repository reads one in a running worker.",
     ["src/runtime/bindings/web_api.rs", "src/execution_context.rs", "src/runtime/mod.rs"],
     [("performance.now", "runtime/bindings/web_api.rs performance_now"), ("set up per context", "execution_context.rs, runtime/mod.rs, worker.rs")], ["readings of both clocks around operations whose arrival the host timed, every reading's grid and order"])
prop("C32", "What a worker left in flight is released when the worker is gone",
     "Soon (within a second) after a plain worker ends, or a pooled context is discarded, however the execution ended, everything it still had under way is let go of: operations without an answer are dropped, upstream bodies and client uploads closed, WebSockets disconnected, timers and tasks ended, the threads and timers which watched its limits gone, its isolate disposed and the host's operations handler no longer referenced. Only a body that is being forwarded to a client goes on, to its end. While the worker runs, a body it cancels is let go of as soon, even if its source is silent, and nothing else is.",
     ["inputs", "histories", "fault_sequences"], "all combinations of what scripts leave in flight, all ways in which executions end (answers, exceptions, limits, clients that leave), events and modes",
     "A long-running host fails by accumulation; no test of the repository counts what remains after an execution.",
     ["src/worker.rs", "src/pool.rs", "src/request_context.rs", "src/runtime/scheduler.rs", "src/runtime/stream_manager.rs", "src/runtime/callback_handlers.rs", "src/security/timeout_guard.rs", "src/security/cpu_enforcer.rs"],
     [("cancellation of operations and pumps", "runtime/scheduler.rs, request_context.rs, worker.rs (cancel tokens)"), ("streams closed", "runtime/stream_manager.rs clear, pump_request_body")], ["dropped operation futures, closed channels, live tokio tasks, threads, POSIX timers, disposed isolates, handler references"])

with open(f"{V}/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
