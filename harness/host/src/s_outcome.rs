//! C28: failures are reported as what they are. C13: clients that go away.
use crate::kit::*;
use openworkers_core::*;
use serde_json::json;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

const MS: fn(u64) -> Duration = Duration::from_millis;
pub fn is_pool(c: &Ctx) -> bool { c.args.get(2).map(|s| s.as_str()) == Some("pool") }

/// (JS expression of what is thrown, text the report has to carry)
fn thrown(r: &mut Rng) -> (String, Option<String>) {
    let n = r.below(10_000);
    match r.below(22) {
        0 => (format!("new Error('boom {n}')"), Some(format!("boom {n}"))),
        1 => (format!("new TypeError('wörld 😀 {n}')"), Some(format!("wörld 😀 {n}"))),
        2 => (format!("'text {n}'"), Some(format!("text {n}"))),
        3 => (format!("{n}"), Some(if n == 0 { "0".into() } else { n.to_string() })),
        4 => ("null".into(), Some("null".into())),
        5 => ("undefined".into(), Some("undefined".into())),
        6 => (format!("Symbol('s{n}')"), Some(format!("Symbol(s{n})"))),
        7 => ("false".into(), Some("false".into())),
        8 => ("0n".into(), Some("0".into())),
        9 => (format!("({{ message: 'm{n}' }})"), Some(format!("m{n}"))),
        10 => ("({ a: 1 })".into(), Some("[object Object]".into())),
        11 => ("Object.create(null)".into(), None),
        12 => ("({ toString() { throw new Error('hostile'); } })".into(), None),
        13 => ("({ get message() { throw null; } })".into(), None),
        14 => ("new Proxy({}, { get() { throw new Error('trap'); } })".into(), None),
        15 => ("new Error('')".into(), Some("Error".into())),
        16 => (format!("Object.assign(new Error('x'), {{ message: {n} }})"), Some(n.to_string())),
        17 => (format!("new (class Custom extends Error {{ get name() {{ return 'C'; }} }})('custom {n}')"), Some(format!("custom {n}"))),
        18 => ("JSON.parse('{')".into(), Some("JSON".into())),
        19 => (format!("Object.assign(new Error('c{n}'), {{ stack: null, cause: globalThis }})"), Some(format!("c{n}"))),
        20 => ("''".into(), Some("".into())),
        _ => (format!("new DOMException('d{n}', 'AbortError')"), Some(if n < 10_000 { "d".to_string() } else { String::new() })),
    }
}
const OKJS: &str = "globalThis.N = 0; const nap = ms => new Promise(f => setTimeout(f, ms)); const path = r => new URL(r.url).pathname; const good = () => new Response('ok ' + ++globalThis.N);\n";
/// handlers which fail on /bad
const FAILS: &[(&str, &str)] = &[
    ("listener-throw", "addEventListener('fetch', e => { if (path(e.request) === '/bad') throw X(); e.respondWith(good()); });"),
    ("listener-async", "addEventListener('fetch', async e => { if (path(e.request) === '/bad') throw X(); return good(); });"),
    ("listener-late", "addEventListener('fetch', async e => { if (path(e.request) === '/bad') { await nap(3); throw X(); } return good(); });"),
    ("respond-reject", "addEventListener('fetch', e => e.respondWith(path(e.request) === '/bad' ? Promise.reject(X()) : good()));"),
    ("respond-late", "addEventListener('fetch', e => e.respondWith((async () => { await nap(2); if (path(e.request) === '/bad') throw X(); return good(); })()));"),
    ("respond-after-fetch", "addEventListener('fetch', e => e.respondWith((async () => { await fetch('http://up/'); if (path(e.request) === '/bad') throw X(); return good(); })()));"),
    ("respond-timer", "addEventListener('fetch', e => e.respondWith(path(e.request) === '/bad' ? new Promise((_, no) => setTimeout(() => no(X()), 2)) : good()));"),
    ("respond-stream", "addEventListener('fetch', e => e.respondWith((async () => { if (path(e.request) === '/bad') { const s = new ReadableStream({ start(c) { c.error(X()); } }); await s.getReader().read(); } return good(); })()));"),
    ("es-throw", "globalThis.default = { fetch(r) { if (path(r) === '/bad') throw X(); return good(); } };"),
    ("es-async", "globalThis.default = { async fetch(r) { if (path(r) === '/bad') throw X(); return good(); } };"),
    ("es-late", "globalThis.default = { async fetch(r) { await nap(2); if (path(r) === '/bad') throw X(); return good(); } };"),
    ("es-reject", "globalThis.default = { fetch(r) { return path(r) === '/bad' ? Promise.reject(X()) : good(); } };"),
];
const TASK_FAILS: &[(&str, bool, &str)] = &[
    ("task-throw", false, "addEventListener('task', e => { throw X(); });"),
    ("task-async", false, "addEventListener('task', async e => { await nap(2); throw X(); });"),
    ("task-wait", false, "addEventListener('task', e => { e.waitUntil((async () => { await nap(2); throw X(); })()); });"),
    ("task-wait-mixed", false, "addEventListener('task', e => { e.waitUntil(Promise.reject(X())); e.waitUntil(nap(3)); return { success: true, data: 1 }; });"),
    ("sched-throw", true, "addEventListener('scheduled', e => { throw X(); });"),
    ("sched-async", true, "addEventListener('scheduled', async e => { await nap(2); throw X(); });"),
    ("sched-wait", true, "addEventListener('scheduled', e => { e.waitUntil(Promise.reject(X())); });"),
    ("es-task", false, "globalThis.default = { async task() { throw X(); } };"),
    ("es-task-sync", false, "globalThis.default = { task() { throw X(); } };"),
    ("es-task-wait", false, "globalThis.default = { task(e, env, ctx) { ctx.waitUntil(nap(2).then(() => { throw X(); })); } };"),
    ("es-sched", true, "globalThis.default = { async scheduled() { await nap(1); throw X(); } };"),
    ("es-sched-wait", true, "globalThis.default = { scheduled(e, env, ctx) { ctx.waitUntil(Promise.reject(X())); } };"),
];
/// scripts which fail before any handler runs
fn broken(r: &mut Rng) -> (&'static str, String) {
    let (x, _) = thrown(r);
    match r.below(6) {
        0 => ("syntax", (*r.pick(&["addEventListener('fetch', e => {", "let a; let a;", "return 1;", "export default {}", "await 1 +;", "'use strict'; with (a) {}", "\u{0}", "x = `", "class { }", "/[/"])).into()),
        1 => ("throw", format!("throw {x};")),
        2 => ("throw-late", format!("addEventListener('fetch', e => e.respondWith(new Response('x'))); addEventListener('task', e => 1); (() => {{ throw {x}; }})();")),
        3 => ("reference", "addEventListener('fetch', e => 1); nowhere.to.be.found();".into()),
        4 => ("type", "null.x;".into()),
        _ => ("overflow", "const f = () => f(); f();".into()),
    }
}
/// Outcomes of the runtime's own doing: (name, code, reason, body starts)
fn ended() -> Vec<(&'static str, &'static str, &'static str, Option<&'static str>)> {
    vec![
        ("hang", "await new Promise(() => {});", "WallClockTimeout", None),
        ("hang-fetch", "await fetch('http://never/');", "WallClockTimeout", None),
        ("spin", "for (;;);", "CpuTimeLimit", None),
        ("spin-late", "await nap(2); for (;;);", "CpuTimeLimit", None),
        ("heap", "const a = []; for (;;) a.push(new Array(10000).fill({}));", "MemoryLimit", None),
        ("buffers", "const a = []; for (;;) a.push(new ArrayBuffer(1 << 20));", "MemoryLimit", None),
        ("stream-hang", "return new Response(new ReadableStream({ start(c) { c.enqueue('head'); } }));", "WallClockTimeout", Some("head")),
        ("stream-hang-pull", "let n = 0; return new Response(new ReadableStream({ pull(c) { if (n++ < 3) c.enqueue('head'); else return new Promise(() => {}); } }));", "WallClockTimeout", Some("headheadhead")),
        ("stream-spin", "let n = 0; return new Response(new ReadableStream({ async pull(c) { await nap(1); if (n++ < 1) c.enqueue('head'); else for (;;); } }));", "CpuTimeLimit", Some("head")),
        ("stream-heap", "let n = 0; const a = []; return new Response(new ReadableStream({ async pull(c) { await nap(1); if (n++ < 1) c.enqueue('head'); else for (;;) a.push(new Array(10000).fill({})); } }));", "MemoryLimit", Some("head")),
    ]
}
async fn run(pool: bool, wid: &str, s: &Script, l: &RuntimeLimits, ops: OperationsHandle, ev: (Event, Rx)) -> Out {
    if pool { drive(pin_exec(&Pin::new("o", wid), s.clone(), ops, ev.0, None), ev.1, Client::default(), DEADLINE).await } else { worker_client(s.clone(), l.clone(), ops, ev, Client::default(), DEADLINE).await }
}
fn ops() -> Arc<Mock> {
    Mock::new(|_, op| async move {
        let Op::Fetch(r) = &op else { return err_reply(&op, "no") };
        if r.url.contains("never") { std::future::pending::<()>().await; }
        Reply::Http(Ok(text_response(200, "up")))
    })
}
pub fn outcomes(c: &mut Ctx) {
    let pool = is_pool(c);
    let mut lim = roomy();
    lim.heap_max_mb = 64;
    lim.max_wall_clock_time_ms = 400;
    lim.max_cpu_time_ms = 120;
    if pool { init_pool(3, None, 1, 3, lim.clone()); }
    let n = c.n(700, 20_000);
    let mut done = 0;
    let mut wid = 0;
    let mut r = c.rng.fork();
    let rep = c.rep.clone();
    let mode = if pool { "pool" } else { "worker" };
    let slow = ended();
    on_local(async {
        while done < n && c.time_left() {
            done += 1;
            wid += 1;
            let id = format!("w{wid}");
            let p = || get("http://h/bad");
            let ok_after = |rep: &Report, what: &str, o: &Out, fresh: Option<bool>| {
                rep.check(o.ok() && o.status() == 200 && o.text().starts_with("ok "), "after", || format!("{what}: the request after it: {}", o.brief()));
                if fresh == Some(true) && o.ok() { rep.eq("after-fresh", o.text(), "ok 1".to_string(), || format!("{what}: state of a context whose execution failed")); }
                rep.count("requests_after", 1);
            };
            match r.below(20) {
                0..=9 => {
                    let (name, code) = *r.pick(FAILS);
                    let (x, text) = thrown(&mut r);
                    let what = format!("{mode} {name} throws {x}");
                    rep.quick_case(&what);
                    let s = Script::new(format!("{OKJS}const X = () => {{ try {{ return ({x}); }} catch (e) {{ return e; }} }};\n{code}"));
                    let warm = r.chance(1, 3);
                    if warm { let o = run(pool, &id, &s, &lim, ops(), ev_fetch(get("http://h/"))).await; ok_after(&rep, &what, &o, None); }
                    let o = run(pool, &id, &s, &lim, ops(), ev_fetch(p())).await;
                    rep.check(o.ok(), &format!("handled-exec:{name}"), || format!("{what}: {}", o.brief()));
                    rep.eq(&format!("handled-status:{name}"), o.status(), 500, || format!("{what}: {}", o.brief()));
                    if let Some(t) = &text { rep.check(o.text().contains(t.as_str()), &format!("handled-text:{name}"), || format!("{what}: {} does not tell {t:?}", o.brief())); }
                    rep.count("handler_failures", 1);
                    if pool || r.chance(1, 8) { let o = run(pool, &id, &s, &lim, ops(), ev_fetch(get("http://h/"))).await; ok_after(&rep, &what, &o, None); }
                }
                10..=13 => {
                    let (name, sched, code) = *r.pick(TASK_FAILS);
                    let (x, text) = thrown(&mut r);
                    let what = format!("{mode} {name} throws {x}");
                    rep.quick_case(&what);
                    let es = code.starts_with("globalThis.default");
                    let s = Script::new(format!("{OKJS}const X = () => {{ try {{ return ({x}); }} catch (e) {{ return e; }} }};\n{code}\n{}", if es { "globalThis.default.fetch = () => good();" } else { "addEventListener('fetch', e => e.respondWith(good()));" }));
                    let ev = if sched { let (e, rx) = Event::from_schedule("t".into(), 5); (e, Rx::Task(rx)) } else { ev_task("t", Some(json!({"a":1})), None, 1) };
                    let o = run(pool, &id, &s, &lim, ops(), ev).await;
                    rep.check(o.ok(), &format!("task-exec:{name}"), || format!("{what}: {}", o.brief()));
                    let t = o.task.clone();
                    rep.check(t.as_ref().is_some_and(|t| !t.success), &format!("task-success:{name}"), || format!("{what}: {t:?} {}", o.brief()));
                    if let (Some(t), Some(x)) = (&t, &text) { rep.check(t.error.as_ref().is_some_and(|e| e.contains(x.as_str())), &format!("task-text:{name}"), || format!("{what}: {t:?} does not tell {x:?}")); }
                    rep.count("task_failures", 1);
                    if pool { let o = run(pool, &id, &s, &lim, ops(), ev_fetch(get("http://h/"))).await; ok_after(&rep, &what, &o, None); }
                }
                14 | 15 => {
                    let (name, code) = broken(&mut r);
                    let what = format!("{mode} broken script {name}: {code}");
                    rep.quick_case(&what);
                    let s = Script::new(code.clone());
                    let ev = match r.below(3) { 0 => ev_task("t", None, None, 1), _ => ev_fetch(p()) };
                    let o = run(pool, &id, &s, &lim, ops(), ev).await;
                    let named = match &o.exec { Err(TerminationReason::Exception(m)) => Some(m.clone()), _ => None };
                    rep.check(named.is_some() && !o.hung && !o.panicked && o.resp.is_none() && o.task.is_none(), &format!("broken:{name}"), || format!("{what}: {} {:?}", o.brief(), o.task));
                    if name == "syntax" { rep.check(named.as_ref().is_some_and(|m| m.contains("SyntaxError")), "broken-text:syntax", || format!("{what}: {named:?}")); }
                    rep.count("broken_scripts", 1);
                    let s = Script::new(format!("{OKJS}addEventListener('fetch', e => e.respondWith(good()));"));
                    let o = run(pool, &format!("{id}b"), &s, &lim, ops(), ev_fetch(get("http://h/"))).await;
                    ok_after(&rep, &what, &o, Some(true));
                }
                16 => {
                    // nobody handles the event
                    let code = *r.pick(&["", "1;", "globalThis.default = {};", "globalThis.default = null;", "globalThis.default = 42;", "globalThis.default = 'x';", "globalThis.default = { fetch: 1, task: 2, scheduled: 3 };", "addEventListener('nothing', () => {});"]);
                    let kind = r.below(3);
                    let what = format!("{mode} no handler {code:?} kind {kind}");
                    rep.quick_case(&what);
                    let s = Script::new(code);
                    let ev = match kind { 0 => ev_fetch(p()), 1 => ev_task("t", None, None, 1), _ => { let (e, rx) = Event::from_schedule("t".into(), 5); (e, Rx::Task(rx)) } };
                    let o = run(pool, &id, &s, &lim, ops(), ev).await;
                    rep.check(o.ok(), "nobody-exec", || format!("{what}: {}", o.brief()));
                    if kind == 0 { rep.eq("nobody-status", o.status(), 501, || format!("{what}: {}", o.brief())); }
                    else { rep.check(o.task.as_ref().is_some_and(|t| !t.success && t.error.is_some()), "nobody-task", || format!("{what}: {:?} {}", o.task, o.brief())); }
                    rep.count("no_handler", 1);
                }
                17 => {
                    // answered, and failing afterwards or twice
                    let (x, _) = thrown(&mut r);
                    let (name, body) = *r.pick(&[
                        ("wait-reject", "e.respondWith(good()); e.waitUntil(Promise.reject(X()));"),
                        ("wait-late", "e.respondWith(good()); e.waitUntil(nap(3).then(() => { throw X(); }));"),
                        ("wait-first", "e.waitUntil(Promise.reject(X())); e.respondWith(nap(3).then(good));"),
                        ("then-throw", "e.respondWith(good()); throw X();"),
                        ("unhandled", "Promise.reject(X()); nap(1).then(() => { throw X(); }); e.respondWith(nap(3).then(good));"),
                        ("timer-throw", "setTimeout(() => { throw X(); }, 1); e.respondWith(nap(4).then(good));"),
                        ("micro-throw", "queueMicrotask(() => { throw X(); }); e.respondWith(nap(2).then(good));"),
                        ("fetch-callback", "fetch('http://up/').then(() => { throw X(); }); e.respondWith(nap(3).then(good));"),
                    ]);
                    let what = format!("{mode} answered, {name} {x}");
                    rep.quick_case(&what);
                    let s = Script::new(format!("{OKJS}const X = () => {{ try {{ return ({x}); }} catch (e) {{ return e; }} }};\naddEventListener('fetch', e => {{ if (path(e.request) === '/bad') {{ {body} }} else e.respondWith(good()); }});"));
                    let o = run(pool, &id, &s, &lim, ops(), ev_fetch(p())).await;
                    rep.check(o.ok() && o.status() == 200 && o.text() == "ok 1", &format!("answered:{name}"), || format!("{what}: {}", o.brief()));
                    let o = run(pool, &id, &s, &lim, ops(), ev_fetch(get("http://h/"))).await;
                    ok_after(&rep, &what, &o, None);
                    rep.count("answered_then_failing", 1);
                }
                18 => {
                    if pool || r.chance(1, 2) {
                        let es = r.chance(1, 2);
                        let (name, body, reason, head) = *r.pick(&slow);
                        let what = format!("{mode} {name} es={es}");
                        rep.quick_case(&what);
                        let s = Script::new(format!("{OKJS}const h = async r => {{ if (path(r) === '/bad') {{ {body} }} return good(); }};\n{}", if es { "globalThis.default = { fetch: h };" } else { "addEventListener('fetch', e => e.respondWith(h(e.request)));" }));
                        if pool { let o = run(pool, &id, &s, &lim, ops(), ev_fetch(get("http://h/"))).await; ok_after(&rep, &what, &o, Some(true)); }
                        let o = run(pool, &id, &s, &lim, ops(), ev_fetch(p())).await;
                        rep.check(!o.hung && !o.panicked && o.exec.as_ref().err().is_some_and(|e| { let e = format!("{e:?}"); e == reason || reason == "MemoryLimit" && e == "CpuTimeLimit" }), &format!("reason:{name}"), || format!("{what}: expected {reason}, {}", o.brief()));
                        match (head, &o.resp) {
                            (None, _) if name == "buffers" => {} // the RangeError may be answered
                            (None, r) => { rep.check(r.is_none(), &format!("answer:{name}"), || format!("{what}: an answer came: {}", o.brief())); }
                            (Some(h), Some(r)) => {
                                rep.check(h.starts_with(&r.text()) && r.error().is_some(), &format!("cut-body:{name}"), || format!("{what}: body {:?}", r.body));
                                rep.check(matches!(&r.body, BodyOut::Stream { ended: true, .. }), &format!("cut-open:{name}"), || format!("{what}: the body did not end"));
                            }
                            (Some(_), None) => rep.viol(format!("no-head:{name}"), format!("{what}: {}", o.brief())),
                        }
                        let o = run(pool, &id, &s, &lim, ops(), ev_fetch(get("http://h/"))).await;
                        ok_after(&rep, &what, &o, Some(true));
                        rep.count("terminated", 1);
                    }
                }
                _ => {
                    let s = Script::new(format!("{OKJS}addEventListener('fetch', e => e.respondWith(good())); addEventListener('task', e => 1);"));
                    match r.below(3) {
                        0 if !pool => {
                            let task = r.chance(1, 2);
                            rep.quick_case(&format!("abort task={task}"));
                            let (ev, rx) = if task { ev_task("t", None, None, 1) } else { ev_fetch(p()) };
                            let (s, l) = (s.clone(), lim.clone());
                            let o = drive(async move { let mut w = openworkers_runtime_v8::Worker::new_with_ops(s, Some(l), ops()).await?; w.abort(); w.exec(ev).await }, rx, Client::default(), DEADLINE).await;
                            rep.check(matches!(o.exec, Err(TerminationReason::Aborted)) && o.resp.is_none() && o.task.is_none(), "aborted", || o.brief());
                        }
                        1 => {
                            // an event that was used up
                            let task = r.chance(1, 2);
                            rep.quick_case(&format!("{mode} consumed task={task}"));
                            let ev = if task { Event::Task(None) } else { Event::Fetch(None) };
                            let (_, rx) = ev_fetch(p());
                            let o = run(pool, &id, &s, &lim, ops(), (ev, rx)).await;
                            rep.check(o.exec.is_err() && !o.hung && !o.panicked, "consumed", || o.brief());
                            let o = run(pool, &id, &s, &lim, ops(), ev_fetch(get("http://h/"))).await;
                            ok_after(&rep, "consumed", &o, Some(true));
                        }
                        _ => {
                            // no JavaScript
                            let wasm = r.chance(1, 2);
                            let (name, code) = if wasm { ("wasm", WorkerCode::wasm(vec![0, 97, 115, 109, 1, 0, 0, 0])) } else { ("bundle", WorkerCode::snapshot(r.bytes(60))) };
                            rep.quick_case(&format!("{mode} {name} {wid}"));
                            let mut s2 = s.clone();
                            s2.code = code;
                            let o = run(pool, &id, &s2, &lim, ops(), ev_fetch(p())).await;
                            rep.check(o.exec.is_err() && !o.hung && !o.panicked && o.resp.is_none(), &format!("code:{name}"), || o.brief());
                            let o = run(pool, &format!("{id}b"), &s, &lim, ops(), ev_fetch(get("http://h/"))).await;
                            ok_after(&rep, name, &o, Some(true));
                        }
                    }
                    rep.count("odd_events", 1);
                }
            }
        }
    });
    rep.drain_panics();
}

// ------------------------------------------------------------------ clients that go away
/// (name, JS body of the handler, the source is pulled and so gets cancel())
const PRODUCERS: &[(&str, bool, &str)] = &[
    ("pull", true, "let i = 0; return new Response(new ReadableStream({ pull(c) { c.enqueue(chunk(i++)); }, cancel(x) { log('cancel'); } }));"),
    ("apull", true, "let i = 0; return new Response(new ReadableStream({ async pull(c) { watch(c); await nap(3); log('made'); put(c, chunk(i++)); }, cancel(x) { log('cancel'); } }));"),
    ("interval", false, "let t; return new Response(new ReadableStream({ start(c) { watch(c); let i = 0; t = setInterval(() => { if (!put(c, chunk(i++))) clearInterval(t); }, 2); }, cancel(x) { log('cancel'); clearInterval(t); } }));"),
    ("idle", false, "return new Response(new ReadableStream({ start(c) { watch(c); for (let i = 0; i < K; i++) c.enqueue(chunk(i)); }, cancel(x) { log('cancel'); } }));"),
    ("idle-pull", false, "let i = 0; return new Response(new ReadableStream({ pull(c) { if (i < K) c.enqueue(chunk(i++)); else { watch(c); return new Promise(() => {}); } }, cancel(x) { log('cancel'); } }));"),
    ("pending-fetch", false, "let i = 0; return new Response(new ReadableStream({ async pull(c) { if (i < K) c.enqueue(chunk(i++)); else { watch(c); await fetch('http://never/'); } }, cancel(x) { log('cancel'); } }));"),
    ("forward", false, "const u = await fetch('http://up/' + Q); return new Response(u.body);"),
    ("direct", false, "return await fetch('http://up/' + Q);"),
    ("rewrap", false, "const u = await fetch('http://up/' + Q); const rd = u.body.getReader(); return new Response(new ReadableStream({ async pull(c) { const { value, done } = await rd.read(); if (done) c.close(); else c.enqueue(value); }, cancel(x) { log('cancel'); return rd.cancel(x); } }));"),
    ("big", false, "return new Response(new Uint8Array(200000));"),
];
const GONE_JS: &str = r#"
const nap = ms => new Promise(f => setTimeout(f, ms));
let T0 = '';
const log = m => console.log('@' + m);
const chunk = i => new Uint8Array([i & 255, 1, 2, 3]);
const watched = new WeakSet();
function watch(c) { if (watched.has(c)) return; watched.add(c); c.signal.addEventListener('abort', () => log('abort')); }
function put(c, x) { try { c.enqueue(x); log('made'); return true; } catch (e) { log('threw ' + (e instanceof TypeError) + ' ' + c.signal.aborted); return false; } }
"#;
type Job = Box<dyn FnOnce() -> futures::future::LocalBoxFuture<'static, ()> + Send>;
struct Upstream { open: Arc<AtomicUsize>, released: Arc<AtomicUsize> }
fn gone_ops(u: &Upstream) -> Arc<Mock> {
    let (open, released) = (u.open.clone(), u.released.clone());
    Mock::new(move |_, op| {
        let (open, released) = (open.clone(), released.clone());
        async move {
            let Op::Fetch(r) = &op else { return err_reply(&op, "no") };
            if r.url.contains("never") { std::future::pending::<()>().await; }
            let (tx, rx) = tokio::sync::mpsc::channel(2);
            open.fetch_add(1, Ordering::SeqCst);
            tokio::spawn(async move {
                let mut i = 0u8;
                loop {
                    if tx.send(Ok(bytes::Bytes::from(vec![i; 50]))).await.is_err() { break; }
                    i = i.wrapping_add(1);
                    tokio::time::sleep(MS(2)).await;
                }
                released.fetch_add(1, Ordering::SeqCst);
            });
            Reply::Http(Ok(HttpResponse { status: 200, headers: vec![], body: ResponseBody::Stream(rx) }))
        }
    })
}
pub fn gone(c: &mut Ctx) {
    let pool = is_pool(c);
    let mut lim = roomy();
    lim.max_wall_clock_time_ms = 9_000;
    lim.max_cpu_time_ms = 5_000;
    lim.stream_buffer_size = *c.rng.pick(&[1, 4, 16]);
    let conc = if c.opt("--mux").is_some() { 3 } else { 1 };
    if pool { init_pool(6, None, conc, 3, lim.clone()); }
    let rep = c.rep.clone();
    let mut r = c.rng.fork();
    let rounds = c.n(14, 400);
    let mode = if pool { "pool" } else { "worker" };
    on_local(async {
        for round in 0..rounds {
            if !c.time_left() { break; }
            // several at a time: each one waits for the grace period at most
            let mut jobs: Vec<Job> = vec![];
            for lane in 0..10 {
                let (name, pulled, body) = *r.pick(PRODUCERS);
                let k = *r.pick(&[0usize, 1, 1, 2, 5, 12]);
                let never = r.chance(1, 6);
                let es = r.chance(1, 2);
                let wu = match r.below(3) { 0 => None, 1 => Some(2u64), _ => Some(r.range(30, 250) as u64) };
                let how = if never { "never listens".to_string() } else { format!("leaves after {k}") };
                let what = format!("{mode} round={round} {name} es={es} buf={} waitUntil={wu:?} client {how}", lim.stream_buffer_size);
                let h = format!("const K = {}, Q = 'x'; {body}", k.max(1) + 1);
                let w = match wu { Some(ms) => format!("ctx.waitUntil(nap({ms}).then(() => log('work')));"), None => String::new() };
                let code = if es { format!("{GONE_JS}globalThis.default = {{ async fetch(r, env, ctx) {{ if (new URL(r.url).pathname === '/ok') return new Response('ok'); {w} {h} }} }};") }
                    else { format!("{GONE_JS}addEventListener('fetch', ctx => {{ const r = ctx.request; if (new URL(r.url).pathname === '/ok') return ctx.respondWith(new Response('ok')); {w} ctx.respondWith((async () => {{ {h} }})()); }});") };
                let (lim, rep) = (lim.clone(), rep.clone());
                let drop_read = r.chance(1, 4);
                jobs.push(Box::new(move || Box::pin(async move {
                    rep.quick_case(&what);
                    let up = Upstream { open: Default::default(), released: Default::default() };
                    let ops = gone_ops(&up);
                    let s = Script::new(code);
                    let cl = Client { disconnect_after: Some(k), never_listen: never, pace: drop_read.then(|| MS(1)), ..Client::default() };
                    let t0 = Instant::now();
                    let wid = format!("g{round}-{lane}");
                    let (e, rx) = ev_fetch(get("http://h/bad"));
                    let o = if pool { drive(pin_exec(&Pin::new("o", &wid), s.clone(), ops.clone(), e, None), rx, cl, DEADLINE).await } else { worker_client(s.clone(), lim.clone(), ops.clone(), (e, rx), cl, DEADLINE).await };
                    let took = o.took;
                    rep.count("clients_gone", 1);
                    rep.check(o.ok(), &format!("exec:{name}"), || format!("{what}: {}", o.brief()));
                    // reading k chunks takes little; then the grace period and the work
                    rep.check(took < MS(2500), &format!("time:late:{name}"), || format!("{what}: the execution took {took:?}"));
                    // the pool finishes waitUntil work in the background
                    let t1 = Instant::now();
                    let logs = || -> Vec<String> { ops.logs().into_iter().filter_map(|(_, m)| m.find('@').map(|i| m[i + 1..].to_string())).collect() };
                    if wu.is_some() {
                        while !logs().iter().any(|l| l == "work") && t1.elapsed() < MS(3000) { tokio::time::sleep(MS(5)).await; }
                        rep.eq(&format!("work:{name}"), logs().iter().filter(|l| *l == "work").count(), 1, || format!("{what}: waitUntil work done, logs {:?}", logs()));
                    }
                    let l = logs();
                    let cancels = l.iter().filter(|l| *l == "cancel").count();
                    let aborts = l.iter().filter(|l| *l == "abort").count();
                    rep.check(cancels <= 1, &format!("cancel-twice:{name}"), || format!("{what}: {l:?}"));
                    rep.check(aborts <= 1, &format!("abort-twice:{name}"), || format!("{what}: {l:?}"));
                    rep.check(!l.iter().any(|l| l.starts_with("threw") && l != "threw true true"), &format!("threw:{name}"), || format!("{what}: {l:?}"));
                    // told once, by cancel() or by an enqueue() which throws
                    let threw = l.iter().filter(|l| l.starts_with("threw")).count();
                    if pulled { rep.check(cancels == 1 || threw > 0, &format!("cancel:{name}"), || format!("{what}: {l:?}")); }
                    if matches!(name, "apull" | "interval" | "idle" | "idle-pull" | "pending-fetch") && (l.iter().any(|l| l == "made") || name.starts_with("idle") ) {
                        rep.eq(&format!("abort:{name}"), aborts, 1, || format!("{what}: {l:?}"));
                    }
                    // nothing is produced any more
                    let made = |l: &[String]| l.iter().filter(|l| *l == "made").count();
                    let m0 = made(&logs());
                    tokio::time::sleep(MS(40)).await;
                    rep.eq(&format!("still-producing:{name}"), made(&logs()), m0, || format!("{what}: chunks made after the execution had ended"));
                    // the upstream is let go
                    let t2 = Instant::now();
                    while up.released.load(Ordering::SeqCst) < up.open.load(Ordering::SeqCst) && t2.elapsed() < MS(2500) { tokio::time::sleep(MS(5)).await; }
                    rep.eq(&format!("time:upstream:{name}"), up.released.load(Ordering::SeqCst), up.open.load(Ordering::SeqCst), || format!("{what}: upstream bodies released"));
                    rep.count("upstreams_released", up.released.load(Ordering::SeqCst) as u64);
                    rep.count("cancels_seen", cancels as u64);
                    rep.count("aborts_seen", aborts as u64);
                    // the worker goes on serving
                    let t3 = Instant::now();
                    let (e, rx) = ev_fetch(get("http://h/ok"));
                    let o = if pool { drive(pin_exec(&Pin::new("o", &wid), s.clone(), ops.clone(), e, None), rx, Client::default(), DEADLINE).await } else { worker_client(s.clone(), lim.clone(), ops.clone(), (e, rx), Client::default(), DEADLINE).await };
                    rep.check(o.ok() && o.text() == "ok", &format!("next:{name}"), || format!("{what}: {}", o.brief()));
                    rep.check(t3.elapsed() < MS(2500), &format!("time:next:{name}"), || format!("{what}: the next request took {:?}", t3.elapsed()));
                    let _ = t0;
                })));
            }
            // meanwhile, clients that stay: one reads on, one pauses for longer than the grace period
            for stay in 0..2 {
                let (lim, rep) = (lim.clone(), rep.clone());
                let style = r.below(3);
                let pause = if stay == 1 { MS(260) } else { MS(1) };
                let n = if stay == 1 { 4 } else { 40 };
                jobs.push(Box::new(move || Box::pin(async move {
                    let what = format!("{mode} round={round} staying client, style {style}, pause {pause:?}");
                    rep.quick_case(&what);
                    let src = ["let i = 0; return new Response(new ReadableStream({ async pull(c) { watch(c); await nap(1); if (i < N) c.enqueue(chunk(i++)); else c.close(); }, cancel() { log('cancel'); } }));",
                        "return new Response(new ReadableStream({ start(c) { watch(c); let i = 0; const t = setInterval(() => { if (i < N) c.enqueue(chunk(i++)); else { clearInterval(t); c.close(); } }, 1); }, cancel() { log('cancel'); } }));",
                        "let i = 0; return new Response(new ReadableStream({ pull(c) { watch(c); if (i < N) c.enqueue(chunk(i++)); else c.close(); }, cancel() { log('cancel'); } }));"][style];
                    let s = Script::new(format!("{GONE_JS}const N = {n}; addEventListener('fetch', e => e.respondWith((async () => {{ {src} }})()));"));
                    let ops = Mock::none();
                    let (e, rx) = ev_fetch(get("http://h/"));
                    let cl = Client { pace: Some(pause), ..Default::default() };
                    let o = if pool { drive(pin_exec(&Pin::new("o", &format!("s{round}-{stay}")), s, ops.clone(), e, None), rx, cl, DEADLINE).await } else { worker_client(s, lim, ops.clone(), (e, rx), cl, DEADLINE).await };
                    let want: Vec<u8> = (0..n).flat_map(|i| [i as u8, 1, 2, 3]).collect();
                    rep.check(o.ok() && o.resp.as_ref().is_some_and(|r| r.bytes() == want && r.error().is_none()), "stayed", || format!("{what}: {}", o.brief()));
                    let l: Vec<String> = ops.logs().into_iter().filter_map(|(_, m)| m.find('@').map(|i| m[i + 1..].to_string())).collect();
                    rep.check(!l.iter().any(|l| l == "cancel" || l == "abort"), "false-gone", || format!("{what}: {l:?}"));
                    rep.count("clients_stayed", 1);
                })));
            }
            // a thread runs one Worker at a time, but many pooled executions
            if pool { futures::future::join_all(jobs.into_iter().map(|j| j())).await; }
            else { std::thread::scope(|t| for j in jobs { t.spawn(move || on_local(j())); }); }
        }
    });
    rep.drain_panics();
}
