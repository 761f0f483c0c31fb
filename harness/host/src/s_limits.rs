//! C04 wall-clock limit, C05 CPU limit, C06 memory limits.
use crate::kit::*;
use openworkers_core::*;
use openworkers_runtime_v8 as rt;
use rt::security::{CpuEnforcer, CpuTimer, CustomAllocator, TimeoutGuard};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

fn cpu() -> Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}
fn burn(d: Duration) { let t = cpu(); let mut x = 1u64; while cpu() - t < d { for _ in 0..200 { x = std::hint::black_box(x.wrapping_mul(31)); } } }
const MS: fn(u64) -> Duration = Duration::from_millis;

struct Iso { iso: Box<rt::LockerManagedIsolate> }
impl Iso {
    fn new() -> Iso { let mut l = roomy(); l.heap_max_mb = 64; Iso { iso: Box::new(rt::LockerManagedIsolate::new(l)) } }
    fn handle(&mut self) -> v8::IsolateHandle { let (l, _j) = self.iso.lock(); l.thread_safe_handle() }
    fn raw(&self) -> *mut std::ffi::c_void { unsafe { self.iso.isolate.as_raw() as *mut _ } }
    /// What the next execution would meet: a script that computes a little.
    fn runs(&mut self) -> bool { self.runs_after(|_| ()) }
    /// The same after something else was done without leaving the isolate.
    fn runs_after(&mut self, before: impl FnOnce(v8::IsolateHandle)) -> bool {
        let (mut l, _j) = self.iso.lock();
        before(l.thread_safe_handle());
        v8::scope!(let scope, &mut *l);
        let ctx = v8::Context::new(scope, Default::default());
        let scope = &mut v8::ContextScope::new(scope, ctx);
        let src = v8::String::new(scope, "let x = 0; for (let i = 0; i < 20000; i++) x += i; x").unwrap();
        let Some(f) = v8::Script::compile(scope, src, None) else { return false };
        f.run(scope).and_then(|v| v.integer_value(scope)) == Some(199990000)
    }
}

// ------------------------------------------------------------------ the guards by themselves
/// CpuEnforcer and CpuTimer against the thread's CPU clock, on many threads at once.
pub fn guards_cpu(c: &mut Ctx) {
    guards_long(c, false);
    guards_huge(c);
    guards_staying(c, false);
    let rounds = c.n(6, 60);
    // the first timers of the process, at the same moment
    for round in 0..rounds {
        if !c.time_left() { break; }
        let threads = *c.rng.pick(&[1usize, 4, 8, 16, 32]);
        let aligned = c.rng.chance(1, 2);
        c.rep.case(format!("cpu-guards round={round} threads={threads} aligned={aligned}"));
        let limit0 = c.rng.range(15, 60) as u64;
        let bar = Arc::new(std::sync::Barrier::new(threads));
        let hs: Vec<_> = (0..threads).map(|t| {
            let (rep, mut r, bar) = (c.rep.clone(), c.rng.fork(), bar.clone());
            std::thread::spawn(move || {
                let mut iso = Iso::new();
                let h = iso.handle();
                bar.wait();
                for k in 0..r.range(1, 4) {
                    let mut limit = if aligned { limit0 } else { r.range(10, 120) as u64 };
                    let terms0 = mon_term(iso.raw());
                    let mut t0 = cpu();
                    let Some(e) = CpuEnforcer::new(h.clone(), limit) else { rep.viol("cpu-none", format!("no enforcer for {limit} ms")); return };
                    let mut ever_fired = false;
                    let mut armed_fired = false;
                    let mut after_fire = false;
                    for step in 0..r.range(2, 8) {
                        match if aligned && step == 0 { 9 } else { r.below(10) } {
                            0..=2 => burn(MS(r.range(1, 20) as u64)),
                            3 => std::thread::sleep(MS(r.range(5, 60) as u64)),
                            4 if armed_fired || (cpu() - t0) + MS(15) < MS(limit) => {
                                limit = r.range(10, 120) as u64;
                                // let a signal in flight arrive first
                                if armed_fired { std::thread::sleep(MS(40)); after_fire = true; }
                                let before = cpu();
                                if e.reset(limit).is_err() { rep.viol("cpu-reset", "reset failed"); }
                                t0 = before;
                                rep.check(!e.was_terminated(), if after_fire { "time:cpu-reset-flag" } else { "cpu-reset-flag" }, || "still terminated after reset".into());
                                rep.count("resets", 1);
                                armed_fired = false;
                            }
                            5 if !armed_fired && (cpu() - t0) + MS(15) < MS(limit) && limit < 60 => {
                                // idle for longer than the limit: waiting is not computing
                                std::thread::sleep(MS(limit + 30));
                                rep.count("idle_over_limit", 1);
                                rep.check(!e.was_terminated(), "cpu-idle", || format!("terminated while idle, {:?} of {limit} ms used", cpu() - t0));
                            }
                            9 => {
                                // exceed the limit
                                let used = cpu() - t0;
                                if used < MS(limit) { burn(MS(limit) - used + MS(2)); }
                                let w = Instant::now();
                                while !e.was_terminated() && w.elapsed() < MS(4000) { burn(MS(1)); }
                                rep.count("limits_exceeded", 1);
                                rep.max("max_cpu_fire_delay_ms", w.elapsed().as_millis() as u64);
                                if rep.check(e.was_terminated(), "cpu-lost", || format!("{:?} used of {limit} ms ({threads} threads), nothing happened", cpu() - t0)) {
                                    let w = Instant::now();
                                    let before = mon_term(iso.raw());
                                    armed_fired = true;
                                    ever_fired = true;
                                    // it goes on terminating, as long as the thread computes
                                    let again = r.chance(1, 2);
                                    while (if again { burn(MS(1)); mon_term(iso.raw()) <= before } else { mon_term(iso.raw()) == terms0 }) && w.elapsed() < MS(2000) { std::thread::sleep(MS(1)); }
                                }
                            }
                            _ => {}
                        }
                        let fired = e.was_terminated();
                        let used = cpu() - t0;
                        rep.count("states_seen", 1);
                        if fired { armed_fired = true; ever_fired = true; }
                        rep.check(!fired || used + MS(1) >= MS(limit), if after_fire { "time:cpu-early" } else { "cpu-early" }, || format!("thread {t}: terminated after {used:?} of {limit} ms"));
                    }
                    drop(e);
                    let seen = mon_term(iso.raw());
                    rep.check(!ever_fired || seen > terms0, "cpu-term-count", || "the limit was reached, but the isolate not terminated".into());
                    let used = cpu() - t0;
                    // a signal in flight while the guard was dropped may still arrive; nothing after that
                    std::thread::sleep(MS(60));
                    let settled = mon_term(iso.raw());
                    rep.check(ever_fired || used >= MS(limit) || settled == terms0, "cpu-term-early", || format!("isolate terminated after {used:?} of {limit} ms"));
                    burn(MS(if k == 0 { limit + 5 } else { 5 }));
                    std::thread::sleep(MS(20));
                    rep.eq("cpu-after-drop", mon_term(iso.raw()), settled, || "terminations after the enforcer was dropped".into());
                    if ever_fired { rep.count("runs_after_drop", 1); rep.check(iso.runs(), "cpu-next", || "a script run after the enforcer was dropped was terminated".into()); }
                    // the timer: exactly the thread's own CPU time
                    let c0 = cpu();
                    let t = CpuTimer::start();
                    let c1 = cpu();
                    burn(MS(r.range(0, 6) as u64));
                    std::thread::sleep(MS(r.range(0, 6) as u64));
                    let c2 = cpu();
                    let el = t.elapsed();
                    let c3 = cpu();
                    rep.check(el >= c2 - c1 && el <= c3 - c0, "cpu-timer", || format!("CpuTimer says {el:?}, the clock between {:?} and {:?}", c2 - c1, c3 - c0));
                }
                rep.check(CpuEnforcer::new(h.clone(), 0).is_none(), "cpu-zero", || "an enforcer for limit 0".into());
            })
        }).collect();
        for h in hs { if h.join().is_err() { c.rep.drain_panics(); } }
    }
}

/// Limits that are never reached: just above what fits 32 bits of ms, us or ns, and as good as none.
const HUGE: [u64; 8] = [4_300, 2_147_490, 4_294_970, (1 << 31) + 5, (1 << 32) + 5, (1 << 32) + 40, i64::MAX as u64, u64::MAX];

fn guards_huge(c: &mut Ctx) {
    for limit in HUGE {
        c.rep.case(format!("huge limit {limit}"));
        let rep = c.rep.clone();
        let h = std::thread::spawn(move || {
            let mut iso = Iso::new();
            let terms0 = mon_term(iso.raw());
            for reset in [false, true] {
                let Some(e) = CpuEnforcer::new(iso.handle(), if reset { 1000 } else { limit }) else { rep.viol("cpu-none", format!("no enforcer for {limit} ms")); return };
                if reset && e.reset(limit).is_err() { rep.viol("cpu-reset", format!("reset to {limit} ms failed")); }
                burn(MS(60));
                rep.check(!e.was_terminated() && mon_term(iso.raw()) == terms0, "cpu-early", || format!("terminated after 60 ms of {limit} ms, reset {reset}"));
                drop(e);
                rep.count("huge_limits", 1);
            }
            rep.check(iso.runs(), "cpu-next", || format!("a script run after an enforcer of {limit} ms was terminated"));
        });
        if h.join().is_err() { c.rep.drain_panics(); }
    }
}

/// A limit that fires on an isolate which its thread does not leave: it ends with its guard.
fn guards_staying(c: &mut Ctx, wall: bool) {
    for k in 0..c.n(6, 40) {
        c.rep.case(format!("staying {k} wall={wall}"));
        let mut iso = Iso::new();
        let (limit, extra, clear) = (c.rng.range(5, 25) as u64, c.rng.range(0, 30) as u64, c.rng.chance(1, 3));
        let mut fired = false;
        let runs = iso.runs_after(|h| {
            if wall {
                let g = TimeoutGuard::new(h, limit);
                let t = Instant::now();
                while (!g.was_triggered() || t.elapsed() < MS(limit + extra)) && t.elapsed() < MS(3000) { std::thread::sleep(MS(1)); }
                fired = g.was_triggered();
            } else if let Some(e) = CpuEnforcer::new(h, limit) {
                let t = Instant::now();
                while (!e.was_terminated() || (cpu() < MS(limit + extra))) && t.elapsed() < MS(3000) { burn(MS(1)); }
                std::thread::sleep(MS(5));
                fired = e.was_terminated();
                if clear { e.pause(); std::thread::sleep(MS(2)); }
            }
        });
        if fired { c.rep.count("runs_after_drop", 1); c.rep.check(runs, if wall { "wall-next" } else { "cpu-next" }, || format!("limit {limit} ms: a script run after the guard was dropped, on the isolate it was for, was terminated")); }
    }
}

/// Limits of more than a second: none of it is lost or added.
fn guards_long(c: &mut Ctx, wall: bool) {
    let limits: Vec<u64> = (0..c.n(6, 12)).map(|i| 1000 + [0u64, 1, 250, 700, 990, 999][i % 6] + c.rng.below(9) as u64).collect();
    c.rep.case(format!("long limits {limits:?} wall={wall}"));
    let hs: Vec<_> = limits.into_iter().enumerate().map(|(i, limit)| {
        let rep = c.rep.clone();
        std::thread::spawn(move || {
            let mut iso = Iso::new();
            let h = iso.handle();
            if wall {
                let t0 = Instant::now();
                let g = TimeoutGuard::new(h, limit);
                while !g.was_triggered() && t0.elapsed() < MS(limit + 3000) { std::thread::sleep(MS(2)); }
                let at = t0.elapsed();
                if rep.check(g.was_triggered(), "time:wall-late", || format!("not fired {at:?} after the start, limit {limit} ms")) { rep.check(at >= MS(limit), "wall-early", || format!("fired after {at:?} of {limit} ms")); }
            } else {
                // half of them get their limit later
                let first = if i % 2 == 0 { limit } else { 2 * limit };
                let mut t0 = cpu();
                let Some(e) = CpuEnforcer::new(h, first) else { rep.viol("cpu-none", format!("no enforcer for {first} ms")); return };
                if i % 2 == 1 { burn(MS(20)); t0 = cpu(); if e.reset(limit).is_err() { rep.viol("cpu-reset", "reset failed"); } }
                let w = Instant::now();
                while !e.was_terminated() && cpu() - t0 < MS(limit + 1500) && w.elapsed() < MS(12000) { burn(MS(1)); }
                let used = cpu() - t0;
                rep.count("long_limits", 1);
                if rep.check(e.was_terminated() || used < MS(limit + 1000), "time:cpu-lost", || format!("{used:?} used of {limit} ms, nothing happened")) { rep.check(!e.was_terminated() || used + MS(1) >= MS(limit), "cpu-early", || format!("terminated after {used:?} of {limit} ms")); }
            }
            rep.check(iso.runs(), "long-next", || "a script run after the guard was dropped was terminated".into());
        })
    }).collect();
    for h in hs { if h.join().is_err() { c.rep.drain_panics(); } }
}

/// TimeoutGuard against the clock.
pub fn guards_wall(c: &mut Ctx) {
    guards_long(c, true);
    guards_staying(c, true);
    let rounds = c.n(4, 40);
    for round in 0..rounds {
        if !c.time_left() { break; }
        let threads = *c.rng.pick(&[1usize, 4, 16]);
        c.rep.case(format!("wall-guards round={round} threads={threads}"));
        let hs: Vec<_> = (0..threads).map(|_| {
            let (rep, mut r) = (c.rep.clone(), c.rng.fork());
            std::thread::spawn(move || {
                let mut iso = Iso::new();
                let h = iso.handle();
                for _ in 0..6 {
                    let huge = *r.pick(&HUGE);
                    let limit = *r.pick(&[0u64, 1, 5, 20, 50, 100, 200, 3_600_000, huge, huge]);
                    let terms0 = mon_term(iso.raw());
                    let t0 = Instant::now();
                    let g = TimeoutGuard::new(h.clone(), limit);
                    let started = t0.elapsed();
                    let stay = match r.below(3) { 0 => 0, 1 => limit.min(300) / 2, _ => limit.min(200) + 40 };
                    let mut fired_at = None;
                    while t0.elapsed() < MS(stay) {
                        let f = g.was_triggered();
                        let at = t0.elapsed();
                        rep.count("states_seen", 1);
                        if f { fired_at = Some(at); break; }
                        std::thread::sleep(MS(1));
                    }
                    if limit == 0 { rep.check(fired_at.is_none(), "wall-zero", || "a guard without limit fired".into()); }
                    else if let Some(at) = fired_at {
                        rep.check(at >= MS(limit), "wall-early", || format!("fired after {at:?} of {limit} ms"));
                        rep.count("fired", 1);
                        let w = Instant::now();
                        while mon_term(iso.raw()) == terms0 && w.elapsed() < MS(1000) { std::thread::sleep(MS(1)); }
                        rep.check(mon_term(iso.raw()) > terms0, "wall-term", || "the guard fired, but the isolate was not terminated".into());
                    } else if stay > limit {
                        let w = Instant::now();
                        while !g.was_triggered() && w.elapsed() < MS(1000) { std::thread::sleep(MS(1)); }
                        rep.check(g.was_triggered(), "time:wall-late", || format!("not fired {:?} after the start, limit {limit} ms", t0.elapsed()));
                    }
                    let fired = g.was_triggered();
                    let at = t0.elapsed();
                    rep.check(!fired || (limit > 0 && at >= MS(limit)), "wall-early", || format!("fired after {at:?} of {limit} ms"));
                    let d = Instant::now();
                    drop(g);
                    let took = d.elapsed();
                    rep.check(took < MS(1000), "time:wall-drop", || format!("dropping a guard of {limit} ms took {took:?}"));
                    let _ = started;
                    let settled = mon_term(iso.raw());
                    if limit == 0 || t0.elapsed() < MS(limit) { rep.eq("wall-term-early", settled, terms0, || format!("terminations before {limit} ms were over")); }
                    if limit > 0 && limit <= 50 { std::thread::sleep(MS(limit + 20)); }
                    rep.eq("wall-after-drop", mon_term(iso.raw()), settled, || "terminations after the guard was dropped".into());
                    if fired { rep.count("runs_after_drop", 1); rep.check(iso.runs(), "wall-next", || "a script run after the guard was dropped was terminated".into()); }
                }
            })
        }).collect();
        for h in hs { if h.join().is_err() { c.rep.drain_panics(); } }
    }
}

// ------------------------------------------------------------------ executions
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode { Worker, Pool }
fn mode(c: &Ctx) -> Mode { if c.args.get(2).map(|s| s.as_str()) == Some("pool") { Mode::Pool } else { Mode::Worker } }
pub fn ev_sched(time: u64) -> (Event, Rx) { let (e, rx) = Event::from_schedule("t".into(), time); (e, Rx::Task(rx)) }

async fn once(m: Mode, tag: &str, code: &str, limits: &RuntimeLimits, ops: OperationsHandle, ev: (Event, Rx), dl: Duration) -> Out {
    let s = Script::with_bindings(code, None, vec![BindingInfo::new("KV", BindingType::Kv), BindingInfo::new("DB", BindingType::Database), BindingInfo::new("ST", BindingType::Storage), BindingInfo::new("AS", BindingType::Assets), BindingInfo::new("WK", BindingType::Worker)]);
    match m {
        Mode::Worker => worker_client(s, limits.clone(), ops, ev, Client::default(), dl).await,
        Mode::Pool => drive(pin_exec(&Pin::new("owner", tag), s, ops, ev.0, None), ev.1, Client::default(), dl).await,
    }
}
/// Operations of which those on a "never" target do not reply.
fn slow_ops() -> Arc<Mock> {
    Mock::new(|_, op| async move {
        let t = format!("{op:?}");
        if t.contains("never") { std::future::pending::<()>().await; }
        if let Some(i) = t.find("ms=") { let ms: u64 = t[i + 3..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0); tokio::time::sleep(MS(ms)).await; }
        match &op {
            Op::Fetch(_) | Op::BindFetch(..) | Op::BindWorker(..) if t.contains("endless") => {
                let (tx, rx) = tokio::sync::mpsc::channel(2);
                tokio::spawn(async move { let _ = tx.send(Ok(bytes::Bytes::from("first"))).await; std::future::pending::<()>().await; drop(tx) });
                Reply::Http(Ok(HttpResponse { status: 200, headers: vec![], body: ResponseBody::Stream(rx) }))
            }
            Op::Fetch(_) if t.contains("bulk") => Reply::Http(Ok(text_response(200, "x".repeat(1 << 20)))),
            Op::Storage(..) if t.contains("bulk") => Reply::Storage(StorageResult::Body(Some(vec![120; 1 << 20]))),
            Op::Fetch(_) | Op::BindFetch(..) | Op::BindWorker(..) => Reply::Http(Ok(text_response(200, "reply"))),
            Op::Kv(..) => Reply::Kv(KvResult::Value(None)),
            Op::Db(..) => Reply::Db(DatabaseResult::Rows("[]".into())),
            Op::Storage(..) => Reply::Storage(StorageResult::Body(None)),
            _ => err_reply(&op, "no"),
        }
    })
}
const ON: &str = "addEventListener('fetch', e => e.respondWith((async (r) => { BODY })(e.request)));";
fn on(body: &str) -> String { ON.replace("BODY", body) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Fetch, Body, Sched, Task }
/// Executions that never finish. `busy`: by computing.
fn endless() -> Vec<(&'static str, bool, Kind, String)> {
    use Kind::*;
    let mut v: Vec<(&'static str, bool, Kind, String)> = vec![
        ("promise", false, Fetch, "addEventListener('fetch', e => e.respondWith(new Promise(() => {})));".into()),
        ("fetch", false, Fetch, on("return await fetch('http://never/');")),
        ("fetch-body", false, Fetch, on("const u = await fetch('http://endless/'); return new Response(await u.text());")),
        ("interval", false, Fetch, on("setInterval(() => {}, 5); await new Promise(() => {});")),
        ("timer", false, Fetch, on("await new Promise(f => setTimeout(f, 1e8)); return new Response('late');")),
        ("stream", false, Fetch, on("return new Response(new ReadableStream({ pull() { return new Promise(() => {}); } }));")),
        ("stream-started", false, Fetch, on("return new Response(new ReadableStream({ start(c) { c.enqueue(new Uint8Array([1])); } }));")),
        ("kv", false, Fetch, "globalThis.default = { async fetch(r, env) { await env.KV.get('never'); return new Response('x'); } }".into()),
        ("db", false, Fetch, "globalThis.default = { async fetch(r, env) { await env.DB.query('never'); return new Response('x'); } }".into()),
        ("storage", false, Fetch, "globalThis.default = { async fetch(r, env) { await env.ST.get('never'); return new Response('x'); } }".into()),
        ("assets", false, Fetch, "globalThis.default = { async fetch(r, env) { await env.AS.fetch('http://never/'); return new Response('x'); } }".into()),
        ("worker-binding", false, Fetch, "globalThis.default = { async fetch(r, env) { await env.WK.fetch('http://never/'); return new Response('x'); } }".into()),
        ("websocket", false, Fetch, on("const w = await fetch('http://never/', { headers: { Upgrade: 'websocket' } }); return new Response('x');")),
        ("request-body", false, Body, on("return new Response(await r.text());")),
        ("sched", false, Sched, "addEventListener('scheduled', e => e.waitUntil(new Promise(() => {})));".into()),
        ("task", false, Task, "addEventListener('task', e => e.waitUntil(new Promise(() => {})));".into()),
        ("module-sched", false, Sched, "globalThis.default = { async scheduled() { await fetch('http://never/'); } }".into()),
        ("module-task", false, Task, "globalThis.default = { async task() { await fetch('http://never/'); } }".into()),
        ("race", false, Fetch, on("await Promise.race([new Promise(() => {}), fetch('http://never/')]); return new Response('x');")),
        ("ticking", false, Fetch, on("for (;;) await new Promise(f => setTimeout(f, 1));")),
        ("polling", false, Fetch, on("for (;;) await fetch('http://up/?ms=1');")),
    ];
    let busy: &[(&'static str, &str)] = &[
        ("loop", "for (;;);"),
        ("microtasks", "await (async () => { for (;;) await 1; })();"),
        ("then-chain", "const f = () => { Promise.resolve().then(f); }; f(); await new Promise(() => {});"),
        ("timer-loop", "await new Promise(f => setTimeout(() => { for (;;); }, 3));"),
        ("after-await", "await fetch('http://up/?ms=3'); for (;;);"),
        ("regex", "/^(a+)+$/.test('a'.repeat(60) + 'b'); return new Response('x');"),
        ("pull", "return new Response(new ReadableStream({ pull() { for (;;); } }));"),
        ("start", "return new Response(new ReadableStream({ start() { for (;;); } }));"),
        ("reviver", "JSON.parse('[1]', () => { for (;;); });"),
        ("tojson", "JSON.stringify({ toJSON() { for (;;); } });"),
        ("sort", "[2, 1].sort(() => { for (;;); });"),
        ("getter", "return { get status() { for (;;); }, get headers() { for (;;); }, get body() { for (;;); } };"),
        ("thenable", "return { then() { for (;;); } };"),
        ("header-tostring", "return new Response('x', { headers: { a: { toString() { for (;;); } } } });"),
        ("body-tostring", "return new Response({ toString() { for (;;); } });"),
        ("catch", "for (;;) { try { for (;;); } catch { } finally { for (;;); } }"),
        ("proxy", "new Proxy({}, { get() { for (;;); } }).x;"),
        ("recursion", "const f = () => { try { f(); } catch { f(); } }; for (;;) f();"),
        ("generator", "function* g() { for (;;) yield 1; } for (const x of g()); "),
        ("clone", "structuredClone({ get x() { for (;;); } });"),
        ("fetch-arg", "await fetch({ toString() { for (;;); } });"),
        ("console", "console.log({ toString() { for (;;); }, toJSON() { for (;;); } }); for (;;);"),
        ("bigint", "let x = 3n; for (;;) x = x * x % (1n << 20000n);"),
        ("interval-loop", "setInterval(() => { for (;;); }, 2); await new Promise(() => {});"),
        ("nested-timers", "const f = () => { setTimeout(f, 0); const t = Date.now(); while (Date.now() - t < 5); }; f(); await new Promise(() => {});"),
        ("abort-handler", "const a = new AbortController(); a.signal.addEventListener('abort', () => { for (;;); }); a.abort(); return new Response('x');"),
        ("pbkdf2", "const k = await crypto.subtle.importKey('raw', new Uint8Array(8), 'PBKDF2', false, ['deriveBits']); await crypto.subtle.deriveBits({ name: 'PBKDF2', hash: 'SHA-256', salt: new Uint8Array(8), iterations: 2500000 }, k, 256); for (;;);"),
        ("import-crypto", "for (;;) await crypto.subtle.digest('SHA-256', new Uint8Array(100000));"),
        // what is left to run when the first of it is stopped
        ("many-timers", "for (let i = 0; i < 6; i++) setTimeout(() => { for (;;); }, 1); const t = Date.now(); while (Date.now() - t < 4); await new Promise(() => {});"),
        ("many-replies", "const t = Date.now(); for (let i = 0; i < 6; i++) fetch('http://up/?ms=1').then(() => { for (;;); }); await new Promise(f => setTimeout(f, 1)); while (Date.now() - t < 12); await new Promise(() => {});"),
        ("many-micro", "for (let i = 0; i < 6; i++) Promise.resolve().then(() => { for (;;); }); for (;;);"),
        ("timer-micro", "setTimeout(() => { for (let i = 0; i < 4; i++) Promise.resolve().then(() => { for (;;); }); for (;;); }, 1); await new Promise(() => {});"),
        ("reply-micro", "await fetch('http://up/?ms=1'); for (let i = 0; i < 4; i++) Promise.resolve().then(() => { for (;;); }); for (;;);"),
        ("intervals", "for (let i = 0; i < 5; i++) setInterval(() => { for (;;); }, 1); await new Promise(() => {});"),
        ("many-bodies", "for (let i = 0; i < 5; i++) fetch('http://bulk/').then(async u => { const rd = u.body.getReader(); for (let k = 0; k < 4; k++) { rd.read().then(() => { for (;;); }); await 1; } }); await new Promise(() => {});"),
        ("pulls", "const s = () => new ReadableStream({ pull() { queueMicrotask(() => { for (;;); }); for (;;); } }); for (let i = 0; i < 4; i++) s().getReader().read(); await 1; return new Response(s());"),
        ("refill", "const f = () => { setTimeout(f, 0); setTimeout(f, 0); for (;;); }; f();"),
        ("refill-micro", "const f = () => { queueMicrotask(f); setTimeout(f, 0); fetch('http://up/').then(f, f); for (;;); }; setTimeout(f, 1); await new Promise(() => {});"),
    ];
    for (n, b) in busy { v.push((n, true, Fetch, on(b))); }
    // Endless accessors and conversions, called by the host's own functions, again and again.
    let endless: &[(&'static str, &str)] = &[
        ("again-kv", "env.KV.put('k', { get a() { L(); } })"), ("again-kv-options", "env.KV.put('k', 1, { get expiresIn() { L(); } })"), ("again-kv-key", "env.KV.get({ toString() { L(); } })"),
        ("again-db", "env.DB.query('q', [{ get a() { L(); } }])"), ("again-db-sql", "env.DB.query({ toString() { L(); } }, [])"), ("again-storage", "env.ST.put('k', { get byteLength() { L(); }, toString() { L(); } })"),
        ("again-storage-list", "env.ST.list({ get prefix() { L(); } })"), ("again-fetch-headers", "fetch('http://x/', { headers: { get a() { L(); } } })"), ("again-fetch-url", "fetch({ toString() { L(); } })"),
        ("again-fetch-method", "fetch('http://x/', { get method() { L(); } })"), ("again-fetch-native", "__nativeFetchStreaming({ get url() { L(); } }, () => {}, () => {})"), ("again-binding-native", "__nativeBindingFetch('AS', { get headers() { L(); } }, () => {}, () => {})"),
        ("again-ws", "new WebSocket('ws://x/', [{ toString() { L(); } }])"), ("again-console", "console.log({ toJSON() { L(); } })"), ("again-console-error", "console.log(Object.assign(new Error('x'), { get stack() { L(); } }))"),
        ("again-clone", "structuredClone({ get a() { L(); } })"), ("again-response", "new Response('x', { get status() { L(); } })"), ("again-headers", "new Headers({ [Symbol.iterator]: () => { L(); } })"),
        ("again-btoa", "btoa({ toString() { L(); } })"), ("again-encode", "new TextEncoder().encode({ toString() { L(); } })"), ("again-label", "new TextDecoder({ toString() { L(); } })"),
        ("again-digest", "crypto.subtle.digest({ get name() { L(); } }, new Uint8Array(1))"), ("again-import", "crypto.subtle.importKey('raw', new Uint8Array(8), { get name() { L(); } }, false, [])"),
        ("again-timeout", "setTimeout(() => {}, { valueOf() { L(); } })"), ("again-clear", "clearTimeout({ valueOf() { L(); } })"), ("again-url", "new URL({ toString() { L(); } })"), ("again-blob", "new Blob([{ toString() { L(); } }])"),
        ("again-params", "new URLSearchParams({ get a() { L(); } })"), ("again-signal", "AbortSignal.timeout({ valueOf() { L(); } })"), ("again-stream", "new ReadableStream({ get pull() { L(); } })"), ("again-write", "__responseStreamWrite({ valueOf() { L(); } }, {})"),
    ];
    for (n, b) in endless { v.push((n, true, Fetch, format!("const L = () => {{ for (;;); }}; globalThis.default = {{ async fetch(r, env) {{ for (;;) {{ try {{ {b}; }} catch (e) {{ }} }} }} }};"))); }
    v.push(("top-level", true, Fetch, "for (;;);".into()));
    v.push(("top-level-micro", true, Fetch, "Promise.resolve().then(() => { for (;;); }); addEventListener('fetch', e => e.respondWith(new Response('x')));".into()));
    v.push(("class-static", true, Fetch, "class A { static { for (;;); } }".into()));
    v.push(("module-loop", true, Fetch, "globalThis.default = { fetch() { for (;;); } }".into()));
    v.push(("sched-loop", true, Sched, "addEventListener('scheduled', e => { for (;;); });".into()));
    v.push(("task-loop", true, Task, "addEventListener('task', e => { for (;;); });".into()));
    v.push(("module-task-loop", true, Task, "globalThis.default = { async task() { await 1; for (;;); } }".into()));
    v
}
fn event_for(k: Kind, keep: &mut Vec<tokio::sync::mpsc::Sender<Result<bytes::Bytes, String>>>) -> (Event, Rx) {
    match k {
        Kind::Fetch => ev_fetch(get("http://x/")),
        Kind::Body => { let (tx, rx) = tokio::sync::mpsc::channel(4); let _ = tx.try_send(Ok(bytes::Bytes::from("part"))); keep.push(tx);
            let mut r = post("http://x/", vec![]); r.body = RequestBody::Stream(rx); ev_fetch(r) }
        Kind::Sched => ev_sched(1_700_000_000_000),
        Kind::Task => ev_task("t1", Some(serde_json::json!({"a": 1})), None, 1),
    }
}
const FINE: &str = "addEventListener('fetch', e => e.respondWith((async () => { await fetch('http://up/?ms=2'); await new Promise(f => setTimeout(f, 2)); return new Response('fine'); })()));";

/// Every shape of not finishing, under a wall-clock or CPU limit.
fn shapes(c: &mut Ctx, wall: bool) {
    let m = mode(c);
    let limit: u64 = if wall { 250 } else { 60 };
    let mut lim = roomy();
    lim.heap_max_mb = 96;
    if wall { lim.max_wall_clock_time_ms = limit; lim.max_cpu_time_ms = 30_000; } else { lim.max_cpu_time_ms = limit; lim.max_wall_clock_time_ms = 30_000; }
    if m == Mode::Pool { init_pool(3, None, 1, 3, lim.clone()); }
    let all: Vec<_> = endless().into_iter().filter(|s| wall || s.1).collect();
    let rounds = c.n(1, 12);
    for round in 0..rounds {
        let mut todo = all.clone();
        if let Some(o) = c.opt("--only") { todo.retain(|t| t.0 == o); }
        c.rng.shuffle(&mut todo);
        let threads = if wall { 4 } else { 3 };
        let per: Vec<Vec<_>> = (0..threads).map(|t| todo.iter().skip(t).step_by(threads).cloned().collect()).collect();
        let (rep, budget, t0) = (c.rep.clone(), c.budget, c.t0);
        std::thread::scope(|s| for list in per {
            let (rep, lim) = (rep.clone(), lim.clone());
            s.spawn(move || on_local(async move {
                for (name, busy, kind, code) in list {
                    if t0.elapsed() > budget { break; }
                    rep.case(format!("{}-{m:?}-{name} round={round}", if wall { "wall" } else { "cpu" }));
                    let ops = slow_ops();
                    let mut keep = vec![];
                    let ev = event_for(kind, &mut keep);
                    let c0 = cpu();
                    let o = once(m, &format!("shape-{name}"), &code, &lim, ops.clone(), ev, MS(8000)).await;
                    let used = cpu() - c0;
                    let sig = |k: &str| format!("{}:{k}:{name}", if wall { "wall" } else { "cpu" });
                    rep.check(!o.panicked, &sig("panic"), || o.brief());
                    rep.check(!o.hung, &sig("unbounded"), || format!("{name} ({m:?}) still running after 8 s: {}", o.brief()));
                    rep.count("endless_executions", 1);
                    if !o.hung && !o.panicked {
                        let want = if wall { TerminationReason::WallClockTimeout } else { TerminationReason::CpuTimeLimit };
                        // both guards look at the top-level code before the execution itself starts
                        rep.check(o.exec == Err(want.clone()), &sig("verdict"), || format!("{name} ({m:?}): {} after {:?}", o.brief(), o.took));
                        if wall { rep.check(o.took + MS(2) >= MS(limit), &sig("early"), || format!("{name} ({m:?}) ended after {:?}", o.took)); }
                        else { rep.check(used + MS(2) >= MS(limit), &sig("early"), || format!("{name} ({m:?}) ended after {used:?} of CPU")); }
                        let late = if wall { o.took } else { used };
                        rep.check(late < MS(limit + 1500), &format!("time:{}", sig("late")), || format!("{name} ({m:?}) ended after {late:?}, limit {limit} ms"));
                        let _ = busy;
                    }
                    // whatever happened, the next requests on this thread are served
                    for k in 0..2 {
                        let o = once(m, if k == 0 { "after-1" } else { "after-2" }, FINE, &lim, ops.clone(), ev_fetch(get("http://x/")), MS(8000)).await;
                        rep.check(o.ok() && o.text() == "fine", &sig("after"), || format!("request after {name} ({m:?}): {}", o.brief()));
                    }
                }
            }));
        });
        if !c.time_left() { break; }
    }
}
pub fn wall_shapes(c: &mut Ctx) { shapes(c, true) }
pub fn cpu_shapes(c: &mut Ctx) { shapes(c, false) }

/// Executions which stay within the limit are left alone, and each starts with a full budget.
pub fn within(c: &mut Ctx) {
    let m = mode(c);
    let (wall, cpu_ms) = (500u64, 150u64);
    let mut lim = roomy();
    lim.heap_max_mb = 96;
    lim.max_wall_clock_time_ms = wall;
    lim.max_cpu_time_ms = cpu_ms;
    if m == Mode::Pool { init_pool(2, None, 1, 2, lim.clone()); }
    let rounds = c.n(2, 20);
    // the script burns CPU by its thread's clock as far as it can tell: Date.now
    let code = "let n = 0; addEventListener('fetch', e => e.respondWith((async () => { n++; const p = Object.fromEntries(new URL(e.request.url).searchParams.entries()); \
        const burn = ms => { const t = performance.now(); while (performance.now() - t < ms); }; \
        for (let i = 0; i < +p.k; i++) { if (+p.burn) burn(+p.burn); if (+p.wait) await new Promise(f => setTimeout(f, +p.wait)); if (+p.op) await fetch('http://up/?ms=' + p.op); } \
        return new Response('done ' + n); })()));";
    for round in 0..rounds {
        if !c.time_left() { break; }
        let threads = if round % 2 == 0 { 1 } else { 4 };
        let (rep, rng) = (c.rep.clone(), c.rng.fork());
        std::thread::scope(|s| for t in 0..threads {
            let (rep, lim, mut r) = (rep.clone(), lim.clone(), Rng::new(rng.0 ^ t as u64));
            s.spawn(move || on_local(async move {
                let ops = slow_ops();
                let mut w = None;
                if m == Mode::Worker { w = rt::Worker::new_with_ops(Script::new(code), Some(lim.clone()), ops.clone()).await.ok(); }
                for k in 0..8 {
                    // bursts of computing: at most 40% of the CPU limit; waiting: at most 50% of the wall limit
                    let (kk, burn, wait, op) = match r.below(4) {
                        0 => (r.range(1, 4), 50 / 4, 0, 0),
                        1 => (1, 55, 0, 0),
                        2 => (r.range(1, 3), 0, 60, 0),
                        _ => (2, 10, 30, 30),
                    };
                    let url = format!("http://x/?k={kk}&burn={burn}&wait={wait}&op={op}");
                    rep.case(format!("within-{m:?} thread={t} request={k} {url}"));
                    let (t0, c0) = (Instant::now(), cpu());
                    let o = match &mut w {
                        Some(w) => { let (e, rx) = ev_fetch(get(&url)); drive(w.exec(e), rx, Client::default(), DEADLINE).await }
                        None => once(m, "within", code, &lim, ops.clone(), ev_fetch(get(&url)), DEADLINE).await,
                    };
                    let (el, used) = (t0.elapsed(), cpu() - c0);
                    rep.count("within_limit", 1);
                    if o.exec == Err(TerminationReason::CpuTimeLimit) { rep.check(used + MS(2) >= MS(cpu_ms), "within:cpu-early", || format!("{url}: CPU limit after {used:?} of {cpu_ms} ms")); if used >= MS(cpu_ms) { rep.inconclusive("machine too slow"); break; } }
                    else if o.exec == Err(TerminationReason::WallClockTimeout) { rep.check(el + MS(2) >= MS(wall), "within:wall-early", || format!("{url}: timeout after {el:?} of {wall} ms")); if el >= MS(wall) { rep.inconclusive("machine too slow"); break; } }
                    else { rep.check(o.ok() && o.text().starts_with("done "), "within:refused", || format!("{url}: {} after {el:?}, cpu {used:?}", o.brief())); }
                    if w.is_some() && !o.ok() { break; }
                }
            }));
        });
    }
    // limits which nothing reaches
    if m == Mode::Worker {
        for (wall, cpu_ms) in [(HUGE[4], HUGE[4]), (HUGE[3], HUGE[0]), (HUGE[7], HUGE[6]), (HUGE[0], HUGE[5]), (HUGE[6], HUGE[7]), (0, HUGE[1]), (HUGE[2], 0)] {
            c.rep.case(format!("within-huge wall={wall} cpu={cpu_ms}"));
            let (rep, mut lim) = (c.rep.clone(), lim.clone());
            lim.max_wall_clock_time_ms = wall;
            lim.max_cpu_time_ms = cpu_ms;
            let h = std::thread::spawn(move || on_local(async move {
                let o = worker_once(Script::new(code), lim, slow_ops(), ev_fetch(get("http://x/?k=2&burn=15&wait=25&op=25"))).await;
                rep.count("within_limit", 1);
                rep.check(o.ok() && o.text() == "done 1", "within:refused", || format!("limits of {wall} and {cpu_ms} ms: {}", o.brief()));
            }));
            if h.join().is_err() { c.rep.drain_panics(); }
        }
    }
    // many threads computing at once: each is charged for its own time only
    if m == Mode::Worker {
        for round in 0..c.n(1, 6) {
            c.rep.case(format!("cpu-own-time round={round}"));
            let hogs: Arc<AtomicBool> = Arc::new(AtomicBool::new(true));
            std::thread::scope(|s| {
                for _ in 0..3 { let h = hogs.clone(); s.spawn(move || while h.load(Ordering::SeqCst) { burn(MS(5)); }); }
                let (rep, lim) = (c.rep.clone(), lim.clone());
                let hs: Vec<_> = (0..3).map(|k| { let (rep, lim) = (rep.clone(), lim.clone()); s.spawn(move || on_local(async move {
                    let c0 = cpu();
                    let mut l = lim.clone(); l.max_wall_clock_time_ms = 20_000;
                    let o = worker_once(Script::new(on(if k == 0 { "for (;;);" } else { "for (let i = 0; i < 4; i++) { const t = performance.now(); while (performance.now() - t < 5); await new Promise(f => setTimeout(f, 60)); } return new Response('ok');" }).as_str()), l, slow_ops(), ev_fetch(get("http://x/"))).await;
                    let used = cpu() - c0;
                    if k == 0 { rep.check(o.exec == Err(TerminationReason::CpuTimeLimit), "cpu:own-hog", || o.brief()); }
                    else if used < MS(cpu_ms) { rep.check(o.ok(), "cpu:own-charged", || format!("{}, cpu {used:?}", o.brief())); }
                })) }).collect();
                for h in hs { let _ = h.join(); }
                hogs.store(false, Ordering::SeqCst);
            });
        }
    }
}

/// One execution's wall-clock limit, while others (which share its isolate, with multiplexing) compute.
pub fn neighbours(c: &mut Ctx) {
    let mux = c.opt("--mux").is_some();
    let wall = 400u64;
    let mut lim = roomy();
    lim.heap_max_mb = 96;
    lim.max_wall_clock_time_ms = wall;
    if mux { init_pool(1, None, 8, 8, lim); } else { init_pool(8, None, 1, 8, lim); }
    let rounds = c.n(12, 300);
    let busy = "let n = 0; addEventListener('fetch', e => e.respondWith((async () => { const p = Object.fromEntries(new URL(e.request.url).searchParams.entries()); \
        const burn = ms => { const t = performance.now(); let x = 0; while (performance.now() - t < ms) for (let i = 0; i < 1000; i++) x += i; return x; }; const log = []; \
        for (let i = 0; i < +p.k; i++) { burn(+p.burn); log.push(i); if (p.how === 'timer') await new Promise(f => setTimeout(f, 1)); else if (p.how === 'op') await fetch('http://up/?ms=1'); else await null; } \
        if (p.body) { let i = 0; return new Response(new ReadableStream({ pull(c) { burn(+p.burn); c.enqueue(new TextEncoder().encode(i + ',')); if (++i >= 6) c.close(); } })); } \
        return new Response(log.join()); })()));";
    let idle = "addEventListener('fetch', e => e.respondWith(new Promise(() => {})));";
    on_local(async { for round in 0..rounds {
        if !c.time_left() { break; }
        let waiters = c.rng.range(3, 5);
        let (rep, mut r) = (c.rep.clone(), c.rng.fork());
        rep.case(format!("neighbours mux={mux} round={round} waiters={waiters}"));
        {
            let t0 = Instant::now();
            let mut jobs: Vec<futures::future::LocalBoxFuture<()>> = vec![];
            for k in 0..waiters {
                let (rep, delay) = (rep.clone(), r.range(0, 160) as u64);
                jobs.push(Box::pin(async move {
                    tokio::time::sleep(MS(delay)).await;
                    let ev = ev_fetch(get("http://x/"));
                    let o = drive(pin_exec(&Pin::new("o", &format!("w{k}")), Script::new(idle), slow_ops(), ev.0, None), ev.1, Client::default(), MS(6000)).await;
                    rep.check(o.exec == Err(TerminationReason::WallClockTimeout) && o.took + MS(2) >= MS(wall), "wall:neighbour-waiter", || format!("waiter: {} after {:?}", o.brief(), o.took));
                    rep.count("endless_executions", 1);
                }));
            }
            // bursts around the moments when the limits of the others are reached
            for k in 0..2 {
                let (rep, mut r) = (rep.clone(), r.fork());
                jobs.push(Box::pin(async move {
                    tokio::time::sleep(MS(wall - 40)).await;
                    for q in 0..3 {
                        let (kk, burn, how) = (r.range(4, 8), r.range(4, 8), *r.pick(&["timer", "op", "micro"]));
                        let body = r.chance(1, 3);
                        let url = format!("http://x/?k={kk}&burn={burn}&how={how}{}", if body { "&body=1" } else { "" });
                        let t1 = Instant::now();
                        let ev = ev_fetch(get(&url));
                        let o = drive(pin_exec(&Pin::new("o", &format!("b{k}")), Script::new(busy), slow_ops(), ev.0, None), ev.1, Client::default(), MS(6000)).await;
                        let el = t1.elapsed();
                        let want = if body { "0,1,2,3,4,5,".to_string() } else { (0..kk).map(|i| i.to_string()).collect::<Vec<_>>().join(",") };
                        // its own limit
                        if el >= MS(wall - 20) && (o.exec == Err(TerminationReason::WallClockTimeout) || o.ok()) { rep.inconclusive("machine too slow"); continue; }
                        rep.check(o.ok() && o.text() == want, "wall:neighbour", || format!("mux={mux} {url} at {:?}: {} {:?} after {el:?}", t1 - t0, o.brief(), o.text()));
                        rep.count("within_limit", 1);
                        let _ = q;
                    }
                }));
            }
            futures::future::join_all(jobs).await;
        }
    } });
}

// ------------------------------------------------------------------ memory
/// The ArrayBuffer allocator against a ledger, from one and from many threads.
pub fn alloc_model(c: &mut Ctx) {
    let rounds = c.n(300, 5000);
    for round in 0..rounds {
        if !c.time_left() { break; }
        let mut r = c.rng.fork();
        let max = *r.pick(&[0usize, 1, 100, 4096, 1 << 20, 5 << 20]);
        c.rep.quick_case(&format!("allocator model {round}"));
        let flag = Arc::new(crate::Flag::new(false));
        let a = CustomAllocator::new(max, flag.clone());
        let v = a.clone().into_v8_allocator();
        let p = &*v as *const v8::Allocator as *const std::ffi::c_void;
        let (mut live, mut used): (Vec<(usize, usize, u8)>, usize) = (vec![], 0);
        let mut want_flag = Some(false);
        let mut refused: Option<usize> = None;
        let mut trace = format!("max {max} ");
        for _ in 0..r.range(5, 80) {
            match r.below(8) {
                0..=4 => {
                    let n = match r.below(7) { 0 => 0, 1 => 1, 2 => r.below(max + 1), 3 => max - used.min(max), 4 => max - used.min(max) + 1, 5 => *r.pick(&[usize::MAX, usize::MAX / 2 + 1, isize::MAX as usize]), _ => r.range(1, 5000) };
                    let zero = r.chance(1, 2);
                    let fits = n <= max - used;
                    let d = unsafe { owh_alloc(p, n, zero as i32) } as usize;
                    trace.push_str(&format!("alloc {n} "));
                    c.rep.check((d != 0) == fits, "alloc-limit", || format!("allocation of {n} with {used} of {max} used gave {}; {trace}", if d != 0 { "memory" } else { "nothing" }));
                    if d != 0 && !fits { break; }
                    if d != 0 {
                        if zero { let z = unsafe { std::slice::from_raw_parts(d as *const u8, n) }; c.rep.check(z.iter().all(|b| *b == 0), "alloc-zero", || format!("memory not zeroed ({n} bytes)")); }
                        let b = r.next() as u8;
                        unsafe { std::ptr::write_bytes(d as *mut u8, b, n) };
                        used += n;
                        live.push((d, n, b));
                        // granted after all: V8 asks again after collecting garbage
                        if let Some(k) = refused { if k == n && n != 0 { if want_flag == Some(true) { want_flag = None; } } }
                        refused = None;
                    } else if !fits { refused = Some(n); want_flag = Some(true); }
                }
                5 | 6 if !live.is_empty() => {
                    let k = r.below(live.len());
                    let (d, n, b) = live.swap_remove(k);
                    c.rep.check(unsafe { std::slice::from_raw_parts(d as *const u8, n) }.iter().all(|x| *x == b), "alloc-overlap", || format!("block of {n} bytes was overwritten; {trace}"));
                    unsafe { owh_free(p, d as *mut _, n) };
                    used -= n;
                    trace.push_str(&format!("free {n} "));
                }
                _ => { if flag.swap(false, Ordering::SeqCst) { trace.push_str("clear "); } want_flag = Some(false); refused = None; }
            }
            c.rep.eq("alloc-usage", a.current_usage(), used, || format!("usage; {trace}"));
            if let Some(w) = want_flag { c.rep.eq("alloc-flag", flag.load(Ordering::SeqCst), w, || format!("limit flag; {trace}")); }
            c.rep.count("alloc_steps", 1);
        }
        for (d, n, _) in live { unsafe { owh_free(p, d as *mut _, n) }; }
        c.rep.eq("alloc-usage-end", a.current_usage(), 0, || "usage after everything was freed".into());
        c.rep.seen(&trace);
    }
    // several threads: never more than the limit, nothing lost, no refusal that fits
    for round in 0..c.n(20, 300) {
        if !c.time_left() { break; }
        let threads = c.rng.range(2, 8);
        let unit = *c.rng.pick(&[1usize, 64, 4096]);
        let cap = c.rng.range(1, threads);
        c.rep.case(format!("allocator threads={threads} unit={unit} cap={cap} round={round}"));
        let flag = Arc::new(crate::Flag::new(false));
        let a = CustomAllocator::new(unit * cap, flag.clone());
        let v = a.clone().into_v8_allocator();
        let p = &*v as *const v8::Allocator as usize;
        let (now, peak, refusals) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
        std::thread::scope(|s| for t in 0..threads {
            let (rep, now, peak, refusals) = (&c.rep, &now, &peak, &refusals);
            s.spawn(move || for k in 0..400 {
                let p = p as *const std::ffi::c_void;
                // with as many units as threads nothing is ever refused
                let d = unsafe { owh_alloc(p, unit, 1) };
                rep.count("alloc_steps", 1);
                if d.is_null() { refusals.fetch_add(1, Ordering::SeqCst); rep.check(cap < threads, "alloc-refused", || format!("refused though only {threads} of {cap} units can be in use")); continue; }
                let n = now.fetch_add(1, Ordering::SeqCst) + 1;
                peak.fetch_max(n, Ordering::SeqCst);
                let tag = (t * 400 + k) as u8;
                unsafe { std::ptr::write_bytes(d as *mut u8, tag, unit) };
                if k % 7 == 0 { std::thread::yield_now(); }
                rep.check(unsafe { std::slice::from_raw_parts(d as *const u8, unit) }.iter().all(|b| *b == tag), "alloc-overlap", || "block shared by two threads".into());
                now.fetch_sub(1, Ordering::SeqCst);
                unsafe { owh_free(p, d, unit) };
            });
        });
        let peak = peak.load(Ordering::SeqCst);
        c.rep.check(peak <= cap, "alloc-over", || format!("{peak} units in use, the limit allows {cap}"));
        c.rep.eq("alloc-usage-end", a.current_usage(), 0, || "usage after everything was freed".into());
    }
}

fn hogs() -> Vec<(&'static str, &'static str, Kind, String)> {
    use Kind::*;
    // kind of end: "limit" must end with MemoryLimit; "caught": the script sees an exception, execution goes on
    let mut v: Vec<(&'static str, &'static str, Kind, String)> = vec![];
    let heap: &[(&str, &str)] = &[
        ("heap-array", "const a = []; for (;;) a.push({ x: 'y' + a.length });"),
        ("heap-string", "let a = []; for (let i = 0;; i++) a.push(('x' + i).repeat(1000) + i);"),
        ("heap-map", "const m = new Map(); for (let i = 0;; i++) m.set('k' + i, { i });"),
        ("heap-closures", "const a = []; for (let i = 0;; i++) a.push(() => i);"),
        ("heap-await", "const a = []; await fetch('http://up/?ms=2'); for (;;) a.push({ x: 'y' + a.length });"),
        ("heap-microtask", "const a = []; await 1; for (;;) { await 1; a.push(new Array(1000).fill(a.length)); }"),
        ("heap-timer", "const a = []; await new Promise(f => setTimeout(() => { for (;;) a.push({ x: 'y' + a.length }); }, 5)); return new Response('x');"),
        ("heap-interval", "const a = []; setInterval(() => { for (let i = 0; i < 20000; i++) a.push({ x: 'y' + a.length }); }, 1); await new Promise(() => {});"),
        ("heap-stream", "return new Response(new ReadableStream({ pull(c) { const a = []; for (;;) a.push({ x: 'y' + a.length }); } }));"),
        ("heap-queue", "return new Response(new ReadableStream({ start(c) { for (let i = 0;; i++) c.enqueue('text number ' + i); } }));"),
        ("heap-catch", "const a = []; for (;;) { try { for (;;) a.push({ x: 'y' + a.length }); } catch (e) { } }"),
        ("heap-promises", "const a = []; for (;;) a.push(new Promise(() => {}));"),
        ("heap-concat", "let s = 'ab'.repeat(1000); const a = []; for (let i = 0;; i++) { a.push((s + i).split('').join('-')); }"),
        ("heap-json", "let o = []; for (let i = 0; i < 2000; i++) o.push({ i, s: 's' + i }); const t = JSON.stringify(o); const a = []; for (;;) a.push(JSON.parse(t));"),
        ("heap-clone", "let o = []; for (let i = 0; i < 2000; i++) o.push({ i, s: 's' + i }); const a = []; for (;;) a.push(structuredClone(o));"),
        ("heap-timers", "for (let i = 0;; i++) setTimeout(() => i, 1e7);"),
        ("heap-bigint", "const a = []; let x = 1n << 100000n; for (let i = 0n;; i++) a.push(x + i);"),
        // one allocation that does not fit
        ("large-array", "return new Response('n' + new Array(3e7).fill(1).length);"),
        ("large-set", "const s = new Set(); for (let i = 0;; i++) s.add(i);"),
        ("large-object", "const o = {}; for (let i = 0;; i++) o['k' + i * 7] = i;"),
        ("large-join", "const a = new Array(1e6).fill('x'.repeat(400)); const b = []; for (;;) b.push(a.join('-'));"),
        ("large-flatten", "let s = 'é☃'.repeat(1e8); let n = 0; n += s.charCodeAt(12345); n += s.indexOf('z'); const u = s + 'x'; n += u.charCodeAt(7); return new Response('n' + n);"),
        ("large-split", "return new Response('n' + 'x'.repeat(2e7).split('').length);"),
        ("large-spread", "return new Response('n' + [...'xy'.repeat(1e7)].length);"),
        ("large-concat", "let a = [1, 2, 3]; for (;;) a = a.concat(a);"),
        ("large-bigint", "let x = 1n << (1n << 29n); const a = [x]; for (let i = 0n;; i++) a.push(x + i);"),
        ("large-json", "const t = '[' + '[1,2,3],'.repeat(3e6) + '1]'; return new Response('n' + JSON.parse(t).length);"),
        ("large-stringify", "const a = new Array(1e5).fill('x'.repeat(2000)); return new Response('n' + JSON.stringify(a).length);"),
        ("large-from", "return new Response('n' + Array.from({ length: 2e7 }, (_, i) => ({ i })).length);"),
        ("large-sort", "return new Response('n' + Array.from({ length: 3e6 }, (_, i) => i * 1.5).sort().length);"),
        ("large-replace", "return new Response('n' + 'x'.repeat(1e7).replace(/x/g, 'yyyyyyyyyy').length);"),
        ("large-args", "const a = new Array(1e5).fill(1); const b = []; for (;;) b.push(...a);"),
        ("large-weakmap", "const m = new WeakMap(), k = []; for (let i = 0;; i++) { const o = {}; k.push(o); m.set(o, i); }"),
        ("large-text", "const b = new Uint8Array(2e7).fill(120); const a = []; for (;;) a.push(new TextDecoder().decode(b) + a.length);"),
        ("large-body", "const b = new Uint8Array(2e7).fill(120); const a = []; for (;;) a.push(await new Response(b).text() + a.length);"),
        ("heap-headers", "const h = new Headers(); for (let i = 0;; i++) h.append('k' + i, 'v'.repeat(100) + i);"),
    ];
    for (n, b) in heap { v.push((n, "limit", Fetch, on(b))); }
    let ab: &[(&str, &str)] = &[
        ("buffer-one", "new ArrayBuffer(1 << 28); return new Response('no');"),
        ("buffer-many", "const a = []; for (;;) a.push(new Uint8Array(1 << 20));"),
        ("buffer-await", "const a = []; for (;;) { await 1; a.push(new ArrayBuffer(1 << 20)); }"),
        ("buffer-timer", "const a = []; await new Promise((f, r) => setTimeout(() => { try { for (;;) a.push(new Uint8Array(1 << 20)); } catch (e) { r(e); } }, 2));"),
        ("buffer-float", "const a = []; for (;;) a.push(new Float64Array(1 << 17).fill(1));"),
        ("buffer-slice", "const a = [], b = new Uint8Array(1 << 20); for (;;) a.push(b.slice());"),
        ("buffer-clone", "const a = [], b = new Uint8Array(1 << 20); for (;;) a.push(structuredClone(b));"),
        ("buffer-caught", "const a = []; try { for (;;) a.push(new Uint8Array(1 << 20)); } catch (e) { return new Response('caught ' + (e instanceof RangeError)); }"),
    ];
    for (n, b) in ab { v.push((n, "buffer", Fetch, on(b))); }
    // memory which is neither heap nor allocated by an ArrayBuffer constructor (bounded: 6 times the limit)
    let by: &[(&str, &str)] = &[
        ("bypass-encode", "const a = [], s = 'x'.repeat(1 << 20), e = new TextEncoder(); for (let i = 0; i < 192; i++) a.push(e.encode(s)); return new Response('n' + a.length);"),
        ("bypass-wasm", "const a = []; for (let i = 0; i < 12; i++) a.push(new Uint8Array(new WebAssembly.Memory({ initial: 256 }).buffer).fill(1)); return new Response('n' + a.length);"),
        ("bypass-chunks", "const a = []; for (let i = 0; i < 192; i++) { const r = (await fetch('http://bulk/')).body.getReader(); for (;;) { const { done, value } = await r.read(); if (done) break; a.push(value); } } return new Response('n' + a.length);"),
        ("bypass-fetch", "const a = []; for (let i = 0; i < 192; i++) a.push(await (await fetch('http://bulk/')).arrayBuffer()); return new Response('n' + a.length);"),
        ("bypass-storage", "const a = []; for (let i = 0; i < 192; i++) a.push(await env.ST.get('bulk')); return new Response('n' + a.length);"),
        ("bypass-blob", "const a = [], s = 'x'.repeat(1 << 20); for (let i = 0; i < 192; i++) a.push(new Blob([s])); return new Response('n' + a.length);"),
        ("bypass-body", "const a = [], s = 'x'.repeat(1 << 20); for (let i = 0; i < 192; i++) a.push(await new Response(s).arrayBuffer()); return new Response('n' + a.length);"),
    ];
    for (n, b) in by { v.push((n, "limit", Fetch, on(b))); }
    v.push(("heap-top-level", "limit", Fetch, "const a = []; for (;;) a.push({ x: 'y' + a.length });".into()));
    v.push(("heap-module", "limit", Fetch, "globalThis.default = { async fetch() { const a = []; await 1; for (;;) a.push({ x: 'y' + a.length }); } }".into()));
    v.push(("heap-sched", "limit", Sched, "addEventListener('scheduled', e => { const a = []; for (;;) a.push({ x: 'y' + a.length }); });".into()));
    v.push(("heap-task", "limit", Task, "globalThis.default = { async task() { await 1; const a = []; for (;;) a.push({ x: 'y' + a.length }); } }".into()));
    v
}

/// Exhausting the heap or ArrayBuffer memory ends the execution, nothing else.
pub fn mem_shapes(c: &mut Ctx) {
    let m = mode(c);
    let mut lim = roomy();
    lim.heap_max_mb = 32;
    lim.max_cpu_time_ms = 25_000;
    lim.max_wall_clock_time_ms = 25_000;
    if m == Mode::Pool { init_pool(3, None, 1, 3, lim.clone()); }
    let rounds = c.n(1, 10);
    for round in 0..rounds {
        let mut todo = hogs();
        if let Some(o) = c.opt("--only") { todo.retain(|t| t.0 == o); }
        c.rng.shuffle(&mut todo);
        let threads = 4;
        let per: Vec<Vec<_>> = (0..threads).map(|t| todo.iter().skip(t).step_by(threads).cloned().collect()).collect();
        let (rep, budget, t0) = (c.rep.clone(), c.budget, c.t0);
        std::thread::scope(|s| for list in per {
            let (rep, lim) = (rep.clone(), lim.clone());
            s.spawn(move || on_local(async move {
                for (name, _end, kind, code) in list {
                    if t0.elapsed() > budget { break; }
                    rep.case(format!("mem-{m:?}-{name} round={round}"));
                    let ops = slow_ops();
                    let mut keep = vec![];
                    let o = once(m, &format!("mem-{name}"), &code, &lim, ops.clone(), event_for(kind, &mut keep), MS(24_000)).await;
                    rep.count("exhaustions", 1);
                    rep.check(!o.hung && !o.panicked, &format!("mem:unbounded:{name}"), || format!("{name} ({m:?}): {}", o.brief()));
                    if !o.hung && !o.panicked { rep.check(o.exec == Err(TerminationReason::MemoryLimit) || (name.starts_with("large-") && o.ok()), &format!("mem:verdict:{name}"), || format!("{name} ({m:?}): {} after {:?}", o.brief(), o.took)); }
                    if name == "buffer-caught" { rep.check(o.text() == "caught true", "mem:caught", || o.brief()); }
                    for k in 0..2 {
                        let o = once(m, if k == 0 { "after-1" } else { "after-2" }, FINE, &lim, ops.clone(), ev_fetch(get("http://x/")), MS(8000)).await;
                        rep.check(o.ok() && o.text() == "fine", &format!("mem:after:{name}"), || format!("request after {name} ({m:?}): {}", o.brief()));
                    }
                }
            }));
        });
        if !c.time_left() { break; }
    }
}

/// Using memory within the limits is never refused, and what is used never exceeds them.
pub fn mem_within(c: &mut Ctx) {
    let m = mode(c);
    let mut lim = roomy();
    lim.heap_max_mb = 32;
    if m == Mode::Pool { init_pool(2, None, 1, 2, lim.clone()); }
    let list: Vec<(&str, String, &str)> = vec![
        ("churn-buffers", on("let n = 0; for (let i = 0; i < 400; i++) { n += new Uint8Array(1 << 20).length; } return new Response('n' + n);"), "n419430400"),
        ("churn-await", on("let n = 0; for (let i = 0; i < 300; i++) { n += new Uint8Array(1 << 20).length; await 1; } return new Response('n' + n);"), "n314572800"),
        ("churn-objects", on("let n = 0; for (let i = 0; i < 300; i++) { const a = []; for (let k = 0; k < 5000; k++) a.push({ k }); n += a.length; } return new Response('n' + n);"), "n1500000"),
        ("churn-strings", on("let n = 0; for (let i = 0; i < 2000; i++) n += ('x' + i).repeat(10000).length; return new Response('n' + (n > 0));"), "ntrue"),
        ("most", on("const a = []; for (let i = 0; i < 28; i++) a.push(new Uint8Array(1 << 20)); return new Response('n' + a.length);"), "n28"),
        ("one-big", on("return new Response('n' + new ArrayBuffer(31 << 20).byteLength);"), "n32505856"),
        ("many-small", on("const a = []; for (let i = 0; i < 20000; i++) a.push(new Uint8Array(100)); return new Response('n' + a.length);"), "n20000"),
        ("bodies", on("let n = 0; for (let i = 0; i < 100; i++) n += (await new Response('x'.repeat(100000)).text()).length; return new Response('n' + n);"), "n10000000"),
        ("count", on("const a = []; let n = 0; try { for (;; n++) a.push(new Uint8Array(1 << 20)); } catch (e) { return new Response('n' + n); }"), "n32"),
    ];
    let rounds = c.n(2, 20);
    for round in 0..rounds {
        if !c.time_left() { break; }
        let threads = if round % 2 == 0 { 1 } else { 3 };
        let (rep, rng) = (c.rep.clone(), c.rng.fork());
        std::thread::scope(|s| for t in 0..threads {
            let (rep, lim, mut r, list) = (rep.clone(), lim.clone(), Rng::new(rng.0 ^ t), list.clone());
            s.spawn(move || on_local(async move {
                let mut list = list;
                r.shuffle(&mut list);
                for (name, code, want) in list {
                    rep.case(format!("memok-{m:?}-{name} round={round}"));
                    // twice: the second runs on the context or isolate the first one used
                    for k in 0..2 {
                        let o = once(m, &format!("ok-{name}"), &code, &lim, slow_ops(), ev_fetch(get("http://x/")), DEADLINE).await;
                        rep.count("within_memory", 1);
                        if name == "count" {
                            let n: usize = o.text().trim_start_matches('n').parse().unwrap_or(0);
                            rep.check(n <= 32, "memok:over", || format!("{n} MB of buffers allocated, the limit is 32"));
                            rep.check(o.exec == Err(TerminationReason::MemoryLimit), "memok:flag", || o.brief());
                            rep.check(n >= 24, "memok:low", || format!("only {n} MB of buffers could be allocated"));
                        } else { rep.check(o.ok() && o.text() == want, &format!("memok:refused:{name}"), || format!("{name} ({m:?}), run {k}: {}", o.brief())); }
                    }
                }
            }));
        });
    }
}

/// The same limit applies to every execution on an isolate, however many ran out before.
pub fn mem_creep(c: &mut Ctx) {
    let mut lim = roomy();
    lim.heap_max_mb = 32;
    init_pool(1, None, 1, 1, lim.clone());
    let shapes: &[(&str, &str)] = &[
        ("arrays", "const a = []; for (let i = 0;; i++) { a.push(new Array(1024).fill(i)); if (i % 64 == 0) console.log('MB ' + (i / 128)); }"),
        ("objects", "const a = []; for (let i = 0;; i++) { a.push({ a: i, b: i, c: i, d: i, e: [i] }); if (i % 8192 == 0) console.log('MB ' + (i / 10000)); }"),
        ("awaits", "const a = []; for (let i = 0;; i++) { await 1; a.push(new Array(1024).fill(i)); if (i % 64 == 0) console.log('MB ' + (i / 128)); }"),
        ("large", "const a = []; for (let i = 0;; i++) { a.push(new Array(65536).fill(i)); console.log('MB ' + (i / 2)); }"),
    ];
    let rounds = c.n(30, 150);
    on_local(async {
        for round in 0..rounds {
            if !c.time_left() { break; }
            let (name, body) = shapes[if round % 3 == 2 { c.rng.below(shapes.len()) } else { 0 }];
            c.rep.case(format!("mem-creep {name} round={round}"));
            let ops = slow_ops();
            let o = once(Mode::Pool, if c.rng.chance(1, 2) { "creep" } else { name }, &on(body), &lim, ops.clone(), ev_fetch(get("http://x/")), MS(24_000)).await;
            let used = ops.logs().iter().filter_map(|(_, m)| m.strip_prefix("MB ").and_then(|v| v.parse::<f64>().ok())).fold(0.0, f64::max);
            c.rep.max("max_heap_mb", used as u64);
            c.rep.eq("mem:creep-verdict", format!("{:?}", o.exec), format!("{:?}", Err::<(), _>(TerminationReason::MemoryLimit)), || o.brief());
            c.rep.check(used < 40.0, "mem:creep", || format!("execution {round} ({name}) allocated {used} MB of heap, the limit is 32"));
            c.rep.check(used > 12.0, "mem:creep-low", || format!("execution {round} ({name}) could allocate only {used} MB of heap"));
            if round % 5 == 4 {
                let o = once(Mode::Pool, "fine", FINE, &lim, ops.clone(), ev_fetch(get("http://x/")), DEADLINE).await;
                c.rep.check(o.ok() && o.text() == "fine", "mem:creep-after", || o.brief());
            }
        }
    });
}
