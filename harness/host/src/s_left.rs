//! C32: what an execution leaves behind when its worker or context is gone.
use crate::kit::*;
use futures::FutureExt;
use openworkers_core::*;
use serde_json::{Value, json};
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

const MS: fn(u64) -> Duration = Duration::from_millis;
const CODE: &str = r#"
const P = PLAN, keep = [];
const none = () => {};
async function leave(env, r) {
  for (const [k, n, m] of P.acts) {
    const u = 'http://up/' + (m || 'never') + '/' + n;
    try { switch (k) {
      case 'fetch': keep.push(fetch(u).then(x => x, none)); break;
      case 'post': keep.push(fetch(u, { method: 'POST', body: 'x'.repeat(n * 100) }).then(x => x, none)); break;
      case 'await': await Promise.race([fetch(u).then(none, none), new Promise(f => setTimeout(f, 3))]); break;
      case 'assets': keep.push(env.AS.fetch(u).then(x => x, none)); break;
      case 'worker': keep.push(env.WK.fetch(u).then(x => x, none)); break;
      case 'kv': keep.push([() => env.KV.get(u), () => env.KV.put(u, 1), () => env.KV.delete(u), () => env.KV.list({ prefix: u })][n % 4]().then(none, none)); break;
      case 'db': keep.push(env.DB.query(u, [n]).then(none, none)); break;
      case 'storage': keep.push([() => env.ST.get(u), () => env.ST.put(u, 'v'), () => env.ST.head(u), () => env.ST.list({ prefix: u }), () => env.ST.delete(u), () => env.ST.fetch(u)][n % 6]().then(none, none)); break;
      case 'body': { const x = m === 'assets' ? await env.AS.fetch('http://up/endless/') : m === 'storage' ? await env.ST.fetch('http://up/endless/') : await fetch('http://up/endless/'); keep.push(x);
        if (n > 0) { const rd = x.body.getReader(); keep.push(rd); for (let i = 1; i < n; i++) await rd.read(); if (n & 1) rd.read().then(none, none); } break; }
      case 'text': keep.push(fetch('http://up/endless/').then(x => x.text()).then(none, none)); break;
      case 'tee': { const x = await fetch('http://up/endless/'); const [a, b] = x.body.tee(); keep.push(a, b); await a.getReader().read(); break; }
      case 'clone': { const x = await fetch('http://up/endless/'); const y = x.clone(); keep.push(x, y); y.text().then(none, none); break; }
      case 'pass': { const x = await fetch('http://up/endless/'); keep.push(new Response(x.body), new Request('http://x/', { method: 'POST', body: x.body })); break; }
      case 'timer': for (let i = 0; i < n; i++) setTimeout(none, 1e6 + i); break;
      case 'interval': for (let i = 0; i < n; i++) setInterval(none, 7 + i); break;
      case 'refetch': setInterval(() => { keep.push(fetch(u).then(none, none)); }, 1); await new Promise(f => setTimeout(f, 4)); break;
      case 'ws': { const w = new WebSocket('ws://up/' + n); keep.push(w); if (n & 1) await new Promise(f => { w.onopen = w.onerror = f; }); if (n & 2) w.send('x'); if (n & 4) w.close(); break; }
      case 'upgrade': { const x = await Promise.race([fetch('http://up/' + n, { headers: { Upgrade: 'websocket' } }), new Promise(f => setTimeout(f, 20))]).catch(none); keep.push(x); if (x?.webSocket && n & 1) x.webSocket.accept(); break; }
      case 'upload': if (r && r.body) { const rd = r.body.getReader(); keep.push(rd); for (let i = 0; i < n; i++) await rd.read(); } break;
      case 'uploadtext': if (r) keep.push(r.text().then(none, none)); break;
      case 'garbage': { const l = []; for (let i = 0; i < 20 * n; i++) l.push(new Uint8Array(10000)); keep.push(l); break; }
    } } catch (e) { if (P.strict) throw e; }
  }
}
async function end(e, env) {
  switch (P.end) {
    case 'answer': return new Response('done');
    case 'throw': throw new Error('on purpose');
    case 'hang': await new Promise(none); break;
    case 'loop': for (;;);
    case 'late': setTimeout(() => { for (;;); }, 1); await new Promise(none); break;
    case 'stream': { let i = 0; return new Response(new ReadableStream({ async pull(c) { await new Promise(f => setTimeout(f, 1)); c.enqueue(new Uint8Array(50)); if (++i > P.chunks) c.close(); } })); }
    case 'failing': { let i = 0; return new Response(new ReadableStream({ pull(c) { c.enqueue(new Uint8Array(50)); if (++i > P.chunks) c.error(new Error('x')); } })); }
    case 'forward': return await fetch('http://up/finite/' + P.chunks);
    case 'forward-storage': return await env.ST.fetch('http://up/finite/' + P.chunks);
    case 'forward-assets': return new Response((await env.AS.fetch('http://up/finite/' + P.chunks)).body);
    case 'forward-part': { const x = await fetch('http://up/finite/' + P.chunks), rd = x.body.getReader(); await rd.read(); return new Response(new ReadableStream({ async pull(c) { const { done, value } = await rd.read(); if (done) c.close(); else c.enqueue(value); } })); }
    case 'wait': e.waitUntil(new Promise(f => setTimeout(f, 5))); return new Response('done');
    case 'wait-fail': e.waitUntil(Promise.reject(new Error('x'))); return new Response('done');
    case 'heap': { const l = []; for (;;) l.push(new Array(1000).fill(l.length)); }
  }
}
const kind = P.event === 'fetch' ? 'fetch' : P.event;
if (P.early) leave({ ...globalThis.env }, null).catch(none);
if (P.module) globalThis.default = { async [kind](r, env, ctx) { await leave(env, kind === 'fetch' ? r : null); return await end(ctx, env); } };
else addEventListener(kind, e => { const work = (async () => { await leave(globalThis.env || {}, e.request); return await end(e); })(); if (kind === 'fetch') e.respondWith(work); else e.waitUntil(work); });
if (P.top) throw new Error('top');
"#;

#[derive(Default)]
struct Live { ops: AtomicUsize, bodies: AtomicUsize, sockets: AtomicUsize, uploads: AtomicUsize, ops_seen: AtomicUsize, bodies_seen: AtomicUsize, sockets_seen: AtomicUsize }
struct Mark<'a>(&'a AtomicUsize);
impl<'a> Mark<'a> { fn new(n: &'a AtomicUsize) -> Self { n.fetch_add(1, Ordering::SeqCst); Mark(n) } }
impl Drop for Mark<'_> { fn drop(&mut self) { self.0.fetch_sub(1, Ordering::SeqCst); } }

/// An upstream body: chunks until the runtime lets go of it, or for a while.
fn body(live: &Arc<Live>, chunks: Option<usize>) -> HttpResponse {
    let (tx, rx) = tokio::sync::mpsc::channel(2);
    let live = live.clone();
    live.bodies_seen.fetch_add(1, Ordering::SeqCst);
    live.bodies.fetch_add(1, Ordering::SeqCst);
    tokio::spawn(async move {
        let mut n = 0;
        while chunks.is_none_or(|c| n < c) {
            if tx.send(Ok(bytes::Bytes::from(vec![7u8; 100]))).await.is_err() { break; }
            n += 1;
            // endless ones fall silent after some time
            tokio::select! { _ = tx.closed() => break, _ = tokio::time::sleep(if n < 6 { MS(1) } else { MS(3_600_000) }), if chunks.is_none() => {}, _ = std::future::ready(()), if chunks.is_some() => {} }
        }
        live.bodies.fetch_sub(1, Ordering::SeqCst);
    });
    HttpResponse { status: 200, headers: vec![], body: ResponseBody::Stream(rx) }
}
fn upstream(live: Arc<Live>) -> Arc<Mock> {
    Mock::new(move |_, op| { let live = live.clone(); async move {
        live.ops_seen.fetch_add(1, Ordering::SeqCst);
        let _m = Mark::new(&live.ops);
        let t = match &op { Op::Fetch(q) | Op::BindFetch(_, q) | Op::BindWorker(_, q) => q.url.clone(), o => format!("{o:?}") };
        if t.contains("/never/") { std::future::pending::<()>().await; }
        if t.contains("/slow/") { tokio::time::sleep(MS(20)).await; }
        if let Op::Ws(u, _) = &op {
            if u.ends_with('5') { std::future::pending::<()>().await; }
            live.sockets_seen.fetch_add(1, Ordering::SeqCst);
            live.sockets.fetch_add(1, Ordering::SeqCst);
            let (send_tx, mut from) = tokio::sync::mpsc::unbounded_channel();
            let (to, recv_rx) = tokio::sync::mpsc::unbounded_channel();
            let l = live.clone();
            tokio::spawn(async move {
                let _ = to.send(WebSocketIncoming::Text("hello".into()));
                // a peer which never closes by itself
                while from.recv().await.is_some() {}
                to.closed().await;
                l.sockets.fetch_sub(1, Ordering::SeqCst);
            });
            return Reply::Ws(Ok(WebSocketConnection { send_tx, recv_rx }));
        }
        let http = if t.contains("/endless/") { Some(body(&live, None)) } else if let Some(i) = t.find("/finite/") { Some(body(&live, t[i + 8..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok())) } else { None };
        match (&op, http) {
            (Op::Storage(..), Some(h)) => Reply::Storage(StorageResult::Response(h)),
            (_, Some(h)) => Reply::Http(Ok(h)),
            (Op::Kv(..), _) => Reply::Kv(KvResult::Value(None)), (Op::Db(..), _) => Reply::Db(DatabaseResult::Rows("[]".into())), (Op::Storage(..), _) => Reply::Storage(StorageResult::Body(None)),
            _ => Reply::Http(Ok(text_response(200, "ok"))),
        }
    } })
}
/// threads which watch a limit, and timers of the process
fn watchdogs() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.flatten().filter(|e| std::fs::read_to_string(e.path().join("comm")).is_ok_and(|c| c.starts_with("timeout-watch"))).count()).unwrap_or(0)
}
fn posix_timers() -> usize { std::fs::read_to_string("/proc/self/timers").map(|t| t.lines().filter(|l| l.starts_with("ID:")).count()).unwrap_or(0) }

struct Case { plan: Value, ev: &'static str, end: &'static str, client: Client, upload: bool, limits: RuntimeLimits, module: bool, what: String }
fn case(r: &mut Rng, pool: bool) -> Case {
    let kinds = ["fetch", "fetch", "post", "await", "assets", "worker", "kv", "db", "storage", "storage", "body", "body", "body", "text", "tee", "clone", "pass", "timer", "interval", "refetch", "ws", "ws", "upgrade", "upload", "uploadtext", "garbage"];
    let acts: Vec<Value> = (0..r.range(1, 7)).map(|_| {
        let k = *r.pick(&kinds);
        let n = r.range(if k == "body" { 0 } else { 1 }, if k == "ws" || k == "upgrade" { 7 } else { 6 });
        let m = match k { "body" => *r.pick(&["fetch", "assets", "storage"]), "await" | "refetch" => *r.pick(&["never", "slow", "fast"]), "fetch" | "assets" | "worker" | "storage" => *r.pick(&["never", "never", "slow", "endless"]), _ => *r.pick(&["never", "never", "slow"]) };
        let m = if k == "storage" && n != 5 && m == "endless" { "never" } else { m };
        json!([k, n, m])
    }).collect();
    let ev = *r.pick(&["fetch", "fetch", "fetch", "fetch", "scheduled", "task"]);
    let end = if ev == "fetch" { *r.pick(&["answer", "answer", "answer", "throw", "hang", "loop", "late", "stream", "stream", "failing", "forward", "forward-storage", "forward-assets", "forward-part", "wait", "wait-fail", "heap"]) } else { *r.pick(&["answer", "throw", "hang", "loop", "late", "wait", "wait-fail"]) };
    let (chunks, module, top, early) = (r.range(2, 30), r.chance(1, 2) || end.starts_with("forward-"), r.chance(1, 25), r.chance(1, 12));
    let mut limits = roomy();
    limits.heap_max_mb = 64;
    limits.stream_buffer_size = *r.pick(&[1, 2, 16]);
    limits.max_wall_clock_time_ms = if end == "hang" || r.chance(1, 4) { 150 } else { 4000 };
    limits.max_cpu_time_ms = if end == "loop" || end == "late" { 60 } else { 4000 };
    if end == "heap" { limits.max_cpu_time_ms = 10_000; }
    if pool { limits.max_wall_clock_time_ms = 400; limits.max_cpu_time_ms = 120; limits.stream_buffer_size = 2; }
    let mut client = Client::default();
    if matches!(end, "stream" | "failing" | "forward-part") && r.chance(1, 2) { client.disconnect_after = Some(r.below(4)); }
    if ev == "fetch" && !matches!(end, "forward" | "forward-storage" | "forward-assets") && r.chance(1, 12) { client.never_listen = true; }
    let plan = json!({ "acts": acts, "event": ev, "end": end, "chunks": chunks, "module": module, "top": top, "early": early, "strict": r.chance(1, 6) });
    Case { what: plan.to_string(), plan, ev, end, client, upload: r.chance(1, 4), limits, module }
}

pub fn leftovers(c: &mut Ctx) {
    let pool = c.args.iter().any(|a| a == "pool");
    let mode = if pool { "pool" } else { "worker" };
    let (rep, n) = (c.rep.clone(), c.n(240, 8000));
    if pool { let mut l = roomy(); l.heap_max_mb = 64; l.max_wall_clock_time_ms = 400; l.max_cpu_time_ms = 120; l.stream_buffer_size = 2; init_pool(1, None, 1, 1, l); }
    // for looking into one case: its plan
    let only = c.opt("--plan").map(|s| s.to_string());
    let mut done = 0;
    while done < n && c.time_left() {
        let width = if pool { 1 } else { *c.rng.pick(&[1usize, 4, 8]) };
        let per = if pool { 6 } else { 3 };
        let disposed0 = mon().disposed;
        rep.case(format!("left {mode} {done} width={width}"));
        let made = AtomicUsize::new(0);
        let handlers: std::sync::Mutex<Vec<(std::sync::Weak<dyn OperationsHandler>, String)>> = Default::default();
        let live: Arc<Live> = Default::default();
        std::thread::scope(|t| for _ in 0..width {
            let (rep, mut r, live, made, only) = (rep.clone(), c.rng.fork(), live.clone(), &made, only.clone());
            let handlers = &handlers;
            t.spawn(move || on_local(async move {
                let bindings = || vec![BindingInfo::new("KV", BindingType::Kv), BindingInfo::new("DB", BindingType::Database), BindingInfo::new("ST", BindingType::Storage), BindingInfo::new("AS", BindingType::Assets), BindingInfo::new("WK", BindingType::Worker)];
                let (mut whats, mut weaks) = (vec![], vec![]);
                for k in 0..per {
                    let mine: Arc<Live> = Default::default();
                    let mut case = case(&mut r, pool);
                    if let Some(p) = &only { case.plan = serde_json::from_str(p).unwrap(); case.what = case.plan.to_string(); case.ev = match case.plan["event"].as_str() { Some("scheduled") => "scheduled", Some("task") => "task", _ => "fetch" }; case.client = Client::default(); }
                    let ops: OperationsHandle = upstream(mine.clone());
                    let weak = Arc::downgrade(&ops);
                    let s = Script::with_bindings(CODE.replace("PLAN", &case.plan.to_string()), None, bindings());
                    let mut upload = None;
                    let ev = match case.ev {
                        "fetch" if case.upload => { let (tx, rx) = tokio::sync::mpsc::channel(1); upload = Some(tx); let mut q = post("http://x/", vec![]); q.body = RequestBody::Stream(rx); ev_fetch(q) }
                        "fetch" => ev_fetch(get("http://x/")),
                        "scheduled" => crate::s_limits::ev_sched(1),
                        _ => ev_task("t", None, None, 1),
                    };
                    if let Some(tx) = upload { let m = mine.clone(); m.uploads.fetch_add(1, Ordering::SeqCst); tokio::spawn(async move {
                        for _ in 0..5 { if tx.send(Ok(bytes::Bytes::from("part"))).await.is_err() { break; } }
                        tx.closed().await;
                        m.uploads.fetch_sub(1, Ordering::SeqCst);
                    }); }
                    made.fetch_add(1, Ordering::SeqCst);
                    let t0 = Instant::now();
                    let out = if pool {
                        let o = drive(crate::kit::pin_exec(&Pin::new("left", &format!("w{k}")), s, ops, ev.0, None), ev.1, case.client.clone(), DEADLINE).await;
                        // the one context this thread may keep goes to another worker
                        let x = pinned_once(&Pin::new("left", "other"), Script::new("addEventListener('fetch', e => e.respondWith(new Response('x')));"), Mock::none(), ev_fetch(get("http://x/"))).await;
                        rep.check(x.ok(), "left:next", || format!("the next execution: {:?}", x.exec));
                        o
                    } else { worker_client(s, case.limits.clone(), ops, ev, case.client.clone(), DEADLINE).await };
                    let what = || format!("{mode} {} ({:?} after {:?})", case.what, out.exec, t0.elapsed());
                    whats.push(case.what.clone());
                    weaks.push((weak.clone(), case.what.clone()));
                    rep.check(!out.hung, "time:left-hung", || what());
                    if let (true, true, None, Some(a)) = (out.exec.is_ok(), case.end.starts_with("forward") && case.ev == "fetch", case.client.disconnect_after, out.resp.as_ref()) {
                        // what went on after the worker was gone is delivered
                        let n = case.plan["chunks"].as_u64().unwrap_or(0) as usize * 100 - if case.end == "forward-part" { 100 } else { 0 };
                        rep.count("forwarded", 1);
                        if a.status == 200 && !case.client.never_listen { rep.eq("left:forwarded", a.bytes().len(), n, || what()); }
                    }
                    // Everything is let go of soon.
                    let t1 = Instant::now();
                    let left = || [("operations", &mine.ops), ("bodies", &mine.bodies), ("sockets", &mine.sockets), ("uploads", &mine.uploads)].iter().filter(|(_, n)| n.load(Ordering::SeqCst) > 0).map(|(t, n)| format!("{} {t}", n.load(Ordering::SeqCst))).collect::<Vec<_>>();
                    while t1.elapsed() < MS(1500) && (!left().is_empty() || !pool && weak.strong_count() > 0 || tokio::runtime::Handle::current().metrics().num_alive_tasks() > pool as usize) { tokio::time::sleep(MS(1)).await; }
                    rep.max("max_release_ms", t1.elapsed().as_millis() as u64);
                    rep.count("operations", mine.ops_seen.load(Ordering::SeqCst) as u64); rep.count("bodies", mine.bodies_seen.load(Ordering::SeqCst) as u64); rep.count("sockets", mine.sockets_seen.load(Ordering::SeqCst) as u64);
                    rep.count(&format!("end_{}", case.end), 1);
                    for l in left() { rep.viol(&format!("time:left:{}", l.split(' ').nth(1).unwrap()), format!("{l} in flight {:?} after the worker was gone: {}", t1.elapsed(), what())); }
                    if left().is_empty() {
                        rep.check(pool || weak.strong_count() == 0, "time:left:handler", || format!("the operations handler is still referenced {:?} after the worker was gone: {}", t1.elapsed(), what()));
                        let tasks = tokio::runtime::Handle::current().metrics().num_alive_tasks();
                        rep.check(tasks <= pool as usize, "time:left:tasks", || format!("{tasks} tasks alive {:?} after the worker was gone: {}", t1.elapsed(), what()));
                    }
                    live.ops_seen.fetch_add(1, Ordering::SeqCst);
                    let _ = case.module;
                }
                let _ = whats;
                handlers.lock().unwrap().extend(weaks);
            }));
        });
        done += width * per;
        rep.drain_panics();
        let t = Instant::now();
        // (thread_local destructors may run a little after the threads were joined)
        while t.elapsed() < MS(1500) && (watchdogs() > 0 || posix_timers() > 0 || handlers.lock().unwrap().iter().any(|(w, _)| w.strong_count() > 0)) { std::thread::sleep(MS(2)); }
        rep.eq("time:left:watchdogs", watchdogs(), 0, || format!("{mode}: threads watching the time of executions that are over"));
        rep.eq("time:left:timers", posix_timers(), 0, || format!("{mode}: CPU timers of executions that are over"));
        // in a pool contexts, and what they refer to, are collected with the garbage: at the latest when the thread ends
        for (w, what) in handlers.lock().unwrap().iter() { rep.count(if w.strong_count() == 0 { "handlers_gone" } else { "handlers_kept" }, 1); rep.check(w.strong_count() == 0, "time:left:handler-kept", || format!("{mode} the operations handler is still referenced when the thread is gone: {what}")); }
        if !pool { rep.eq("left:isolates", mon().disposed - disposed0, made.load(Ordering::SeqCst) as u64, || "isolates disposed, of workers that are gone".into()); }
    }
    let m = mon();
    rep.count("isolates_disposed", m.disposed);
    let _ = async {}.boxed_local();
}

// ------------------------------------------------------------------ cancelled while the worker runs
const CANCEL: &str = r#"
const P = PLAN, keep = [], none = () => {};
const get = { fetch: (env, u) => fetch(u), assets: (env, u) => env.AS.fetch(u), storage: (env, u) => env.ST.fetch(u), worker: (env, u) => env.WK.fetch(u) };
async function run(env, r) {
  let open = 0, up = P.upload ? 1 : 0;
  const told = () => fetch('http://up/told/' + open + '/' + up);
  const let_go = async (body, n, way) => {
    if (way === 'body') { await body.cancel('enough'); return; }
    const rd = body.getReader();
    for (let i = 0; i < n; i++) await rd.read();
    if (way === 'reader') await rd.cancel();
    else if (way === 'pending') { const p = rd.read().then(none, none); await new Promise(f => setTimeout(f, n)); await rd.cancel('x'); keep.push(p); }
    else if (way === 'behind') { for (let i = 0; i < 8; i++) rd.read().then(none, none); rd.cancel().then(none, none); }
  };
  for (const [from, n, way] of P.bodies) {
    const x = await get[from](env, 'http://up/endless/'); keep.push(x); open++;
    if (way !== 'keep') { await let_go(x.body, n, way); open--; }
    await told();
  }
  if (P.upload && P.upload !== 'keep') { await let_go(r.body, 1, P.upload); up--; await told(); }
  return new Response('done ' + open);
}
globalThis.default = { fetch: (r, env) => run(env, r) };
"#;
pub fn cancelled(c: &mut Ctx) {
    let pool = c.args.iter().any(|a| a == "pool");
    let (rep, n) = (c.rep.clone(), c.n(160, 4000));
    if pool { init_pool(2, None, 1, 4, roomy()); }
    let mut done = 0;
    while done < n && c.time_left() {
        rep.beat();
        std::thread::scope(|t| for k in 0..4usize {
            let (rep, mut r) = (rep.clone(), c.rng.fork());
            t.spawn(move || on_local(async move {
                for _ in 0..4 {
                    let ways = ["keep", "body", "reader", "reader", "pending", "behind"];
                    let bodies: Vec<Value> = (0..r.range(1, 6)).map(|_| json!([*r.pick(&["fetch", "fetch", "assets", "storage", "worker"]), r.below(5), *r.pick(&ways)])).collect();
                    let upload = if r.chance(1, 3) { json!(*r.pick(&ways)) } else { Value::Null };
                    let plan = json!({ "bodies": bodies, "upload": upload });
                    let what = format!("cancelled {} {plan}", if pool { "pool" } else { "worker" });
                    rep.case(what.clone());
                    let kept = bodies.iter().filter(|b| b[2] == "keep").count();
                    let live: Arc<Live> = Default::default();
                    let inner = upstream(live.clone());
                    let (rep2, live2, what2) = (rep.clone(), live.clone(), what.clone());
                    let ops: OperationsHandle = Mock::new(move |_, op| { let (inner, live, rep, what) = (inner.clone(), live2.clone(), rep2.clone(), what2.clone()); async move {
                        let url = match &op { Op::Fetch(q) => q.url.clone(), _ => String::new() };
                        let Some(t) = url.split("/told/").nth(1) else { return inner.answer(op).await };
                        let want: Vec<usize> = t.split('/').map(|n| n.parse().unwrap_or(99)).collect();
                        let now = || vec![live.bodies.load(Ordering::SeqCst), live.uploads.load(Ordering::SeqCst)];
                        let t0 = Instant::now();
                        while t0.elapsed() < MS(1500) && now() != want { tokio::time::sleep(MS(1)).await; }
                        rep.max("max_cancel_ms", t0.elapsed().as_millis() as u64);
                        rep.count("cancel_points", 1);
                        rep.check(now() == want, if now().iter().zip(&want).any(|(a, b)| a < b) { "cancel:too-many" } else { "time:left:cancelled" }, || format!("{what}: {:?} bodies and uploads still open instead of {want:?}, {:?} after the script was done with the others", now(), t0.elapsed()));
                        Reply::Http(Ok(text_response(200, "ok")))
                    } });
                    let ev = if upload.is_null() { ev_fetch(get("http://x/")) } else {
                        let (tx, rx) = tokio::sync::mpsc::channel(1);
                        let m = live.clone();
                        m.uploads.fetch_add(1, Ordering::SeqCst);
                        tokio::spawn(async move {
                            for _ in 0..3 { if tx.send(Ok(bytes::Bytes::from("part"))).await.is_err() { break; } }
                            tx.closed().await;
                            m.uploads.fetch_sub(1, Ordering::SeqCst);
                        });
                        let mut q = post("http://x/", vec![]); q.body = RequestBody::Stream(rx); ev_fetch(q)
                    };
                    let s = Script::with_bindings(CANCEL.replace("PLAN", &plan.to_string()), None, vec![BindingInfo::new("ST", BindingType::Storage), BindingInfo::new("AS", BindingType::Assets), BindingInfo::new("WK", BindingType::Worker)]);
                    let o = if pool { drive(pin_exec(&Pin::new("cancel", &format!("w{k}{}", r.below(1 << 30))), s, ops, ev.0, None), ev.1, Client::default(), DEADLINE).await } else { worker_once(s, roomy(), ops, ev).await };
                    rep.check(o.ok() && o.text() == format!("done {kept}"), "cancel:answer", || format!("{what}: {}", o.brief()));
                }
            }));
        });
        done += 16;
        rep.drain_panics();
    }
}
