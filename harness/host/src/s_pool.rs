//! C01–C03: the isolate pool.
use crate::kit::*;
use openworkers_core::*;
use openworkers_runtime_v8 as rt;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ------------------------------------------------------------------ model of the pool
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Key { worker: String, version: i32, env: Option<i64> }
#[derive(Clone, Debug)]
struct MCtx { key: Key, inst: u64, uses: u32, last: u64 }
#[derive(Clone, Debug)]
struct MIso { uid: u64, owner: String, active: usize, last: u64, cached: Vec<MCtx> }
struct Model { isos: Vec<MIso>, clock: u64, max: usize, per_owner: Option<usize>, conc: usize, cached: usize, reuses: u32 }
#[derive(Debug, Clone)]
enum Got { Refused, Iso { uid: u64, hit: bool, warm: Vec<MCtx> } }
impl Model {
    fn tick(&mut self) -> u64 { self.clock += 1; self.clock }
    fn start(&mut self, owner: &str, key: &Key) -> Got {
        let now = self.tick();
        let mut hit = true;
        let idx = match self.isos.iter().position(|i| i.owner == owner && i.active < self.conc) {
            Some(i) => i,
            None => {
                hit = false;
                if self.per_owner.is_some_and(|l| self.isos.iter().filter(|i| i.owner == owner).count() >= l) { return Got::Refused; }
                if self.isos.len() >= self.max {
                    let lru = self.isos.iter().enumerate().filter(|(_, i)| i.active == 0).min_by_key(|(_, i)| i.last).map(|(k, _)| k);
                    if let Some(k) = lru { self.isos.remove(k); }
                }
                self.isos.push(MIso { uid: now, owner: owner.into(), active: 0, last: now, cached: vec![] });
                self.isos.len() - 1
            }
        };
        let reuses = self.reuses;
        let i = &mut self.isos[idx];
        i.active += 1;
        i.last = now;
        let warm = i.cached.iter().filter(|c| c.key == *key && c.uses < reuses).cloned().collect();
        Got::Iso { uid: i.uid, hit, warm }
    }
    /// the execution uses this cached context (or a fresh one)
    fn took(&mut self, uid: u64, inst: u64) { if let Some(i) = self.isos.iter_mut().find(|i| i.uid == uid) { i.cached.retain(|c| c.inst != inst); } }
    fn end(&mut self, uid: u64, keep: Option<MCtx>) {
        let now = self.tick();
        let max_cached = self.cached;
        let Some(k) = self.isos.iter().position(|i| i.uid == uid) else { return };
        let i = &mut self.isos[k];
        if let Some(mut c) = keep {
            c.last = now;
            i.cached.push(c);
            if i.cached.len() > max_cached {
                let (j, _) = i.cached.iter().enumerate().min_by_key(|(_, c)| c.last).unwrap();
                i.cached.remove(j);
            }
        }
        i.active -= 1;
        let mut k = 0;
        while k < self.isos.len() && self.isos.len() > self.max { if self.isos[k].active == 0 { self.isos.remove(k); } else { k += 1; } }
    }
}

// ------------------------------------------------------------------ C02, C03: histories
type Gates = Arc<Mutex<HashMap<u64, tokio::sync::oneshot::Sender<String>>>>;
struct Running { id: u64, uid: u64, owner: String, key: Key, inst: u64, uses: u32, warm: bool, task: tokio::task::JoinHandle<Out>, mock: Arc<Mock>, made: Arc<Mock> }

fn gate_mock(gates: &Gates) -> Arc<Mock> {
    let gates = gates.clone();
    Mock::new(move |_, op| {
        let gates = gates.clone();
        async move {
            let Op::Fetch(r) = &op else { return err_reply(&op, "no") };
            let id: u64 = r.url.rsplit('/').next().unwrap_or("").parse().unwrap_or(0);
            let (tx, rx) = tokio::sync::oneshot::channel();
            gates.lock().unwrap().insert(id, tx);
            match rx.await { Ok(m) => Reply::Http(Ok(text_response(200, m))), Err(_) => Reply::Http(Err("gate closed".into())) }
        }
    })
}
fn gate_script(inst: u64, owner: &str, key: &Key) -> Script {
    let tag = js(&format!("{owner}|{}|{}|{:?}", key.worker, key.version, key.env));
    let mut s = Script::new(format!(r#"
globalThis.inst = {inst}; globalThis.tag = {tag}; globalThis.n = 0; globalThis.seenEnv = globalThis.env && globalThis.env.WHO;
async function h(e) {{
  const k = ++globalThis.n, before = globalThis.left; globalThis.left = new URL(e.request.url).pathname.slice(1);
  const id = globalThis.left;
  let m;
  try {{ m = await (await fetch('http://gate/' + id)).text(); }} catch (x) {{ m = 'fail:' + x.message; }}
  if (m === 'throw') throw new Error('asked to');
  if (m === 'wait') e.waitUntil(new Promise(r => setTimeout(r, 3)));
  if (m === 'spin') for (;;);
  const body = JSON.stringify({{ inst, tag, n: k, before: before ?? null, left: globalThis.left, id, env: globalThis.env ? globalThis.env.WHO : null }});
  if (m === 'stream') {{
    let i = 0;
    return new Response(new ReadableStream({{ async pull(c) {{ await new Promise(r => setTimeout(r, 1)); if (i < body.length) {{ c.enqueue(new TextEncoder().encode(body.slice(i, i + 20))); i += 20; }} else c.close(); }} }}));
  }}
  return new Response(body);
}}
addEventListener('fetch', e => e.respondWith(h(e)));
"#));
    s.env = Some(HashMap::from([("WHO".to_string(), format!("{owner}|{}|{}|{:?}", key.worker, key.version, key.env))]));
    s
}

pub fn history(c: &mut Ctx) {
    let num = |k: &str, d: usize| c.opt(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let (max, per, conc, cached, reuses) = (num("--max", 3), num("--per", 0), num("--conc", 1), num("--cached", 2), num("--reuses", 1000));
    let slots = c.opt("--judge").as_deref() == Some("slots");
    let mux = c.opt("--mux").is_some();
    let per = (per > 0).then_some(per);
    let conc_eff = if mux { conc } else { 1 };
    unsafe { std::env::set_var("CONTEXT_MAX_REUSES", reuses.to_string()) };
    let mut lim = roomy();
    lim.heap_max_mb = 64;
    if c.opt("--wall").is_some() { lim.max_wall_clock_time_ms = num("--wall", 0) as u64; }
    init_pool(max, per, conc, cached, lim);
    let rounds = c.n(200, 2000);
    for round in 0..rounds {
        if !c.time_left() { break; }
        let (rep, rng) = (c.rep.clone(), c.rng.fork());
        // a fresh thread has a fresh pool
        let model = Model { isos: vec![], clock: 0, max, per_owner: per, conc: conc_eff, cached, reuses: reuses as u32 };
        let m0 = mon();
        std::thread::spawn(move || on_local(run_history(rep, rng, model, slots, round))).join().ok();
        let m1 = mon();
        c.rep.count("isolates_disposed", m1.disposed - m0.disposed);
        c.rep.drain_panics();
        if !c.rep.0.lock().unwrap().violations.is_empty() { break; }
    }
    let m = mon();
    if slots {
        c.rep.check(m.reset_unlocked + m.scope_unlocked == 0, "unlocked", || format!("{m:?}"));
        c.rep.count("handles_released", m.global_reset);
    }
}

async fn run_history(rep: Report, mut r: Rng, mut model: Model, slots: bool, round: usize) {
    let gates: Gates = Default::default();
    let cap = model.max * model.conc + 2;
    let (nown, nwork) = (r.range(1, 4), r.range(1, 3));
    let concurrent = slots || r.chance(1, 2);
    rep.case(format!("round {round} max={} per={:?} conc={} cached={} owners={nown} workers={nwork} concurrent={concurrent}", model.max, model.per_owner, model.conc, model.cached));
    let mut running: Vec<Running> = vec![];
    let mut trace = String::new();
    let mut next = 1u64;
    let mut home: HashMap<u64, (String, Key, u32, Arc<Mock>)> = HashMap::new();
    let st0 = rt::get_pinned_pool_stats();
    let (mut starts, mut hits, mut misses) = (0usize, 0usize, 0usize);
    for step in 0..r.range(20, 50) {
        rep.beat();
        let want_start = running.is_empty() || (concurrent && running.len() < cap && r.chance(3, 5));
        if want_start {
            let owner = format!("owner{}", r.below(nown));
            // ids of other owners' workers are the same: the owner must keep them apart
            let key = Key { worker: format!("{}{}", ["worker", "workeré", "日本語の仕事"][round % 3], r.below(nwork)), version: r.range(1, 2) as i32, env: *r.pick(&[None, Some(5), Some(6)]) };
            let key = if r.chance(2, 3) { Key { version: 1, env: None, ..key } } else { key };
            let id = next; next += 1;
            let mock = gate_mock(&gates);
            let warm_ops: Arc<Mutex<Option<OperationsHandle>>> = Default::default();
            let called = Arc::new(AtomicBool::new(false));
            let (w2, c2) = (warm_ops.clone(), called.clone());
            let p = Pin { owner: owner.clone(), worker: key.worker.clone(), version: key.version, env_ts: key.env };
            let ev = ev_fetch(get(&format!("http://w/{id}")));
            let fut = drive(pin_exec(&p, gate_script(id, &owner, &key), mock.clone(), ev.0, Some(Box::new(move |o: &OperationsHandle| { c2.store(true, Ordering::SeqCst); *w2.lock().unwrap() = Some(o.clone()); }))), ev.1, Client::default(), DEADLINE);
            let mut task = tokio::task::spawn_local(fut);
            let want = model.start(&owner, &key);
            starts += 1;
            // either it is refused, or it arrives at its gate
            let mut out = None;
            let t = std::time::Instant::now();
            while out.is_none() && !gates.lock().unwrap().contains_key(&id) && t.elapsed() < Duration::from_secs(15) {
                tokio::select! { o = &mut task => out = Some(o), _ = tokio::time::sleep(Duration::from_millis(1)) => {} }
            }
            trace.push_str(&format!("start {id} {owner} {}v{}{:?}; ", key.worker, key.version, key.env));
            match (want, out) {
                (Got::Refused, o) => {
                    let refused = matches!(&o, Some(Ok(o)) if matches!(&o.exec, Err(TerminationReason::Other(m)) if m == "Pool at capacity"));
                    if slots { rep.check(refused, "not-refused", || format!("step {step}: owner at its limit with every isolate taken, but {:?}; {trace}", o.as_ref().map(|o| o.as_ref().map(|o| o.brief())))); }
                    if !refused { return; }
                    rep.count("refused", 1);
                }
                (Got::Iso { .. }, Some(o)) => {
                    let d = o.map(|o| o.brief()).unwrap_or_default();
                    if slots || !d.contains("at capacity") { rep.viol(if d.contains("at capacity") { "refused" } else { "start" }, format!("step {step}: should have got an isolate: {d}; {trace}")); }
                    return;
                }
                (Got::Iso { uid, hit, warm }, None) => {
                    if !gates.lock().unwrap().contains_key(&id) { rep.viol("stuck", format!("step {step}: execution {id} neither ended nor reached its operation; {trace}")); return; }
                    if hit { hits += 1 } else { misses += 1 }
                    let was_warm = called.load(Ordering::SeqCst);
                    if !slots {
                        rep.eq("warm-hit", was_warm, !warm.is_empty(), || format!("step {step}: context reused? candidates {warm:?}; {trace}"));
                    }
                    // which context serves it shows in the response, at the end
                    let made = match &*warm_ops.lock().unwrap() {
                        Some(o) => home.values().find(|(_, _, _, m)| Arc::as_ptr(m) as *const () == Arc::as_ptr(o) as *const ()).map(|x| x.3.clone()),
                        None => Some(mock.clone()),
                    };
                    let Some(made) = made else { if !slots { rep.viol("warm-ops", format!("step {step}: the callback got an operations handle of no earlier request; {trace}")); } return; };
                    let inst = if was_warm { home.iter().find(|(_, v)| Arc::ptr_eq(&v.3, &made)).map(|(k, _)| *k).unwrap_or(0) } else { id };
                    if was_warm && !slots {
                        rep.check(warm.iter().any(|w| w.inst == inst), "reused-wrong", || format!("step {step}: execution {id} of {owner} {key:?} runs in the context made by {inst}, which is not one of {warm:?}; {trace}"));
                    }
                    if !was_warm { home.insert(id, (owner.clone(), key.clone(), 0, mock.clone())); }
                    model.took(uid, inst);
                    let uses = { let h = home.get_mut(&inst).unwrap(); h.2 += 1; h.2 };
                    if !slots { rep.check(uses <= model.reuses.max(1), "too-many-reuses", || format!("context {inst} serves its {uses}th execution; {trace}")); }
                    if was_warm { rep.count("warm_hits", 1); } else { rep.count("cold", 1); }
                    running.push(Running { id, uid, owner, key, inst, uses, warm: was_warm, task, mock, made });
                }
            }
        } else {
            let k = r.below(running.len());
            let x = running.swap_remove(k);
            let how = *r.pick(&["ok", "ok", "ok", "wait", "stream", "throw", "drop", "fail"]);
            trace.push_str(&format!("{how} {}; ", x.id));
            let gate = gates.lock().unwrap().remove(&x.id);
            let mut keep = None;
            match (how, gate) {
                ("drop", g) => { x.task.abort(); let _ = x.task.await; drop(g); }
                (_, None) => { rep.viol("stuck", format!("execution {} lost its operation; {trace}", x.id)); return; }
                (how, Some(g)) => {
                    if how == "fail" { drop(g) } else { let _ = g.send(how.to_string()); }
                    let out = match tokio::time::timeout(Duration::from_secs(25), x.task).await { Ok(Ok(o)) => o, e => { rep.viol("stuck", format!("execution {} did not end: {e:?}; {trace}", x.id)); return; } };
                    if out.hung || out.panicked { rep.viol("stuck", format!("execution {}: {}; {trace}", x.id, out.brief())); return; }
                    if how == "throw" { rep.count("failed_handlers", 1); }
                    else if out.exec.is_err() { rep.viol("outcome", format!("execution {} ({how}): {}; {trace}", x.id, out.brief())); return; }
                    else if !slots {
                        let j = out.json();
                        let (_, hk, _, _) = &home[&x.inst];
                        let tag = format!("{}|{}|{}|{:?}", x.owner, x.key.worker, x.key.version, x.key.env);
                        let want = serde_json::json!({"inst": x.inst, "tag": tag, "n": x.uses, "left": x.id.to_string(), "id": x.id.to_string(), "env": tag,
                            "before": j["before"]});
                        rep.eq("response", j.clone(), want, || format!("execution {} (made for {hk:?}); {trace}", x.id));
                        rep.eq("fresh", j["before"].is_null(), !x.warm, || format!("execution {}: globals of an earlier one; {trace}", x.id));
                        // its operations went to the handle the context was made with
                        rep.check(x.made.calls().iter().any(|c| matches!(c, Op::Fetch(r) if r.url == format!("http://gate/{}", x.id))), "ops-handle", || format!("execution {} called another operations handle; {trace}", x.id));
                        if x.warm && !Arc::ptr_eq(&x.made, &x.mock) { rep.eq("ops-handle", x.mock.calls().len(), 0, || format!("execution {}: calls on the unused handle", x.id)); }
                    }
                    // a context is kept after an execution that ended well
                    if out.exec.is_ok() { keep = Some(MCtx { key: x.key.clone(), inst: x.inst, uses: x.uses, last: 0 }); }
                }
            }
            model.end(x.uid, keep);
        }
        if slots {
            let s = rt::get_local_pool_stats();
            let got = s.map(|s| (s.total, s.in_use, s.capacity));
            let want = Some((model.isos.len(), model.isos.iter().filter(|i| i.active > 0).count(), model.max));
            if !rep.eq("stats", got, want, || format!("step {step}: (total, in use, capacity); {trace}")) { return; }
            rep.max("peak_isolates", model.isos.len() as u64);
            let g = rt::get_pinned_pool_stats();
            let got = (g.total_requests - st0.total_requests, g.cache_hits - st0.cache_hits, g.cache_misses - st0.cache_misses);
            if !rep.eq("totals", got, (starts, hits, misses), || format!("step {step}: (requests, hits, misses) since the start; {trace}")) { return; }
        }
    }
    for x in running.drain(..) { drop(gates.lock().unwrap().remove(&x.id)); let _ = tokio::time::timeout(Duration::from_secs(25), x.task).await; model.end(x.uid, None); }
    if slots {
        let s = rt::get_local_pool_stats().map(|s| s.in_use);
        rep.eq("leaked-slot", s, Some(0), || format!("all executions ended; {trace}"));
    }
    rep.count("steps", trace.matches(';').count() as u64);
    rep.seen(&trace);
}

// ------------------------------------------------------------------ C01: nothing of an earlier request
const ISO_JS: &str = r#"
globalThis.cur = null; globalThis.leaks = []; globalThis.served = 0;
const mark = (id, what) => { if (globalThis.cur !== id) globalThis.leaks.push(what + ' of ' + id + ' during ' + globalThis.cur); };
const sleep = d => new Promise(r => setTimeout(r, d));
function litter(id, kinds, req) {
  const E = globalThis.env || {};
  for (const [k, d] of kinds) {
    const u = 'http://up/slow/' + d + '/' + id;
    if (k === 'timeout') setTimeout(() => mark(id, 'timeout'), d);
    else if (k === 'interval') setInterval(() => mark(id, 'interval'), d);
    else if (k === 'nested') setTimeout(() => setTimeout(() => mark(id, 'nested timeout'), d), 1);
    else if (k === 'fetch') fetch(u).then(r => { mark(id, 'fetch'); return r.text(); }).then(() => mark(id, 'fetch body'), () => mark(id, 'fetch error'));
    else if (k === 'failing') fetch('http://up/fail/' + d + '/' + id).then(() => mark(id, 'fetch'), () => mark(id, 'fetch error'));
    else if (k === 'body') fetch('http://up/drip/' + d + '/' + id).then(async r => { const rd = r.body.getReader(); for (;;) { const x = await rd.read(); mark(id, 'chunk'); if (x.done) break; } }).catch(() => mark(id, 'chunk error'));
    else if (k === 'unread') fetch('http://up/drip/' + d + '/' + id).then(r => { mark(id, 'head'); globalThis['kept' + id] = r; });
    else if (k === 'kv') E.KV.get(d + ':' + id).then(() => mark(id, 'kv'), () => mark(id, 'kv error'));
    else if (k === 'storage') E.ST.get(d + ':' + id).then(() => mark(id, 'storage'), () => mark(id, 'storage error'));
    else if (k === 'db') E.DB.query(d + ':' + id).then(() => mark(id, 'db'), () => mark(id, 'db error'));
    else if (k === 'worker') E.WK.fetch(u).then(() => mark(id, 'worker'), () => mark(id, 'worker error'));
    else if (k === 'abort') AbortSignal.timeout(d).addEventListener('abort', () => mark(id, 'abort'));
    else if (k === 'stream') { const s = new ReadableStream({ async pull(c) { await sleep(d); mark(id, 'pull'); c.enqueue(new Uint8Array(3)); } }, { highWaterMark: 0 }); const rd = s.getReader(); (async () => { for (;;) { await rd.read(); mark(id, 'own stream'); } })(); }
    else if (k === 'upload' && req && req.body && !req.body.locked) { const rd = req.body.getReader(); (async () => { for (;;) { const x = await rd.read(); mark(id, 'upload'); if (x.done) break; } })().catch(() => mark(id, 'upload error')); }
    else if (k === 'micro') { let n = 0; const f = () => { mark(id, 'microtask'); if (n++ < 30) Promise.resolve().then(f); }; f(); }
  }
}
async function own(id, acts, got) {
  const E = globalThis.env || {};
  for (const [k, d] of acts) {
    if (k === 'timer') { const t = Date.now(); await sleep(d); got.push(['timer', Date.now() - t >= d - 1]); }
    else if (k === 'interval') { let n = 0; await new Promise(r => { const h = setInterval(() => { if (++n === 3) { clearInterval(h); r(); } }, d); }); got.push(['interval', n]); }
    else if (k === 'fetch') { const r = await fetch('http://up/slow/' + d + '/' + id); got.push(['fetch', r.headers.get('x-id'), await r.text()]); }
    else if (k === 'drip') { const r = await fetch('http://up/drip/' + d + '/' + id); let t = '', rd = r.body.getReader(); for (;;) { const x = await rd.read(); if (x.done) break; t += new TextDecoder().decode(x.value); } got.push(['drip', t]); }
    else if (k === 'kv') got.push(['kv', await E.KV.get(d + ':' + id)]);
    else if (k === 'db') got.push(['db', JSON.stringify(await E.DB.query(d + ':' + id))]);
    else if (k === 'worker') got.push(['worker', await (await E.WK.fetch('http://up/slow/' + d + '/' + id)).text()]);
  }
}
async function handle(e) {
  const p = new URL(e.request.url).searchParams, spec = JSON.parse(p.get('spec')), id = spec.id;
  globalThis.cur = id; globalThis.served++;
  const got = [];
  litter(id, spec.litter, e.request);
  if (spec.wait) e.waitUntil((async () => { await sleep(spec.wait); mark(id, 'waitUntil'); })());
  await own(id, spec.own, got);
  const body = JSON.stringify({ id, got, cur: globalThis.cur, leaks: globalThis.leaks, served: globalThis.served, url: e.request.url === spec.url || spec.url });
  if (spec.end === 'throw') throw new Error('asked to ' + id);
  if (spec.end === 'stream' || spec.end === 'cut') {
    let i = 0;
    const f = spec.end === 'cut' ? 40 : 1;
    return new Response(new ReadableStream({ async pull(c) { await sleep(1); mark(id, 'response pull'); if (i < body.length * f) { c.enqueue(new TextEncoder().encode(body.slice(i % body.length, i % body.length + 50))); i += 50; } else c.close(); } }), { status: 207, headers: { 'x-id': String(id) } });
  }
  return new Response(body, { status: 200 + id % 4, headers: { 'x-id': String(id), ['x-only-' + id]: '1' } });
}
addEventListener('fetch', e => { const spec = JSON.parse(new URL(e.request.url).searchParams.get('spec')); if (spec.end === 'never') { globalThis.cur = spec.id; litter(spec.id, spec.litter, e.request); return; } e.respondWith(handle(e)); });
addEventListener('task', async e => { const spec = e.payload; const id = spec.id; globalThis.cur = id; globalThis.served++; litter(id, spec.litter, null); const got = []; await own(id, spec.own, got);
  if (spec.end === 'throw') throw new Error('asked to ' + id);
  if (spec.end === 'nothing') return undefined;
  return { id, got, cur: globalThis.cur, leaks: globalThis.leaks, served: globalThis.served }; });
"#;

fn up_mock() -> Arc<Mock> {
    Mock::new(|_, op| async move {
        let ms = |s: &str| Duration::from_millis(s.parse::<u64>().unwrap_or(1));
        match op {
            Op::Fetch(r) | Op::BindWorker(_, r) | Op::BindFetch(_, r) => {
                let p: Vec<String> = r.url.split('/').map(|s| s.to_string()).collect();
                let (kind, d, id) = (p[3].clone(), p[4].clone(), p[5].clone());
                if kind != "drip" { tokio::time::sleep(ms(&d)).await; }
                if kind == "fail" { return Reply::Http(Err(format!("failed {id}"))); }
                let h = vec![("x-id".to_string(), id.clone())];
                if kind == "drip" {
                    let (tx, rx) = tokio::sync::mpsc::channel(2);
                    tokio::spawn(async move {
                        for i in 0..5 { tokio::time::sleep(ms(&d)).await; if tx.send(Ok(bytes::Bytes::from(format!("{i}-{id};")))).await.is_err() { break; } }
                    });
                    return Reply::Http(Ok(HttpResponse { status: 200, headers: h, body: ResponseBody::Stream(rx) }));
                }
                Reply::Http(Ok(HttpResponse { status: 200, headers: h, body: ResponseBody::Bytes(bytes::Bytes::from(format!("body {id}"))) }))
            }
            Op::Kv(_, KvOp::Get { key }) => { let (d, id) = key.split_once(':').unwrap(); tokio::time::sleep(ms(d)).await; Reply::Kv(KvResult::Value(Some(serde_json::json!(format!("kv {id}"))))) }
            Op::Storage(_, StorageOp::Get { key }) => { let (d, id) = key.split_once(':').unwrap(); tokio::time::sleep(ms(d)).await; Reply::Storage(StorageResult::Body(Some(format!("st {id}").into_bytes()))) }
            Op::Db(_, DatabaseOp::Query { sql, .. }) => { let (d, id) = sql.split_once(':').unwrap(); tokio::time::sleep(ms(d)).await; Reply::Db(DatabaseResult::Rows(serde_json::json!([{"id": id}]).to_string())) }
            op => err_reply(&op, "unsupported"),
        }
    })
}

pub fn isolation(c: &mut Ctx) {
    let mux = c.opt("--mux").is_some();
    let conc = if mux { 3 } else { 1 };
    let mut lim = roomy();
    lim.max_wall_clock_time_ms = if mux { 30_000 } else { 2500 };
    lim.heap_max_mb = 64;
    init_pool(2, None, conc, 3, lim);
    let rounds = c.n(120, 1500);
    on_local(async {
        for round in 0..rounds {
            if !c.time_left() { break; }
            let mut r = c.rng.fork();
            c.rep.case(format!("isolation round {round}"));
            let mut script = Script::new(ISO_JS);
            script.bindings = vec![BindingInfo::new("KV", BindingType::Kv), BindingInfo::new("ST", BindingType::Storage), BindingInfo::new("DB", BindingType::Database), BindingInfo::new("WK", BindingType::Worker)];
            let ops = up_mock();
            let lanes = if mux { r.range(1, 3) } else { 1 };
            let trace: Rc<RefCell<String>> = Default::default();
            let warm = Rc::new(std::cell::Cell::new(0u64));
            let worker = format!("w{round}");
            let futs = (0..lanes).map(|lane| {
                let (rep, script, ops, worker, trace, mut r, warm) = (c.rep.clone(), script.clone(), ops.clone(), worker.clone(), trace.clone(), r.fork(), warm.clone());
                let thorough = c.thorough;
                async move {
                    for k in 0..r.range(4, if thorough { 14 } else { 9 }) {
                        rep.beat();
                        let id = lane as u64 * 1000 + k as u64 + 1;
                        one_isolated(&rep, &mut r, &script, &ops, &worker, id, &trace, &warm, !mux).await;
                        // sometimes leave a kept context alone for a while
                        if r.chance(1, 3) { tokio::time::sleep(Duration::from_millis(r.range(1, 25) as u64)).await; }
                    }
                }
            });
            futures::future::join_all(futs).await;
            c.rep.count("warm_hits", warm.get());
            c.rep.seen(&trace.borrow());
            if !c.rep.0.lock().unwrap().violations.is_empty() { break; }
        }
    });
}

#[allow(clippy::too_many_arguments)]
async fn one_isolated(rep: &Report, r: &mut Rng, script: &Script, ops: &Arc<Mock>, worker: &str, id: u64, trace: &RefCell<String>, warm: &Rc<std::cell::Cell<u64>>, never: bool) {
    const KINDS: &[&str] = &["timeout", "interval", "nested", "fetch", "failing", "body", "unread", "kv", "storage", "db", "worker", "abort", "stream", "upload", "micro"];
    let litter: Vec<(&str, usize)> = (0..r.below(5)).map(|_| (*r.pick(KINDS), r.range(1, 40))).collect();
    let acts: Vec<(&str, usize)> = (0..r.below(4)).map(|_| (*r.pick(&["timer", "interval", "fetch", "drip", "kv", "db", "worker"]), r.range(1, 6))).collect();
    let task = r.chance(1, 4);
    let end = if task { *r.pick(&["ok", "ok", "nothing", "throw"]) } else { *r.pick(&["ok", "ok", "ok", "ok", "stream", "throw", "cut", "drop"]) };
    let end = if never && !task && r.chance(1, 60) { "never" } else { end };
    let wait = if r.chance(1, 4) { r.range(1, 20) } else { 0 };
    let spec = serde_json::json!({"id": id, "litter": litter, "own": acts, "end": end, "wait": wait});
    trace.borrow_mut().push_str(&format!("{id}:{litter:?}{acts:?}{end}{wait}{task} "));
    rep.count("executions", 1);
    for (k, _) in &litter { rep.count(&format!("left_{k}"), 1); }
    let ev = if task { ev_task("t", Some(spec.clone()), None, 1) } else {
        let mut q = String::new();
        for b in spec.to_string().bytes() { q.push_str(&format!("%{b:02X}")); }
        let mut rq = post(&format!("http://w/?spec={q}"), "x");
        if r.chance(1, 2) {
            let (tx, rx) = tokio::sync::mpsc::channel(2);
            let d = r.range(1, 20) as u64;
            tokio::spawn(async move { for _ in 0..4 { tokio::time::sleep(Duration::from_millis(d)).await; if tx.send(Ok(bytes::Bytes::from_static(b"up"))).await.is_err() { break; } } });
            rq.body = RequestBody::Stream(rx);
        }
        ev_fetch(rq)
    };
    let client = Client { disconnect_after: (end == "cut").then_some(2), ..Default::default() };
    let w2 = Arc::new(AtomicBool::new(false));
    let w3 = w2.clone();
    let exec = pin_exec(&Pin::new("o", worker), script.clone(), ops.clone(), ev.0, Some(Box::new(move |_| w3.store(true, Ordering::SeqCst))));
    if end == "drop" {
        let d = Duration::from_millis(r.range(0, 12) as u64);
        let _ = tokio::time::timeout(d, drive(exec, ev.1, client, DEADLINE)).await;
        return;
    }
    let o = drive(exec, ev.1, client, DEADLINE).await;
    if w2.load(Ordering::SeqCst) { warm.set(warm.get() + 1); }
    let ctx = || format!("execution {id} {spec}: {}; history {}", o.brief(), trace.borrow());
    if o.hung || o.panicked { rep.viol("stuck", ctx()); return; }
    if end == "never" {
        // nothing answered it: whatever the client got, it is not an earlier answer
        rep.check(!o.text().contains("\"id\":") , "leftover-response", ctx);
        return;
    }
    if end == "cut" { return; }
    let j = if task { o.task.as_ref().map(|t| t.data.clone().unwrap_or_default()).unwrap_or_default() } else { o.json() };
    if task {
        let t = o.task.clone();
        let (ok, err) = t.map(|t| (t.success, t.error)).unwrap_or((false, None));
        match end {
            "throw" => { rep.check(!ok && err.as_deref().is_some_and(|e| e.contains(&format!("asked to {id}"))), "task-result", ctx); return; }
            "nothing" => { rep.check(ok && j.is_null(), "leftover-result", ctx); return; }
            _ => {}
        }
    } else if end == "throw" {
        rep.check(o.status() == 500 && o.text().contains(&format!("asked to {id}")) && o.resp.as_ref().is_some_and(|r| r.header("x-id").is_empty()), "response", ctx);
        return;
    } else {
        let st = if end == "stream" { 207 } else { 200 + (id % 4) as u16 };
        let h = o.resp.as_ref().map(|r| r.header("x-id").join(",")).unwrap_or_default();
        rep.check(o.status() == st && h == id.to_string(), "response", ctx);
        let others = o.resp.as_ref().map(|r| r.headers.iter().filter(|(k, _)| k.starts_with("x-only-") && *k != format!("x-only-{id}")).count()).unwrap_or(0);
        rep.check(others == 0, "leftover-header", ctx);
    }
    if !rep.check(j["id"] == serde_json::json!(id) && j["cur"] == serde_json::json!(id), "wrong-execution", ctx) { return; }
    rep.eq("leak", j["leaks"].clone(), serde_json::json!([]), ctx);
    let want: Vec<serde_json::Value> = acts.iter().map(|(k, _)| match *k {
        "timer" => serde_json::json!(["timer", true]),
        "interval" => serde_json::json!(["interval", 3]),
        "fetch" => serde_json::json!(["fetch", id.to_string(), format!("body {id}")]),
        "drip" => serde_json::json!(["drip", (0..5).map(|i| format!("{i}-{id};")).collect::<String>()]),
        "kv" => serde_json::json!(["kv", format!("kv {id}")]),
        "db" => serde_json::json!(["db", format!("[{{\"id\":\"{id}\"}}]")]),
        _ => serde_json::json!(["worker", format!("body {id}")]),
    }).collect();
    rep.eq("own-results", j["got"].clone(), serde_json::Value::Array(want), ctx);
}

/// A kept context costs nothing while no execution uses it.
pub fn idle(c: &mut Ctx) {
    init_pool(2, None, 1, 8, roomy());
    on_local(async {
        for round in 0..c.n(4, 12) {
            if !c.time_left() { break; }
            let n = c.rng.range(60, 120);
            c.rep.case(format!("idle round {round}: {n} intervals left behind"));
            let s = Script::new(format!("addEventListener('fetch', e => {{ for (let i = 0; i < {n}; i++) setInterval(() => {{}}, i % 2); e.respondWith(new Response('ok')); }});"));
            let o = pinned_once(&Pin::new("o", &format!("w{round}")), s, Mock::none(), ev_fetch(get("http://w/"))).await;
            c.rep.check(o.ok() && o.text() == "ok", "outcome", || o.brief());
            tokio::time::sleep(Duration::from_millis(30)).await;
            let mut best = u64::MAX;
            for _ in 0..3 {
                let a = thread_cpu();
                tokio::time::sleep(Duration::from_millis(250)).await;
                best = best.min(thread_cpu() - a);
                c.rep.beat();
            }
            c.rep.max("idle_cpu_us", best / 1000);
            c.rep.check(best < 60_000_000, "busy-idle", || format!("no execution is running, yet the thread used {} ms of CPU in 250 ms", best / 1_000_000));
        }
    });
}
fn thread_cpu() -> u64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
