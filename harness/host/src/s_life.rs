//! C11: timers.  C12: what a handler hands to waitUntil is finished, tasks report their result.
//! C22: the environment.  C23: console messages.
use crate::kit::*;
use crate::s_req::{Job, JS, b64, rand_json, same, text};
use futures::FutureExt;
use openworkers_core::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

const MS: fn(u64) -> Duration = Duration::from_millis;
fn is_pool(c: &Ctx) -> bool { c.args.iter().any(|a| a == "pool") }
#[derive(Clone)]
pub struct How { pub pool: bool, pub mux: bool, pub mode: &'static str, pub lim: RuntimeLimits }
impl How {
    pub fn of(c: &Ctx, tweak: impl FnOnce(&mut RuntimeLimits)) -> How {
        let (pool, mux) = (is_pool(c), c.opt("--mux").is_some());
        let mut lim = roomy();
        lim.max_wall_clock_time_ms = 15_000;
        tweak(&mut lim);
        if pool { init_pool(4, None, if mux { 4 } else { 1 }, 3, lim.clone()); }
        How { pool, mux, mode: if mux { "mux" } else if pool { "pool" } else { "worker" }, lim }
    }
    pub async fn run(&self, pin: &Pin, s: Script, ops: OperationsHandle, ev: (Event, Rx)) -> Out { self.run_client(pin, s, ops, ev, Client::default()).await }
    pub async fn run_client(&self, pin: &Pin, s: Script, ops: OperationsHandle, ev: (Event, Rx), c: Client) -> Out {
        if self.pool { drive(pin_exec(pin, s, ops, ev.0, None), ev.1, c, DEADLINE).await } else { worker_client(s, self.lim.clone(), ops, ev, c, DEADLINE).await }
    }
    /// Run jobs in rounds of `width`: interleaved on one thread (pool), or one thread each.
    pub fn campaign(&self, c: &mut Ctx, n: usize, width: usize, mut mk: impl FnMut(Rng, usize) -> Job, mut round: impl FnMut()) {
        let mut done = 0;
        on_local(async {
            while done < n && c.time_left() {
                round();
                let jobs: Vec<Job> = (0..width).map(|_| { done += 1; mk(c.rng.fork(), done) }).collect();
                if self.mux { futures::future::join_all(jobs.into_iter().map(|j| j())).await; }
                else if self.pool {
                    let mut lanes: Vec<Vec<Job>> = (0..4).map(|_| vec![]).collect();
                    for (i, j) in jobs.into_iter().enumerate() { lanes[i % 4].push(j); }
                    futures::future::join_all(lanes.into_iter().map(|l| async { for j in l { j().await; } })).await;
                }
                else { std::thread::scope(|t| for j in jobs { t.spawn(move || on_local(j())); }); }
            }
        });
        c.rep.drain_panics();
    }
    pub fn wid(&self, i: usize) -> String { format!("w{}", if self.mux { i % 2 } else { i % 5 }) }
}
fn cut(v: &Value, n: usize) -> String { let s = v.to_string(); if s.chars().count() > n { format!("{}…", s.chars().take(n).collect::<String>()) } else { s } }

// ---------------------------------------------------------------- C11
const TIMERS: &str = r#"
const WEIRD = [undefined, NaN, -5, '12', '7.9', null, {}, true, '', [], -Infinity, -0.9, [9]];
const BADID = [undefined, null, NaN, -1, 1.5, {}, 'x', 987654321, Infinity, '', [], true && -3];
const FAR = [1e300, 2 ** 31, 2 ** 32 + 1, 2 ** 53, 2 ** 64, Number.MAX_VALUE, 9e15, 60000];
async function timers(plan) {
  const log = [], handles = {}, live = new Set();
  const L = (k, id, x) => log.push([k, id, Date.now(), x === undefined ? null : x]);
  const show = v => v === undefined ? 'undefined' : typeof v === 'number' && v !== v ? 'NaN' : typeof v === 'object' && v !== null ? JSON.stringify(v) : String(v);
  const runs = {};
  function clear(id, how) {
    L('clear', id);
    live.delete(id);
    const h = handles[id];
    if (how === 0) clearTimeout(h); else if (how === 1) clearInterval(h); else if (how === 2) clearTimeout(String(h)); else { clearTimeout(h); clearInterval(h); }
  }
  function start(n) {
    const d = n.w === undefined ? n.d : WEIRD[n.w];
    const f = function (...args) {
      L('run', n.id, args.map(show));
      runs[n.id] = (runs[n.id] || 0) + 1;
      if (n.k === 't') live.delete(n.id);
      else if (runs[n.id] === n.stop) clear(n.id, n.how);
      if (n.k === 't' || runs[n.id] === 1) act(n.act, n.id);
    };
    live.add(n.id);
    L('start', n.id);
    const h = n.k === 'i' ? (n.args === null ? setInterval(f, d) : setInterval(f, d, ...n.args)) : n.omit ? setTimeout(f) : n.args === null ? setTimeout(f, d) : setTimeout(f, d, ...n.args);
    handles[n.id] = h;
    L('id', n.id, typeof h === 'number' || typeof h === 'object' ? String(h) : 'bad ' + typeof h);
  }
  function act(list, me) {
    for (const a of list) {
      switch (a[0]) {
        case 'start': start(a[1]); break;
        case 'clear': if (handles[a[1]] !== undefined) clear(a[1], a[2]); break;
        case 'bad': try { clearTimeout(BADID[a[1]]); clearInterval(BADID[a[1]]); } catch (e) { L('threw', me, String(e)); } break;
        case 'far': try { const h = (a[1] & 1 ? setInterval : setTimeout)(() => L('threw', me, 'ran ' + FAR[a[1] >> 1]), FAR[a[1] >> 1]); L('id', me, String(h)); if (a[2]) clearTimeout(h); } catch (e) { L('threw', me, 'setting ' + FAR[a[1] >> 1] + ': ' + e); } break;
        case 'micro': L('queue', me); (a[1] ? queueMicrotask : f => Promise.resolve().then(f))(() => { Promise.resolve().then(() => L('micro', me)); }); break;
        case 'later': { const key = {}; live.add(key); (async () => { await 0; live.delete(key); act(a[1], me); })(); break; }
        case 'busy': { const t = Date.now(); while (Date.now() - t < a[1]); break; }
        case 'op': live.add('op' + a[1]); fetch('http://t/' + a[1]).then(() => { live.delete('op' + a[1]); act(a[2], me); }); break;
        case 'throw': throw a[1] ? new Error('from timer') : null;
      }
    }
  }
  for (const a of plan.top) try { act([a], 0); } catch (e) { L('threw', 0, String(e)); }
  const t = Date.now();
  while (live.size > 0 && Date.now() - t < 9000) await nap(5);
  const left = [...live];
  await nap(plan.quiet);
  return { log, left, ms: Date.now() - t };
}
addEventListener('fetch', e => e.respondWith((async () => { const p = await e.request.json(); return Response.json(await timers(p)); })()));
"#;
#[derive(Clone, Debug)]
struct TNode { delay: u64, interval: bool, stop: usize, args: Vec<String> }
struct TGen<'a> { r: &'a mut Rng, id: usize, nodes: HashMap<usize, TNode>, budget: usize, wide: u64 }
impl TGen<'_> {
    fn node(&mut self, depth: usize) -> Value {
        self.id += 1; self.budget = self.budget.saturating_sub(1);
        let id = self.id;
        let interval = self.r.chance(1, 5);
        let weird = self.r.chance(1, 8).then(|| self.r.below(13));
        let d = match self.r.below(8) { 0 | 1 => 0.0, 2 => 1.0, 3 => 5.0, 4 => 7.75, 5 => 20.0, _ => self.r.below(self.wide as usize) as f64 };
        let omit = !interval && self.r.chance(1, 12);
        let delay = if omit { 0 } else { match weird { Some(3) => 12, Some(4) => 7, Some(7) => 1, Some(12) => 9, Some(_) => 0, None => d as u64 } };
        let stop = if interval { self.r.range(1, 5) } else { 1 };
        let (args, shown): (Value, Vec<String>) = if omit || self.r.chance(1, 2) { (Value::Null, vec![]) } else {
            let n = self.r.below(4);
            let a: Vec<Value> = (0..n).map(|_| match self.r.below(5) { 0 => json!(self.r.below(1000)), 1 => json!("s t"), 2 => json!({"a": [1]}), 3 => Value::Null, _ => json!(true) }).collect();
            let s = a.iter().map(|v| match v { Value::String(s) => s.clone(), v => v.to_string() }).collect();
            (json!(a), s)
        };
        self.nodes.insert(id, TNode { delay, interval, stop, args: shown });
        let act = self.acts(depth, true);
        let mut j = json!({ "id": id, "k": if interval { "i" } else { "t" }, "d": d, "stop": stop, "args": args, "act": act, "omit": omit, "how": self.r.below(4) });
        if let Some(w) = weird { j["w"] = json!(w); }
        j
    }
    fn acts(&mut self, depth: usize, inner: bool) -> Vec<Value> {
        let mut v = vec![];
        let n = if inner { self.r.below(4) } else { self.r.range(3, 25) };
        for _ in 0..n {
            v.push(match self.r.below(if inner { 14 } else { 10 }) {
                0 | 1 if self.id > 0 => json!(["clear", self.r.range(1, self.id), self.r.below(4)]),
                2 if inner => json!(["clear", self.id, self.r.below(4)]),
                3 => json!(["micro", self.r.chance(1, 2)]),
                4 => json!(["bad", self.r.below(12)]),
                8 if self.r.chance(1, 4) => json!(["far", self.r.below(16), self.r.chance(1, 2)]),
                5 if self.r.chance(1, 3) => json!(["busy", self.r.below(8)]),
                6 if depth > 0 => json!(["later", self.acts(depth - 1, true).into_iter().filter(|a| a[0] != "throw").collect::<Vec<_>>()]),
                7 if depth > 0 && self.r.chance(1, 2) => { self.id += 1; let i = self.id; json!(["op", i, self.acts(depth - 1, true).into_iter().filter(|a| a[0] != "throw").collect::<Vec<_>>()]) }
                10 => json!(["throw", self.r.chance(2, 3)]),
                _ if depth > 0 && self.budget > 0 => json!(["start", self.node(depth - 1)]),
                _ => json!(["micro", false]),
            });
        }
        v
    }
}
fn check_timers(rep: &Report, what: &str, nodes: &HashMap<usize, TNode>, out: &Value) {
    let Some(log) = out["log"].as_array() else { rep.viol("log", format!("{what}: {}", cut(out, 400))); return };
    struct S { at: i64, seq: usize, runs: usize, cleared: bool, first_run: Option<usize> }
    let mut st: HashMap<usize, S> = HashMap::new();
    let mut ids: HashSet<String> = HashSet::new();
    let mut owed = 0i64;
    let tell = |i: usize, id: usize| format!("{what}: entry {i}: timer {id} {:?}: ...{}", nodes.get(&id), cut(&json!(log[i.saturating_sub(8)..=i].to_vec()), 500));
    for (i, e) in log.iter().enumerate() {
        let (k, id, t) = (e[0].as_str().unwrap_or(""), e[1].as_u64().unwrap_or(0) as usize, e[2].as_i64().unwrap_or(0));
        match k {
            "start" => { st.insert(id, S { at: t, seq: i, runs: 0, cleared: false, first_run: None }); rep.count("timers_started", 1); }
            "id" => { let v = e[3].as_str().unwrap_or("?"); rep.check(!v.starts_with("bad") && ids.insert(v.to_string()), "timer-id", || format!("{} got the handle {v}", tell(i, id))); }
            "clear" => { if let Some(s) = st.get_mut(&id) { s.cleared = true; } rep.count("timers_cleared", 1); }
            "queue" => owed += 1,
            "micro" => owed -= 1,
            "threw" => rep.viol("clear-threw", tell(i, id)),
            "run" => {
                rep.count("callbacks_run", 1);
                rep.check(owed == 0, "microtasks", || format!("{}: {owed} microtasks of earlier callbacks have not run yet", tell(i, id)));
                owed = 0;
                let n = &nodes[&id];
                let s = st.get_mut(&id).unwrap();
                s.runs += 1;
                s.first_run.get_or_insert(i);
                let (runs, at, cleared) = (s.runs, s.at, s.cleared);
                rep.check(!cleared, "ran-after-clear", || tell(i, id));
                rep.check(n.interval || runs == 1, "ran-twice", || tell(i, id));
                let due = n.delay as i64 * runs as i64;
                rep.check(t - at >= due - 2, "early", || format!("{}: run {runs} after {} ms instead of at least {due}", tell(i, id), t - at));
                let got: Vec<String> = e[3].as_array().map(|a| a.iter().map(|v| v.as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default();
                rep.check(got == n.args, "args", || format!("{}: arguments {got:?}", tell(i, id)));
            }
            _ => {}
        }
    }
    rep.check(owed == 0, "microtasks", || format!("{what}: {owed} microtasks never ran"));
    rep.check(out["left"] == json!([]), "never-ran", || format!("{what}: {} still waiting after {} ms: {}", out["left"], out["ms"], cut(&json!(log.iter().filter(|e| out["left"].as_array().is_some_and(|l| l.contains(&e[1]))).collect::<Vec<_>>()), 500)));
    for (id, s) in &st {
        let n = &nodes[id];
        if !s.cleared { rep.check(s.runs == if n.interval { n.stop } else { 1 }, "runs", || format!("timer {id} {n:?} ran {} times, waited {} ms, left {}; end {}; {what}", s.runs, out["ms"], out["left"], cut(&json!(log[s.seq.saturating_sub(3)..].to_vec()), 1500))); }
        else if n.interval { rep.check(s.runs <= n.stop, "runs", || format!("{what}: interval {id} {n:?} ran {} times", s.runs)); }
    }
    let mut order: Vec<(&usize, &S)> = st.iter().filter(|(id, s)| !nodes[id].interval && s.first_run.is_some()).collect();
    order.sort_by_key(|(_, s)| s.seq);
    let mut bad = 0;
    for (i, (a, x)) in order.iter().enumerate() {
        for (b, y) in &order[i + 1..] {
            if nodes[a].delay <= nodes[b].delay && x.first_run >= y.first_run {
                bad += 1;
                if bad == 1 {
                    let t = |i: usize| log[i][2].as_i64().unwrap_or(0);
                    let (fx, fy) = (x.first_run.unwrap(), y.first_run.unwrap());
                    let head = format!("timer {b} ({} ms, set at {}, entry {}) ran (at {}, entry {fy}) before timer {a} ({} ms, set at {}, entry {}) which ran at {}, entry {fx}; {} timers", nodes[b].delay, t(y.seq), y.seq, t(fy), nodes[a].delay, t(x.seq), x.seq, t(fx), order.len());
                    rep.viol("order", format!("{head}; {what}: {}", cut(&json!(log[x.seq..=fx.min(x.seq + 40)].to_vec()), 700)));
                }
            }
        }
    }
    rep.count("oracle_checks", order.len() as u64); rep.count("pairs_out_of_order", bad);
}
async fn one_timers(rep: Report, mut r: Rng, how: How, pin: Pin, ops: Arc<Mock>) {
    let mut g = TGen { wide: *r.pick(&[3, 30, 90, 150]), budget: 60, id: 0, nodes: HashMap::new(), r: &mut r };
    let mut top = g.acts(3, false);
    let nodes;
    if g.r.chance(1, 10) {
        // a crowd
        top.clear(); g.nodes.clear(); g.id = 0;
        let m = g.r.range(200, 900); let spread = g.r.range(1, 4);
        for _ in 0..m {
            g.id += 1; let d = g.r.below(spread) as u64 * 3;
            g.nodes.insert(g.id, TNode { delay: d, interval: false, stop: 1, args: vec![] });
            let act: Vec<Value> = if g.r.chance(1, 6) { vec![json!(["clear", g.r.range(1, m), 0])] } else if g.r.chance(1, 20) { vec![json!(["throw", true])] } else { vec![] };
            top.push(json!(["start", { "id": g.id, "k": "t", "d": d, "args": null, "act": act }]));
        }
    }
    nodes = std::mem::take(&mut g.nodes);
    let plan = json!({ "top": top, "quiet": 25 });
    rep.quick_case(&plan.to_string());
    rep.count("plans", 1);
    let o = how.run(&pin, Script::new(format!("{JS}{TIMERS}")), ops, ev_fetch(post("http://h/", plan.to_string()))).await;
    let what = format!("{} {}", how.mode, cut(&plan, 900));
    if rep.check(o.ok() && o.status() == 200, "exec", || format!("{what}: {}", o.brief())) { check_timers(&rep, &what, &nodes, &o.json()); }
}
pub fn timers(c: &mut Ctx) {
    let how = How::of(c, |_| {});
    let ops = Mock::new(|i, _| async move { tokio::time::sleep(MS((i % 5) as u64)).await; Reply::Http(Ok(text_response(200, ""))) });
    let (rep, h, n) = (c.rep.clone(), how.clone(), c.n(400, 30_000));
    let o2 = ops.clone();
    let alone = c.opt("--alone").is_some();
    how.campaign(c, n, if alone { 1 } else { 8 }, move |r, i| { let (rep, how, ops) = (rep.clone(), h.clone(), ops.clone()); let pin = Pin::new("o", &how.wid(i)); Box::new(move || one_timers(rep, r, how, pin, ops).boxed_local()) }, || o2.clear());
}

// ---------------------------------------------------------------- C12
const LIFE: &str = r#"
function thenable(p) { return { then: (a, b) => p.then(a, b) }; }
async function work(w, wu, id) {
  for (const s of w.steps) {
    if (s[0] === 'nap') await nap(s[1]);
    else if (s[0] === 'micro') for (let i = 0; i < s[1]; i++) await null;
    else if (s[0] === 'op') await fetch('http://op/' + id + '/' + w.id);
    else if (s[0] === 'gate') await (await fetch('http://gate/' + id + '/' + w.id)).text();
    else if (s[0] === 'spawn') give(s[1], wu, id);
    else if (s[0] === 'busy') { const t = Date.now(); while (Date.now() - t < s[1]); }
  }
  await fetch('http://done/' + id + '/' + w.id);
  if (w.fail === 1) throw new Error('work ' + w.id + ' failed');
  if (w.fail === 2) throw undefined;
}
function give(w, wu, id) { const p = work(w, wu, id); wu(w.raw === 1 ? thenable(p) : p); if (w.raw === 2) wu(42); if (w.raw === 3) wu(undefined); }
function fail(plan) { throw new Error('handler ' + plan.id + ' failed'); }
function stray(plan) {
  if (plan.stray & 1) setTimeout(() => fetch('http://ghost/' + plan.id), 60000);
  if (plan.stray & 2) (async () => { for (;;) { await nap(2); await fetch('http://ghost/' + plan.id); } })();
  if (plan.stray & 4) new Promise(() => {}).then(() => {});
}
function body(plan) {
  if (plan.body === 'stream') { let i = 0; return new ReadableStream({ async pull(c) { await nap(2); if (i++ < 3) c.enqueue(new TextEncoder().encode('p' + i)); else c.close(); } }); }
  return plan.body === 'null' ? null : 'text ' + plan.id;
}
const answer = plan => new Response(body(plan), { status: 200 + plan.id % 7 });
function listener(e) {
  const plan = JSON.parse(new URL(e.request.url).searchParams.get('p'));
  const wu = p => e.waitUntil(p);
  stray(plan);
  for (const w of plan.works) if (w.when === 0) give(w, wu, plan.id);
  if (plan.fails === 1) fail(plan);
  const later = async () => { for (const w of plan.works) if (w.when === 1) give(w, wu, plan.id); await nap(plan.nap); for (const w of plan.works) if (w.when === 2) give(w, wu, plan.id); if (plan.fails === 2) fail(plan); return answer(plan); };
  switch (plan.style) {
    case 0: e.respondWith(later()); break;
    case 1: return later();
    case 2: for (const w of plan.works) if (w.when > 0) give(w, wu, plan.id); e.respondWith(answer(plan)); break;
    case 3: for (const w of plan.works) if (w.when > 0) give(w, wu, plan.id); return answer(plan);
    case 4: e.respondWith(later()); return new Promise(f => setTimeout(f, 5));
  }
  for (const w of plan.works) if (w.when === 3) give(w, wu, plan.id);
}
async function moduleFetch(request, env, ctx) {
  const plan = JSON.parse(new URL(request.url).searchParams.get('p'));
  const wu = plan.style & 1 ? ctx.waitUntil : p => ctx.waitUntil(p);
  stray(plan);
  for (const w of plan.works) if (w.when === 0) give(w, wu, plan.id);
  if (plan.fails === 1) fail(plan);
  await nap(plan.nap);
  for (const w of plan.works) if (w.when > 0) give(w, wu, plan.id);
  if (plan.fails === 2) fail(plan);
  return answer(plan);
}
const pending = async e => typeof e.scheduledTime === 'number' && e.payload === undefined ? (await fetch('http://plan/' + e.scheduledTime)).json() : e.payload.plan;
async function background(e, wu) {
  const plan = await pending(e);
  stray(plan);
  for (const w of plan.works) if (w.when < 2) give(w, wu, plan.id);
  if (plan.fails === 1) fail(plan);
  await nap(plan.nap);
  for (const w of plan.works) if (w.when >= 2) give(w, wu, plan.id);
  if (plan.fails === 2) fail(plan);
  return plan;
}
async function onTask(e, wu) {
  const plan = await background(e, wu);
  const got = { id: e.taskId, payload: e.payload, time: e.scheduledTime, attempt: e.attempt };
  const d = plan.dataGot ? got : plan.data;
  switch (plan.result) {
    case 'none': return;
    case 'value': return d;
    case 'object': return { success: [true, true, undefined, null, 0, '', 'no', 1][plan.id % 8], data: d };
    case 'failed': return { success: false, data: d, error: 'task ' + plan.id + ' gave up' };
    case 'respond': e.respondWith({ success: [true, undefined, null, 0, 'false'][plan.id % 5], data: d }); return;
    case 'respondFailed': e.respondWith({ success: false, error: 'task ' + plan.id + ' gave up' }); return;
    case 'respondPlain': e.respondWith(plan.data); return;
    case 'respondBoth': e.respondWith({ success: true, data: d }); return { success: false, error: 'too late' };
  }
}
"#;
const LIFE_LISTEN: &str = "addEventListener('fetch', listener); addEventListener('task', e => onTask(e, p => e.waitUntil(p)));";
const LIFE_SCHED: &str = "addEventListener('fetch', listener); addEventListener('scheduled', e => background(e, p => e.waitUntil(p)));";
const LIFE_MODULE: &str = "globalThis.default = { fetch: moduleFetch, task: (e, env, ctx) => onTask(e, ctx.waitUntil) };";
const LIFE_MODULE_SCHED: &str = "globalThis.default = { fetch: moduleFetch, scheduled: (e, env, ctx) => background(e, p => ctx.waitUntil(p)) };";
struct LifeGen<'a> { r: &'a mut Rng, next: usize, ids: Vec<usize>, fails: Vec<usize>, gate: bool, depth: usize }
impl LifeGen<'_> {
    fn work(&mut self) -> Value {
        self.next += 1;
        let id = self.next;
        self.ids.push(id);
        let mut steps = vec![];
        for _ in 0..self.r.below(4) {
            steps.push(match self.r.below(7) {
                0 | 1 => json!(["nap", self.r.below(12)]), 2 => json!(["micro", self.r.range(1, 30)]), 3 => json!(["op"]),
                4 if self.gate => json!(["gate"]),
                5 if self.depth > 0 => { self.depth -= 1; let w = self.work(); json!(["spawn", w]) }
                6 => json!(["busy", self.r.below(3)]),
                _ => json!(["op"]),
            });
        }
        let fail = if self.r.chance(1, 8) { self.fails.push(id); 1 } else { 0 };
        json!({ "id": id, "steps": steps, "fail": fail, "when": self.r.below(4), "raw": self.r.below(8) })
    }
}
type Plans = Arc<Mutex<HashMap<usize, String>>>;
type Gates = Arc<Mutex<HashMap<usize, Arc<tokio::sync::Semaphore>>>>;
fn op_path(op: &Op) -> Option<(String, usize, usize)> {
    let Op::Fetch(q) = op else { return None };
    let mut p = q.url.strip_prefix("http://")?.split('/');
    Some((p.next()?.to_string(), p.next()?.parse().ok()?, p.next().and_then(|x| x.parse().ok()).unwrap_or(0)))
}
#[derive(Clone)]
struct LifeEnv { ops: Arc<Mock>, plans: Plans, gates: Gates }
async fn one_life(rep: Report, mut r: Rng, how: How, wid: String, id: usize, env: LifeEnv) {
    let event = *r.pick(&["fetch", "fetch", "fetch", "task", "task", "scheduled", "schedtask"]);
    let module = r.chance(1, 2);
    let fetch = event == "fetch";
    let mut g = LifeGen { next: 0, ids: vec![], fails: vec![], gate: fetch && r.chance(1, 2), depth: 4, r: &mut r };
    let works: Vec<Value> = (0..g.r.below(5)).map(|_| g.work()).collect();
    let (ids, failed) = (std::mem::take(&mut g.ids), std::mem::take(&mut g.fails));
    let style = r.below(5);
    let fails = if r.chance(1, 7) { 1 + r.below(2) } else { 0 };
    let result = *r.pick(&["none", "value", "object", "failed", "respond", "respondFailed", "respondPlain", "respondBoth"]);
    let data_got = r.chance(1, 2) && result != "respondPlain";
    let data = if result == "respondPlain" { match r.below(4) { 0 => json!("plain"), 1 => json!(0), 2 => json!(12.5), _ => json!(false) } } else if result == "respondBoth" { json!(text(&mut r, 5)) } else { let mut d = rand_json(&mut r, 3); if let Some(o) = d.as_object_mut() { o.remove("success"); } d };
    let plan = json!({ "id": id, "works": works, "style": style, "fails": fails, "nap": r.below(10), "stray": r.below(8) & r.below(8), "body": *r.pick(&["text", "text", "stream", "null"]), "result": result, "dataGot": data_got, "data": data });
    rep.quick_case(&format!("{event} {module} {plan}"));
    rep.count(&format!("event_{event}"), 1);
    let gate = Arc::new(tokio::sync::Semaphore::new(0));
    env.gates.lock().unwrap().insert(id, gate.clone());
    env.plans.lock().unwrap().insert(id, plan.to_string());
    let sched = event == "scheduled";
    let script = format!("{JS}{LIFE}{}", match (module, sched) { (false, false) => LIFE_LISTEN, (false, true) => LIFE_SCHED, (true, false) => LIFE_MODULE, _ => LIFE_MODULE_SCHED });
    let payload = json!({ "plan": plan, "more": rand_json(&mut r, 2) });
    let attempt = *r.pick(&[0u32, 1, 7, 4_000_000_000]);
    let q: String = plan.to_string().bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02x}") }).collect();
    let ev = match event {
        "fetch" => ev_fetch(get(&format!("http://h/?p={q}"))),
        "task" => ev_task(&format!("task-{id}"), Some(payload.clone()), match r.below(3) { 0 => None, 1 => Some(TaskSource::Invoke { origin: Some("x".into()) }), _ => Some(TaskSource::Queue { queue: "q".into() }) }, attempt),
        "scheduled" => ev_task(&format!("task-{id}"), None, Some(TaskSource::Schedule { time: id as u64 }), attempt),
        _ => ev_task(&format!("task-{id}"), Some(payload.clone()), Some(TaskSource::Schedule { time: 1_700_000_000_000 + id as u64 }), attempt),
    };
    let pin = Pin::new("o", &format!("{wid}-{module}-{sched}"));
    let mark = env.ops.ev.lock().unwrap().len();
    let o = how.run_client(&pin, Script::new(script), env.ops.clone(), ev, Client { answered: Some(gate), ..Client::default() }).await;
    let end = env.ops.ev.lock().unwrap().len();
    let what = format!("{} {event} module={module} {}", how.mode, cut(&plan, 900));
    // nothing goes on after the execution has ended
    tokio::time::sleep(MS(12)).await;
    let mut done: BTreeMap<usize, usize> = BTreeMap::new();
    let (mut late, mut ghosts) = (0, 0);
    for (i, (_, e)) in env.ops.ev.lock().unwrap().iter().enumerate().skip(mark) {
        if let Ev::Call(_, op) = e { if let Some((k, c, w)) = op_path(op) { if c == id {
            if i >= end { late += 1; }
            if k == "done" { *done.entry(w).or_default() += 1; }
            if k == "ghost" { ghosts += 1; }
        } } }
    }
    rep.count("ghost_calls_while_running", ghosts);
    if !rep.check(o.ok(), "exec", || format!("{what}: {}", o.brief())) { return; }
    // style 2 and 3 of a listener give everything at once; what a failing handler did not reach is not given
    let mut expected: Vec<usize> = vec![];
    fn collect(w: &Value, out: &mut Vec<usize>) { out.push(w["id"].as_u64().unwrap() as usize); for s in w["steps"].as_array().unwrap() { if s[0] == "spawn" { collect(&s[1], out); } } }
    for w in plan["works"].as_array().unwrap() {
        let when = w["when"].as_u64().unwrap();
        let reached = match (event, module) {
            ("fetch", false) => match (fails, style) { (1, _) => when == 0, (2, 1) | (2, 0) | (2, 4) => when <= 2 || (style != 1 && when == 3), (_, 1) => when < 3, (_, 3) => true, (_, 0 | 4) => true, _ => true },
            ("fetch", true) => if fails == 1 { when == 0 } else { true },
            _ => if fails == 1 { when < 2 } else { true },
        };
        if reached { collect(w, &mut expected); }
    }
    // listener style 4 gives nothing after its return; 2 and 3 ran when > 0 (3 included) before answering, 2 again at the end
    let again = !module && fetch && fails != 1 && style == 2;
    if !module && fetch && style == 4 { for w in plan["works"].as_array().unwrap() { if w["when"] == 3 { let mut v = vec![]; collect(w, &mut v); expected.retain(|x| !v.contains(x)); } } }
    for i in &ids {
        let n = done.get(i).copied().unwrap_or(0);
        let mut want = expected.contains(i) as usize;
        if again && plan["works"].as_array().unwrap().iter().any(|w| { let mut v = vec![]; collect(w, &mut v); w["when"] == 3 && v.contains(i) }) { want = 2; }
        rep.count("works", want as u64);
        rep.check(n == want, if n < want { "work-unfinished" } else { "work-repeated" }, || format!("{what}: work {i} was finished {n} times instead of {want} when the execution ended"));
    }
    // one may have been issued just before and still be on its way
    rep.check(late <= 1, "after-end", || format!("{what}: {late} operations after the execution had ended"));
    rep.check(o.took < Duration::from_secs(12), "time:long", || format!("{what}: took {:?}", o.took));
    if fetch {
        let handler_failed = fails == 1 || fails == 2 && (module || matches!(style, 0 | 1 | 4));
        if handler_failed { rep.eq("failed-status", o.status(), 500, || format!("{what}: {}", o.brief())); }
        else {
            rep.eq("status", o.status(), 200 + (id % 7) as u16, || format!("{what}: {}", o.brief()));
            rep.eq("body", o.text(), match plan["body"].as_str().unwrap() { "stream" => "p1p2p3".into(), "null" => String::new(), _ => format!("text {id}") }, || what.clone());
        }
        return;
    }
    let Some(t) = o.task.clone() else { rep.viol("no-result", format!("{what}: {}", o.brief())); return };
    let some_failed = failed.iter().any(|f| expected.contains(f));
    let dt = || format!("{what}: {t:?}");
    if fails > 0 { rep.check(!t.success && t.error.as_deref().is_some_and(|e| e.contains(&format!("handler {id} failed"))), "task-failure", dt); return; }
    if some_failed { rep.check(!t.success && t.error.as_deref().is_some_and(|e| failed.iter().any(|f| e.contains(&format!("work {f} failed")))), "task-work-failure", dt); return; }
    if sched { rep.check(t == TaskResult::success(), "scheduled-result", dt); return; }
    let got = { let mut g = json!({ "id": format!("task-{id}"), "payload": payload, "attempt": attempt }); if event == "schedtask" { g["time"] = json!(1_700_000_000_000u64 + id as u64); } g };
    let d = if data_got { got } else { plan["data"].clone() };
    let (s, data, err) = match result { "none" => (true, None, None), "failed" => (false, Some(d), Some(format!("task {id} gave up"))), "respondFailed" => (false, None, Some(format!("task {id} gave up"))), _ => (true, Some(d), None) };
    let data = data.filter(|d| !d.is_null());
    rep.check(t.success == s && t.error == err && match (&t.data, &data) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false }, "task-result", || format!("{} instead of success={s} data={} error={err:?}", dt(), data.as_ref().map(|d| cut(d, 300)).unwrap_or("none".into())));
    rep.count("task_results", 1);
}
pub fn life(c: &mut Ctx) {
    let how = How::of(c, |l| l.max_wall_clock_time_ms = 15_000);
    let (plans, gates): (Plans, Gates) = Default::default();
    let (p2, g2) = (plans.clone(), gates.clone());
    let ops = Mock::new(move |i, op| { let path = op_path(&op); let (p2, g2) = (p2.clone(), g2.clone()); async move {
        let Some((k, id, _)) = path else { return err_reply(&op, "?") };
        if k == "plan" { let p = p2.lock().unwrap().get(&id).cloned(); return Reply::Http(Ok(text_response(200, p.unwrap_or_default()))); }
        if k == "gate" { let g = g2.lock().unwrap().get(&id).cloned(); if let Some(g) = g { if let Ok(p) = g.acquire().await { p.forget(); } } }
        if i % 3 == 0 { tokio::time::sleep(MS((i % 7) as u64)).await; }
        Reply::Http(Ok(text_response(200, "")))
    } });
    let env = LifeEnv { ops: ops.clone(), plans: plans.clone(), gates: gates.clone() };
    let (rep, h, n) = (c.rep.clone(), how.clone(), c.n(500, 30_000));
    how.campaign(c, n, 8, move |r, i| { let (rep, how, env) = (rep.clone(), h.clone(), env.clone()); let wid = how.wid(i); Box::new(move || one_life(rep, r, how, wid, i, env).boxed_local()) }, || { ops.clear(); plans.lock().unwrap().clear(); gates.lock().unwrap().clear(); });
}

// ---------------------------------------------------------------- C22
const ENVJS: &str = r#"
const keysOf = o => Reflect.ownKeys(o).map(String).sort();
function look(env) {
  const vars = [], binds = [];
  for (const k of Reflect.ownKeys(env)) { const v = env[k]; if (typeof v === 'string') vars.push([String(k), v]); else binds.push([String(k), v === null ? 'null' : typeof v === 'object' ? keysOf(v).join() : typeof v]); }
  const proto = Object.getPrototypeOf(env) === Object.prototype;
  const d = Object.getOwnPropertyDescriptor(globalThis, 'env');
  return { vars, binds, proto, frozen: Object.isFrozen(env), same: globalThis.env === env, enumerable: Object.keys(env).length === Reflect.ownKeys(env).length, json: JSON.stringify(Object.keys(env)) === JSON.stringify(Reflect.ownKeys(env)), fixed: d && !d.writable && !d.configurable };
}
const attacks = [
  (env, k) => { env[k] = 'changed'; },
  (env, k) => { 'use strict'; env[k] = 'changed'; },
  (env, k) => { delete env[k]; },
  (env, k) => { 'use strict'; delete env[k]; },
  (env, k) => { env['NEW_' + k] = 'new'; },
  (env, k) => { 'use strict'; env['NEW_' + k] = 'new'; },
  (env, k) => { Object.defineProperty(env, k, { value: 'changed' }); },
  (env, k) => { Object.defineProperty(env, 'NEW', { get() { return 'new'; }, configurable: true, enumerable: true }); },
  (env, k) => { Reflect.set(env, k, 'changed'); Reflect.deleteProperty(env, k); Reflect.defineProperty(env, k, { value: 1, writable: true }); },
  (env, k) => { Object.assign(env, { [k]: 'changed' }); },
  (env, k) => { Object.setPrototypeOf(env, { INJECTED: 'x' }); },
  (env, k) => { env.__proto__ = { INJECTED: 'x' }; },
  (env, k) => { globalThis.env = { [k]: 'changed' }; },
  (env, k) => { 'use strict'; globalThis.env = {}; },
  (env, k) => { delete globalThis.env; },
  (env, k) => { Object.defineProperty(globalThis, 'env', { value: {}, writable: true }); },
  (env, k) => { Object.defineProperty(globalThis, 'env', { get() { return {}; } }); },
  (env, k) => { env[Symbol.iterator] = 1; },
  (env, k) => { for (const x of Object.keys(env)) env[x] += '!'; },
  (env, k) => { (0, eval)('env = {}'); },
  (env, k) => { (0, eval)('var env = { a: 1 }'); },
  (env, k) => { (0, eval)('function env() {}'); },
  (env, k) => { Object.prototype.env = {}; delete Object.prototype.env; },
];
function attack(list, k) { let threw = 0; for (const i of list) try { attacks[i](globalThis.env, k); } catch (e) { threw++; } return threw; }
function report(plan, env) {
  const before = look(env);
  attack(plan.attacks, plan.key);
  const after = look(globalThis.env);
  return { top, before, after, read: plan.keys.map(k => { const v = globalThis.env[k]; return typeof v === 'string' ? v : v === undefined ? null : typeof v; }) };
}
const top = look(globalThis.env);
"#;
fn hostile_text(r: &mut Rng) -> String {
    match r.below(16) {
        0 => String::new(), 1 => "'; throw 1; '".into(), 2 => "\"});globalThis.pwned=1;({\"".into(), 3 => "\\".into(), 4 => "${1+1}`".into(), 5 => "</script>\u{2028}\u{2029}".into(), 6 => "\u{0}\u{1}\u{7f}\u{feff}".into(),
        7 => "line\r\nbreak\ttab".into(), 8 => "𝄞😀\u{fffd}\u{10ffff}".into(), 9 => { let n = r.range(1000, 200_000); "x".repeat(n) } 10 => "{\"a\":1}".into(), 11 => "{}{{}}%s{0}".into(),
        12 => "\\u0041\\x41\\n".into(), 13 => "*/ //".into(), _ => { let n = r.below(40); text(r, n) }
    }
}
fn env_name(r: &mut Rng) -> String {
    const NAMES: &[&str] = &["__proto__", "constructor", "toString", "hasOwnProperty", "prototype", "0", "42", "-1", "4294967295", "length", "then", "toJSON", "valueOf", "env", "globalThis", "a-b", "a b", "", "é", "\"", "'", "\\", "\n", "]", "}", "\u{2028}", "__defineGetter__", "null", "undefined", "async", "get", "set", "API_KEY", "DATABASE_URL", "fetch", "A", "1e3", "[x]", "...x", "😀"];
    match r.below(4) { 0 => format!("VAR_{}", r.below(50)), 1 => { let n = r.range(1, 9); text(r, n) } _ => r.pick(NAMES).to_string() }
}
fn check_env(rep: &Report, what: &str, sig: &str, seen: &Value, vars: &BTreeMap<String, String>, binds: &BTreeMap<String, String>) {
    let pairs = |v: &Value| -> Vec<(String, String)> { v.as_array().map(|a| a.iter().map(|p| (p[0].as_str().unwrap_or("?").to_string(), p[1].as_str().unwrap_or("?").to_string())).collect()).unwrap_or_default() };
    let (mut v, mut b) = (pairs(&seen["vars"]), pairs(&seen["binds"]));
    v.sort(); b.sort();
    let want: Vec<(String, String)> = vars.clone().into_iter().collect();
    let wb: Vec<(String, String)> = binds.clone().into_iter().collect();
    rep.check(v == want, &format!("{sig}:vars"), || { let d = want.iter().find(|x| !v.contains(x)).map(|x| format!("missing {:?}", x.0)).or(v.iter().find(|x| !want.contains(x)).map(|x| format!("unexpected {:?}", x.0))); format!("{what}: {d:?}; {}", cut(seen, 300)) });
    rep.check(b == wb, &format!("{sig}:bindings"), || format!("{what}: {b:?} instead of {wb:?}"));
    for k in ["proto", "frozen", "same", "enumerable", "json", "fixed"] { rep.check(seen[k] == json!(true), &format!("{sig}:{k}"), || format!("{what}: {}", cut(seen, 300))); }
}
async fn one_env(rep: Report, mut r: Rng, how: How, wid: String, ops: Arc<Mock>) {
    let n = match r.below(8) { 0 => 0, 1 => r.range(100, 1500), _ => r.range(1, 12) };
    let mut vars: BTreeMap<String, String> = BTreeMap::new();
    for i in 0..n { let k = if n > 50 { format!("V{i}") } else { env_name(&mut r) }; let v = if n > 50 { format!("v{i}") } else { hostile_text(&mut r) }; vars.insert(k, v); }
    let (mut binds, mut infos) = (BTreeMap::new(), vec![]);
    for _ in 0..if r.chance(1, 2) { r.below(5) } else { 0 } {
        let name = env_name(&mut r);
        if vars.contains_key(&name) || binds.contains_key(&name) { continue; }
        let (ty, methods) = *r.pick(&[(BindingType::Kv, "delete,get,list,put"), (BindingType::Storage, "delete,fetch,get,head,list,put"), (BindingType::Database, "query"), (BindingType::Assets, "fetch"), (BindingType::Worker, "fetch")]);
        binds.insert(name.clone(), methods.to_string()); infos.push(BindingInfo::new(name, ty));
    }
    let module = r.chance(1, 2);
    let attack_top = r.chance(1, 3);
    let list = |r: &mut Rng| -> Vec<usize> { (0..r.range(1, 6)).map(|_| r.below(23)).collect() };
    let top = list(&mut r);
    let env: Option<HashMap<String, String>> = if n == 0 && r.chance(1, 2) { None } else { Some(vars.clone().into_iter().collect()) };
    let code = format!("{ENVJS}{}{}", if attack_top { format!("attack({}, 'A');", json!(top)) } else { String::new() },
        if module { "globalThis.default = { async fetch(r, env, ctx) { return Response.json(report(await r.json(), env)); }, async task(e, env) { return report(e.payload, env); } };" }
        else { "addEventListener('fetch', e => e.respondWith((async () => Response.json(report(await e.request.json(), env)))())); addEventListener('task', e => report(e.payload, env));" });
    let pin = Pin::new("o", &wid);
    let names: Vec<String> = vars.keys().cloned().chain((0..3).map(|_| env_name(&mut r))).take(30).collect();
    for round in 0..r.range(1, 3) {
        let plan = json!({ "attacks": list(&mut r), "key": names[r.below(names.len())], "keys": names });
        let task = r.chance(1, 4);
        let what = format!("{} round {round} module={module} task={task} attack_top={attack_top} {} vars {:?} bindings {:?} {}", how.mode, vars.len(), vars.keys().take(12).collect::<Vec<_>>(), binds, cut(&plan["attacks"], 100));
        rep.quick_case(&format!("{what} {:?}", hash_of(&vars)));
        let s = Script::with_bindings(code.clone(), env.clone(), infos.clone());
        let ev = if task { ev_task("t", Some(plan.clone()), None, 1) } else { ev_fetch(post("http://h/", plan.to_string())) };
        let o = how.run(&pin, s, ops.clone(), ev).await;
        let got = if task { o.task.clone().and_then(|t| t.data).unwrap_or(Value::Null) } else { o.json() };
        if !rep.check(o.ok() && got.is_object(), "exec", || format!("{what}: {} {:?}", o.brief(), o.task)) { return; }
        check_env(&rep, &what, "at-start", &got["top"], &vars, &binds);
        check_env(&rep, &what, "in-handler", &got["before"], &vars, &binds);
        check_env(&rep, &what, "after-attack", &got["after"], &vars, &binds);
        for (k, v) in names.iter().zip(got["read"].as_array().cloned().unwrap_or_default()) { if let Some(w) = vars.get(k) { rep.check(v.as_str() == Some(w), "read", || format!("{what}: env[{k:?}] is {}", cut(&v, 100))); } }
        rep.count("environments", 1);
        rep.count("variables", vars.len() as u64);
    }
}
pub fn env(c: &mut Ctx) {
    let how = How::of(c, |_| {});
    let (rep, h, n, ops) = (c.rep.clone(), how.clone(), c.n(400, 30_000), Mock::none());
    how.campaign(c, n, 8, move |r, i| { let (rep, how, ops) = (rep.clone(), h.clone(), ops.clone()); Box::new(move || one_env(rep, r, how, format!("e{i}"), ops).boxed_local()) }, || {});
}

// ---------------------------------------------------------------- C23
const CONSOLE: &str = r#"
const LEVELS = ['error', 'warn', 'info', 'log', 'debug', 'trace'];
const circular = () => { const o = { a: 1 }; o.self = o; return o; };
const special = {
  undef: () => undefined, nan: () => NaN, inf: () => -Infinity, big: () => 123456789012345678901234567890n, sym: () => Symbol('desc'), fn: () => x => x + 1,
  err: () => new RangeError('out of range'), errNoStack: () => { const e = new TypeError('no stack'); e.stack = undefined; return e; }, date: () => new Date(86400000), map: () => new Map([[1, 2]]), u8: () => new Uint8Array([1, 2]),
  lone: () => 'a\uD800b', nul: () => 'a\u0000b', json: () => ({ toJSON() { return 'from toJSON'; } }),
  circular, bigObj: () => ({ a: 1n }), throwJson: () => ({ toJSON() { throw new Error('no'); } }), throwStr: () => ({ toJSON() { throw 1; }, toString() { throw 2; } }), nullCirc: () => { const o = Object.create(null); o.o = o; return o; },
  proxy: () => new Proxy({}, { get() { throw 3; }, ownKeys() { throw 4; }, getPrototypeOf() { throw 5; } }), revoked: () => { const { proxy, revoke } = Proxy.revocable({}, {}); revoke(); return proxy; },
  getter: () => ({ get a() { throw 6; } }), badErr: () => { const e = new Error('x'); Object.defineProperty(e, 'stack', { get() { throw 7; } }); return e; }, symStack: () => { const e = new Error('x'); e.stack = Symbol('s'); return e; }, undefJson: () => ({ toJSON() { return undefined; } }),
  deep: () => { let o = {}; for (let i = 0; i < 20000; i++) o = { o }; return o; }, fnThrow: () => { const f = () => 1; f.toString = () => { throw 8; }; return f; },
};
let failures = [];
function say(s) {
  const args = ['#' + s.id, ...s.args.map(a => a.t === 'v' ? a.v : a.t === 'rep' ? a.v.repeat(a.n) : special[a.k]())];
  const f = console[LEVELS[s.level]];
  try {
    if (s.how === 0) f(...args); else if (s.how === 1) f.apply(null, args); else if (s.how === 2) [0].forEach(() => f.call(undefined, ...args)); else console[LEVELS[s.level]](...args);
  } catch (e) { failures.push(s.id); }
}
async function lane(steps) { for (const s of steps) { if (s.id === undefined) { if (s.nap < 0) await null; else await nap(s.nap); } else if (s.spin) for (;;); else say(s); } }
async function program(p, wu) {
  for (const s of p.sync) say(s);
  for (const t of p.timers) setTimeout(() => { for (const s of t.steps) say(s); }, t.ms);
  for (const m of p.micro) queueMicrotask(() => { for (const s of m) say(s); });
  await Promise.all(p.lanes.map(lane));
  await nap(30);
  wu(lane(p.late));
}
"#;
#[derive(Clone, Debug)]
enum Piece { Exact(String), Json(Value), Starts(String), Any }
#[derive(Clone, Debug)]
struct Line { level: LogLevel, pieces: Vec<Piece> }
struct LogGen<'a> { r: &'a mut Rng, base: usize, lines: BTreeMap<usize, Line> }
impl LogGen<'_> {
    fn line(&mut self) -> Value {
        let r = &mut *self.r;
        let id = self.base + self.lines.len();
        let level = r.below(6);
        let mut pieces = vec![];
        let mut args: Vec<Value> = vec![];
        for _ in 0..r.below(5) {
            match r.below(9) {
                0 | 1 => { let n = r.below(30); let s = text(r, n); pieces.push(Piece::Exact(s.clone())); args.push(json!({ "t": "v", "v": s })); }
                2 => { let v = *r.pick(&[0i64, -7, 42, 9007199254740991]); pieces.push(Piece::Exact(v.to_string())); args.push(json!({ "t": "v", "v": v })); }
                3 => { let (v, s) = r.pick(&[(json!(true), "true"), (Value::Null, "null"), (json!(0.5), "0.5"), (json!(""), "")]).clone(); pieces.push(Piece::Exact(s.into())); args.push(json!({ "t": "v", "v": v })); }
                _ => {}
            }
        }
        // at most one value whose text is not exactly known, at the end
        match r.below(8) {
            0 | 1 => { let v = match rand_json(r, 3) { v @ (Value::Object(_) | Value::Array(_)) => v, v => json!([v]) }; pieces.push(Piece::Json(v.clone())); args.push(json!({ "t": "v", "v": v })); }
            2 | 3 => {
                let (k, p) = r.pick(&[("undef", "undefined"), ("nan", "NaN"), ("inf", "-Infinity"), ("big", "123456789012345678901234567890"), ("sym", "Symbol(desc)"), ("fn", "x => x + 1"), ("date", "\"1970-01-02T00:00:00.000Z\""), ("map", "{}"), ("u8", "{\"0\":1,\"1\":2}"), ("lone", "a\u{fffd}b"), ("nul", "a\u{0}b"), ("json", "\"from toJSON\""), ("errNoStack", "TypeError: no stack")]).to_owned();
                pieces.push(Piece::Exact(p.into())); args.push(json!({ "t": "s", "k": k }));
            }
            4 => { pieces.push(Piece::Starts("RangeError: out of range".into())); args.push(json!({ "t": "s", "k": "err" })); }
            5 | 6 => { let k = *r.pick(&["circular", "bigObj", "throwJson", "throwStr", "nullCirc", "proxy", "revoked", "getter", "badErr", "symStack", "undefJson", "deep", "fnThrow"]); pieces.push(Piece::Any); args.push(json!({ "t": "s", "k": k })); }
            _ if r.chance(1, 10) => { let n = r.range(1000, 300_000); pieces.push(Piece::Exact("é".repeat(n))); args.push(json!({ "t": "rep", "v": "é", "n": n })); }
            _ => {}
        }
        self.lines.insert(id, Line { level: [LogLevel::Error, LogLevel::Warn, LogLevel::Info, LogLevel::Info, LogLevel::Debug, LogLevel::Trace][level], pieces });
        json!({ "id": id, "level": level, "args": args, "how": self.r.below(4) })
    }
    fn lines(&mut self, max: usize) -> Vec<Value> { (0..self.r.below(max + 1)).map(|_| self.line()).collect() }
    fn with_naps(&mut self, max: usize) -> Vec<Value> { let mut v = vec![]; for l in self.lines(max) { if self.r.chance(1, 3) { v.push(json!({ "nap": self.r.below(6) as i64 - 1 })); } v.push(l); } v }
}
fn matches_line(msg: &str, id: usize, l: &Line) -> bool {
    let mut rest = match msg.strip_prefix(&format!("#{id}")) { Some(r) => r, None => return false };
    for p in &l.pieces {
        rest = match rest.strip_prefix(' ') { Some(r) => r, None => return false };
        match p {
            Piece::Exact(s) => match rest.strip_prefix(s.as_str()) { Some(r) => rest = r, None => return false },
            Piece::Json(v) => return serde_json::from_str::<Value>(rest).is_ok_and(|g| same(&g, v)),
            Piece::Starts(s) => return rest.starts_with(s.as_str()),
            Piece::Any => return true,
        }
    }
    rest.is_empty()
}
async fn one_console(rep: Report, mut r: Rng, how: How, wid: String, base: usize, ops: Arc<Mock>, alone: bool) {
    // A thread's CPU time counts for every execution interleaved on it: endless loops only without neighbours.
    let end = match *r.pick(&["answer", "answer", "answer", "answer", "spin", "throw", "top-throw", "task"]) { "spin" if how.pool && !alone => "throw", e => e };
    let mut g = LogGen { base, lines: BTreeMap::new(), r: &mut r };
    let top = g.lines(4);
    let sync = g.lines(8);
    let mut order: Vec<Vec<usize>> = vec![];
    let ids = |v: &Vec<Value>| -> Vec<usize> { v.iter().filter_map(|s| s["id"].as_u64().map(|x| x as usize)).collect() };
    let head: Vec<usize> = ids(&top).into_iter().chain(ids(&sync)).collect();
    let plain = matches!(end, "answer" | "task");
    let (mut timers, mut micro, mut lanes) = (vec![], vec![], vec![]);
    if plain {
        for _ in 0..g.r.below(3) { timers.push(json!({ "ms": g.r.below(9), "steps": g.lines(3) })); }
        for _ in 0..g.r.below(3) { micro.push(json!(g.lines(3))); }
        for _ in 0..g.r.below(4) { lanes.push(json!(g.with_naps(6))); }
    }
    if end == "spin" || end == "throw" { lanes.push(json!(g.with_naps(8))); }
    let late = if plain { g.with_naps(4) } else { vec![] };
    let lines = std::mem::take(&mut g.lines);
    for v in timers.iter().map(|t| &t["steps"]).chain(&micro).chain(&lanes) { let mut o = head.clone(); o.extend(ids(v.as_array().unwrap())); o.extend(ids(&late)); order.push(o); }
    if order.is_empty() { order.push(head.iter().copied().chain(ids(&late)).collect()); }
    let plan = json!({ "sync": sync, "timers": timers, "micro": micro, "lanes": lanes, "late": late });
    rep.quick_case(&format!("{end} {plan}"));
    rep.count(&format!("end_{end}"), 1);
    let topjs = if how.pool && how.wid(0) == wid { String::new() } else { format!("for (const s of {}) say(s);", js_json(&json!(top))) };
    let tail = match end {
        "spin" => "addEventListener('fetch', e => e.respondWith((async () => { const p = await e.request.json(); for (const s of p.sync) say(s); await lane(p.lanes[0]); for (;;); })()));".to_string(),
        "throw" => "addEventListener('fetch', e => e.respondWith((async () => { const p = await e.request.json(); for (const s of p.sync) say(s); await lane(p.lanes[0]); throw new Error('end of it'); })()));".to_string(),
        "top-throw" => format!("for (const s of {}) say(s); throw new Error('end of it');", js_json(&json!(sync))),
        "task" => "addEventListener('task', async e => { await program(e.payload, p => e.waitUntil(p)); return failures; });".to_string(),
        _ => "addEventListener('fetch', e => e.respondWith((async () => { const p = await e.request.json(); await program(p, x => e.waitUntil(x)); return Response.json(failures); })()));".to_string(),
    };
    let what = format!("{} {end} {}", how.mode, cut(&plan, 700));
    let mark = ops.ev.lock().unwrap().len();
    let ev = if end == "task" { ev_task("t", Some(plan.clone()), None, 1) } else { ev_fetch(post("http://h/", plan.to_string())) };
    let lim = how.lim.clone();
    let s = Script::new(format!("{JS}{CONSOLE}{topjs}{tail}"));
    let o = how.run(&Pin::new("o", &wid), s, ops.clone(), ev).await;
    let logs: Vec<(LogLevel, String)> = ops.ev.lock().unwrap().iter().skip(mark).filter_map(|(_, e)| if let Ev::Log(l, m) = e { Some((*l, m.clone())) } else { None }).collect();
    match end {
        "answer" | "task" => { rep.check(o.ok(), "exec", || format!("{what}: {}", o.brief()));
            let f = if end == "task" { o.task.clone().and_then(|t| t.data).unwrap_or(Value::Null) } else { o.json() };
            rep.check(f == json!([]), "console-threw", || format!("{what}: calls {f} of the console threw")); }
        "spin" => { rep.check(matches!(o.exec, Err(TerminationReason::CpuTimeLimit)), "ended", || format!("{what}: {}, limits {lim:?}", o.brief())); }
        _ => {}
    }
    let mut at: HashMap<usize, usize> = HashMap::new();
    for (i, (l, m)) in logs.iter().enumerate() {
        let Some(id) = m.strip_prefix('#').and_then(|x| x.split(|c: char| !c.is_ascii_digit()).next()).and_then(|x| x.parse::<usize>().ok()) else { continue };
        let Some(want) = lines.get(&id) else { continue };
        rep.check(at.insert(id, i).is_none(), "twice", || format!("{what}: line {id} arrived twice"));
        rep.check(*l == want.level, "level", || format!("{what}: line {id} arrived as {l:?} instead of {:?}", want.level));
        rep.check(matches_line(m, id, want), "text", || format!("{what}: line {id} is {:?}, expected {}", m.chars().take(300).collect::<String>(), format!("{want:?}").chars().take(300).collect::<String>()));
        rep.count("lines", 1);
    }
    let skipped: Vec<usize> = if topjs.is_empty() { ids(&top) } else { vec![] };
    let expect_sync = true;
    for id in lines.keys().filter(|i| !skipped.contains(i)) { rep.check(at.contains_key(id), "lost", || format!("{what}: line {id} never arrived ({} of {} did, sync={expect_sync})", at.len(), lines.len())); }
    for o in &order { let mut last = None; for id in o { if let Some(p) = at.get(id) { rep.check(last < Some(*p), "order", || format!("{what}: line {id} arrived before an earlier one")); last = Some(*p); } } }
}
fn js_json(v: &Value) -> String { format!("JSON.parse({})", js(&v.to_string())) }
pub fn console(c: &mut Ctx) {
    let how = How::of(c, |l| l.max_cpu_time_ms = 1500);
    let ops = Mock::none();
    let (rep, h, n) = (c.rep.clone(), how.clone(), c.n(400, 30_000));
    let o2 = ops.clone();
    let alone = c.opt("--alone").is_some();
    how.campaign(c, n, if alone { 1 } else { 8 }, move |r, i| { let (rep, how, ops) = (rep.clone(), h.clone(), if h.pool { ops.clone() } else { Mock::none() }); Box::new(move || one_console(rep, r, how, format!("c{i}"), i * 1000, ops, alone).boxed_local()) }, || o2.clear());
}
