//! C25: WebSockets.
use crate::kit::*;
use crate::s_life::How;
use crate::s_req::{Job, JS, b64, text};
use futures::FutureExt;
use openworkers_core::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;

const MS: fn(u64) -> Duration = Duration::from_millis;

const WSJS: &str = r#"
let cur = null; const late = [], left = [];
const sleep = d => new Promise(f => setTimeout(f, d));
const enc = u => { let s = ''; for (let i = 0; i < u.length; i++) s += String.fromCharCode(u[i]); return btoa(s); };
const dec = s => Uint8Array.from(atob(s), c => c.charCodeAt(0));
function item(x) {
  const b = x.b === undefined ? null : dec(x.b);
  switch (x.k) {
    case 'text': return [x.v, null];
    case 'u8': return [b, b];
    case 'ab': return [b.buffer, b];
    case 'dv': { const a = new Uint8Array(b.length + 9); a.fill(170); a.set(b, 4); return [new DataView(a.buffer, 4, b.length), a]; }
    case 'sub': { const a = new Uint8Array(b.length + 5); a.fill(85); a.set(b, 5); return [a.subarray(5), a]; }
    case 'i16': { const a = new Uint8Array(b.length + 2); a.set(b, 2); return [new Int16Array(a.buffer, 2, b.length >> 1), a]; }
    case 'rab': { const r = new ArrayBuffer(b.length, { maxByteLength: b.length + 40 }); const a = new Uint8Array(r, 0, b.length); a.set(b); return [x.v ? r : a, a]; } // (V8's CopyContents copies nothing from views that track their length)
    case 'gone': { const r = new ArrayBuffer(8), a = new Uint8Array(r); r.transfer(); return [x.v ? r : a, null]; }
    case 'lone': return ['\ud800x\udfff', null];
    case 'num': return [42.5, null];
    case 'null': return [null, null];
    case 'undef': return [undefined, null];
    case 'arr': return [[1, [2]], null];
    case 'obj': return [{ toString() { return 'obj'; } }, null];
    case 'sym': return [Symbol('x'), null];
    case 'thrower': return [{ toString() { throw new RangeError('no text'); } }, null];
  }
}
async function socket(p, rid) {
  const log = []; let n = 0, isClosed = false, isOpen = false, waiters = [];
  const wake = () => { const w = waiters; waiters = []; for (const f of w) f(); };
  const until = async f => { while (!f()) await new Promise(g => waiters.push(g)); };
  let ws;
  const show = d => typeof d === 'string' ? ['t', d] : d instanceof ArrayBuffer ? ['b', enc(new Uint8Array(d))] : ['?', String(d)];
  const note = (via, e) => {
    if (cur !== rid) { late.push([p.id, via, e.type]); return; }
    log.push([via, e.type, e.type === 'message' ? show(e.data) : e.type === 'close' ? [e.code, e.reason, e.wasClean] : e.type === 'error' ? e.message : null, ws.readyState]);
  };
  const inner = t => { if (t === 'message') n++; if (t === 'open') isOpen = true; if (t === 'close') isClosed = true; wake(); };
  const wire = () => {
    if (p.listeners === 0 && !p.throws) { // (not a single listener)
      for (const t of ['open', 'message', 'close', 'error']) ws['on' + t] = e => { if (p.on) note('on', e); inner(t); };
      return;
    }
    for (const t of ['open', 'message', 'close', 'error']) {
      const removed = e => note('removed', e); if (p.listeners & 1) ws.addEventListener(t, removed);
      if (p.throws) ws.addEventListener(t, () => { throw new Error('listener'); });
      if (p.on) ws['on' + t] = e => { note('on', e); if (p.throws) throw new Error('on'); };
      for (let i = 0; i < p.listeners; i++) ws.addEventListener(t, e => note('l' + i, e));
      if (!(p.listeners & 1)) ws.addEventListener(t, removed);
      ws.removeEventListener(t, removed); ws.removeEventListener(t, () => {});
    }
    for (const t of ['message', 'open', 'close']) ws.addEventListener(t, () => inner(t));
  };
  const attrs = () => [ws.binaryType, ws.bufferedAmount, ws.extensions, ws.protocol, WebSocket.CONNECTING, WebSocket.OPEN, WebSocket.CLOSING, WebSocket.CLOSED, ws instanceof WebSocket];
  const attempt = (what, f) => { try { f(); log.push([what, 'ok', ws.readyState]); } catch (e) { log.push([what, e.name, ws.readyState]); } };
  if (p.how === 'new') {
    ws = p.protos === null ? new WebSocket(p.url) : new WebSocket(p.url, p.protos);
    log.push(['made', ws.readyState, ws.url, ...attrs()]);
    wire();
    attempt('send early', () => ws.send('early'));
    if (p.end === 'early') { ws.close(); log.push(['closing', ws.readyState]); ws.close(); await until(() => isClosed); return log; }
    await until(() => isOpen || isClosed);
    if (isClosed) return log;
  } else {
    try { const r = await fetch(p.url, { headers: p.headers }); ws = r.webSocket; log.push(['made', r.status, ws.readyState, ...attrs()]); } catch (e) { log.push(['failed', e instanceof Error ? e.message : String(e)]); return log; }
    wire();
    if (p.acceptDelay) await sleep(p.acceptDelay);
    if (!p.acceptLate) { ws.accept(); if (p.twice) ws.accept(); }
  }
  if (p.end === 'leave') left.push(ws);
  let k = 0;
  for (const s of p.script) {
    if (p.acceptLate && k === p.script.length - 1) ws.accept();
    await until(() => n >= s.wait || isClosed);
    if (s.d) await sleep(s.d);
    const [v, mem] = item(s.x);
    k++;
    try { ws.send(v); } catch (e) { log.push(['threw', e.name]); }
    if (mem && mem.byteLength) mem.fill(238);
  }
  if (p.acceptLate) ws.accept();
  await until(() => n >= p.total || isClosed);
  if (p.end === 'leave') return log;
  if (p.end === 'script') {
    if (p.closeDelay) await sleep(p.closeDelay);
    if (p.bad) for (const a of [[999], [1001], [2999], [5000], [NaN], ['abc'], [-1], [1000, 'é'.repeat(62)], [3000, 'x'.repeat(124)]]) attempt('bad', () => ws.close(...a));
    ws.close(...p.close); log.push(['closing', ws.readyState]);
    attempt('send closing', () => ws.send('after')); attempt('close again', () => ws.close(4000, 'again'));
  }
  await until(() => isClosed);
  attempt('send closed', () => ws.send('after')); attempt('close closed', () => ws.close(4001));
  return log;
}
async function run(plan) {
  cur = plan.rid;
  for (const o of left.splice(0)) { try { o.send('GHOST'); o.close(4444, 'GHOST'); } catch { } }
  const logs = {};
  await Promise.all(plan.socks.map(async p => { if (p.start) await sleep(p.start); logs[p.id] = await socket(p, plan.rid); }));
  if (plan.linger) await sleep(plan.linger);
  return JSON.stringify({ logs, late: late.splice(0) });
}
addEventListener('fetch', e => {
  const go = (async () => { const plan = JSON.parse(await e.request.text()); return [plan, await run(plan)]; })();
  const mode = new URL(e.request.url).searchParams.get('mode');
  if (mode === 'bg') { e.waitUntil(go.then(([p, t]) => fetch('http://report/' + p.rid, { method: 'POST', body: t }))); e.respondWith(new Response('started')); }
  else e.respondWith(go.then(([p, t]) => new Response(t)));
});
"#;

#[derive(Clone, Copy, PartialEq, Debug)]
enum End { Script, Early, Host, Drop, Error, Leave }
#[derive(Clone)]
struct Sock {
    id: String, fetch: bool, url: String, want_url: String, headers: BTreeMap<String, String>, ok: Result<(), String>, delay: u64,
    host: Vec<(usize, u64, bool, Vec<u8>)>, sends: Vec<Option<WebSocketOutgoing>>, end: End, close: (u16, String), answer: Option<(u16, String)>, extras: usize, racing: bool, plan: Value, via: Vec<String>,
}
#[derive(Default)]
struct Seen { connects: Vec<(String, BTreeMap<String, String>)>, got: Vec<WebSocketOutgoing>, ended: bool, cut: bool }
type Socks = Arc<Mutex<HashMap<String, (Sock, Seen)>>>;
fn msg(bin: bool, b: &[u8]) -> WebSocketIncoming { if bin { WebSocketIncoming::Binary(b.to_vec()) } else { WebSocketIncoming::Text(String::from_utf8(b.to_vec()).unwrap()) } }

/// The peer of one socket.
async fn peer(socks: Socks, s: Sock, to: tokio::sync::mpsc::UnboundedSender<WebSocketIncoming>, mut from: tokio::sync::mpsc::UnboundedReceiver<WebSocketOutgoing>) {
    let put = |m: WebSocketOutgoing| { if let Some(e) = socks.lock().unwrap().get_mut(&s.id) { e.1.got.push(m); } };
    let ended = || { if let Some(e) = socks.lock().unwrap().get_mut(&s.id) { e.1.ended = true; } };
    let mut got = 0;
    macro_rules! wait { ($n:expr) => { while got < $n { match from.recv().await { Some(m) => { put(m); got += 1; } None => { if let Some(e) = socks.lock().unwrap().get_mut(&s.id) { e.1.cut = true; } return ended(); } } } }; }
    let total = s.sends.iter().flatten().count();
    let mut to = Some(to);
    let mut say = |m| { if let Some(t) = &to { let _ = t.send(m); } };
    for (after, d, bin, b) in &s.host { wait!(*after); if *d > 0 { tokio::time::sleep(MS(*d)).await; } say(msg(*bin, b)); }
    match s.end {
        End::Host | End::Error | End::Drop => {
            wait!(total);
            if s.delay > 2 { tokio::time::sleep(MS(s.delay)).await; }
            if s.end == End::Error { say(WebSocketIncoming::Error(s.close.1.clone())); }
            if s.end == End::Drop { to = None; } else { say(WebSocketIncoming::Closed { code: s.close.0, reason: s.close.1.clone() }); }
        }
        End::Script => {
            // messages which nobody should see, or only before the close
            if s.racing { for i in 0..s.extras { say(WebSocketIncoming::Text(format!("x#{i}"))); tokio::task::yield_now().await; } }
            wait!(total + 1);
            if !s.racing { for i in 0..s.extras { say(WebSocketIncoming::Text(format!("x#{i}"))); if i % 2 == 1 { say(WebSocketIncoming::Error("x#".into())); tokio::time::sleep(MS(1)).await; } } }
            match &s.answer { Some((c, r)) => say(WebSocketIncoming::Closed { code: *c, reason: r.clone() }), None => to = None }
        }
        End::Early => {}
        End::Leave => {
            // goes on talking until the connection is closed
            for i in 0..2000 { say(WebSocketIncoming::Text(format!("late{i}"))); match tokio::time::timeout(MS(3), from.recv()).await { Ok(Some(m)) => put(m), Ok(None) => return ended(), Err(_) => {} } }
        }
    }
    let _ = &to;
    while let Some(m) = from.recv().await { put(m); }
    ended();
}
fn any_text(r: &mut Rng) -> String {
    match r.below(9) { 0 => String::new(), 1 => "\0".into(), 2 => "\u{feff}x".into(), 3 => "😀".repeat(r.range(1, 9)), 4 => "null".into(), 5 => { let n = r.range(1000, 60_000); text(r, n) } 6 => { let n = r.range(8000, 70_000); "a".repeat(n) } _ => { let n = r.range(1, 60); text(r, n) } }
}
fn any_bytes(r: &mut Rng) -> Vec<u8> { let n = match r.below(8) { 0 => 0, 1 => 1, 2 => r.range(30_000, 120_000), _ => r.range(2, 300) }; r.bytes(n) }
fn gen_send(r: &mut Rng) -> (Value, Option<WebSocketOutgoing>) {
    use WebSocketOutgoing::{Binary, Text};
    let b = |r: &mut Rng, k: &str| { let b = any_bytes(r); (json!({ "k": k, "b": b64(&b) }), Some(Binary(b))) };
    match r.below(20) {
        0..=6 => { let t = any_text(r); (json!({ "k": "text", "v": t.clone() }), Some(Text(t))) }
        7 | 8 => b(r, "u8"), 9 => b(r, "ab"), 10 => b(r, "dv"), 11 => b(r, "sub"),
        12 => { let mut x = any_bytes(r); x.truncate(x.len() / 2 * 2); (json!({ "k": "i16", "b": b64(&x) }), Some(Binary(x))) }
        13 => { let x = any_bytes(r); (json!({ "k": "rab", "b": b64(&x), "v": r.chance(1, 2) }), Some(Binary(x))) }
        14 => (json!({ "k": "gone", "v": r.chance(1, 2) }), Some(Binary(vec![]))),
        15 => (json!({ "k": "lone" }), Some(Text("\u{fffd}x\u{fffd}".into()))),
        16 => (json!({ "k": "num" }), Some(Text("42.5".into()))),
        17 => match r.below(3) { 0 => (json!({ "k": "null" }), Some(Text("null".into()))), 1 => (json!({ "k": "undef" }), Some(Text("undefined".into()))), _ => (json!({ "k": "arr" }), Some(Text("1,2".into()))) },
        18 => (json!({ "k": "obj" }), Some(Text("obj".into()))),
        _ => (json!({ "k": *r.pick(&["sym", "thrower"]) }), None),
    }
}
fn gen_sock(r: &mut Rng, id: String) -> Sock {
    let fetch = r.chance(2, 5);
    let mut end = *r.pick(&[End::Script, End::Script, End::Script, End::Early, End::Host, End::Host, End::Drop, End::Error, End::Leave]);
    if fetch && end == End::Early { end = End::Script; }
    let ok = if r.chance(1, 8) { Err(format!("refused {}", { let n = r.below(12); text(r, n) })) } else { Ok(()) };
    let (mut host, mut sends, mut script) = (vec![], vec![], vec![]);
    let (n, burst) = (match r.below(6) { 0 => 0, 1 => r.range(20, 80), _ => r.range(1, 12) }, r.chance(1, 3));
    let mut sent = 0;
    for _ in 0..n {
        if r.chance(1, 2) {
            let after = if burst || sent == 0 { 0 } else { r.range(0, sent) };
            let bin = r.chance(1, 3);
            let b = if bin { any_bytes(r) } else { any_text(r).into_bytes() };
            host.push((after, if r.chance(1, 4) { r.range(1, 4) as u64 } else { 0 }, bin, b));
        } else {
            let wait = if burst || host.is_empty() { 0 } else { r.range(0, host.len()) };
            let (x, w) = gen_send(r);
            if w.is_some() { sent += 1; }
            script.push(json!({ "wait": wait, "d": if r.chance(1, 5) { r.range(1, 4) } else { 0 }, "x": x }));
            sends.push(w);
        }
    }
    // nothing throws once the peer has closed
    if matches!(end, End::Host | End::Drop | End::Error) { while sends.last().is_some_and(|s| s.is_none()) { sends.pop(); script.pop(); } }
    let accept_late = fetch && r.chance(1, 4) && script.iter().all(|s| s["wait"] == 0);
    let scheme = *r.pick(&["ws", "wss", "http", "https"]);
    let url = format!("{}://{}/{id}?q={}", if fetch && r.chance(1, 2) { "http" } else { scheme }, *r.pick(&["h", "peer.example:8080", "127.0.0.1"]), r.below(1000));
    let want_url = if fetch { url.clone() } else { url.replacen("http", "ws", if url.starts_with("http") { 1 } else { 0 }) };
    let (mut headers, mut protos) = (BTreeMap::new(), Value::Null);
    if fetch {
        headers.insert(r.pick(&["Upgrade", "upgrade", "UPGRADE"]).to_string(), r.pick(&["websocket", "WebSocket"]).to_string());
        for i in 0..r.below(4) { headers.insert(format!("X-H{i}"), format!("v{} é{}", i, r.below(99))); }
    } else if r.chance(1, 3) {
        protos = if r.chance(1, 2) { json!("chat.v1") } else { json!(["a", "b2", "c"]) };
        headers.insert("Sec-WebSocket-Protocol".into(), if protos.is_string() { "chat.v1".into() } else { "a, b2, c".into() });
    }
    let (close, args) = match r.below(4) { 0 => ((1000, String::new()), json!([])), 1 => { let c = *r.pick(&[1000u16, 3000, 4999, 4242]); ((c, String::new()), json!([c])) } _ => { let c = *r.pick(&[1000u16, 3000, 3999, 4999]); let t = match r.below(3) { 0 => "x".repeat(123), 1 => "é".repeat(61), _ => { let n = r.below(12); text(r, n) } }; ((c, t.clone()), json!([c, t])) } };
    let close = if end == End::Script { close } else { (*r.pick(&[1000u16, 1001, 1009, 1011, 3000, 4000, 1005]), { let n = r.below(20); text(r, n) }) };
    let answer = if r.chance(1, 4) { None } else { Some(if r.chance(3, 4) { close.clone() } else { (1001, "other".to_string()) }) };
    let (extras, racing) = (if r.chance(1, 2) { r.range(1, 6) } else { 0 }, r.chance(1, 2));
    let (on, listeners) = (r.chance(1, 2), r.range(0, 3));
    let mut via: Vec<String> = if on { vec!["on".into()] } else { vec![] };
    via.extend((0..listeners).map(|i| format!("l{i}")));
    let plan = json!({ "id": id, "how": if fetch { "fetch" } else { "new" }, "url": url, "protos": protos, "headers": headers, "throws": r.chance(1, 3), "on": on, "listeners": listeners, "acceptDelay": if r.chance(1, 3) { r.range(1, 15) } else { 0 }, "acceptLate": accept_late, "twice": r.chance(1, 3),
        "script": script, "total": host.len(), "end": format!("{end:?}").to_lowercase(), "bad": r.chance(1, 3), "close": args, "closeDelay": if r.chance(1, 3) { r.range(1, 5) } else { 0 }, "start": if r.chance(1, 4) { r.range(1, 20) } else { 0 } });
    Sock { id, fetch, url: url.clone(), want_url, headers, ok, delay: r.below(8) as u64, host, sends, end, close, answer, extras, racing, plan, via }
}
/// What the script must have seen, without the messages of a race.
fn expected(s: &Sock) -> Vec<Value> {
    let mut l = vec![];
    let ev = |l: &mut Vec<Value>, t: &str, d: Value, st: u8| for v in &s.via { l.push(json!([v, t, d, st])); };
    if s.fetch {
        if let Err(e) = &s.ok { return vec![json!(["failed", e])]; }
        l.push(json!(["made", 101, 1, "arraybuffer", 0, "", "", 0, 1, 2, 3, true]));
    } else {
        l.push(json!(["made", 0, s.want_url, "arraybuffer", 0, "", "", 0, 1, 2, 3, true]));
        l.push(json!(["send early", "InvalidStateError", 0]));
        if s.end == End::Early { l.push(json!(["closing", 2])); }
        if let Err(e) = &s.ok { let e = format!("Error: {e}"); ev(&mut l, "error", json!(e), 3); ev(&mut l, "close", json!([1006, e, false]), 3); return l; }
        if s.end == End::Early { ev(&mut l, "close", json!([1006, "", false]), 3); return l; }
        ev(&mut l, "open", Value::Null, 1);
    }
    // sends that throw are compared on their own, as they may come between any two messages
    for (_, _, bin, b) in &s.host { ev(&mut l, "message", if *bin { json!(["b", b64(b)]) } else { json!(["t", String::from_utf8(b.clone()).unwrap()]) }, 1); }
    if s.end == End::Leave { return l; }
    if s.end == End::Script {
        if s.plan["bad"] == true { for n in ["InvalidAccessError"; 7].iter().chain(&["SyntaxError"; 2]) { l.push(json!(["bad", n, 1])); } }
        for (w, st) in [("closing", Value::Null), ("send closing", json!("ok")), ("close again", json!("ok"))] { l.push(if st.is_null() { json!([w, 2]) } else { json!([w, st, 2]) }); }
        let a = s.answer.clone().unwrap_or((1006, String::new()));
        ev(&mut l, "close", json!([a.0, a.1, a.0 != 1006]), 3);
    } else {
        if s.end == End::Error { ev(&mut l, "error", json!(s.close.1), 1); }
        if s.end == End::Drop { ev(&mut l, "close", json!([1006, "", false]), 3); } else { ev(&mut l, "close", json!([s.close.0, s.close.1, true]), 3); }
    }
    l.push(json!(["send closed", "ok", 3]));
    l.push(json!(["close closed", "ok", 3]));
    l
}
fn low(h: &BTreeMap<String, String>) -> BTreeMap<String, &String> { h.iter().map(|(k, v)| (k.to_lowercase(), v)).collect() }
fn cut(v: &Value, n: usize) -> String { v.to_string().chars().take(n).collect() }
async fn one_ws(rep: Report, mut r: Rng, how: How, wid: String, i: usize, ops: Arc<Mock>, socks: Socks) {
    let rid = format!("r{i}");
    if r.chance(1, 12) {
        // scripts may have a WebSocket of their own
        let k = r.below(4) as usize;
        let own = ["const WebSocket = 'own'", "class WebSocket { static toString() { return 'own' } }", "globalThis.WebSocket = 'own'", "var WebSocket = 'own'"][k];
        rep.case(format!("{} own {own}", how.mode));
        let o = how.run(&Pin::new("o", &format!("own{k}")), Script::new(format!("{own}; addEventListener('fetch', e => e.respondWith(new Response(String(WebSocket))))").as_str()), ops.clone(), ev_fetch(get("http://h/"))).await;
        rep.check(o.ok() && o.status() == 200 && o.text() == "own", "own", || format!("{} {own}: {}", how.mode, o.brief()));
    }
    let n = match r.below(5) { 0 => r.range(6, 20), 1 => 1, _ => r.range(1, 5) };
    let list: Vec<Sock> = (0..n).map(|k| gen_sock(&mut r, format!("s{i}-{k}"))).collect();
    let bg = r.chance(1, 3);
    let what = format!("{} {rid} {}{}", how.mode, if bg { "bg " } else { "" }, list.iter().map(|s| format!("{}{:?}{}/{}{}", if s.fetch { "f" } else { "n" }, s.end, s.sends.len(), s.host.len(), if s.ok.is_err() { "!" } else { "" })).collect::<Vec<_>>().join(" "));
    rep.case(what.clone());
    { let mut m = socks.lock().unwrap(); for s in &list { m.insert(s.id.clone(), (s.clone(), Seen::default())); } }
    let plan = json!({ "rid": rid, "linger": if r.chance(1, 4) { r.range(1, 10) } else { 0 }, "socks": list.iter().map(|s| s.plan.clone()).collect::<Vec<_>>() });
    let q = post(&format!("http://h/?mode={}", if bg { "bg" } else { "fg" }), plan.to_string());
    let o = how.run(&Pin::new("o", &wid), Script::new(format!("{JS}\n{WSJS}").as_str()), ops.clone(), ev_fetch(q)).await;
    let j: Value = if bg {
        let t = ops.calls().into_iter().filter_map(|c| match c { Op::Fetch(q) if q.url == format!("http://report/{rid}") => Some(q.body.flat()), _ => None }).collect::<Vec<_>>();
        rep.check(o.ok() && o.text() == "started" && t.len() == 1, "response", || format!("{what}: {} reports, {}", t.len(), o.brief()));
        t.first().and_then(|t| serde_json::from_slice(t).ok()).unwrap_or_default()
    } else { rep.check(o.ok() && o.status() == 200, "response", || format!("{what}: {}", o.brief())); if o.ok() { o.json() } else { Value::Null } };
    if j.is_null() { return; }
    rep.check(j["late"] == json!([]), "late", || format!("{what}: events of sockets of an earlier request: {}", cut(&j["late"], 300)));
    // the execution is over: every connection is closed before long
    for s in &list {
        let t0 = std::time::Instant::now();
        while s.ok.is_ok() && !socks.lock().unwrap()[&s.id].1.ended && t0.elapsed() < Duration::from_secs(5) { tokio::time::sleep(MS(2)).await; }
    }
    let m = socks.lock().unwrap();
    for s in &list {
        let seen = &m[&s.id].1;
        rep.count("sockets", 1);
        let me = || format!("{what}: {} {:?} url {}", s.id, s.end, s.url);
        rep.check(seen.connects.len() == 1 && seen.connects[0].0 == s.want_url && low(&seen.connects[0].1) == low(&s.headers), "connect", || format!("{}: {:?} instead of {} {:?}", me(), seen.connects, s.want_url, s.headers));
        let mut want: Vec<WebSocketOutgoing> = vec![];
        if s.ok.is_ok() {
            if s.end != End::Early { want.extend(s.sends.iter().flatten().cloned()); }
            if s.end == End::Script { want.push(WebSocketOutgoing::Close { code: s.close.0, reason: s.close.1.clone() }); }
            if s.end == End::Early { want.push(WebSocketOutgoing::Close { code: 1000, reason: String::new() }); }
        }
        let brief = |v: &[WebSocketOutgoing]| v.iter().map(|m| format!("{m:?}").chars().take(40).collect::<String>()).collect::<Vec<_>>().join(" ");
        rep.check(seen.got == want || matches!(s.end, End::Leave | End::Early) && want.starts_with(&seen.got), "sent", || { let k = seen.got.iter().zip(&want).take_while(|(a, b)| a == b).count(); format!("{}: the peer got {} messages instead of {}, differing at {k} ({}): {} instead of {}", me(), seen.got.len(), want.len(), s.plan["script"].as_array().unwrap().iter().filter(|x| !matches!(x["x"]["k"].as_str(), Some("sym" | "thrower"))).nth(k).map_or("close", |x| x["x"]["k"].as_str().unwrap()), brief(&seen.got[k.min(seen.got.len())..]).chars().take(200).collect::<String>(), brief(&want[k.min(want.len())..]).chars().take(200).collect::<String>()) });
        rep.count("messages_out", seen.got.len() as u64);
        if s.ok.is_ok() { rep.check(seen.ended, "ended", || format!("{}: still connected after the execution", me())); rep.check(!seen.cut || s.end == End::Early, "cut", || format!("{}: disconnected while in use", me())); }
        let log = j["logs"][&s.id].as_array().cloned().unwrap_or_default();
        let threw = log.iter().filter(|e| e[0] == "threw").map(|e| e[1].as_str().unwrap_or("").to_string()).collect::<Vec<_>>();
        let want_threw = if s.ok.is_err() || s.end == End::Early { vec![] } else { s.plan["script"].as_array().unwrap().iter().filter_map(|x| match x["x"]["k"].as_str() { Some("sym") => Some("TypeError".to_string()), Some("thrower") => Some("RangeError".to_string()), _ => None }).collect() };
        rep.check(threw == want_threw, "send-throws", || format!("{}: {threw:?} instead of {want_threw:?}", me()));
        // messages racing with the close: in order, complete up to a point, and none after close()
        let closing = log.iter().position(|e| e[0] == "closing").unwrap_or(log.len());
        let extra: Vec<(usize, &Value)> = log.iter().enumerate().filter(|(_, e)| e[1] == "message" && e[2][1].as_str().is_some_and(|t| t.starts_with("x#"))).collect();
        let good = extra.iter().enumerate().all(|(k, (at, e))| *at < closing && s.racing && e[0] == s.via[k % s.via.len()].as_str() && e[2][1] == format!("x#{}", k / s.via.len()).as_str() && e[3] == 1);
        rep.check(good, "race", || format!("{}: {}", me(), cut(&json!(log), 400)));
        let late_ok = |e: &Value| s.end == End::Leave && e[1] == "message" && e[2][1].as_str().is_some_and(|t| t.starts_with("late"));
        let log: Vec<&Value> = log.iter().filter(|e| e[0] != "threw" && !(e[1] == "message" && e[2][1].as_str().is_some_and(|t| t.starts_with("x#"))) && !late_ok(e)).collect();
        let want = expected(s);
        rep.check(log.iter().copied().eq(want.iter()), "events", || { let k = log.iter().zip(&want).take_while(|(a, b)| **a == *b).count(); format!("{}: {} entries instead of {}, differing at {k}: {} instead of {}", me(), log.len(), want.len(), cut(&json!(&log[k..]), 300), cut(&json!(&want[k..]), 300)) });
        rep.count("events", want.len() as u64);
        rep.count(match s.end { End::Script => "end_script", End::Early => "end_early", End::Host => "end_host", End::Drop => "end_drop", End::Error => "end_error", End::Leave => "end_leave" }, 1);
        if s.ok.is_err() { rep.count("refused", 1); }
    }
}
pub fn websocket(c: &mut Ctx) {
    let how = How::of(c, |l| l.max_wall_clock_time_ms = 15_000);
    let socks: Socks = Default::default();
    let s2 = socks.clone();
    let ops = Mock::new(move |_, op| { let socks = s2.clone(); async move {
        match &op {
            Op::Ws(url, headers) => {
                let id = url.split('/').nth(3).unwrap_or("").split('?').next().unwrap_or("").to_string();
                let found = { let mut m = socks.lock().unwrap(); m.get_mut(&id).map(|(s, seen)| { seen.connects.push((url.clone(), headers.clone())); s.clone() }) };
                let Some(s) = found else { return err_reply(&op, "unknown socket") };
                if s.delay > 0 { tokio::time::sleep(MS(s.delay)).await; }
                if let Err(e) = s.ok { return Reply::Ws(Err(e)); }
                let (send_tx, from) = tokio::sync::mpsc::unbounded_channel();
                let (to, recv_rx) = tokio::sync::mpsc::unbounded_channel();
                tokio::spawn(peer(socks, s, to, from));
                Reply::Ws(Ok(WebSocketConnection { send_tx, recv_rx }))
            }
            Op::Fetch(q) if q.url.starts_with("http://report/") => Reply::Http(Ok(text_response(200, ""))),
            _ => err_reply(&op, "?"),
        }
    } });
    let (rep, h, n) = (c.rep.clone(), how.clone(), c.n(600, 30_000));
    let (ops2, socks2) = (ops.clone(), socks.clone());
    how.campaign(c, n, 8, move |r, i| { let (rep, how, ops, socks) = (rep.clone(), h.clone(), ops2.clone(), socks2.clone()); let wid = how.wid(i); Box::new(move || one_ws(rep, r, how, wid, i, ops, socks).boxed_local()) }, || { ops.clear(); socks.lock().unwrap().clear(); });
}
