//! C20: no script takes the host down.  C21: scripts are confined.
use crate::kit::*;
use crate::s_life::How;
use crate::s_req::Job;
use futures::FutureExt;
use openworkers_core::*;
use serde_json::json;
use std::sync::Arc;
use std::time::Duration;

/// A fuzzer that runs inside of a worker: calls everything it can reach with everything it can make.
const FUZZ: &str = r#"
const P = { Reflect_ownKeys: Reflect.ownKeys, getDesc: Object.getOwnPropertyDescriptor, getProto: Object.getPrototypeOf, define: Object.defineProperty, apply: Reflect.apply, construct: Reflect.construct, Promise, race: Promise.race.bind(Promise), setTimeout, String, JSON_stringify: JSON.stringify, Response, imul: Math.imul, Set, Map, Array, push: Function.prototype.call.bind(Array.prototype.push), then: Function.prototype.call.bind(Promise.prototype.then), Error, now: Date.now, has: Function.prototype.call.bind(Set.prototype.has), add: Function.prototype.call.bind(Set.prototype.add) };
let seed = 1;
const rnd = n => { seed = (seed + 0x6D2B79F5) | 0; let t = P.imul(seed ^ (seed >>> 15), 1 | seed); t = (t + P.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) % n; };
const thrower = () => { throw new P.Error('hostile'); };
const trapAll = t => new Proxy(t, { get: thrower, set: thrower, has: thrower, deleteProperty: thrower, ownKeys: thrower, getOwnPropertyDescriptor: thrower, defineProperty: thrower, getPrototypeOf: thrower, apply: thrower, construct: thrower });
const oddAll = t => new Proxy(t, { get: (o, k) => k === 'then' ? undefined : k === Symbol.toPrimitive ? () => rnd(9) : nasty(), has: () => true, ownKeys: () => ['a', 'length', '__proto__'], getOwnPropertyDescriptor: () => ({ value: nasty(), configurable: true, enumerable: true, writable: true }) });
const RAWNUM = [0, -0, 1, -1, 2, 7, 255, 256, 65535, 65536, 1e6, 2 ** 31 - 1, 2 ** 31, -(2 ** 31), 2 ** 32, 2 ** 53, -(2 ** 53), 1e21, 1e308, -1e308, 5e-324, 0.5, -0.5, NaN, Infinity, -Infinity];
const STR = ['', 'a', '0', '-1', 'NaN', 'GET', 'get', ' ', '\0', '\r\n', 'a\r\nb: c', 'é', '😀', '\ud800', '\udfff\ud800x', '\ufeff', 'http://h/', 'http://[::1', 'javascript:1', 'data:,x', '//', 'ws://h/', 'wss://h/#f', '__proto__', 'constructor', 'prototype', 'then', 'toString', 'content-type', 'set-cookie', 'multipart/form-data; boundary=', 'multipart/form-data; boundary=x', 'application/json', 'utf-8', 'latin1', 'SHA-256', 'HMAC', 'ECDSA', 'P-256', 'raw', 'pkcs8', 'spki', 'jwk', 'sign', '{"a":1}', '[', '{', '%', '%zz', '/', '.', '..', '*', 'base64', 'AAAA', 'A', '%F0%9F', 'x=1&y=2', 'abort', 'message', 'fetch', 'task', 'env', 'KV', 'ST', 'DB'];
const ALG = [{ name: 'HMAC', hash: 'SHA-256' }, { name: 'HMAC', hash: { name: 'SHA-512' }, length: 0 }, { name: 'ECDSA', namedCurve: 'P-256' }, { name: 'ECDSA', hash: 'SHA-256' }, { name: 'PBKDF2', hash: 'SHA-256', salt: new Uint8Array(4), iterations: 3 }, { name: 'PBKDF2', hash: 'SHA-1', salt: new Uint8Array(0), iterations: 0 }, { name: 'HKDF', hash: 'SHA-256', salt: new Uint8Array(1), info: new Uint8Array(1) }, { name: 'RSASSA-PKCS1-v1_5', hash: 'SHA-256' }, { name: 'AES-GCM', iv: new Uint8Array(12), length: 256 }, { name: 'SHA-1' }, 'SHA-384', { name: 'AES-CBC', iv: new Uint8Array(16), length: 128 }];
const made = [];
function buffer(k) {
  switch (k % 10) {
    case 0: return new ArrayBuffer(0);
    case 1: return new Uint8Array([1, 2, 3, 255]).buffer;
    case 2: { const b = new ArrayBuffer(16); b.transfer(); return b; }
    case 3: { const b = new ArrayBuffer(16); const v = new Uint8Array(b, 4, 8); b.transfer(); return v; }
    case 4: { const b = new ArrayBuffer(64, { maxByteLength: 128 }); const v = new Uint8Array(b); if (rnd(2)) b.resize(8); return v; }
    case 5: { const b = new ArrayBuffer(64, { maxByteLength: 128 }); const v = new Uint8Array(b, 16, 32); b.resize(20); return v; }
    case 6: { const b = new ArrayBuffer(32, { maxByteLength: 64 }); const v = new DataView(b, 8); b.resize(rnd(64)); return v; }
    case 7: return new [Int8Array, Uint16Array, Float64Array, BigInt64Array, Uint8ClampedArray][rnd(5)](rnd(40));
    case 8: return new Uint8Array(new ArrayBuffer(40), 7, 11);
    default: return new DataView(new ArrayBuffer(9), 3, 2);
  }
}
function nasty() {
  try {
    switch (rnd(26)) {
      case 0: return undefined; case 1: return null; case 2: return !!rnd(2);
      case 3: case 4: return RAWNUM[rnd(RAWNUM.length)];
      case 5: case 6: case 7: return STR[rnd(STR.length)];
      case 8: return [10n, -1n, 2n ** 64n, 2n ** 70n, 0n][rnd(5)];
      case 9: return [Symbol('s'), Symbol.iterator, Symbol(), Symbol.asyncIterator][rnd(4)];
      case 10: return [{}, Object.create(null), { a: { b: [1, { c: 2 }] } }, { toString: thrower, valueOf: thrower }, { toJSON: thrower }, { then: thrower }, { then(a) { a(a); } }, { then(a, b) { b(1); a(2); } }, { get then() { throw 1; } }, { length: -1 }, { length: 7000, 0: 1 }, { [Symbol.iterator]: thrower }, { [Symbol.toPrimitive]: () => ({}) }, { valueOf() { return nasty(); } }][rnd(14)];
      case 11: { const o = {}; o.o = o; o.a = [o]; return o; }
      case 12: { const t = [{}, [], () => {}, class {}][rnd(4)]; return rnd(2) ? trapAll(t) : oddAll(t); }
      case 13: { const r = Proxy.revocable([{}, [], () => {}][rnd(3)], {}); r.revoke(); return r.proxy; }
      case 14: return [() => 1, thrower, async () => nasty(), function* () { yield 1; throw 2; }, async function* () { yield nasty(); }, class A { constructor() { throw 1; } }, (...a) => a, function () { return this; }, eval, Function, Object, Array, Promise, Symbol, Proxy][rnd(15)];
      case 15: return [[], [1, 2, 3], [, 1], new P.Array(3000), [[['a', 'b']]], [['a', 'b'], ['c']], Object.freeze([1]), [undefined, null], ['x'.repeat(10)]][rnd(9)];
      case 16: case 17: return buffer(rnd(10));
      case 18: return [new Date(NaN), new Date(8.64e15), /x/g, new Map([[1, 2]]), new Set([1]), new WeakMap(), new WeakRef({}), Promise.resolve(1), Promise.reject(2), new Promise(() => {}), new P.Error('e'), new AggregateError([1], 'x'), Object.assign(new P.Error('s'), { stack: { toString: thrower } }), (function () { return arguments; })(1, 2), new String('boxed'), Object(1n), globalThis, Math, JSON, Reflect, (function* () { yield 1; })()][rnd(21)];
      case 19: return [() => new Headers({ a: 'b' }), () => new Request('http://h/'), () => new Request('http://h/', { method: 'POST', body: 'x' }), () => new P.Response('x'), () => new P.Response(new ReadableStream({ pull(c) { c.enqueue(nasty()); } })), () => new URL('http://h/p?q#f'), () => new URLSearchParams('a=1'), () => new Blob(['x', new Uint8Array(3)]), () => new File(['x'], 'n'), () => { const f = new FormData(); f.append('a', 'b'); return f; }, () => new AbortController().signal, () => AbortSignal.abort(nasty()), () => new TextEncoder(), () => new TextDecoder(), () => new ReadableStream(), () => { const s = new ReadableStream({ start(c) { c.enqueue(nasty()); c.enqueue(1); } }); s.getReader(); return s; }, () => new ReadableStream({ start(c) { c.error(nasty()); } }), () => new WebSocket('ws://h/'), () => crypto, () => console, () => globalThis.env, () => new Event('x')][rnd(22)]();
      case 20: return ALG[rnd(ALG.length)];
      case 21: { let o = {}; const d = rnd(2) ? 200 : 20000; for (let i = 0; i < d; i++) o = rnd(2) ? [o] : { o }; return o; }
      case 22: return 'x'.repeat([10, 1000, 9000][rnd(3)]) + (rnd(3) ? '' : '\ud800');
      case 23: { const o = {}; for (let i = 0; i < 3000; i++) o['k' + i] = i; return o; }
      default: return made.length ? made[rnd(made.length)] : 1;
    }
  } catch (e) { return e; }
}
const args = () => { const a = []; for (let i = rnd(6); i-- > 0;) a[a.length] = nasty(); return a; };
const keep = v => { if (v !== undefined && v !== null && typeof v !== 'number') { if (made.length < 60) P.push(made, v); else made[rnd(60)] = v; } return v; };
const SKIP = new P.Set([thrower, nasty]);
function walk() {
  const seen = new P.Set(), found = [], queue = [[globalThis, '', 0]];
  while (queue.length && found.length < 4000) {
    const [o, path, d] = queue.shift();
    let keys; try { keys = P.Reflect_ownKeys(o); } catch { continue; }
    for (const k of keys) {
      let desc; try { desc = P.getDesc(o, k); } catch { continue; }
      if (!desc) continue;
      for (const v of [desc.value, desc.get, desc.set]) {
        if (v === null || (typeof v !== 'object' && typeof v !== 'function') || P.has(seen, v)) continue;
        P.add(seen, v);
        if (typeof v === 'function' && !P.has(SKIP, v)) P.push(found, { path: path + '.' + P.String(k), o, f: v });
        if (d < 5) P.push(queue, [v, path + '.' + P.String(k), d + 1]);
      }
      }
    let pr; try { pr = P.getProto(o); } catch { pr = null; }
    if (pr && !P.has(seen, pr)) { P.add(seen, pr); P.push(queue, [pr, path + '^', d + 1]); }
  }
  return found;
}
const HOT = /^\.(__|fetch|crypto|Response|Request|Headers|ReadableStream|WebSocket|Blob|File|FormData|URL|Text|structuredClone|atob|btoa|addEventListener|env|set|clear|queueMicrotask|console|Abort)/;
const tick = ms => new P.Promise(f => P.setTimeout(f, ms));
function pollute() {
  const protos = [Object.prototype, Array.prototype, Function.prototype, String.prototype, Number.prototype, Promise.prototype, Promise, Symbol, Map.prototype, Set.prototype, Uint8Array.prototype, P.getProto(Uint8Array.prototype), ArrayBuffer.prototype, Error.prototype, Error, JSON, Math, Object, Array, Reflect, Date, Date.prototype, RegExp.prototype, P.getProto(P.getProto([][Symbol.iterator]())), globalThis, Response.prototype, Request.prototype, Headers.prototype, ReadableStream.prototype, crypto, crypto.subtle, console];
  const o = protos[rnd(protos.length)];
  const ks = P.Reflect_ownKeys(o);
  const k = rnd(4) ? ks[rnd(ks.length)] : STR[rnd(STR.length)];
  if (k === 'length') return; // V8's own loops over a huge length cannot be stopped
  try {
    switch (rnd(5)) {
      case 0: o[k] = nasty(); break;
      case 1: P.define(o, k, { get: thrower, set: thrower, configurable: true }); break;
      case 2: P.define(o, k, { get: nasty, set() {}, configurable: true }); break;
      case 3: delete o[k]; break;
      default: { const f = o[k]; if (typeof f === 'function') o[k] = function (...a) { keep(this); for (const x of a) keep(x); return rnd(3) ? P.apply(f, this, a) : nasty(); }; }
    }
  } catch { }
}
async function fuzz(s, steps, level) {
  seed = s;
  const all = walk(), hot = all.filter(x => HOT.test(x.path));
  let calls = 0, threw = 0;
  const t0 = P.now();
  for (let i = 0; i < steps && P.now() - t0 < 400; i++) {
    if (level > 0 && rnd(level > 1 ? 6 : 40) === 0) { pollute(); continue; }
    const t = (rnd(4) ? hot : all)[rnd(rnd(4) ? hot.length : all.length)] || all[rnd(all.length)];
    last = t.path;
    try {
      calls++;
      let r;
      switch (rnd(8)) {
        case 0: r = P.construct(t.f, args()); break;
        case 1: r = P.apply(t.f, nasty(), args()); break;
        case 2: { const o = nasty(); const k = rnd(2) ? STR[rnd(STR.length)] : P.Reflect_ownKeys(P.getProto(Object(o)) || {})[rnd(12)]; r = rnd(3) || k === 'length' ? o[k] : (o[k] = nasty()); if (typeof r === 'function') { keep(r); r = P.apply(r, o, args()); } break; }
        case 3: if (made.length) { const o = made[rnd(made.length)]; const ks = P.Reflect_ownKeys(P.getProto(Object(o)) || {}); const k = ks[rnd(ks.length)]; r = o[k]; if (typeof r === 'function') r = P.apply(r, o, args()); break; }
        default: r = P.apply(t.f, t.o, args());
      }
      keep(r);
      if (r instanceof P.Promise) { P.then(r, keep, () => {}); if (!rnd(6)) await P.race([r, tick(2)]); }
    } catch (e) { threw++; }
    if (!rnd(25)) await tick(0);
  }
  return { calls, threw, reach: all.length, hot: hot.length };
}
let last = '';
"#;
const BINDS: &[(&str, BindingType)] = &[("KV", BindingType::Kv), ("ST", BindingType::Storage), ("DB", BindingType::Database), ("AS", BindingType::Assets), ("WK", BindingType::Worker)];
fn binds() -> Vec<BindingInfo> { BINDS.iter().map(|(n, t)| BindingInfo::new(n.to_string(), t.clone())).collect() }

/// An operations handler that answers with everything a host could.
fn hostile_ops(seed: u64) -> Arc<Mock> {
    let cell = Arc::new(std::sync::Mutex::new(Rng::new(seed)));
    Mock::new(move |_, op| {
        let mut r = cell.lock().unwrap().fork();
        async move {
            if r.chance(1, 4) { tokio::time::sleep(Duration::from_millis(r.below(5) as u64)).await; }
            if r.chance(1, 20) { tokio::time::sleep(Duration::from_secs(30)).await; }
            reply(&mut r, &op)
        }
    })
}
fn reply(r: &mut Rng, op: &Op) -> Reply {
    let text = |r: &mut Rng| -> String { (*r.pick(&["", "x", "\r\n", "é😀", "\u{0}", "{\"a\":1}", "[", "__proto__", "then", "\u{2028}", "null", "\u{fffd}"])).to_string() };
    let json = |r: &mut Rng| -> serde_json::Value { match r.below(9) { 0 => json!(null), 1 => json!(1e308), 2 => json!("s"), 3 => json!({ "then": 1, "__proto__": { "x": 1 }, "toJSON": null }), 4 => json!([[[]]]), 5 => json!(u64::MAX), 6 => { let mut v = json!(1); for _ in 0..100 { v = json!([v]); } v } 7 => json!({ "": { "\u{0}": "\u{ffff}" } }), _ => json!([{ "a": 1, "a b": null }]) } };
    if r.chance(1, 5) { let m = text(r); return err_reply(op, &m); }
    match op {
        Op::Fetch(_) | Op::BindFetch(..) => {
            let n = r.below(4);
            let headers: Vec<(String, String)> = (0..n).map(|_| (r.pick(&["a", "", "\r\n", "é", "content-type", "content-length", "set-cookie", "__proto__", "constructor", "x y"]).to_string(), text(r))).collect();
            let status = *r.pick(&[200u16, 0, 1, 99, 101, 204, 304, 404, 500, 599, 600, 999, 65535]);
            let body = match r.below(5) {
                0 => ResponseBody::None,
                1 => { let n = r.below(100_000); ResponseBody::Bytes(r.bytes(n).into()) }
                2 => ResponseBody::Bytes(Vec::new().into()),
                _ => {
                    let (tx, rx) = tokio::sync::mpsc::channel(2);
                    let mut q = r.fork();
                    tokio::spawn(async move { for _ in 0..q.below(20) { let n = q.below(3000); let it = if q.chance(1, 12) { Err("torn".to_string()) } else { Ok(bytes::Bytes::from(q.bytes(n))) }; if tx.send(it).await.is_err() { break; } if q.chance(1, 5) { tokio::time::sleep(Duration::from_millis(2)).await; } } });
                    ResponseBody::Stream(rx)
                }
            };
            Reply::Http(Ok(HttpResponse { status, headers, body }))
        }
        Op::Kv(..) => { let s = text(r); let j = json(r); Reply::Kv(match r.below(4) { 0 => KvResult::Ok, 1 => KvResult::Value(Some(j)), 2 => KvResult::Value(None), _ => KvResult::Keys(vec![s.clone(), s]) }) }
        Op::Storage(..) => { let n = r.below(5000); Reply::Storage(match r.below(5) { 0 => StorageResult::Body(Some(r.bytes(n))), 1 => StorageResult::Body(None), 2 => StorageResult::Head { size: u64::MAX, etag: None }, 3 => StorageResult::List { keys: vec!["k".into(), String::new()], truncated: true }, _ => StorageResult::Error("e".into()) }) }
        Op::Db(..) => { let j = json(r); let t = text(r); Reply::Db(match r.below(3) { 0 => DatabaseResult::Rows(j.to_string()), 1 => DatabaseResult::Rows(t), _ => DatabaseResult::Error("no".into()) }) }
        _ => err_reply(op, "no"),
    }
}
fn allowed(o: &Out) -> bool { !o.hung && !o.panicked && !matches!(o.exec, Err(TerminationReason::Terminated)) }

const PLAIN: &str = "let n = 0; addEventListener('fetch', e => e.respondWith((async () => { const t = await e.request.text(); await new Promise(f => setTimeout(f, 1)); const h = [...new Uint8Array(await crypto.subtle.digest('SHA-256', new TextEncoder().encode(t)))].map(b => b.toString(16).padStart(2, '0')).join(''); return Response.json({ t, h, n: ++n, c: structuredClone({ a: [1, { b: 2 }] }), u: new URL('/x?y=1', 'http://h/').href, s: typeof SharedArrayBuffer + typeof Atomics, o: Object.keys({}).length, p: Object.getOwnPropertyNames(Object.prototype).length }, { headers: { 'x-a': 'b' } }); })()));";
/// What PLAIN answered before anything hostile ran, without the count.
type Baseline = Arc<Vec<serde_json::Value>>;
const TEXTS: [&str; 4] = ["", "abc", "wörld 😀", "0123456789012345678901234567890123456789012345678901234567890123456789"];
async fn baseline(how: &How) -> Baseline {
    let mut v = vec![];
    for (i, t) in TEXTS.iter().enumerate() { let o = how.run(&Pin::new("base", &format!("b{i}")), Script::new(PLAIN), Mock::none(), ev_fetch(post("http://h/", *t))).await; let mut j = o.json(); assert!(j["t"] == json!(t), "baseline {} {}", o.brief(), o.text()); j["n"] = json!(0); v.push(j); }
    Arc::new(v)
}
async fn plain(rep: &Report, how: &How, pin: &Pin, base: &Baseline, what: &str, k: usize, sig: &str) {
    let k = k % TEXTS.len();
    let o = how.run(pin, Script::new(PLAIN), Mock::none(), ev_fetch(post("http://h/", TEXTS[k]))).await;
    let mut got = o.json();
    if got["n"].is_u64() { got["n"] = json!(0); }
    rep.check(o.ok() && o.status() == 200 && got == base[k] && o.resp.as_ref().is_some_and(|r| r.header("x-a") == ["b"]), sig, || format!("after {what}: {} {}", o.brief(), o.text()));
    rep.count("requests_after", 1);
}

async fn one_hostile(rep: Report, mut r: Rng, how: How, i: usize, seed: u64, base: Baseline) {
    let level = r.below(3);
    let style = r.below(7);
    let s = r.next() as u32;
    let steps = r.range(20, 400);
    let call = format!("fuzz({s}, {steps}, {level})");
    let code = match style {
        0 => format!("{FUZZ}\naddEventListener('fetch', e => e.respondWith((async () => {{ keep(e); keep(e.request); keep(env); const x = await {call}; return new P.Response(P.JSON_stringify(x)); }})()));"),
        1 => format!("{FUZZ}\naddEventListener('fetch', e => {{ keep(e); keep(e.request); e.respondWith({call}.then(() => nasty())); }});"),
        2 => format!("{FUZZ}\naddEventListener('fetch', e => {{ keep(e); e.waitUntil({call}); e.respondWith(new P.Response(nasty(), {{ status: nasty(), headers: nasty() }})); }});"),
        3 => format!("{FUZZ}\nfor (let i = 0; i < 20; i++) pollute(); {call}; addEventListener('fetch', e => e.respondWith((async () => {{ await {call}; return new P.Response('x'); }})()));"),
        4 => format!("{FUZZ}\nglobalThis.default = {{ async fetch(r, env, ctx) {{ keep(r); keep(ctx); keep(env); await {call}; return nasty(); }}, async task(e, env, ctx) {{ keep(e); await {call}; return nasty(); }} }};"),
        5 => format!("{FUZZ}\naddEventListener('fetch', e => e.respondWith(new P.Response(new ReadableStream({{ n: 0, async pull(c) {{ keep(c); await {call}; c.enqueue(nasty()); if (++this.n > 2) c.close(); }} }}))));"),
        _ => format!("{FUZZ}\nseed = {s}; for (const k of P.Reflect_ownKeys(globalThis)) if (!rnd(4)) try {{ rnd(2) ? globalThis[k] = nasty() : delete globalThis[k]; }} catch {{ }} addEventListener('fetch', e => e.respondWith((async () => {{ await {call}; return new P.Response('x'); }})()));"),
    };
    let env = std::collections::HashMap::from([("A".to_string(), "1".to_string())]);
    let ops = hostile_ops(seed);
    let (own, plainpin) = if how.pool { (Pin::new("o", &format!("h{i}")), Pin::new("o", &format!("p{}", i % 3))) } else { (Pin::new("o", "h"), Pin::new("o", "p")) };
    let what = format!("hostile {} style {style} level {level} {call}", how.mode);
    rep.case(what.clone());
    if std::env::var("OWH_TRACE").is_ok() { eprintln!("{i}: {what}"); }
    for round in 0..r.range(1, 2) {
        let ev = if style == 4 && r.chance(1, 3) { ev_task("t", Some(json!({ "a": 1 })), None, 1) } else {
            let mut q = post("http://h/p?q=1", r.bytes(50));
            if r.chance(1, 3) { let (tx, rx) = tokio::sync::mpsc::channel(4); q.body = RequestBody::Stream(rx); let b = r.bytes(300); tokio::spawn(async move { for c in b.chunks(60) { let _ = tx.send(Ok(bytes::Bytes::copy_from_slice(c))).await; } }); }
            ev_fetch(q)
        };
        let mut cl = Client::default();
        if r.chance(1, 8) { cl.disconnect_after = Some(0); }
        let t0 = std::time::Instant::now();
        let o = how.run_client(&own, Script::with_bindings(code.clone(), Some(env.clone()), binds()), ops.clone(), ev, cl).await;
        rep.check(allowed(&o), "outcome", || format!("{what} round {round}: {} after {:?}", o.brief(), t0.elapsed()));
        rep.count(match &o.exec { Ok(()) => "ended_ok", Err(TerminationReason::CpuTimeLimit) => "ended_cpu", Err(TerminationReason::WallClockTimeout) => "ended_wall", Err(TerminationReason::MemoryLimit) => "ended_memory", Err(TerminationReason::Exception(_)) => "ended_exception", _ => "ended_other" }, 1);
        if style == 0 { if let Some(n) = o.json()["calls"].as_u64() { rep.count("calls", n); rep.max("functions_reached", o.json()["reach"].as_u64().unwrap_or(0)); } }
    }
    plain(&rep, &how, &plainpin, &base, &what, i, "after").await;
}
/// Threads with a pool (or workers) of their own, each running cases until the budget or their share is used up.
pub fn how_threads(c: &mut Ctx, n: usize, f: impl Fn(Rng, usize) -> Job + Sync) {
    let lanes: Vec<(Rng, usize)> = (0..6).map(|k| (c.rng.fork(), k)).collect();
    let (t0, budget, f) = (c.t0, c.budget, &f);
    // developer options: run one case only, tell which cases are under way
    let (only, trace) = (c.opt("--only").and_then(|s| s.parse::<usize>().ok()), std::env::var("OWH_TRACE").is_ok());
    std::thread::scope(|t| for (mut r, k) in lanes { t.spawn(move || on_local(async { for j in 0..n.div_ceil(6) { if t0.elapsed() > budget { break; } let (r, i) = (r.fork(), j * 6 + k); if only.is_some_and(|o| o != i) { continue; } if trace { eprintln!("+{i}"); } f(r, i)().await; if trace { eprintln!("-{i}"); } } })); });
    c.rep.drain_panics();
}
pub fn hostile(c: &mut Ctx) {
    let how = How::of(c, |l| { l.max_cpu_time_ms = 1500; l.max_wall_clock_time_ms = 1500; l.heap_max_mb = 96; });
    let (rep, n, seed) = (c.rep.clone(), c.n(300, 30_000), c.seed);
    let base = on_local(baseline(&how));
    how_threads(c, n, |r, i| { let (rep, how, base) = (rep.clone(), how.clone(), base.clone()); Box::new(move || one_hostile(rep, r, how, i, seed + i as u64, base).boxed_local()) });
}

// ---------------------------------------------------------------- C21
/// What a script can see of everything it can reach; also the fingerprint of its context.
pub const LOOK: &str = r#"
const R = { ownKeys: Reflect.ownKeys, desc: Object.getOwnPropertyDescriptor, proto: Object.getPrototypeOf, src: Function.prototype.toString, call: Function.prototype.call.bind(Function.prototype.call), ext: Object.isExtensible, tag: Function.prototype.call.bind(Object.prototype.toString), Set, String, sort: Function.prototype.call.bind(Array.prototype.sort), join: Function.prototype.call.bind(Array.prototype.join), slice: Function.prototype.call.bind(String.prototype.slice), includes: Function.prototype.call.bind(String.prototype.includes), Promise, setTimeout, queueMicrotask, Function, eval, WebAssembly };
function look(withSource) {
  const lines = [], secrets = [], shared = [];
  const ids = new Map(), queue = [];
  const ref = (v, path) => {
    if (v === null || (typeof v !== 'object' && typeof v !== 'function')) {
      const t = typeof v === 'symbol' ? 'symbol' : R.String(v);
      if (R.includes(t, 'SEC' + 'RET')) secrets.push(path + '=' + t);
      return typeof v + ':' + R.slice(t, 0, 80);
    }
    if (!ids.has(v)) { ids.set(v, path); queue.push([v, path]); }
    return '@' + ids.get(v);
  };
  ref(globalThis, '');
  // what only syntax leads to
  ref(R.proto(function* () {}), 'G'); ref(R.proto(async function () {}), 'A'); ref(R.proto(async function* () {}), 'AG');
  ref(R.proto(R.proto([][Symbol.iterator]())), 'IT'); ref(R.proto(''[Symbol.iterator]()), 'SI'); ref(R.proto(new Map()[Symbol.iterator]()), 'MI'); ref(R.proto(/x/[Symbol.matchAll]('')), 'RI');
  while (queue.length) {
    const [o, path] = queue.shift();
    const tag = (() => { try { return R.tag(o); } catch { return '?'; } })();
    let line = path + ' ' + typeof o + ' ' + tag + ' ' + R.ext(o) + ' ^' + ref(R.proto(o), path + '^');
    if (typeof o === 'function') { const s = R.call(R.src, o); if (R.includes(s, 'SEC' + 'RET')) secrets.push(path + '()'); line += ' ' + (withSource === 2 ? s : withSource ? s.length + ':' + R.slice(s, 0, 60).replace(/\s+/g, ' ') : ''); if (o.name === 'SharedArrayBuffer') shared.push(path); }
    if (tag === '[object SharedArrayBuffer]' || tag === '[object Atomics]') shared.push(path);
    const ks = R.ownKeys(o);
    for (const k of ks) {
      const d = R.desc(o, k), p = path + '.' + R.String(k);
      if (R.includes(R.String(k), 'SEC' + 'RET')) secrets.push(p);
      if (!d) continue;
      line += '|' + R.String(k) + ' ' + (d.writable ? 'w' : '') + (d.enumerable ? 'e' : '') + (d.configurable ? 'c' : '');
      if ('value' in d) line += ref(d.value, p); else line += ' get ' + ref(d.get, p + '<get>') + ' set ' + ref(d.set, p + '<set>');
    }
    lines.push(line);
  }
  return { lines, secrets, shared };
}
function forbidden() {
  const bad = [];
  const no = (what, f) => { let v; try { v = f(); } catch { return; } if (v !== undefined && v !== false && v !== 'undefined') bad.push(what); };
  for (const n of ['SharedArrayBuffer', 'Atomics', 'process', 'require', 'module', 'exports', 'Deno', 'Bun', 'importScripts', 'gc', 'd8', 'load', 'read', 'print', 'quit', 'version', '__dirname', 'Buffer', 'ShadowRealm', 'Worker', 'XMLHttpRequest', 'indexedDB']) {
    no('in ' + n, () => n in globalThis);
    no('eval ' + n, () => (0, R.eval)('typeof ' + n));
    no('direct eval ' + n, () => eval('typeof ' + n));
    no('Function ' + n, () => new R.Function('return typeof ' + n)());
    no('sloppy this ' + n, () => (function () { return typeof this === 'undefined' ? undefined : this[n]; })());
    no('async fn ' + n, () => { const g = R.proto(function* () {}).constructor; return g('yield typeof ' + n)().next().value; });
  }
  no('natives syntax', () => (0, R.eval)('%GetOptimizationStatus'));
  return bad;
}
"#;
const TAMPER: &str = r#"
const SELF = ['SECRET-ID'];
function tamper(how) {
  const protos = [Object.prototype, Array.prototype, Function.prototype, String.prototype, Number.prototype, Boolean.prototype, Symbol.prototype, Promise.prototype, Promise, Map.prototype, Set.prototype, WeakMap.prototype, Uint8Array.prototype, Object.getPrototypeOf(Uint8Array.prototype), Object.getPrototypeOf(Uint8Array), ArrayBuffer.prototype, ArrayBuffer, DataView.prototype, Error.prototype, Error, TypeError.prototype, JSON, Math, Object, Array, String, Number, Symbol, Reflect, Date, Date.prototype, RegExp, RegExp.prototype, Object.getPrototypeOf(function* () {}), Object.getPrototypeOf(async function () {}), Object.getPrototypeOf(Object.getPrototypeOf([][Symbol.iterator]())), globalThis, Response, Response.prototype, Request.prototype, Headers.prototype, ReadableStream.prototype, URL.prototype, URLSearchParams.prototype, Blob.prototype, FormData.prototype, TextEncoder.prototype, TextDecoder.prototype, AbortSignal.prototype, crypto, crypto.subtle, console, performance, WebAssembly, WebAssembly.Memory.prototype, Intl, Intl.DateTimeFormat.prototype];
  const keep = new Set([globalThis]);
  const each = f => { const t = []; for (const o of protos) for (const k of Reflect.ownKeys(o)) if (!(o === globalThis && (k === 'globalThis' || /^(Reflect|Object|Response|Symbol)$/.test(String(k))))) t.push([o, k]); for (const [o, k] of t) { try { f(o, k); } catch { } } };
  switch (how) {
    case 'add': for (const o of protos) for (const n of ['SECRET', 'then', 'status', 'headers', 'body', 'url', 'method', '_responseStreamId', 'toJSON', 'waitUntil', 'x', 0]) { try { if (!(n in o)) Object.defineProperty(o, n, { get() { return SELF; }, set() {}, configurable: true, enumerable: true }); } catch { } } break;
    case 'wrap': each((o, k) => { const f = o[k]; if (typeof f === 'function' && k !== 'constructor') o[k] = function (...a) { SELF.push(this, a); return Reflect.apply(f, this, a); }; }); break;
    case 'replace': each((o, k) => { if (typeof o[k] === 'function') o[k] = () => SELF; else o[k] = SELF; }); break;
    case 'delete': each((o, k) => { delete o[k]; }); break;
    case 'freeze': for (const o of protos) { try { Object.freeze(o); } catch { } } break;
    case 'reproto': for (const o of protos) { try { Object.setPrototypeOf(o, SELF); } catch { } } break;
    case 'getter': each((o, k) => { const v = o[k]; Object.defineProperty(o, k, { get() { return v; }, set() {}, configurable: false }); }); break;
    case 'misc': Error.prepareStackTrace = () => SELF; Error.stackTraceLimit = 0; 'SECRET'.match(/SEC(.*)/); Object.defineProperty(Symbol, 'SECRET', { value: Symbol.for('SECRET') }); Array.prototype[Symbol.isConcatSpreadable] = true; Promise.prototype.constructor = function () { return SELF; }; Object.defineProperty(Array, Symbol.species, { get() { return function () { return SELF; }; } }); Object.defineProperty(Promise, Symbol.species, { get() { return function () { throw SELF; }; } }); break;
    case 'classes': for (const k of ['Response', 'Request', 'Headers', 'ReadableStream', 'URL', 'URLSearchParams', 'FormData', 'Blob', 'TextEncoder', 'TextDecoder', 'Promise', 'Map', 'Uint8Array']) { try { globalThis[k] = class extends globalThis[k] { SECRET() { return SELF; } }; } catch { } } break;
    case 'natives': for (const k of Reflect.ownKeys(globalThis)) if (/^__/.test(String(k))) { const f = globalThis[k]; try { globalThis[k] = typeof f === 'function' ? (...a) => { SELF.push(a); return f(...a); } : SELF; } catch { } } break;
  }
}
"#;
const HOWS: &[&str] = &["add", "wrap", "replace", "delete", "freeze", "reproto", "getter", "misc", "classes", "natives", "fuzz"];
/// Reports from every place a script can run at: the top level, handlers, timers, microtasks, background work.
fn looker() -> String {
    format!("{LOOK}\nconst at = {{ top: forbidden() }}; R.queueMicrotask(() => {{ at.micro0 = forbidden(); }}); let n = 0; addEventListener('fetch', e => {{ at.handler = forbidden(); n++; e.waitUntil((async () => {{ await new R.Promise(f => R.setTimeout(f, 1)); at['bg' + n] = forbidden(); }})()); \
      e.respondWith((async () => {{ await null; at.micro = forbidden(); await new R.Promise(f => R.setTimeout(() => {{ at.timer = forbidden(); f(); }}, 1)); let imp = 'none'; try {{ await import('node:fs'); imp = 'import'; }} catch {{ }} const l = look(true); return new Response(JSON.stringify({{ at, imp, n, secrets: l.secrets, shared: l.shared, lines: l.lines }})); }})()); }});")
}
/// Everything but what legitimately differs between two requests of a context.
fn print_of(o: &Out) -> (Vec<String>, serde_json::Value) {
    let mut j = o.json();
    let lines = j["lines"].as_array().map(|a| a.iter().map(|l| l.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
    if let Some(m) = j.as_object_mut() { m.remove("lines"); }
    (lines, j)
}
fn look_at(rep: &Report, o: &Out, base: &[String], what: &str, fresh: bool, secret_ok: bool) {
    let (lines, j) = print_of(o);
    if !rep.check(o.ok() && o.status() == 200 && !lines.is_empty(), "look", || format!("{what}: {}", cut(&o.brief(), 400))) { return; }
    let mut bad: Vec<String> = vec![];
    for (k, v) in j["at"].as_object().into_iter().flatten() { if v.as_array().is_none_or(|a| !a.is_empty()) { bad.push(format!("{k}: {v}")); } }
    rep.check(bad.is_empty() && j["imp"] == "none", "forbidden", || format!("{what}: {bad:?} {}", j["imp"]));
    rep.check(j["shared"] == json!([]), "shared", || format!("{what}: {}", j["shared"]));
    rep.check(secret_ok || j["secrets"] == json!([]), "secret", || format!("{what} sees {}", cut(&j["secrets"].to_string(), 300)));
    rep.count("objects_walked", lines.len() as u64);
    if fresh && !base.is_empty() {
        let d = lines.iter().zip(base).find(|(a, b)| a != b).map(|(a, b)| { let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(40); let g = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.min(s.len())..(i + 160).min(s.len())]).into_owned(); format!("{} … {:?} instead of {:?}", a.split(' ').next().unwrap_or(""), g(a), g(b)) });
        rep.check(d.is_none() && lines.len() == base.len(), "fingerprint", || format!("{what}: {} objects instead of {}; {}", lines.len(), base.len(), d.unwrap_or_default()));
        rep.count("fingerprints", 1);
    }
}
fn cut(s: &str, n: usize) -> String { s.chars().take(n).collect() }
/// Calls every function of the host with guessed identifiers, and reports what it got.
const GUESS: &str = r#"
const got = []; const note = v => { try { if (v instanceof Uint8Array) v = new TextDecoder().decode(v); got.push(typeof v === 'object' ? JSON.stringify(v, (k, x) => x instanceof Uint8Array ? new TextDecoder().decode(x) : x) : String(v)); } catch { } };
addEventListener('fetch', e => e.respondWith((async () => {
  const max = 60; const t = Date.now(); let calls = 0;
  while (Date.now() - t < 120) {
    for (let id = 0; id < max; id++) {
      for (const f of [() => __nativeStreamRead(id, note), () => __responseStreamWrite(id, new TextEncoder().encode('FORGED')), () => __responseStreamIsClosed(id), () => __responseStreamEnd(id, 'FORGED'), () => __nativeStreamCancel(id), () => __nativeWebSocketSend(id, 'FORGED', false), () => __nativeWebSocketSend(id, 'FORGED'), () => __nativeWebSocketClose(id, 1000, 'FORGED'), () => __nativeWebSocketAccept(id, note, note, note, note), () => __nativeWebSocketAccept(id, { onmessage: note }), () => __nativeClearTimer(id), () => __executeTimer(id), () => clearTimeout(id), () => note(__createNativeStream(id).getReader().read().then(note))]) { try { const r = f(); calls++; if (r && r.then) r.then(note, () => {}); else note(r); } catch { } }
      if (id % 20 === 0) await new Promise(f => setTimeout(f, 1));
    }
  }
  await new Promise(f => setTimeout(f, 5));
  return new Response(JSON.stringify({ calls, got: got.filter(x => /SECRET/.test(x)).slice(0, 5), n: got.length }));
})()));"#;
/// A worker whose streams, timers and operations are under way while others guess.
const VICTIM: &str = r#"
addEventListener('fetch', e => e.respondWith((async () => {
  const up = e.request.text(); const f = fetch('http://up/SECRET-up?ms=4').then(r => r.text()); const ticks = [];
  for (let i = 0; i < 8; i++) ticks.push(new Promise(f => setTimeout(() => f(i), 5 * i + 3)));
  const t = (await Promise.all(ticks)).join();
  const u = await up, g = await f; let i = 0;
  return new Response(new ReadableStream({ async pull(c) { await new Promise(f => setTimeout(f, 3)); if (i < 6) c.enqueue(new TextEncoder().encode('SECRET' + i++ + ';')); else { c.enqueue(new TextEncoder().encode(JSON.stringify([t, u, g]))); c.close(); } } }));
})()));"#;
async fn guessing(rep: Report, mut r: Rng, how: How, i: usize) {
    let what = format!("guess {} {i}", how.mode);
    rep.case(what.clone());
    let mut jobs: Vec<futures::future::LocalBoxFuture<()>> = vec![];
    let ops = Mock::new(|_, op| async move { match &op { Op::Fetch(q) => { tokio::time::sleep(Duration::from_millis(20)).await; Reply::Http(Ok(text_response(200, format!("SECRET-reply {}", q.url)))) } _ => err_reply(&op, "no") } });
    for k in 0..r.range(1, 2) {
        let (rep, how, ops, what, d) = (rep.clone(), how.clone(), ops.clone(), what.clone(), r.range(0, 30) as u64);
        jobs.push(Box::pin(async move {
            tokio::time::sleep(Duration::from_millis(d)).await;
            let mut q = post("http://h/", vec![]);
            let (tx, rx) = tokio::sync::mpsc::channel(2);
            q.body = RequestBody::Stream(rx);
            tokio::spawn(async move { for n in 0..10 { tokio::time::sleep(Duration::from_millis(4)).await; if tx.send(Ok(bytes::Bytes::from(format!("SECRET-part{n};")))).await.is_err() { break; } } });
            let o = how.run(&Pin::new("o", &format!("v{k}")), Script::new(VICTIM), ops, ev_fetch(q)).await;
            let parts: String = (0..10).map(|n| format!("SECRET-part{n};")).collect();
            let want = format!("{}{}", (0..6).map(|n| format!("SECRET{n};")).collect::<String>(), json!(["0,1,2,3,4,5,6,7", parts, "SECRET-reply http://up/SECRET-up?ms=4"]));
            rep.check(o.ok() && o.text() == want && o.resp.as_ref().and_then(|r| r.error()).is_none(), "victim", || format!("{what}: {} instead of {want}", o.brief()));
            rep.count("victims", 1);
        }));
    }
    for k in 0..r.range(1, 2) {
        let (rep, how, ops, what) = (rep.clone(), how.clone(), ops.clone(), what.clone());
        jobs.push(Box::pin(async move {
            let o = how.run(&Pin::new("o", &format!("g{k}")), Script::new(GUESS), ops, ev_fetch(get("http://h/"))).await;
            let j = o.json();
            // a script may well disturb itself
            rep.check(!o.hung && !o.panicked, "guess-end", || format!("{what}: {}", o.brief()));
            rep.check(!o.ok() || j["got"] == json!([]), "guess-got", || format!("{what}: {j}"));
            rep.count("guesses", j["calls"].as_u64().unwrap_or(0));
        }));
    }
    if how.pool { futures::future::join_all(jobs).await; } else { for j in jobs { j.await; } }
}
async fn confined(rep: Report, mut r: Rng, how: How, i: usize, base: Arc<Vec<String>>) {
    let how_ = *r.pick(HOWS);
    let places = ["top", "handler", "timer", "background"];
    let place = *r.pick(&places);
    let s = r.next() as u32;
    let act = if how_ == "fuzz" { format!("seed = {s}; for (let i = 0; i < 60; i++) pollute();") } else { format!("tamper({how_:?});") };
    let pre = if how_ == "fuzz" { format!("{FUZZ}\n{TAMPER}") } else { TAMPER.to_string() };
    let reply = "new KR('done')";
    let code = match place {
        "top" => format!("{pre}\nconst KR = Response; {act} addEventListener('fetch', e => e.respondWith({reply}));"),
        "handler" => format!("{pre}\nconst KR = Response; addEventListener('fetch', e => {{ e.respondWith({reply}); {act} }});"),
        "timer" => format!("{pre}\nconst KR = Response; addEventListener('fetch', e => {{ e.respondWith(new Promise(f => setTimeout(() => {{ try {{ {act} }} finally {{ f({reply}); }} }}, 1))); }});"),
        _ => format!("{pre}\nconst KR = Response; addEventListener('fetch', e => {{ e.waitUntil((async () => {{ await null; {act} }})()); e.respondWith({reply}); }});"),
    };
    let env = std::collections::HashMap::from([("KEY".to_string(), "SECRET-env".to_string())]);
    let what = format!("confine {} {how_} at {place} {}", how.mode, if how_ == "fuzz" { s } else { 0 });
    rep.case(what.clone());
    let (mut lim, attacker) = (how.clone(), Pin::new("o", &format!("a{i}")));
    lim.lim.max_wall_clock_time_ms = 1000;
    for _ in 0..r.range(1, 2) {
        let o = lim.run(&attacker, Script::with_bindings(code.clone(), Some(env.clone()), binds()), Mock::none(), ev_fetch(post("http://h/SECRET-url", "SECRET-body"))).await;
        rep.check(!o.hung && !o.panicked, "attacker", || format!("{what}: {}", o.brief()));
        rep.count("attacks", 1);
    }
    // a context of its own, and (in a pool) one which was there before
    for (w, fresh) in [(format!("f{i}"), true), (format!("k{}", i % 2), false)] {
        let o = how.run(&Pin::new("o", &w), Script::new(looker()), Mock::none(), ev_fetch(get("http://h/"))).await;
        look_at(&rep, &o, &base, &format!("after {what}, worker {w}"), fresh || !how.pool, false);
    }
}
pub fn confine(c: &mut Ctx) {
    let how = How::of(c, |l| { l.max_cpu_time_ms = 3000; l.max_wall_clock_time_ms = 6000; l.heap_max_mb = 128; });
    let (rep, n) = (c.rep.clone(), c.n(180, 20_000));
    let base = on_local(async {
        let o = how.run(&Pin::new("o", "base"), Script::new(looker()), Mock::none(), ev_fetch(get("http://h/"))).await;
        look_at(&rep, &o, &[], "a first worker", true, false);
        Arc::new(print_of(&o).0)
    });
    rep.max("objects_reached", base.len() as u64);
    // known to get around it: the buffer of a shared WebAssembly.Memory
    let o = on_local(how.run(&Pin::new("o", "wasm"), Script::new("addEventListener('fetch', e => { let s = 'none'; try { const b = new WebAssembly.Memory({ initial: 1, maximum: 2, shared: true }).buffer; s = Object.prototype.toString.call(b) + ' ' + typeof b.constructor; } catch (x) { } e.respondWith(new Response(s)); });"), Mock::none(), ev_fetch(get("http://h/"))));
    rep.case("wasm-shared-memory".to_string());
    rep.check(o.ok() && !o.text().contains("SharedArrayBuffer"), "shared:wasm-memory", || format!("WebAssembly.Memory with shared: true: {}", o.text()));
    how_threads(c, n, |mut r, i| { let (rep, how, base) = (rep.clone(), how.clone(), base.clone()); if i % 4 == 3 { Box::new(move || guessing(rep, r, how, i).boxed_local()) } else { let r2 = r.fork(); Box::new(move || confined(rep, r2, how, i, base).boxed_local()) } });
}
