//! C09: the handler receives exactly the client's request.  C10: every operation arrives once,
//! as it was called, and its result settles its own promise once.
use crate::kit::*;
use futures::FutureExt;
use openworkers_core::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

const MS: fn(u64) -> Duration = Duration::from_millis;
pub fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { o.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' }); }
    }
    o
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let mut o = vec![];
    let (mut n, mut k) = (0u32, 0);
    for c in s.bytes().filter(|c| *c != b'=') {
        let v = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'+' => 62, b'/' => 63, _ => return None };
        n = n << 6 | v as u32; k += 6;
        if k >= 8 { k -= 8; o.push((n >> k) as u8); n &= (1 << k) - 1; }
    }
    Some(o)
}
fn is_pool(c: &Ctx) -> bool { c.args.iter().any(|a| a == "pool") }

pub const JS: &str = r#"
const nap = ms => new Promise(f => setTimeout(f, ms));
const b64 = x => { const u = new Uint8Array(x); let s = ''; for (let i = 0; i < u.length; i++) s += String.fromCharCode(u[i]); return btoa(s); };
const unb64 = s => Uint8Array.from(atob(s), c => c.charCodeAt(0));
const errText = e => String(e && e.message !== undefined ? e.message : e);
const all = async body => { if (!body) return new Uint8Array(0); const r = body.getReader(); const out = []; for (;;) { const { value, done } = await r.read(); if (done) break; for (const x of value) out.push(x); } return new Uint8Array(out); };
"#;
const ECHO: &str = r#"
const styles = {
  text: async r => ({ t: await r.text(), used: r.bodyUsed }),
  bytes: async r => ({ b: b64(await r.arrayBuffer()), used: r.bodyUsed }),
  json: async r => { try { return { j: await r.json() }; } catch (e) { if (e instanceof SyntaxError) return { syntax: true }; throw e; } },
  form: async r => ({ f: [...await r.formData()] }),
  reader: async r => ({ b: b64(await all(r.body)) }),
  slowReader: async r => { if (!r.body) return { b: '' }; const rd = r.body.getReader(); const out = []; for (;;) { await nap(1); const { value, done } = await rd.read(); if (done) break; for (const x of value) out.push(x); } return { b: b64(out) }; },
  ahead: async r => { if (!r.body) return { b: '' }; const rd = r.body.getReader(); const out = []; for (;;) { const ps = [rd.read(), rd.read(), rd.read()]; let end = false; for (const p of ps) { const { value, done } = await p; if (done) end = true; else for (const x of value) out.push(x); } if (end) break; } return { b: b64(out) }; },
  wait: async r => { await nap(8); return { b: b64(await r.arrayBuffer()) }; },
  cloneBoth: async r => { const c = r.clone(); const [x, y] = await Promise.all([r.arrayBuffer(), c.arrayBuffer()]); return { b: b64(x), b2: b64(y), m: c.method, u: c.url, h: [...c.headers] }; },
  cloneSeq: async r => { const c = r.clone(); const y = await c.arrayBuffer(); const x = await r.arrayBuffer(); return { b: b64(x), b2: b64(y) }; },
  cloneOne: async r => { const c = r.clone(); return { b: b64(await c.arrayBuffer()) }; },
  copy: async r => { const c = new Request(r); return { b: b64(await c.arrayBuffer()), m: c.method, u: c.url, h: [...c.headers] }; },
  override: async r => { const c = new Request(r, { method: 'PATCH', headers: { 'x-o': '1' } }); return { b: b64(await c.arrayBuffer()), om: c.method, oh: [...c.headers] }; },
  tee: async r => { if (!r.body) return { b: '' }; const [x, y] = r.body.tee(); const [a, b] = await Promise.all([all(x), all(y)]); return { b: b64(a), b2: b64(b) }; },
  never: async r => ({}),
  partial: async r => { if (!r.body) return { p: '' }; const rd = r.body.getReader(); const { value, done } = await rd.read(); await rd.cancel('enough'); return { p: b64(done ? [] : value) }; },
  partialKeep: async r => { if (!r.body) return { p: '' }; const rd = r.body.getReader(); const { value, done } = await rd.read(); return { p: b64(done ? [] : value) }; },
  cancel: async r => { if (r.body) await r.body.cancel('no'); return {}; },
  twice: async r => { const t = await r.text(); let again; try { await r.text(); } catch (e) { again = e instanceof TypeError; } return { t, again: r.body === null ? true : again, used: r.bodyUsed }; },
  forward: async (r, id) => { const u = await fetch('http://up/' + id, { method: 'POST', body: r.body, headers: { 'x-f': 'f' } }); return { s: u.status, ut: await u.text() }; },
  forwardBuf: async (r, id) => { const u = await fetch('http://up/' + id, { method: 'POST', body: await r.arrayBuffer(), headers: { 'x-f': 'f' } }); return { s: u.status, ut: await u.text() }; },
  forwardReq: async r => { const u = await fetch(r); return { s: u.status, ut: await u.text() }; },
  forwardNew: async (r, id) => { const u = await fetch(new Request('http://up/' + id, { method: r.method, headers: r.headers, body: r.body })); return { s: u.status, ut: await u.text() }; },
  forwardWorker: async r => { const u = await env.W.fetch(r); return { s: u.status, ut: await u.text() }; },
  forwardAssets: async r => { const u = await env.A.fetch(r); return { s: u.status, ut: await u.text() }; },
};
function echo(r) {
  const style = r.headers.get('X-Style'), id = r.headers.get('x-iD');
  if (style === 'echo') return new Response(r.body, { headers: { 'x-m': r.method } });
  if (style === 'echoPull') { const rd = r.body && r.body.getReader(); return new Response(rd && new ReadableStream({ async pull(c) { const { value, done } = await rd.read(); if (done) c.close(); else c.enqueue(value); } })); }
  if (style === 'echoBuf') return r.arrayBuffer().then(b => new Response(b));
  return undefined;
}
async function answer(e, r) {
  const direct = echo(r);
  if (direct) return direct;
  const style = r.headers.get('X-Style'), id = r.headers.get('x-iD');
  const head = { url: r.url, method: r.method, headers: [...r.headers], isReq: r instanceof Request };
  if (style === 'late') {
    e.waitUntil((async () => { let t; try { t = await r.arrayBuffer(); } catch (x) { t = 'ERR ' + errText(x); } await fetch('http://late/' + id, { method: 'PUT', body: t }); })());
    return Response.json(head);
  }
  try { head.got = await styles[style](r, id); } catch (x) { head.err = errText(x); }
  return Response.json(head);
}
"#;
const STYLES: &[&str] = &["text", "bytes", "json", "form", "reader", "slowReader", "ahead", "wait", "cloneBoth", "cloneSeq", "cloneOne", "copy", "override", "tee", "never", "partial", "partialKeep", "cancel", "twice",
    "forward", "forwardBuf", "forwardReq", "forwardNew", "forwardWorker", "forwardAssets", "echo", "echoPull", "echoBuf", "late"];

#[derive(Clone, Debug)]
enum Up { None, Bytes(Vec<u8>), Stream { chunks: Vec<Vec<u8>>, naps: Vec<u64>, fail: Option<String>, cap: usize, stall: bool } }
impl Up {
    fn flat(&self) -> Vec<u8> { match self { Up::None => vec![], Up::Bytes(b) => b.clone(), Up::Stream { chunks, .. } => chunks.concat() } }
    fn fail(&self) -> Option<&str> { if let Up::Stream { fail, .. } = self { fail.as_deref() } else { None } }
    fn stalls(&self) -> bool { matches!(self, Up::Stream { stall: true, .. }) }
    fn brief(&self) -> String {
        match self { Up::None => "none".into(), Up::Bytes(b) => format!("{} bytes", b.len()),
            Up::Stream { chunks, fail, cap, stall, naps } => format!("stream of {:?} fail={fail:?} cap={cap} stall={stall} naps={:?}", chunks.iter().map(|c| c.len()).collect::<Vec<_>>(), &naps[..naps.len().min(5)]) }
    }
}
fn size(r: &mut Rng) -> usize { match r.below(12) { 0 => 0, 1 => 1, 2 => 65536, 3 => r.range(1000, 90_000), 4 => 16384, _ => r.range(1, 300) } }
pub fn text(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| match r.below(12) { 0 => 'é', 1 => '€', 2 => '𝄞', 3 => '\n', 4 => '"', 5 => '\\', 6 => '\u{2028}', 7 => '\u{7f}', _ => (b'a' + r.below(26) as u8) as char }).collect()
}
fn body(r: &mut Rng, style: &str) -> Up {
    let content = match style {
        "json" if r.chance(4, 5) => rand_json(r, 3).to_string().into_bytes(),
        "form" => (0..r.below(6)).map(|i| format!("k{i}={}", r.below(1000))).collect::<Vec<_>>().join("&").into_bytes(),
        "text" | "twice" if r.chance(3, 4) => { let n = r.range(0, 400); text(r, n).into_bytes() }
        _ => { let n = size(r); r.bytes(n) }
    };
    match r.below(5) {
        0 if style != "json" => Up::None,
        1 | 2 => Up::Bytes(content),
        _ => {
            let mut chunks = vec![];
            let mut rest = &content[..];
            while !rest.is_empty() && chunks.len() < 60 { let n = (match r.below(5) { 0 => 1, 1 => 7, 2 => 4096, _ => 1 + rest.len() / r.range(1, 9) }).min(rest.len()); chunks.push(rest[..n].to_vec()); rest = &rest[n..]; }
            if !rest.is_empty() { chunks.push(rest.to_vec()); }
            if r.chance(1, 6) { let at = r.below(chunks.len() + 1); chunks.insert(at, vec![]); }
            let slow = r.chance(1, 3);
            let naps = chunks.iter().map(|_| if slow { r.below(4) as u64 } else { 0 }).collect();
            let fail = r.chance(1, 5).then(|| format!("upload broke {}", r.below(1000)));
            let stall = fail.is_none() && matches!(style, "never" | "partial" | "partialKeep" | "cancel") && !chunks.is_empty() && !chunks[0].is_empty() && r.chance(1, 3);
            Up::Stream { chunks, naps, fail, cap: *r.pick(&[1, 1, 2, 16]), stall }
        }
    }
}
pub fn rand_json(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 6 } else { 8 }) {
        0 => Value::Null, 1 => json!(r.chance(1, 2)), 2 => json!(*r.pick(&[0i64, 1, -1, 255, 2147483647, -2147483648, 2147483648, 4294967295, 9007199254740991, -9007199254740991])),
        3 => json!(*r.pick(&[0.5, -1.25, 1e-7, 3.141592653589793, 1e21, -2.5e-300])),
        4 | 5 => { let n = r.below(20); json!(text(r, n)) }
        6 => Value::Array((0..r.below(5)).map(|_| rand_json(r, depth - 1)).collect()),
        _ => Value::Object((0..r.below(5)).map(|i| { let k = match r.below(8) { 0 => String::new(), 1 => "constructor".into(), 2 => "0".into(), 3 => "length".into(), 4 => text(r, 4), _ => format!("k{i}") }; (k, rand_json(r, depth - 1)) }).collect()),
    }
}
/// equal as JavaScript values
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x.as_f64() == y.as_f64(),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        _ => a == b,
    }
}
struct Sent { released: Arc<AtomicUsize>, all: Arc<AtomicUsize> }
fn request(method: HttpMethod, url: &str, headers: &BTreeMap<String, String>, up: &Up) -> (HttpRequest, Sent) {
    let sent = Sent { released: Default::default(), all: Default::default() };
    let body = match up {
        Up::None => RequestBody::None,
        Up::Bytes(b) => RequestBody::Bytes(b.clone().into()),
        Up::Stream { chunks, naps, fail, cap, stall } => {
            let (tx, rx) = tokio::sync::mpsc::channel(*cap);
            let (chunks, naps, fail, stall) = (chunks.clone(), naps.clone(), fail.clone(), *stall);
            let (rel, all) = (sent.released.clone(), sent.all.clone());
            tokio::spawn(async move {
                let mut whole = true;
                for (c, n) in chunks.into_iter().zip(naps) {
                    if n > 0 { tokio::time::sleep(MS(n)).await; }
                    if tx.send(Ok(c.into())).await.is_err() { whole = false; break; }
                }
                if whole { if let Some(f) = fail { let _ = tx.send(Err(f)).await; } else if stall { tx.closed().await; } all.store(1, Ordering::SeqCst); }
                drop(tx);
                rel.store(1, Ordering::SeqCst);
            });
            RequestBody::Stream(rx)
        }
    };
    if matches!(up, Up::Stream { .. }) {} else { sent.released.store(1, Ordering::SeqCst); }
    (HttpRequest { method, url: url.into(), headers: headers.clone().into_iter().collect(), body }, sent)
}
fn entries(v: &Value) -> BTreeMap<String, String> {
    v.as_array().map(|a| a.iter().filter_map(|p| Some((p[0].as_str()?.to_string(), p[1].as_str()?.to_string()))).collect()).unwrap_or_default()
}
fn lower(h: &BTreeMap<String, String>) -> BTreeMap<String, String> { h.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).collect() }
const METHODS: &[HttpMethod] = &[HttpMethod::Get, HttpMethod::Post, HttpMethod::Put, HttpMethod::Patch, HttpMethod::Delete, HttpMethod::Head, HttpMethod::Options];

pub type Job = Box<dyn FnOnce() -> futures::future::LocalBoxFuture<'static, ()> + Send>;
async fn one(rep: Report, mut r: Rng, mode: &'static str, pool: bool, wid: String, id: usize, lim: RuntimeLimits, es: bool, ops: Arc<Mock>) {
    let style = *r.pick(STYLES);
    let up = body(&mut r, style);
    let forward = style.starts_with("forward");
    let mut method = *r.pick(METHODS);
    if forward && !matches!(up, Up::None) && matches!(method, HttpMethod::Get | HttpMethod::Head) { method = HttpMethod::Post; }
    let path = *r.pick(&["", "/", "/a/b", "/%C3%A9", "/?q=1&q=2&e=", "/a?x=a+b%20c#frag", "/..%2f/x", "/é?ü=1", "//double", "/a%00b"]);
    let url = format!("http://{}{path}", r.pick(&["h", "example.com:8080", "127.0.0.1", "sub.domäin.test", "[::1]:80"]));
    let mut headers = BTreeMap::new();
    headers.insert(r.pick(&["x-style", "X-Style", "X-STYLE"]).to_string(), style.to_string());
    headers.insert("X-Id".to_string(), id.to_string());
    for _ in 0..r.below(6) {
        let k = match r.below(8) { 0 => "Content-Type".to_string(), 1 => "cookie".into(), 2 => "__proto__".into(), 3 => "constructor".into(), 4 => "Set-Cookie".into(), 5 => "x!#$%&'*+.^_`|~9".into(), _ => format!("X-H{}", r.below(9)) };
        let v = match r.below(6) { 0 => String::new(), 1 => "a, b; c=\"d\"".into(), 2 => "é€".into(), 3 => "x".repeat(r.range(1, 5000)), _ => format!("v{}", r.below(1000)) };
        if !headers.keys().any(|h| h.eq_ignore_ascii_case(&k)) { headers.insert(k, v); }
    }
    if r.chance(1, 16) { for i in 0..r.range(20, 150) { headers.insert(format!("X-M{i}"), format!("m{}", r.below(1000))); } }
    if style == "form" { headers.retain(|k, _| !k.eq_ignore_ascii_case("content-type")); headers.insert("Content-Type".into(), "application/x-www-form-urlencoded".into()); }
    let what = format!("{mode} {style} es={es} {method} {url:?} body {} headers {:?} buf={}", up.brief(), headers.keys().collect::<Vec<_>>(), lim.stream_buffer_size);
    rep.quick_case(&what);
    rep.count("requests", 1);
    rep.count(&format!("style_{style}"), 1);
    let sig = |s: &str| format!("{s}:{style}");
    let handler = if es { "globalThis.default = { fetch(r, env, ctx) { return answer(ctx, r); } };" } else { "addEventListener('fetch', e => e.respondWith(answer(e, e.request)));" };
    let s = Script::with_bindings(format!("{JS}{ECHO}{handler}"), None, vec![BindingInfo::new("W", BindingType::Worker), BindingInfo::new("A", BindingType::Assets)]);
    let (req, sent) = request(method, &url, &headers, &up);
    let (e, rx) = ev_fetch(req);
    let cl = Client { pace: r.chance(1, 6).then(|| MS(1)), ..Default::default() };
    let o = if pool { drive(pin_exec(&Pin::new("o", &wid), s, ops.clone(), e, None), rx, cl, DEADLINE).await } else { worker_client(s, lim.clone(), ops.clone(), (e, rx), cl, DEADLINE).await };
    if style == "echoBuf" && up.fail().is_some() { rep.check(o.text().contains(up.fail().unwrap()) && o.status() == 500, &sig("echo-failed"), || format!("{what}: {}", o.brief())); return; }
    if !rep.check(o.ok() && o.status() == 200, &sig("exec"), || format!("{what}: {}", o.brief())) { return; }
    let flat = up.flat();
    rep.count("body_bytes", flat.len() as u64);
    let fail = up.fail();
    if fail.is_some() { rep.count("failing_uploads", 1); }
    let txt = { let t = String::from_utf8_lossy(&flat).into_owned(); t.strip_prefix('\u{feff}').map(|x| x.to_string()).unwrap_or(t) };
    if style.starts_with("echo") {
        let resp = o.resp.as_ref().unwrap();
        match fail {
            None => { rep.check(resp.bytes() == flat && resp.error().is_none(), &sig("echoed"), || format!("{what}: {} bytes came back, error {:?}", resp.bytes().len(), resp.error())); }
            Some(f) => { rep.check(flat.starts_with(&resp.bytes()) && resp.error().is_some_and(|e| e.contains(f)), &sig("echo-failed"), || format!("{what}: {} bytes came back, error {:?}", resp.bytes().len(), resp.error())); }
        }
        if style == "echo" { rep.eq(&sig("echo-method"), resp.header("x-m").join("|"), method.as_str().to_string(), || what.clone()); }
    } else {
        let j = o.json();
        rep.eq(&sig("url"), j["url"].as_str().unwrap_or(""), url.as_str(), || what.clone());
        rep.eq(&sig("method"), j["method"].as_str().unwrap_or(""), method.as_str(), || what.clone());
        rep.eq(&sig("headers"), entries(&j["headers"]), lower(&headers), || what.clone());
        rep.check(j["isReq"] == json!(true), &sig("class"), || what.clone());
        let got = &j["got"];
        let whole = !matches!(style, "never" | "partial" | "partialKeep" | "cancel" | "late");
        let stated = |rep: &Report, k: &str, want: String| { rep.check(got[k].as_str() == Some(want.as_str()), &sig(k), || { let g = got[k].as_str().unwrap_or("<none>"); format!("{what}: {k} = {:?} ({} chars), expected {:?} ({} chars); {}", &g.chars().take(120).collect::<String>(), g.len(), &want.chars().take(120).collect::<String>(), want.len(), j["err"]) }); };
        match fail {
            Some(f) if whole => { rep.check(j["err"].as_str().is_some_and(|e| e.contains(f)), &sig("failed-upload"), || format!("{what}: {}", o.text().chars().take(500).collect::<String>())); }
            _ if style == "late" || style == "never" || style == "cancel" => { rep.check(j["err"].is_null(), &sig("no-error"), || format!("{what}: {}", j["err"])); }
            _ => match style {
                "text" => { stated(&rep, "t", txt); rep.check(got["used"] == json!(true), &sig("used"), || what.clone()); }
                "twice" => { stated(&rep, "t", txt); rep.check(got["again"] == json!(true) && got["used"] == json!(true), &sig("again"), || format!("{what}: {got}")); }
                "json" => match serde_json::from_slice::<Value>(&flat) {
                    Ok(v) => { rep.check(same(&got["j"], &v), &sig("json"), || format!("{what}: {} instead of {v}", got["j"])); }
                    Err(_) => { rep.check(got["syntax"] == json!(true), &sig("syntax"), || format!("{what}: {got} {}", j["err"])); }
                },
                "form" => {
                    let want: Vec<Value> = txt.split('&').filter(|p| !p.is_empty()).map(|p| { let (k, v) = p.split_once('=').unwrap(); json!([k, v]) }).collect();
                    rep.eq(&sig("form"), got["f"].clone(), Value::Array(want), || what.clone());
                }
                "partial" | "partialKeep" => {
                    if let Some(p) = got["p"].as_str() {
                        let p = unb64(p).unwrap_or_else(|| b"?".to_vec());
                        rep.check(flat.starts_with(&p), &sig("prefix"), || format!("{what}: {} bytes which are no beginning", p.len()));
                        if fail.is_none() { if let Up::Stream { chunks, .. } = &up { if let Some(c) = chunks.first() { rep.check(c.is_empty() || !p.is_empty(), &sig("first"), || format!("{what}: nothing was read")); } } }
                    } else { rep.check(fail.is_some() && j["err"].as_str().is_some_and(|e| e.contains(fail.unwrap())), &sig("first-failed"), || format!("{what}: {}", o.text())); }
                }
                _ if forward => {
                    rep.check(got["s"] == json!(207) && got["ut"] == json!("up!"), &sig("forwarded"), || format!("{what}: {}", o.text().chars().take(500).collect::<String>()));
                }
                _ => {
                    stated(&rep, "b", b64(&flat));
                    if !got["b2"].is_null() { stated(&rep, "b2", b64(&flat)); }
                    if !got["m"].is_null() { stated(&rep, "m", method.as_str().into()); stated(&rep, "u", url.clone()); rep.eq(&sig("copied-headers"), entries(&got["h"]), lower(&headers), || what.clone()); }
                    if style == "override" { stated(&rep, "om", "PATCH".into()); rep.eq(&sig("override-headers"), got["oh"].to_string(), r#"[["x-o","1"]]"#.to_string(), || what.clone()); }
                }
            },
        }
    }
    // what the upstream got (a warm context keeps the first request's operations handle)
    let mine = || -> Vec<Op> { ops.calls().into_iter().filter(|op| match op { Op::Fetch(q) | Op::BindWorker(_, q) | Op::BindFetch(_, q) => q.url.ends_with(&format!("/{id}")) || q.headers.iter().any(|(k, v)| k.eq_ignore_ascii_case("x-id") && *v == id.to_string()), _ => true }).collect() };
    if forward {
        let calls = mine();
        if fail.is_some() { rep.check(calls.is_empty(), &sig("forward-broken"), || format!("{what}: a broken upload was sent on: {calls:?}")); }
        else {
            rep.eq(&sig("forward-calls"), calls.len(), 1, || what.clone());
            if let Some(call) = calls.first() {
                let (kind, q) = match call { Op::Fetch(q) => ("fetch", q), Op::BindWorker(b, q) if b == "W" => ("worker", q), Op::BindFetch(b, q) if b == "A" => ("assets", q), _ => { rep.viol(sig("forward-kind"), format!("{what}: {call:?}")); return; } };
                rep.eq(&sig("forward-kind"), kind, match style { "forwardWorker" => "worker", "forwardAssets" => "assets", _ => "fetch" }, || what.clone());
                rep.check(q.body.flat() == flat, &sig("forward-body"), || format!("{what}: {} bytes arrived", q.body.flat().len()));
                let (m, u) = match style { "forward" | "forwardBuf" => ("POST", format!("http://up/{id}")), "forwardNew" => (method.as_str(), format!("http://up/{id}")), _ => (method.as_str(), url.clone()) };
                rep.eq(&sig("forward-method"), q.method.as_str(), m, || what.clone());
                rep.eq(&sig("forward-url"), q.url.clone(), u, || what.clone());
                let want = match style { "forward" | "forwardBuf" => [("x-f".to_string(), "f".to_string())].into(), _ => lower(&headers) };
                rep.eq(&sig("forward-headers"), lower(&q.headers), want, || what.clone());
            }
        }
    }
    if style == "late" {
        let t0 = Instant::now();
        while mine().is_empty() && t0.elapsed() < MS(4000) { tokio::time::sleep(MS(3)).await; }
        let calls = mine();
        rep.eq(&sig("late-calls"), calls.len(), 1, || what.clone());
        if let Some(Op::Fetch(q)) = calls.first() {
            match fail {
                None => { rep.check(q.body.flat() == flat, &sig("late-body"), || format!("{what}: {} bytes arrived", q.body.flat().len())); }
                Some(f) => { let t = String::from_utf8_lossy(&q.body.flat()).into_owned(); rep.check(t.starts_with("ERR ") && t.contains(f), &sig("late-failed"), || format!("{what}: {t:?}")); }
            }
        }
    }
    // the upload is let go when nobody reads it any more, and is taken completely when it is read
    let t0 = Instant::now();
    while sent.released.load(Ordering::SeqCst) == 0 && t0.elapsed() < MS(3000) { tokio::time::sleep(MS(3)).await; }
    rep.check(sent.released.load(Ordering::SeqCst) == 1, &format!("time:upload-kept:{style}"), || format!("{what}: the client can neither send nor stop 3 s after the end"));
    if up.stalls() { rep.count("stalled_uploads", 1); }
    let _ = sent.all;
}
pub fn fidelity(c: &mut Ctx) {
    let pool = is_pool(c);
    let mut lim = roomy();
    lim.stream_buffer_size = c.opt("--buf").and_then(|s| s.parse().ok()).unwrap_or_else(|| *c.rng.pick(&[1, 2, 16]));
    lim.max_wall_clock_time_ms = 15_000;
    let mux = c.opt("--mux").is_some();
    if pool { init_pool(4, None, if mux { 4 } else { 1 }, 3, lim.clone()); }
    let rep = c.rep.clone();
    let n = c.n(1400, 60_000);
    let mode = if mux { "mux" } else if pool { "pool" } else { "worker" };
    let es = c.rng.chance(1, 2);
    let mut id = 0;
    let ops = Mock::new(|_, op| async move { match op { Op::Fetch(_) | Op::BindWorker(..) | Op::BindFetch(..) => Reply::Http(Ok(text_response(207, "up!"))), _ => err_reply(&op, "no") } });
    on_local(async {
        while id < n && c.time_left() {
            let mut jobs: Vec<Job> = vec![];
            ops.clear();
            for lane in 0..8 {
                id += 1;
                let (rep, r, lim, i, ops) = (rep.clone(), c.rng.fork(), lim.clone(), id, ops.clone());
                // pooled: few workers, so that contexts are reused
                let wid = format!("w{}", if mux { lane % 2 } else { lane % 5 });
                jobs.push(Box::new(move || one(rep, r, mode, pool, wid, i, lim, es, ops).boxed_local()));
            }
            if mux { futures::future::join_all(jobs.into_iter().map(|j| j())).await; }
            else if pool {
                // one after another on each worker; the workers side by side
                let mut lanes: Vec<Vec<Job>> = (0..4).map(|_| vec![]).collect();
                for (i, j) in jobs.into_iter().enumerate() { lanes[i % 4].push(j); }
                futures::future::join_all(lanes.into_iter().map(|l| async { for j in l { j().await; } })).await;
            }
            else { std::thread::scope(|t| for j in jobs { t.spawn(move || on_local(j())); }); }
        }
    });
    rep.drain_panics();
}

// ------------------------------------------------------------------ C10
const OPS: &str = r#"
const bodyOf = b => {
  switch (b.t) {
    case 'none': return undefined;
    case 'str': return b.s;
    case 'u8': return unb64(b.b);
    case 'sub': { const u = unb64(b.b), v = new Uint8Array(u.length + 11).fill(7); v.set(u, 5); return v.subarray(5, 5 + u.length); }
    case 'view': { const u = unb64(b.b), v = new Uint8Array(u.length + 9).fill(9); v.set(u, 3); return new DataView(v.buffer, 3, u.length); }
    case 'ab': return unb64(b.b).buffer;
    case 'blob': return new Blob([unb64(b.b).subarray(0, 3), unb64(b.b).subarray(3)]);
    case 'params': return new URLSearchParams(b.p);
    case 'form': { const f = new FormData(); for (const [k, v, file] of b.p) { if (file) f.append(k, new Blob([unb64(v)], { type: 'text/x-t' }), file); else if (file === '') f.append(k, new File([unb64(v)], '', { type: 'text/x-t' })); else f.append(k, v); } return f; }
    case 'stream': { const d = unb64(b.b), w = new Uint8Array(d.length + 12).fill(8); w.set(d, 5); const u = b.n % 2 ? d : w.subarray(5, 5 + d.length); let i = 0; return new ReadableStream({ async pull(c) { if (b.nap) await nap(1); if (i >= u.length) { if (b.fail) c.error(new Error(b.fail)); else c.close(); return; } c.enqueue(b.n % 4 < 2 ? u.subarray(i, i + b.n) : u.slice(i, i + b.n)); i += b.n; } }); }
  }
};
const headersOf = (f, h) => f === 'obj' ? Object.fromEntries(h) : f === 'pairs' ? h : f === 'Headers' ? new Headers(h) : undefined;
const readers = {
  bytes: async r => b64(await r.arrayBuffer()),
  text: async r => b64(new TextEncoder().encode(await r.text())),
  reader: async r => b64(await all(r.body)),
  lazy: async r => { const rd = r.body.getReader(); const out = []; for (;;) { await nap(1); const { value, done } = await rd.read(); if (done) break; for (const x of value) out.push(x); } return b64(out); },
  clone: async r => { const c = r.clone(); const [x, y] = await Promise.all([r.arrayBuffer(), c.arrayBuffer()]); return b64(x) === b64(y) ? b64(x) : 'clone differs: ' + b64(x) + ' ' + b64(y); },
};
const shown = async (r, o) => {
  const out = { s: r.status, ok: r.ok, h: [...r.headers] };
  if (o.read === 'none') return out;
  if (o.read === 'part') { const rd = r.body.getReader(); await rd.read(); await rd.cancel(); return out; }
  if (o.wait) await nap(o.wait);
  try { out.b = await readers[o.read](r); } catch (e) { out.be = errText(e); }
  return out;
};
const doers = {
  fetch: async o => {
    const f = o.via === 'W' ? env.W.fetch.bind(env.W) : o.via === 'A' ? env.A.fetch.bind(env.A) : fetch;
    const init = {}; if (o.m) init.method = o.m; if (o.hf !== 'none') init.headers = headersOf(o.hf, o.h); if (o.body.t !== 'none') init.body = bodyOf(o.body);
    const r = o.in === 'str' ? f(o.u, init) : o.in === 'url' ? f(new URL(o.u), init) : o.in === 'req' ? f(new Request(o.u, init)) : f(new Request(o.u, { method: 'DELETE', headers: { 'x-old': '1' }, body: 'old' }), init);
    return shown(await r, o);
  },
  kget: o => env.K.get(o.key), kput: o => env.K.put(o.key, o.v, o.opt), kdel: o => env.K.delete(o.key), klist: o => env.K.list(o.opt),
  sget: o => env.S.get(o.key), sput: o => env.S.put(o.key, bodyOf(o.body)), shead: o => env.S.head(o.key), sdel: o => env.S.delete(o.key), slist: o => env.S.list(o.opt),
  sfetch: async o => shown(await env.S.fetch(o.u), o),
  db: o => env.D.query(o.sql, o.params),
  bad: o => [() => fetch(o.u, { method: 'BREW' }), () => env.W.fetch(o.u, { method: 'no such' }), () => env.K.get(Symbol('x')), () => env.D.query('x', [{}]), () => env.S.put(o.key, 12), () => env.K.put(o.key, 1, { expiresIn: 'soon' }), () => env.K.list({ limit: 'many' }), () => env.S.get({}), () => env.D.query(7),
    () => fetch(o.u, { method: 'POST', body: new ReadableStream({ start(c) { c.error(new Error('no body')); } }) }), () => env.K.put(o.key, Symbol('s')), () => env.A.fetch(o.u, { body: {} }), () => { const c = { k: [] }; c.k.push(c); return env.K.put(o.key, c); }, () => env.K.put(o.key, { get x() { throw new Error('no'); } }), () => { const a = []; a.push(a); return env.D.query('/op/' + o.id, a); }, () => env.K.put(o.key, 12n), () => env.K.get(Object.assign(new String(o.key), { toString() { throw new Error('no'); } })), () => env.D.query('/op/' + o.id, [{ toJSON() { throw new Error('no'); } }]), () => { let d = []; for (let i = 0; i < 50000; i++) d = [d]; return env.K.put(o.key, d); }, () => env.S.head(Symbol('k')), () => env.W.fetch(o.u, { method: Symbol('m') })][o.n](),
};
async function settle(o) {
  const rec = { id: o.id, n: 0 };
  let p;
  try { p = doers[o.k](o); } catch (e) { return { id: o.id, threw: errText(e) }; }
  p = p.then(v => { rec.n++; return { id: o.id, v: v === undefined ? '<undefined>' : v }; }, e => { rec.n++; return { id: o.id, err: errText(e), isErr: e instanceof Error }; });
  if (o.hang) return Promise.race([p, nap(o.hang).then(() => ({ id: o.id, v: '<left>' }))]);
  const r = await p;
  if (rec.n !== 1) r.n = rec.n;
  return r;
}
async function plan(e) {
  const p = await e.request.json();
  const run = async lane => { const out = []; for (const o of lane) { if (o.pre) await nap(o.pre); out.push(await settle(o)); } return out; };
  const work = Promise.all(p.lanes.map(run)).then(x => x.flat());
  if (p.late) { e.waitUntil(work.then(x => fetch('http://report/op/' + p.late, { method: 'POST', body: JSON.stringify(x) }))); return Response.json([]); }
  return Response.json(await work);
}
addEventListener('fetch', e => e.respondWith(plan(e)));
"#;
#[derive(Clone, Debug)]
enum Want {
    /// what the promise must give
    Value(Value),
    /// the rejection must carry this
    Fails(String),
    /// rejected by the runtime, without any call
    Refused,
    /// the upload failed: rejected, without any call
    Left,
}
#[derive(Clone, Debug)]
struct Spec { id: usize, what: String, call: Option<CallWant>, want: Want, delay: u64, reply: Answer, gate: Option<usize> }
#[derive(Clone, Debug)]
enum CallWant { Http { via: &'static str, method: String, url: String, headers: BTreeMap<String, String>, body: BodyWant, ct: Option<&'static str> }, Kv(KvOp), Storage(StorageOp), Db(String, Vec<Value>) }
#[derive(Clone, Debug)]
enum BodyWant { Bytes(Vec<u8>), Params(Vec<(String, String)>), Form(Vec<(String, Vec<u8>, Option<String>)>) }
#[derive(Clone, Debug)]
enum Answer { Http { status: u16, headers: Vec<(String, String)>, chunks: Vec<Vec<u8>>, shape: u8, naps: bool, fail: Option<String> }, Storage(St), Kv(KvResult), Db(DatabaseResult), Err(String), Never }
/// StorageResult cannot be cloned
#[derive(Clone, Debug)]
enum St { Body(Option<Vec<u8>>), Head { size: u64, etag: Option<String> }, List { keys: Vec<String>, truncated: bool }, Error(String) }
fn id_in(s: &str) -> Option<usize> { let t = &s[s.find("/op/")? + 4..]; let t: String = t.chars().take_while(|c| c.is_ascii_digit()).collect(); t.parse().ok() }
fn op_id(op: &Op) -> Option<usize> {
    match op {
        Op::Fetch(q) | Op::BindFetch(_, q) | Op::BindWorker(_, q) => id_in(&q.url),
        Op::Kv(_, KvOp::Get { key } | KvOp::Put { key, .. } | KvOp::Delete { key }) => id_in(key),
        Op::Kv(_, KvOp::List { prefix, .. }) => prefix.as_deref().and_then(id_in),
        Op::Storage(_, StorageOp::Get { key } | StorageOp::Fetch { key } | StorageOp::Put { key, .. } | StorageOp::Head { key } | StorageOp::Delete { key }) => id_in(key),
        Op::Storage(_, StorageOp::List { prefix, .. }) => prefix.as_deref().and_then(id_in),
        Op::Db(_, DatabaseOp::Query { sql, .. }) => id_in(sql),
        Op::Ws(u, _) => id_in(u),
    }
}
fn sql_value(p: &SqlParam) -> Value {
    let one = |p: &SqlPrimitive| match p { SqlPrimitive::Null => Value::Null, SqlPrimitive::Bool(b) => json!(b), SqlPrimitive::Int(i) => json!(i), SqlPrimitive::Float(f) => json!(f), SqlPrimitive::String(s) => json!(s) };
    match p { SqlParam::Primitive(p) => one(p), SqlParam::Array(a) => Value::Array(a.iter().map(one).collect()) }
}
fn field(r: &mut Rng) -> String { let n = r.below(9); text(r, n).replace('\u{7f}', "-") }
/// one operation: what the script is told, and what has to happen
fn operation(r: &mut Rng, id: usize) -> (Value, Spec) {
    let key = match r.below(4) { 0 => format!("/op/{id}"), 1 => format!("ü/op/{id}/\"'\\\n"), 2 => format!("{}/op/{id}", "k".repeat(r.range(1, 600))), _ => format!("a b/op/{id}?x=1&y#z") };
    let err = |id: usize, r: &mut Rng| match r.below(3) { 0 => format!("backend says no {id}"), 1 => format!("é\"{id}\n"), _ => format!("E{id}") };
    let fails = r.chance(1, 6);
    let mut s = Spec { id, what: String::new(), call: None, want: Want::Refused, delay: if r.chance(1, 2) { 0 } else { r.below(14) as u64 }, reply: Answer::Never, gate: None };
    let kinds = ["fetch", "fetch", "fetch", "kget", "kput", "kdel", "klist", "sget", "sput", "shead", "sdel", "slist", "sfetch", "db", "db", "bad"];
    let k = *r.pick(&kinds);
    let mut j = json!({ "id": id, "k": k });
    if r.chance(1, 6) { j["pre"] = json!(r.below(5)); }
    let undef = Want::Value(json!("<undefined>"));
    let http = |r: &mut Rng, j: &mut Value, s: &mut Spec, storage: bool| {
        if fails { let e = err(id, r); s.reply = if storage { Answer::Storage(St::Error(e.clone())) } else { Answer::Err(e.clone()) }; s.want = Want::Fails(e); j["read"] = json!("bytes"); return; }
        let status = *r.pick(&[200, 200, 200, 201, 301, 400, 404, 500, 503, 204, 304]);
        let mut headers: Vec<(String, String)> = vec![];
        for _ in 0..r.below(5) { headers.push((r.pick(&["Content-Type", "set-cookie", "Set-Cookie", "X-A", "x-b", "etag"]).to_string(), format!("v{}", r.below(1000)))); }
        if r.chance(1, 12) { for i in 0..r.range(20, 150) { headers.push((if i % 7 == 6 { "Set-Cookie".into() } else { format!("X-M{i}") }, format!("m{}", r.below(1000)))); } }
        let nobody = matches!(status, 204 | 304) || r.chance(1, 10);
        let chunks: Vec<Vec<u8>> = if nobody { vec![] } else { (0..r.below(6)).map(|_| { let n = match r.below(6) { 0 => 70_000, _ => r.range(1, 500) }; r.bytes(n) }).collect() };
        let shape = if nobody { 0 } else { 1 + r.below(2) as u8 };
        let fail = (shape == 2 && r.chance(1, 6)).then(|| format!("download broke {id}"));
        let read = *r.pick(&["bytes", "reader", "lazy", "clone", "none", "part", "text"]);
        let read = if read == "text" && std::str::from_utf8(&chunks.concat()).is_err() { "bytes" } else { read };
        let read = if chunks.is_empty() && matches!(read, "reader" | "lazy" | "part") || (storage && shape == 0 && read != "none") || (fail.is_some() && read == "part") { "bytes" } else { read };
        j["read"] = json!(read);
        if r.chance(1, 4) { j["wait"] = json!(r.below(6)); }
        let mut h: Vec<(String, Vec<String>)> = vec![];
        for (k, v) in &headers { let k = k.to_lowercase(); match h.iter_mut().find(|e| e.0 == k) { Some(e) if k == "set-cookie" => e.1.push(v.clone()), Some(e) => e.1[0] = format!("{}, {v}", e.1[0]), None => h.push((k, vec![v.clone()])) } }
        let h: Vec<Value> = h.into_iter().flat_map(|(k, v)| v.into_iter().map(move |v| json!([k, v]))).collect();
        let mut w = json!({ "s": status, "ok": (200..300).contains(&status), "h": h });
        if !matches!(read, "none" | "part") { match &fail { Some(f) => w["be"] = json!(f), None => w["b"] = json!(b64(&chunks.concat())) } }
        s.want = Want::Value(w);
        s.reply = Answer::Http { status, headers, chunks, shape, naps: r.chance(1, 3), fail };
    };
    match k {
        "fetch" => {
            let via = *r.pick(&["", "", "W", "A"]);
            j["via"] = json!(via);
            let url = format!("http://{}/op/{id}{}", r.pick(&["up", "up.example:81"]), r.pick(&["", "?a=1&b=%20", "/x%2Fy", "/z?q=%C3%A9"]));
            j["u"] = json!(url);
            let form = *r.pick(&["str", "url", "req", "over"]);
            j["in"] = json!(form);
            let kinds: &[&str] = if via.is_empty() { &["none", "none", "str", "u8", "sub", "view", "ab", "blob", "params", "stream", "form"] } else { &["none", "none", "str", "u8", "sub", "view", "ab", "blob", "stream"] };
            let mut kind = *r.pick(kinds);
            if form == "req" && kind == "form" { kind = "blob"; }
            if form == "over" && kind == "none" { kind = "str"; }
            let method = if kind != "none" { Some(*r.pick(&["POST", "PUT", "PATCH", "DELETE"])) } else { *r.pick(&[None, Some("GET"), Some("POST"), Some("HEAD"), Some("OPTIONS"), Some("DELETE")]) };
            if let Some(m) = method { j["m"] = json!(m); }
            let hf = *r.pick(&["none", "obj", "pairs", "Headers"]);
            j["hf"] = json!(hf);
            let mut h: Vec<(String, String)> = vec![];
            if hf != "none" { for _ in 0..r.below(6) { h.push((match r.below(6) { 0 => "__proto__".into(), 1 => "Content-Type".into(), 2 => "X-Dup".into(), 3 => "constructor".to_string(), _ => format!("X-h{}", r.below(99)) }, format!("v{}", r.below(999)))); } if r.chance(1, 12) { for i in 0..r.range(20, 150) { h.push((format!("X-m{i}"), format!("m{}", r.below(1000)))); } } }
            let mut headers: BTreeMap<String, String> = BTreeMap::new();
            if hf == "obj" { let mut u: Vec<(String, String)> = vec![]; for (k, v) in &h { if let Some(e) = u.iter_mut().find(|e| e.0 == *k) { e.1 = v.clone() } else { u.push((k.clone(), v.clone())) } } h = u; }
            for (k, v) in &h { let k = k.to_lowercase(); headers.entry(k).and_modify(|e| *e = format!("{e}, {v}")).or_insert(v.clone()); }
            j["h"] = json!(h);
            if form == "over" && hf == "none" { headers.insert("x-old".into(), "1".into()); }
            let raw = { let n = match r.below(8) { 0 => 0, 1 => r.range(60_000, 140_000), _ => r.range(1, 300) }; r.bytes(n) };
            let mut ct = None;
            let mut refused = false;
            let bw = match kind {
                "none" => { j["body"] = json!({"t": "none"}); BodyWant::Bytes(vec![]) }
                "str" => { let n = r.below(200); let t = text(r, n); j["body"] = json!({"t": "str", "s": t}); BodyWant::Bytes(t.into_bytes()) }
                "params" => { let p: Vec<(String, String)> = (0..r.below(5)).map(|_| (field(r), field(r))).collect(); j["body"] = json!({"t": "params", "p": p}); ct = Some("application/x-www-form-urlencoded"); BodyWant::Params(p) }
                "form" => {
                    let p: Vec<(String, Vec<u8>, Option<String>)> = (0..r.below(5)).map(|_| { let name = field(r); if r.chance(1, 3) { let n = r.below(300); let f = if r.chance(1, 6) { String::new() } else { format!("f{}{}", r.below(9), field(r)) }; (name, r.bytes(n), Some(f)) } else { (name, field(r).replace('\n', " ").into_bytes(), None) } }).collect();
                    j["body"] = json!({"t": "form", "p": p.iter().map(|(k, v, f)| match f { Some(f) => json!([k, b64(v), f]), None => json!([k, String::from_utf8_lossy(v)]) }).collect::<Vec<_>>()});
                    ct = Some("multipart/form-data"); BodyWant::Form(p)
                }
                "stream" => { refused = r.chance(1, 6); j["body"] = json!({"t": "stream", "b": b64(&raw), "n": if raw.len() < 2000 && r.chance(1, 3) { raw.len().max(1) + r.below(4) } else { r.range(1, 60_000) }, "nap": r.chance(1, 3), "fail": if refused { json!(format!("upload {id} broke")) } else { Value::Null }}); if raw.len() > 2000 { j["body"]["n"] = json!(raw.len() / r.range(1, 9)); } BodyWant::Bytes(raw) }
                _ => { j["body"] = json!({"t": kind, "b": b64(&raw)}); BodyWant::Bytes(raw) }
            };
            if headers.contains_key("content-type") || form == "req" { ct = None; }
            http(r, &mut j, &mut s, false);
            if refused { s.want = Want::Fails(format!("upload {id} broke")); }
            else { s.call = Some(CallWant::Http { via: match via { "W" => "worker", "A" => "assets", _ => "fetch" }, method: method.unwrap_or(if form == "over" { "DELETE" } else { "GET" }).into(), url, headers, body: bw, ct }); }
        }
        "sfetch" => {
            let path = format!("/op/{id}/{}", r.pick(&["", "a.txt", "b%20c", "%C3%A9"]));
            j["u"] = json!(match r.below(3) { 0 => path.clone(), 1 => format!("http://x.y{path}?q=1"), _ => format!("https://x.y:99{path}#h") });
            http(r, &mut j, &mut s, true);
            s.call = Some(CallWant::Storage(StorageOp::Fetch { key: path }));
        }
        "bad" => {
            let n = r.below(21);
            j["n"] = json!(n); j["key"] = json!(key); j["u"] = json!(format!("http://up/op/{id}"));
            if n == 9 { s.want = Want::Fails("no body".into()); }
        }
        "db" => {
            let sql = format!("select {} -- /op/{id}", field(r));
            let prim = |r: &mut Rng| match r.below(6) { 0 => Value::Null, 1 => json!(r.chance(1, 2)), 2 => json!(*r.pick(&[0i64, -1, 7, 2147483648, 9007199254740991])), 3 => json!(*r.pick(&[0.5, -1e-9, 1e300])), _ => json!(field(r)) };
            let params: Vec<Value> = (0..r.below(6)).map(|_| if r.chance(1, 5) { Value::Array((0..r.below(4)).map(|_| prim(r)).collect()) } else { prim(r) }).collect();
            j["sql"] = json!(sql);
            if !params.is_empty() || r.chance(1, 2) { j["params"] = json!(params); }
            s.call = Some(CallWant::Db(sql, params));
            if fails { let e = err(id, r); s.reply = Answer::Db(DatabaseResult::Error(e.clone())); s.want = Want::Fails(e); }
            else { let rows = json!((0..r.below(5)).map(|_| if r.chance(1, 8) { rand_json(r, 2) } else { json!({"id": id, "v": rand_json(r, 2)}) }).collect::<Vec<_>>()); s.reply = Answer::Db(DatabaseResult::Rows(rows.to_string())); s.want = Want::Value(rows); }
        }
        "kget" | "kput" | "kdel" | "klist" => {
            j["key"] = json!(key);
            let (call, ok, w) = match k {
                "kget" => { let v = (!r.chance(1, 4)).then(|| json!({"id": id, "v": rand_json(r, 3)})); let v = if r.chance(1, 4) { v.map(|_| rand_json(r, 1)) } else { v }; (KvOp::Get { key: key.clone() }, KvResult::Value(v.clone()), Want::Value(v.unwrap_or(Value::Null))) }
                "kput" => {
                    let v = rand_json(r, 3);
                    j["v"] = v.clone();
                    let exp = r.chance(1, 3).then(|| *r.pick(&[1u64, 60, 86400, 4294967296]));
                    if let Some(e) = exp { j["opt"] = json!({ "expiresIn": e }); } else if r.chance(1, 3) { j["opt"] = json!({}); }
                    (KvOp::Put { key: key.clone(), value: v, expires_in: exp }, KvResult::Ok, undef)
                }
                "kdel" => (KvOp::Delete { key: key.clone() }, KvResult::Ok, undef),
                _ => {
                    let limit = r.chance(1, 2).then(|| match r.below(8) { 0 if k == "slist" => 0, 1 => u32::MAX, _ => r.range(1, 2000) as u32 });
                    j["opt"] = json!({ "prefix": key });
                    if let Some(l) = limit { j["opt"]["limit"] = json!(l); }
                    let keys: Vec<String> = (0..r.below(9)).map(|i| format!("{i}{}", field(r))).collect();
                    (KvOp::List { prefix: Some(key.clone()), limit }, KvResult::Keys(keys.clone()), Want::Value(json!(keys)))
                }
            };
            s.call = Some(CallWant::Kv(call));
            if fails { let e = err(id, r); s.reply = Answer::Kv(KvResult::Error(e.clone())); s.want = Want::Fails(e); } else { s.reply = Answer::Kv(ok); s.want = w; }
        }
        _ => {
            j["key"] = json!(key);
            let (call, ok, w) = match k {
                "sget" => { let v = (!r.chance(1, 4)).then(|| { let n = r.below(300); text(r, n) }); (StorageOp::Get { key: key.clone() }, St::Body(v.clone().map(|v| v.into_bytes())), Want::Value(v.map(|v| json!(v)).unwrap_or(Value::Null))) }
                "sput" => {
                    let n = match r.below(6) { 0 => 0, 1 => 80_000, _ => r.range(1, 300) };
                    let b = r.bytes(n);
                    let body = match *r.pick(&["str", "u8", "sub", "view", "ab"]) { "str" => { let n = r.below(90); let t = text(r, n); j["body"] = json!({"t": "str", "s": t}); t.into_bytes() } t => { j["body"] = json!({"t": t, "b": b64(&b)}); b } };
                    (StorageOp::Put { key: key.clone(), body }, St::Body(None), undef)
                }
                "shead" => { let size = *r.pick(&[0u64, 1, 4294967296, 9007199254740991]); let etag = r.chance(1, 2).then(|| format!("\"e{id}\"")); let mut w = json!({ "size": size }); if let Some(e) = &etag { w["etag"] = json!(e); } (StorageOp::Head { key: key.clone() }, St::Head { size, etag }, Want::Value(w)) }
                "sdel" => (StorageOp::Delete { key: key.clone() }, St::Body(None), undef),
                _ => {
                    let limit = r.chance(1, 2).then(|| match r.below(8) { 0 if k == "slist" => 0, 1 => u32::MAX, _ => r.range(1, 2000) as u32 });
                    j["opt"] = json!({ "prefix": key });
                    if let Some(l) = limit { j["opt"]["limit"] = json!(l); }
                    let keys: Vec<String> = (0..r.below(9)).map(|i| format!("{i}{}", field(r))).collect();
                    let truncated = r.chance(1, 2);
                    (StorageOp::List { prefix: Some(key.clone()), limit }, St::List { keys: keys.clone(), truncated }, Want::Value(json!({ "keys": keys, "truncated": truncated })))
                }
            };
            s.call = Some(CallWant::Storage(call));
            if fails { let e = err(id, r); s.reply = Answer::Storage(St::Error(e.clone())); s.want = Want::Fails(e); } else { s.reply = Answer::Storage(ok); s.want = w; }
        }
    }
    if s.call.is_some() && r.chance(1, 16) { s.reply = Answer::Never; s.want = Want::Left; j["hang"] = json!(r.range(15, 60)); }
    s.what = { let t = j.to_string(); let t = if t.len() > 600 { format!("{}…", t.chars().take(600).collect::<String>()) } else { t }; format!("\"k\":\"{k}\" {t}") };
    (j, s)
}
fn parse_form(q: &Req) -> Option<Vec<(String, Vec<u8>, Option<String>)>> {
    let ct = q.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("content-type"))?.1;
    let b = format!("--{}", ct.split("boundary=").nth(1)?.trim_matches('"'));
    let body = q.body.flat();
    let find = |h: &[u8], n: &[u8]| h.windows(n.len()).position(|w| w == n);
    let unquote = |s: &str| s.replace("%22", "\"").replace("%0A", "\n").replace("%0D", "\r");
    let mut rest = &body[find(&body, b.as_bytes())? + b.len()..];
    let mut out = vec![];
    while !rest.starts_with(b"--") {
        rest = rest.strip_prefix(b"\r\n")?;
        let h = find(rest, b"\r\n\r\n")?;
        let head = String::from_utf8(rest[..h].to_vec()).ok()?;
        rest = &rest[h + 4..];
        let e = find(rest, format!("\r\n{b}").as_bytes())?;
        let attr = |n: &str| head.lines().next().and_then(|l| { let at = l.find(&format!(" {n}=\""))? + n.len() + 3; Some(unquote(&l[at..at + l[at..].find('"')?])) });
        out.push((attr("name")?, rest[..e].to_vec(), attr("filename")));
        rest = &rest[e + 2 + b.len()..];
    }
    Some(out)
}
fn parse_params(b: &[u8]) -> Vec<(String, String)> {
    let dec = |s: &str| { let s = s.replace('+', " "); let b = s.as_bytes(); let mut o = vec![]; let mut i = 0; while i < b.len() { if b[i] == b'%' && i + 2 < b.len() + 0 { if let Ok(v) = u8::from_str_radix(&s[i + 1..i + 3], 16) { o.push(v); i += 3; continue; } } o.push(b[i]); i += 1; } String::from_utf8_lossy(&o).into_owned() };
    String::from_utf8_lossy(b).split('&').filter(|p| !p.is_empty()).map(|p| { let (k, v) = p.split_once('=').unwrap_or((p, "")); (dec(k), dec(v)) }).collect()
}
fn check_call(rep: &Report, what: &str, op: &Op, w: &CallWant) {
    let sig = |s: &str| format!("call:{s}");
    match (op, w) {
        (Op::Fetch(q) | Op::BindFetch(_, q) | Op::BindWorker(_, q), CallWant::Http { via, method, url, headers, body, ct }) => {
            let v = match op { Op::Fetch(_) => "fetch", Op::BindFetch(b, _) if b == "A" => "assets", Op::BindWorker(b, _) if b == "W" => "worker", _ => "?" };
            rep.eq(&sig("via"), v, *via, || what.into());
            rep.eq(&sig("method"), q.method.clone(), method.clone(), || what.into());
            rep.eq(&sig("url"), q.url.clone(), url.clone(), || what.into());
            let mut h = lower(&q.headers);
            let got_ct = h.get("content-type").cloned();
            if !headers.contains_key("content-type") { h.remove("content-type"); }
            rep.eq(&sig("headers"), h, headers.clone(), || what.into());
            if let Some(c) = ct { rep.check(got_ct.as_deref().is_some_and(|g| g.starts_with(c)), &sig("content-type"), || format!("{what}: {got_ct:?} instead of {c}")); }
            match body {
                BodyWant::Bytes(b) => { rep.check(q.body.flat() == *b, &sig("body"), || format!("{what}: {} bytes arrived of {}", q.body.flat().len(), b.len())); }
                BodyWant::Params(p) => { rep.eq(&sig("params"), parse_params(&q.body.flat()), p.clone(), || format!("{what}: {:?}", String::from_utf8_lossy(&q.body.flat()))); }
                BodyWant::Form(p) => if ct.is_some() { rep.eq(&sig("form"), parse_form(q), Some(p.clone()), || format!("{what}: {:?}", String::from_utf8_lossy(&q.body.flat()).chars().take(800).collect::<String>())); }
            }
        }
        (Op::Kv(b, got), CallWant::Kv(want)) => {
            let ok = b == "K" && match (got, want) { (KvOp::Put { key: k1, value: v1, expires_in: e1 }, KvOp::Put { key: k2, value: v2, expires_in: e2 }) => k1 == k2 && same(v1, v2) && e1 == e2, _ => got == want };
            rep.check(ok, &sig("kv"), || format!("{what}: {b} {got:?}, expected {want:?}"));
        }
        (Op::Storage(b, got), CallWant::Storage(want)) => { rep.check(b == "S" && got == want, &sig("storage"), || format!("{what}: {b} {}", format!("{got:?}").chars().take(300).collect::<String>())); }
        (Op::Db(b, DatabaseOp::Query { sql, params }), CallWant::Db(s, p)) => { let got: Vec<Value> = params.iter().map(sql_value).collect(); rep.check(b == "D" && sql == s && same(&json!(got), &json!(p)), &sig("db"), || format!("{what}: {b} {sql:?} {got:?}")); }
        _ => rep.viol(sig("kind"), format!("{what}: {op:?}")),
    }
}
type Specs = Arc<std::sync::Mutex<std::collections::HashMap<usize, Spec>>>;
fn reply_to(s: &Spec) -> Reply {
    match s.reply.clone() {
        Answer::Http { status, headers, chunks, shape, naps, fail } => {
            let body = match shape { 0 => ResponseBody::None, 1 => ResponseBody::Bytes(chunks.concat().into()), _ => {
                let (tx, rx) = tokio::sync::mpsc::channel(2);
                tokio::spawn(async move { for c in chunks { if naps { tokio::time::sleep(MS(1)).await; } if tx.send(Ok(c.into())).await.is_err() { return; } } if let Some(f) = fail { let _ = tx.send(Err(f)).await; } });
                ResponseBody::Stream(rx)
            } };
            let h = HttpResponse { status, headers, body };
            if matches!(s.call, Some(CallWant::Storage(_))) { Reply::Storage(StorageResult::Response(h)) } else { Reply::Http(Ok(h)) }
        }
        Answer::Storage(x) => Reply::Storage(match x { St::Body(b) => StorageResult::Body(b), St::Head { size, etag } => StorageResult::Head { size, etag }, St::List { keys, truncated } => StorageResult::List { keys, truncated }, St::Error(e) => StorageResult::Error(e) }), Answer::Kv(x) => Reply::Kv(x), Answer::Db(x) => Reply::Db(x), Answer::Err(e) => Reply::Http(Err(e)), Answer::Never => unreachable!(),
    }
}
async fn one_plan(rep: Report, mut r: Rng, mode: &'static str, pool: bool, wid: String, base: usize, lim: RuntimeLimits, ops: Arc<Mock>, specs: Specs) {
    let lanes_n = match r.below(6) { 0 => 1, 1 => 30, _ => r.range(2, 8) };
    let mut id = base;
    let (mut lanes, mut mine): (Vec<Vec<Value>>, Vec<Vec<Spec>>) = (vec![], vec![]);
    let gate = r.chance(1, 4);
    for _ in 0..lanes_n {
        let (mut l, mut m) = (vec![], vec![]);
        for _ in 0..r.range(1, if lanes_n == 30 { 2 } else { 6 }) { id += 1; let (j, s) = operation(&mut r, id); l.push(j); m.push(s); }
        lanes.push(l); mine.push(m);
    }
    // the first operations of all lanes are answered only when all of them have arrived
    let n = mine.iter().filter(|m| m[0].call.is_some() && !matches!(m[0].reply, Answer::Never)).count();
    if gate { for m in &mut mine { if m[0].call.is_some() && !matches!(m[0].reply, Answer::Never) { m[0].gate = Some(base); } } }
    let arrived = Arc::new(tokio::sync::Semaphore::new(0));
    if gate { GATES.lock().unwrap().get_or_insert_with(Default::default).insert(base, (n, arrived.clone())); }
    { let mut g = specs.lock().unwrap(); for s in mine.iter().flatten() { g.insert(s.id, s.clone()); } }
    let late = r.chance(1, 5);
    let mut plan = json!({ "lanes": lanes });
    if late { id += 1; plan["late"] = json!(id); specs.lock().unwrap().insert(id, Spec { id, what: "report".into(), call: None, want: Want::Refused, delay: 0, reply: Answer::Http { status: 200, headers: vec![], chunks: vec![], shape: 0, naps: false, fail: None }, gate: None }); }
    let s = Script::with_bindings(format!("{JS}{OPS}"), None, vec![BindingInfo::new("W", BindingType::Worker), BindingInfo::new("A", BindingType::Assets), BindingInfo::new("K", BindingType::Kv), BindingInfo::new("S", BindingType::Storage), BindingInfo::new("D", BindingType::Database)]);
    rep.quick_case(&plan.to_string());
    rep.count("plans", 1);
    let (e, rx) = ev_fetch(post("http://h/", plan.to_string()));
    let o = if pool { drive(pin_exec(&Pin::new("o", &wid), s, ops.clone(), e, None), rx, Client::default(), DEADLINE).await } else { worker_client(s, lim, ops.clone(), (e, rx), Client::default(), DEADLINE).await };
    let tag = |s: &Spec| format!("{mode} late={late} gate={gate} buf {}", s.what);
    if !rep.check(o.ok() && o.status() == 200, "exec", || format!("{mode} {} ops, late={late} gate={gate}: {}; plan {}", id - base, o.brief(), { if let Ok(p) = std::env::var("OWH_PLAN") { let _ = std::fs::write(p, plan.to_string()); } plan.to_string().chars().take(600).collect::<String>() })) { return; }
    let ev: Vec<(Instant, Ev)> = ops.ev.lock().unwrap().clone();
    let ids: std::collections::HashSet<usize> = mine.iter().flatten().map(|s| s.id).chain(late.then_some(id)).collect();
    let mut calls: std::collections::HashMap<usize, Vec<(usize, usize, Op)>> = Default::default();
    let mut replied: std::collections::HashMap<usize, usize> = Default::default();
    for (pos, (_, e)) in ev.iter().enumerate() { match e { Ev::Call(i, op) => if let Some(k) = op_id(op) { if ids.contains(&k) { calls.entry(k).or_default().push((pos, *i, op.clone())); } }, Ev::Reply(i) => { replied.insert(*i, pos); } _ => {} } }
    let results = if late {
        let b = calls.get(&id).and_then(|c| c.first()).map(|c| match &c.2 { Op::Fetch(q) => q.body.flat(), _ => vec![] });
        rep.check(b.is_some(), "late-report", || format!("{mode}: the work handed to waitUntil was not finished: {}", o.brief()));
        serde_json::from_slice(&b.unwrap_or_default()).unwrap_or(Value::Null)
    } else { o.json() };
    let by_id: std::collections::HashMap<u64, &Value> = results.as_array().map(|a| a.iter().filter_map(|v| Some((v["id"].as_u64()?, v))).collect()).unwrap_or_default();
    for lane in &mine {
        let mut before: Option<usize> = None;
        for s in lane {
            rep.count("operations", 1);
            rep.count(&format!("op_{}", s.what.split("\"k\":\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("other")), 1);
            let Some(got) = by_id.get(&(s.id as u64)) else { rep.viol("result:none", format!("{}: no result; {}", tag(s), results.to_string().chars().take(300).collect::<String>())); continue };
            rep.check(got["n"].is_null() && got["threw"].is_null(), "settled", || format!("{}: {got}", tag(s)));
            match &s.want {
                Want::Value(v) => { let g = &got["v"]; let (mut g2, be) = (g.clone(), v.get("be").cloned());
                    if let Some(b) = be { rep.check(g["be"].as_str().is_some_and(|x| x.contains(b.as_str().unwrap())), "result:download", || format!("{}: {}", tag(s), g["be"])); g2["be"] = b; }
                    rep.check(same(&g2, v), "result:value", || format!("{}: got {}, expected {}", tag(s), got.to_string().chars().take(400).collect::<String>(), v.to_string().chars().take(400).collect::<String>())); }
                Want::Fails(m) => { rep.check(got["err"].as_str().is_some_and(|e| e.contains(m.as_str())) && got["isErr"] == json!(true), "result:failure", || format!("{}: got {}, expected a rejection with {m:?}", tag(s), got.to_string().chars().take(400).collect::<String>())); }
                Want::Refused => { rep.check(got["err"].is_string(), "result:refused", || format!("{}: got {got}", tag(s))); }
                Want::Left => { rep.check(got["v"] == json!("<left>"), "result:left", || format!("{}: got {got}", tag(s))); }
            }
            let none = vec![];
            let c = calls.get(&s.id).unwrap_or(&none);
            let expect = s.call.is_some() as usize;
            // (one that was left unanswered may end with the execution while the host still receives its body)
            if rep.check(c.len() == expect || matches!(s.want, Want::Left) && c.is_empty(), "calls", || format!("{}: {} calls instead of {expect}: {}", tag(s), c.len(), format!("{c:?}").chars().take(300).collect::<String>())) {
                if let (Some((pos, i, op)), Some(w)) = (c.first(), &s.call) {
                    check_call(&rep, &tag(s), op, w);
                    if let Some(b) = before { rep.check(b < *pos, "order", || format!("{}: it was issued before the operation which the script awaited first had been answered", tag(s))); }
                    before = replied.get(i).copied();
                }
            }
        }
    }
    GATES.lock().unwrap().get_or_insert_with(Default::default).remove(&base);
}
static GATES: std::sync::Mutex<Option<std::collections::HashMap<usize, (usize, Arc<tokio::sync::Semaphore>)>>> = std::sync::Mutex::new(None);
/// Thousands of operations and timers while a few of the first are still unanswered: each gets its own reply.
const CROWD: &str = r#"globalThis.default = { async fetch(r, env) {
  const wrong = []; let n = 0;
  const one = async (i, tag) => {
    const k = tag + i + '.'; n++;
    try {
      switch (i % 7) {
        case 0: case 1: { const v = await env.KV.get(k); if (v !== k) wrong.push([k, String(v)]); break; }
        case 2: { const u = await fetch('http://up/' + k); const t = await u.text(); if (t !== 'http://up/' + k) wrong.push([k, t]); break; }
        case 3: { const u = await env.AS.fetch('http://up/' + k); const t = await u.text(); if (t !== 'http://up/' + k) wrong.push([k, t]); break; }
        case 4: { const v = await env.DB.query(k, []); if (v?.[0]?.q !== k) wrong.push([k, JSON.stringify(v)]); break; }
        case 5: { const v = await env.ST.get(k); const t = typeof v === 'string' ? v : new TextDecoder().decode(v); if (t !== k) wrong.push([k, t]); break; }
        case 6: { const v = await new Promise(f => setTimeout((...a) => f(a.join()), i % 5, k)); if (v !== k) wrong.push([k, v]); break; }
      }
    } catch (e) { wrong.push([k, String(e)]); }
  };
  const slow = []; for (let i = 0; i < 14; i++) slow.push(one(i, 'slow-'));
  for (let i = 0; i < ROUNDS; i++) { const l = []; for (let k = 0; k < 100; k++) l.push(one(i * 100 + k, 'k')); await Promise.all(l); }
  await fetch('http://up/release'); await Promise.all(slow);
  const forms = [[], [{}], [{ prefix: '' }], [{ limit: 0 }], [{ limit: 7 }], [{ prefix: '', limit: 1 }], [{ prefix: 'é/' }], [{ prefix: ' a ' }]];
  for (const s of [env.KV, env.ST]) for (const f of forms) {
    const got = await s.list(...f), o = (s === env.KV ? x => x || null : x => x ?? null), want = JSON.stringify([o(f[0]?.prefix), o(f[0]?.limit)]), keys = s === env.KV ? got : got.keys; n++;
    if (keys[0] !== want) wrong.push([want, keys[0]]);
  }
  return new Response(JSON.stringify({ n, wrong: wrong.slice(0, 5), bad: wrong.length }));
} };"#;
async fn crowd(rep: Report, how: String, pool: bool, rounds: usize, lim: RuntimeLimits) {
    let hold = Arc::new(tokio::sync::Semaphore::new(0));
    let h = hold.clone();
    let ops = Mock::new(move |_, op| { let h = h.clone(); async move {
        match &op {
            Op::Kv(_, KvOp::List { prefix, limit }) => return Reply::Kv(KvResult::Keys(vec![json!([prefix, limit]).to_string()])),
            Op::Storage(_, StorageOp::List { prefix, limit }) => return Reply::Storage(StorageResult::List { keys: vec![json!([prefix, limit]).to_string()], truncated: false }),
            _ => {}
        }
        let key = match &op { Op::Fetch(q) | Op::BindFetch(_, q) => q.url.clone(), Op::Kv(_, KvOp::Get { key }) => key.clone(), Op::Storage(_, StorageOp::Get { key }) => key.clone(), Op::Db(_, DatabaseOp::Query { sql, .. }) => sql.clone(), _ => return err_reply(&op, "unknown") };
        if key.contains("slow-") { let _ = h.acquire().await; }
        if key.contains("release") { h.add_permits(1000); }
        match &op {
            Op::Kv(..) => Reply::Kv(KvResult::Value(Some(json!(key)))),
            Op::Storage(..) => Reply::Storage(StorageResult::Body(Some(key.into_bytes()))),
            Op::Db(..) => Reply::Db(DatabaseResult::Rows(json!([{ "q": key }]).to_string())),
            _ => Reply::Http(Ok(text_response(200, key))),
        }
    } });
    let code = CROWD.replace("ROUNDS", &rounds.to_string());
    let s = Script::with_bindings(&code, None, vec![BindingInfo::new("KV", BindingType::Kv), BindingInfo::new("DB", BindingType::Database), BindingInfo::new("ST", BindingType::Storage), BindingInfo::new("AS", BindingType::Assets)]);
    let ev = ev_fetch(get("http://x/"));
    let out = if pool { pinned_once(&Pin::new("crowd", "crowd"), s, ops.clone() as OperationsHandle, ev).await } else { worker_once(s, lim, ops.clone() as OperationsHandle, ev).await };
    let body = out.resp.as_ref().map(|r| r.text()).unwrap_or_default();
    rep.count("crowd_operations", (rounds * 100 + 30) as u64);
    rep.eq("crowd", body, format!(r#"{{"n":{},"wrong":[],"bad":0}}"#, rounds * 100 + 30), || format!("{how}: {rounds} rounds of 100 operations and timers, 14 unanswered until the end: {:?}", out.exec));
}
pub fn operations(c: &mut Ctx) {
    let pool = is_pool(c);
    let mux = c.opt("--mux").is_some();
    let mut lim = roomy();
    lim.stream_buffer_size = c.opt("--buf").and_then(|s| s.parse().ok()).unwrap_or_else(|| *c.rng.pick(&[1, 2, 16]));
    lim.max_wall_clock_time_ms = 15_000;
    if pool { init_pool(4, None, if mux { 4 } else { 1 }, 3, lim.clone()); }
    let rep = c.rep.clone();
    let n = c.n(400, 30_000);
    let mode = if mux { "mux" } else if pool { "pool" } else { "worker" };
    let specs: Specs = Default::default();
    let sp = specs.clone();
    let ops = Mock::new(move |_, op| { let s = op_id(&op).and_then(|i| sp.lock().unwrap().get(&i).cloned()); async move {
        let Some(s) = s else { return err_reply(&op, "unknown operation") };
        if matches!(s.reply, Answer::Never) { std::future::pending::<()>().await; }
        if let Some(g) = s.gate { let e = GATES.lock().unwrap().as_ref().and_then(|m| m.get(&g).cloned()); if let Some((n, sem)) = e { sem.add_permits(1); if let Ok(p) = sem.acquire_many(n as u32).await { drop(p); } } }
        if s.delay > 0 { tokio::time::sleep(MS(s.delay)).await; }
        reply_to(&s)
    } });
    rep.case(format!("crowd {mode}"));
    let rounds = c.n(13, 60);
    on_local(crowd(rep.clone(), mode.into(), pool, rounds, lim.clone()));
    let mut done = 0;
    let mut base = 0;
    on_local(async {
        while done < n && c.time_left() {
            let mut jobs: Vec<Job> = vec![];
            ops.clear();
            specs.lock().unwrap().clear();
            for lane in 0..8 {
                done += 1; base += 1000;
                let (rep, r, lim, ops, specs, b) = (rep.clone(), c.rng.fork(), lim.clone(), ops.clone(), specs.clone(), base);
                let wid = format!("w{}", if mux { lane % 2 } else { lane % 5 });
                jobs.push(Box::new(move || one_plan(rep, r, mode, pool, wid, b, lim, ops, specs).boxed_local()));
            }
            if mux { futures::future::join_all(jobs.into_iter().map(|j| j())).await; }
            else if pool {
                let mut lanes: Vec<Vec<Job>> = (0..4).map(|_| vec![]).collect();
                for (i, j) in jobs.into_iter().enumerate() { lanes[i % 4].push(j); }
                futures::future::join_all(lanes.into_iter().map(|l| async { for j in l { j().await; } })).await;
            }
            else { std::thread::scope(|t| for j in jobs { t.spawn(move || on_local(j())); }); }
        }
    });
    rep.drain_panics();
}
