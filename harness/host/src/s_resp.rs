//! C08: the client gets exactly the response the handler built.
use crate::kit::*;
use openworkers_core::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn pat(seed: usize, n: usize) -> Vec<u8> { (0..n).map(|i| ((seed * 31 + i * 7 + (i >> 8) * 13) & 255) as u8).collect() }
pub const BUILD_JS: &str = r#"
const pat = (s, n) => { const b = new Uint8Array(n); for (let i = 0; i < n; i++) b[i] = (s * 31 + i * 7 + (i >> 8) * 13) & 255; return b; };
const wide = c => { const w = new Uint8Array(c.n + 24); w.fill(0xEE); w.set(pat(c.s, c.n), 8); return w.buffer; };
function view(c) {
  switch (c.k) {
    case 'str': return c.t;
    case 'num': return c.v;
    case 'obj': return { toString() { return c.t; } };
    case 'u8': return pat(c.s, c.n);
    case 'sub': return new Uint8Array(wide(c), 8, c.n);
    case 'ab': return pat(c.s, c.n).buffer;
    case 'dv': return new DataView(wide(c), 8, c.n);
    case 'i8': return new Int8Array(wide(c), 8, c.n);
    case 'clamped': return new Uint8ClampedArray(wide(c), 8, c.n);
    case 'u16': return new Uint16Array(wide(c), 8, c.n / 2);
    case 'f64': return new Float64Array(wide(c), 8, c.n / 8);
    case 'blob': { const b = pat(c.s, c.n); return new Blob([b.subarray(0, c.n >> 1), b.subarray(c.n >> 1)]); }
    case 'file': return new File([pat(c.s, c.n)], 'a.bin', { type: 'x/y' });
    case 'usp': return new URLSearchParams(c.pairs);
    case 'null': return null;
    case 'undef': return undefined;
  }
}
const nap = ms => ms < 0 ? null : ms === 0 ? Promise.resolve() : new Promise(r => setTimeout(r, ms));
function stream(b) {
  let i = 0;
  const end = c => { if (b.error !== undefined) c.error(new Error(b.error)); else c.close(); };
  switch (b.mode) {
    case 'start': return new ReadableStream({ start(c) { for (const x of b.chunks) c.enqueue(view(x)); end(c); } });
    case 'astart': return new ReadableStream({ async start(c) { for (const x of b.chunks) { await nap(b.nap); c.enqueue(view(x)); } end(c); } });
    case 'pull': return new ReadableStream({ pull(c) { if (i < b.chunks.length) c.enqueue(view(b.chunks[i++])); else end(c); } });
    case 'apull': return new ReadableStream({ async pull(c) { await nap(b.nap); if (i < b.chunks.length) c.enqueue(view(b.chunks[i++])); else end(c); } });
    case 'burst': return new ReadableStream({ async pull(c) { await nap(b.nap); for (let k = 0; k < 3 && i < b.chunks.length; k++) c.enqueue(view(b.chunks[i++])); if (i >= b.chunks.length) end(c); } });
    case 'timer': return new ReadableStream({ start(c) { const go = () => { if (i < b.chunks.length) { c.enqueue(view(b.chunks[i++])); setTimeout(go, Math.max(0, b.nap)); } else end(c); }; setTimeout(go, 0); } });
    case 'last': return new ReadableStream({ async pull(c) { await nap(b.nap); if (i < b.chunks.length) c.enqueue(view(b.chunks[i++])); if (i >= b.chunks.length) end(c); } });
    case 'throw': return new ReadableStream({ async pull(c) { await nap(b.nap); if (i < b.chunks.length) c.enqueue(view(b.chunks[i++])); else throw new Error(b.error); } });
  }
}
async function pump(src) {
  const r = src.getReader();
  return new ReadableStream({ async pull(c) { const { value, done } = await r.read(); if (done) c.close(); else c.enqueue(value); } });
}
function headers(s) {
  const hs = s.headers;
  switch (s.hctor) {
    case 'pairs': return hs.map(h => [h[0], h[1]]);
    case 'headers': { const h = new Headers(); for (const [k, v] of hs) h.append(k, v); return h; }
    case 'copy': return new Headers(new Headers(hs));
    case 'after': return undefined;
    default: return Object.fromEntries(hs);
  }
}
async function make(s) {
  const b = s.body;
  const init = { headers: headers(s) };
  if (s.status) init.status = s.status;
  let r;
  if (b.k === 'stream') r = new Response(stream(b), init);
  else if (b.k === 'fetch') {
    const up = await fetch('http://up/' + b.id);
    switch (b.how) {
      case 'direct': return up;
      case 'body': r = new Response(up.body, init); break;
      case 'init': r = new Response(up.body, { status: up.status, headers: up.headers }); for (const [k, v] of s.headers) r.headers.append(k, v); return r;
      case 'whole': r = new Response(up.body, up); for (const [k, v] of s.headers) r.headers.append(k, v); return r;
      case 'pump': r = new Response(await pump(up.body), init); break;
      case 'buffer': r = new Response(await up.arrayBuffer(), init); break;
      case 'text': r = new Response(await up.text(), init); break;
      case 'tee': { const [x, y] = up.body.tee(); globalThis.other = y; r = new Response(x, init); break; }
      case 'clone': { globalThis.other = up.clone(); r = new Response(up.body, init); break; }
      case 'cloned': { const c = up.clone(); globalThis.other = up; r = new Response(c.body, init); break; }
      case 'late': await nap(4); r = new Response(up.body, init); break;
    }
  } else if (b.k === 'json') r = Response.json(b.v, init);
  else if (b.k === 'redirect') r = Response.redirect(b.t, b.status);
  else {
    const v = view(b);
    r = new Response(v, init);
    // the response was made from what the buffer contained then
    if (b.scribble) { const u = v instanceof ArrayBuffer ? new Uint8Array(v) : new Uint8Array(v.buffer); u.fill(0xDD); }
  }
  if (s.hctor === 'after') for (const [k, v] of s.headers) r.headers.append(k, v);
  for (const k of s.drop || []) r.headers.delete(k);
  for (const [k, v] of s.set || []) r.headers.set(k, v);
  switch (s.wrap) {
    case 'rewrap': r = new Response(r.body, r); break;
    case 'clone': globalThis.other = r.clone(); break;
    case 'cloned': { const o = r; r = r.clone(); globalThis.other = o; break; }
    case 'clonetext': { const o = r.clone(); globalThis.read = await o.text(); break; }
    case 'tee': { const [x, y] = r.body.tee(); globalThis.other = y; r = new Response(x, r); break; }
    case 'reread': r = new Response(await r.arrayBuffer(), r); break;
  }
  return r;
}
"#;
pub fn style_js(style: &str) -> &'static str {
    // spec(request) gives the JSON description of the answer
    match style {
        "value" => "addEventListener('fetch', e => { const s = spec(e.request); if (simple(s)) e.respondWith(makeNow(s)); else e.respondWith(answer(s, e)); });",
        "promise" => "addEventListener('fetch', e => e.respondWith(answer(spec(e.request), e)));",
        "return" => "addEventListener('fetch', e => answer(spec(e.request), e));",
        "async" => "addEventListener('fetch', async e => { e.respondWith(answer(spec(e.request), e)); await nap(2); });",
        "esreturn" => "globalThis.default = { fetch(request, env, ctx) { return answer(spec(request), ctx); } };",
        "es" => "globalThis.default = { async fetch(request, env, ctx) { return await answer(spec(request), ctx); } };",
        _ => "globalThis.default = { async fetch(request, env, ctx) { const s = spec(request); return simple(s) ? makeNow(s) : answer(s, ctx); } };",
    }
}
pub const STYLES: &[&str] = &["value", "promise", "return", "async", "esreturn", "es", "esvalue"];

/// What the client has to see.
#[derive(Clone, Debug)]
pub struct Want { pub status: u16, pub headers: BTreeMap<String, Vec<String>>, pub bytes: Vec<u8>, pub fails: bool }
#[derive(Clone, Debug)]
pub struct Up { pub status: u16, pub headers: Vec<(String, String)>, pub body: UpBody }
#[derive(Clone, Debug)]
pub enum UpBody { None, Bytes(Vec<u8>), Stream { chunks: Vec<Vec<u8>>, nap: Vec<u64>, error: Option<String>, cap: usize } }
impl Up {
    pub fn bytes(&self) -> Vec<u8> { match &self.body { UpBody::None => vec![], UpBody::Bytes(b) => b.clone(), UpBody::Stream { chunks, .. } => chunks.concat() } }
    pub fn fails(&self) -> bool { matches!(&self.body, UpBody::Stream { error: Some(_), .. }) }
    pub fn respond(&self) -> HttpResponse {
        let body = match &self.body {
            UpBody::None => ResponseBody::None,
            UpBody::Bytes(b) => ResponseBody::Bytes(b.clone().into()),
            UpBody::Stream { chunks, nap, error, cap } => {
                let (tx, rx) = tokio::sync::mpsc::channel(*cap);
                let (chunks, nap, error) = (chunks.clone(), nap.clone(), error.clone());
                tokio::spawn(async move {
                    for (i, c) in chunks.into_iter().enumerate() {
                        if nap[i] > 0 { tokio::time::sleep(Duration::from_millis(nap[i] - 1)).await; }
                        if tx.send(Ok(c.into())).await.is_err() { return; }
                    }
                    if let Some(e) = error { let _ = tx.send(Err(e)).await; }
                });
                ResponseBody::Stream(rx)
            }
        };
        HttpResponse { status: self.status, headers: self.headers.clone(), body }
    }
}
pub type Ups = Arc<Mutex<HashMap<usize, Up>>>;
pub fn up_mock(ups: &Ups) -> Arc<Mock> {
    let ups = ups.clone();
    Mock::new(move |_, op| {
        let ups = ups.clone();
        async move {
            let Op::Fetch(r) = &op else { return err_reply(&op, "no") };
            let id: usize = r.url.rsplit('/').next().unwrap_or("").parse().unwrap_or(usize::MAX);
            let up = ups.lock().unwrap().get(&id).cloned();
            match up { Some(u) => { if id % 3 == 0 { tokio::time::sleep(Duration::from_millis(1)).await; } Reply::Http(Ok(u.respond())) } None => Reply::Http(Err("no such upstream".into())) }
        }
    })
}
fn special(k: &str) -> bool { matches!(k, "set-cookie" | "www-authenticate" | "proxy-authenticate") }
pub fn fold(h: &[(String, String)]) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in h {
        let k = k.to_lowercase();
        let e = m.entry(k.clone()).or_default();
        if !special(&k) && !e.is_empty() { let j = format!("{}, {v}", e[0]); e[0] = j; } else { e.push(v.clone()); }
    }
    m
}
/// headers of a response as received; a value list is in order
pub fn got_headers(h: &[(String, String)]) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in h { m.entry(k.to_lowercase()).or_default().push(v.clone()); }
    m
}
const TEXTS: &[&str] = &["", "x", "hello wörld", "日本語テキスト", "😀🎉 mixed", "line\r\nline\n", "\u{0}nul\u{7f}", "{\"a\":1}", "<p>&amp;</p>", "\u{feff}bom first"];
pub fn gen_size(r: &mut Rng) -> usize {
    match r.below(10) { 0 => 0, 1 => 1, 2..=5 => r.range(2, 200), 6..=7 => r.range(200, 5000), 8 => 65536 + r.below(3) - 1, _ => r.range(5000, 90_000) }
}
pub fn gen_view(r: &mut Rng) -> (Value, Vec<u8>) {
    let (s, n) = (r.below(1000), gen_size(r));
    let t = if r.chance(1, 8) { r.pick(TEXTS).repeat(r.range(1, 400)) } else { r.pick(TEXTS).to_string() };
    match r.below(9) {
        0 | 1 => (json!({"k":"str","t":t}), t.into_bytes()),
        2 => (json!({"k":"u8","s":s,"n":n}), pat(s, n)),
        3 => (json!({"k":"sub","s":s,"n":n}), pat(s, n)),
        4 => (json!({"k":"ab","s":s,"n":n}), pat(s, n)),
        5 => (json!({"k":"dv","s":s,"n":n}), pat(s, n)),
        6 => (json!({"k":r.pick(&["i8","clamped"]),"s":s,"n":n}), pat(s, n)),
        7 => { let n = n & !1; (json!({"k":"u16","s":s,"n":n}), pat(s, n)) }
        _ => { let n = n & !7; (json!({"k":"f64","s":s,"n":n}), pat(s, n)) }
    }
}
fn gen_headers(r: &mut Rng) -> Vec<(String, String)> {
    let names = ["X-One", "x-two", "X-THREE", "Content-Type", "Cache-Control", "Set-Cookie", "WWW-Authenticate", "Proxy-Authenticate", "ETag", "x_under", "Vary", "Constructor", "__x"];
    let vals = ["1", "text/plain; charset=utf-8", "a=b; Path=/; HttpOnly", "no-store", "\"quoted, with comma\"", "", "v", "naïve", "Basic realm=\"x\"", "  padded  ", "é😀"];
    let mut h: Vec<_> = (0..if r.chance(1, 4) { 0 } else { r.range(1, 6) }).map(|_| (r.pick(&names).to_string(), r.pick(&vals).to_string())).collect();
    if r.chance(1, 12) { for i in 0..r.range(10, 150) { h.push((if i % 5 == 4 { "Set-Cookie".into() } else { format!("X-M{i}") }, format!("m{}", r.below(1000)))); } }
    h
}
pub struct Case { pub spec: Value, pub want: Want, pub up: Option<(usize, Up)>, pub kind: String }
pub fn gen_case(r: &mut Rng, id: usize, errors: bool) -> Case {
    let mut headers = gen_headers(r);
    let mut hctor = *r.pick(&["obj", "pairs", "headers", "copy", "after"]);
    if hctor == "obj" { let mut seen = std::collections::HashSet::new(); headers.retain(|(k, _)| seen.insert(k.clone())); }
    if r.chance(1, 12) { hctor = "after"; }
    let mut status = *r.pick(&[0u16, 0, 200, 201, 202, 203, 299, 301, 304, 400, 404, 418, 451, 500, 503, 599]);
    let mut up = None;
    let mut wrap = "";
    let mut fails = false;
    let bytes_only = r.chance(1, 3);
    let mut implicit: Vec<(String, String)> = vec![];
    let (body, bytes, kind): (Value, Vec<u8>, String) = match r.below(12) {
        0 => match r.below(5) {
            0 => (json!({"k":"null"}), vec![], "null".into()),
            1 => (json!({"k":"undef"}), vec![], "undef".into()),
            2 => (json!({"k":"num","v":12.5}), b"12.5".to_vec(), "num".into()),
            3 => (json!({"k":"usp","pairs":[["a","1"],["b","two"],["a","3"]]}), b"a=1&b=two&a=3".to_vec(), "usp".into()),
            _ => (json!({"k":"obj","t":"via toString"}), b"via toString".to_vec(), "obj".into()),
        },
        1 => { let n = gen_size(r); let s = r.below(99); let k = *r.pick(&["blob", "file"]); (json!({"k":k,"s":s,"n":n}), pat(s, n), k.into()) }
        2 => { let v = json!({"a":[1,2.5,null,true,"é\u{1F600}"],"n":r.below(1000),"s":r.pick(TEXTS)}); implicit.push(("content-type".into(), "application/json".into())); (json!({"k":"json","v":v}), vec![], "json".into()) }
        3 => {
            let st = *r.pick(&[301u16, 302, 303, 307, 308]);
            let t = "https://example.com/x?y=1#z";
            headers.clear();
            status = st;
            implicit.push(("location".into(), t.into()));
            (json!({"k":"redirect","t":t,"status":st}), vec![], "redirect".into())
        }
        4 | 5 => { let (mut v, b) = gen_view(r); let k = v["k"].as_str().unwrap().to_string(); if k != "str" && r.chance(1, 3) { v["scribble"] = json!(true); } (v, b, k) }
        6..=8 => {
            let n = match r.below(5) { 0 => r.below(3), 1 => r.range(10, 40), _ => r.range(1, 9) };
            let (mut chunks, mut all) = (vec![], vec![]);
            // text() and arrayBuffer() want bytes, the client gets whatever was enqueued
            for _ in 0..n { let (v, b) = loop { let x = gen_view(r); if !bytes_only || matches!(x.0["k"].as_str(), Some("u8" | "sub")) { break x; } }; chunks.push(v); all.extend(b); }
            let mut mode = *r.pick(&["start", "astart", "pull", "apull", "burst", "timer", "last"]);
            let nap = *r.pick(&[-1i32, 0, 0, 1, 3]);
            let mut b = json!({"k":"stream","chunks":chunks,"nap":nap});
            if errors && r.chance(1, 5) { fails = true; if r.chance(1, 3) { mode = "throw"; } b["error"] = json!(format!("broken {id}")); }
            b["mode"] = json!(mode);
            (b, all, format!("stream-{mode}{}", if fails { "-err" } else { "" }))
        }
        _ => {
            let ub = match r.below(5) {
                0 => UpBody::None,
                1 => UpBody::Bytes(pat(r.below(99), gen_size(r))),
                _ => {
                    let n = if r.chance(1, 4) { r.range(17, 60) } else { r.below(9) };
                    let slow = r.chance(1, 2);
                    let chunks: Vec<Vec<u8>> = (0..n).map(|_| { let z = r.range(1, 3000); pat(r.below(99), z) }).collect();
                    let nap = (0..n).map(|_| if slow { r.below(4) as u64 } else { 0 }).collect();
                    let error = (errors && r.chance(1, 5)).then(|| format!("upstream {id} broke"));
                    UpBody::Stream { chunks, nap, error, cap: r.range(1, 20) }
                }
            };
            let u = Up { status: *r.pick(&[200, 200, 201, 404, 500, 302]), headers: gen_headers(r), body: ub };
            let mut how = *r.pick(&["direct", "direct", "body", "body", "init", "whole", "pump", "buffer", "text", "tee", "clone", "cloned", "late"]);
            if u.fails() && (how == "buffer" || how == "text") { how = "body"; }
            if how == "text" && std::str::from_utf8(&u.bytes()).is_err() { how = "buffer"; }
            fails = u.fails();
            let b = u.bytes();
            let b = if how == "text" { String::from_utf8(b).unwrap().trim_start_matches('\u{feff}').as_bytes().to_vec() } else { b };
            match how {
                "direct" => { status = u.status; headers.clear(); implicit = u.headers.clone(); }
                "init" | "whole" => { status = u.status; implicit = u.headers.clone(); }
                _ => {}
            }
            let k = format!("fetch-{how}-{}{}", match &u.body { UpBody::None => "none", UpBody::Bytes(_) => "bytes", _ => "stream" }, if fails { "-err" } else { "" });
            up = Some((id, u));
            (json!({"k":"fetch","id":id,"how":how}), b, k)
        }
    };
    let how = body["how"].as_str().unwrap_or("");
    let early = matches!(how, "direct" | "init" | "whole");
    let mut set: Vec<(String, String)> = vec![];
    let mut drop: Vec<String> = vec![];
    if !early {
        if r.chance(1, 6) { set.push(("X-Set".into(), "one".into())); set.push(("x-set".into(), "two".into())); }
        if r.chance(1, 6) && !headers.is_empty() { drop.push(r.pick(&headers).0.to_uppercase()); }
        if !matches!(body["k"].as_str(), Some("null" | "undef" | "redirect")) && r.chance(1, 3) { wrap = *r.pick(&["rewrap", "clone", "cloned", "clonetext", "tee", "reread"]); }
        if (fails || kind.starts_with("stream") && !bytes_only) && matches!(wrap, "clonetext" | "reread") { wrap = "rewrap"; }
        // waiting for one branch only: the whole body piles up in the other one, which is fine
    }
    let bytes = if kind == "json" { body["v"].to_string().into_bytes() } else { bytes };
    // the JS object is made from this very JSON text, key order included
    let spec = json!({"status":status,"hctor":hctor,"headers":headers,"body":body,"wrap":wrap,"set":set,"drop":drop,"nap":*r.pick(&[-1, -1, 0, 1, 2])});
    let mut all = implicit.clone();
    if kind == "json" && headers.iter().any(|(k, _)| k.eq_ignore_ascii_case("content-type")) && hctor != "after" { all.clear(); }
    if kind == "redirect" { all = implicit; }
    all.extend(headers.iter().cloned());
    let mut hm = fold(&all);
    for d in &drop { hm.remove(&d.to_lowercase()); }
    for (k, v) in &set { hm.insert(k.to_lowercase(), vec![v.clone()]); }
    Case { spec, want: Want { status: if status == 0 { 200 } else { status }, headers: hm, bytes, fails }, up, kind: if wrap.is_empty() { kind } else { format!("{kind}+{wrap}") } }
}
pub fn case_script(style: &str, specs: &[Value]) -> Script {
    Script::new(format!("{BUILD_JS}\nconst SPECS = {};\nconst spec = q => SPECS[+new URL(q.url).pathname.slice(1)];\nconst simple = s => s.body.k !== 'fetch' && s.nap < 0 && !s.wrap && s.body.k !== 'redirect' && s.body.k !== 'json';\nfunction makeNow(s) {{ const r = new Response(s.body.k === 'stream' ? stream(s.body) : view(s.body), {{ headers: headers(s), ...(s.status ? {{ status: s.status }} : {{}}) }}); if (s.hctor === 'after') for (const [k, v] of s.headers) r.headers.append(k, v); for (const k of s.drop) r.headers.delete(k); for (const [k, v] of s.set) r.headers.set(k, v); return r; }}\nasync function answer(s, e) {{ const w = nap(s.nap); if (w) await w; return await make(s); }}\n{}",
        serde_json::to_string(specs).unwrap().replace('\u{2028}', "\\u2028").replace('\u{2029}', "\\u2029"), style_js(style)))
}
pub fn judge(rep: &Report, what: &str, kind: &str, o: &Out, w: &Want, cut: bool) {
    let base = format!("{what}; {}", o.brief());
    rep.check(o.exec.is_ok() && !o.hung && !o.panicked, &format!("exec:{kind}"), || base.clone());
    let Some(r) = &o.resp else { rep.viol(format!("no-response:{kind}"), base); return };
    rep.eq(&format!("status:{kind}"), r.status, w.status, || base.clone());
    rep.eq(&format!("headers:{kind}"), got_headers(&r.headers), w.headers.clone(), || base.clone());
    let got = r.bytes();
    if w.fails {
        rep.check(w.bytes.starts_with(&got), &format!("prefix:{kind}"), || format!("{base}: got {} bytes which are no prefix of the {} sent", got.len(), w.bytes.len()));
        rep.check(cut || r.error().is_some(), &format!("error-lost:{kind}"), || format!("{base}: the body failed, the client saw a complete body"));
    } else if !cut {
        if got != w.bytes {
            let at = got.iter().zip(&w.bytes).position(|(a, b)| a != b).unwrap_or(got.len().min(w.bytes.len()));
            rep.viol(format!("bytes:{kind}"), format!("{base}: {} bytes received, {} expected, first difference at {at}", got.len(), w.bytes.len()));
        }
        rep.count("oracle_checks", 1);
        rep.check(r.error().is_none(), &format!("error:{kind}"), || format!("{base}: {:?}", r.error()));
    }
    if let BodyOut::Stream { chunks, ended } = &r.body {
        rep.check(*ended || cut, &format!("not-ended:{kind}"), || base.clone());
        let after = chunks.iter().position(|c| c.is_err()).map(|i| chunks.len() - 1 - i).unwrap_or(0);
        rep.check(after == 0, &format!("after-error:{kind}"), || format!("{base}: {after} items after the error"));
    }
    rep.count("body_bytes", got.len() as u64);
}
fn limits(r: &mut Rng) -> RuntimeLimits { let mut l = roomy(); l.stream_buffer_size = *r.pick(&[1, 2, 3, 16, 64]); l }
fn client(r: &mut Rng) -> Client { Client { pace: match r.below(6) { 0 => Some(Duration::from_millis(0)), 1 => Some(Duration::from_millis(1)), 2 => Some(Duration::from_millis(4)), _ => None }, ..Default::default() } }

/// One Worker per request.
pub fn fidelity(c: &mut Ctx) {
    let n = c.n(900, 20_000);
    let mut r = c.rng.fork();
    let rep = c.rep.clone();
    on_local(async {
        let mut done = 0;
        while done < n && c.time_left() {
            let style = *r.pick(STYLES);
            let cases: Vec<Case> = (0..6).map(|i| gen_case(&mut r, i, true)).collect();
            let specs: Vec<Value> = cases.iter().map(|x| x.spec.clone()).collect();
            for (i, x) in cases.iter().enumerate() {
                let ups: Ups = Default::default();
                if let Some((id, u)) = &x.up { ups.lock().unwrap().insert(*id, u.clone()); }
                let (l, cl) = (limits(&mut r), client(&mut r));
                let what = format!("style={style} buf={} pace={:?} {}", l.stream_buffer_size, cl.pace, x.spec.to_string().chars().take(700).collect::<String>());
                rep.quick_case(&what);
                // pump the body after the worker is gone, too
                let o = worker_client(case_script(style, &specs), l, up_mock(&ups), ev_fetch(get(&format!("http://h/{i}"))), cl, DEADLINE).await;
                judge(&rep, &what, &x.kind, &o, &x.want, false);
                rep.count(&format!("style_{style}"), 1);
                rep.count(&format!("kind_{}", x.kind.split(['-', '+']).next().unwrap()), 1);
                done += 1;
            }
        }
    });
}
/// The isolate pool: contexts reused by further requests, and evicted while their last answer is read.
pub fn fidelity_pool(c: &mut Ctx) {
    let mut r = c.rng.fork();
    let mut l = roomy();
    l.stream_buffer_size = c.opt("--buf").and_then(|b| b.parse().ok()).unwrap_or(4);
    init_pool(2, None, if c.opt("--mux").is_some() { 4 } else { 1 }, 2, l);
    let rep = c.rep.clone();
    let n = c.n(700, 15_000);
    on_local(async {
        let mut done = 0;
        let mut wid = 0;
        while done < n && c.time_left() {
            let workers: Vec<_> = (0..3).map(|_| {
                wid += 1;
                let cases: Vec<Case> = (0..8).map(|i| gen_case(&mut r, i, true)).collect();
                let ups: Ups = Default::default();
                for x in &cases { if let Some((id, u)) = &x.up { ups.lock().unwrap().insert(*id, u.clone()); } }
                let style = *r.pick(STYLES);
                (format!("w{wid}"), style, case_script(style, &cases.iter().map(|x| x.spec.clone()).collect::<Vec<_>>()), Arc::new(cases), ups)
            }).collect();
            // several clients at once, some of them slow: answers overlap with later requests of the same context
            let mut plan: Vec<(usize, usize)> = (0..3).flat_map(|w| (0..8).map(move |i| (w, i))).collect();
            r.shuffle(&mut plan);
            let lanes = r.range(1, 3);
            let mut jobs = vec![];
            for lane in 0..lanes {
                let mine: Vec<_> = plan.iter().skip(lane).step_by(lanes).copied().collect();
                let (workers, rep, mut r) = (&workers, rep.clone(), r.fork());
                jobs.push(async move {
                    let mut readers = vec![];
                    for (w, i) in mine {
                        let (id, style, script, cases, ups) = &workers[w];
                        let x = &cases[i];
                        let p = Pin::new("o", id);
                        let cl = client(&mut r);
                        let what = format!("pool worker={id} style={style} pace={:?} {}", cl.pace, x.spec.to_string().chars().take(700).collect::<String>());
                        rep.quick_case(&what);
                        let (ev, rx) = ev_fetch(get(&format!("http://h/{i}")));
                        let exec = pin_exec(&p, script.clone(), up_mock(ups), ev, None);
                        if r.chance(1, 2) {
                            let o = drive(exec, rx, cl, DEADLINE).await;
                            judge(&rep, &what, &x.kind, &o, &x.want, false);
                        } else {
                            // the execution ends, the next one begins, the client still reads
                            let Rx::Http(rx) = rx else { unreachable!() };
                            let h = tokio::spawn(async move { tokio::time::timeout(DEADLINE, read_response(rx, &cl, std::time::Instant::now())).await });
                            let e = tokio::time::timeout(DEADLINE, exec).await;
                            let hung = e.is_err();
                            let exec = e.unwrap_or(Err(TerminationReason::Other("HUNG".into())));
                            readers.push((what, x.kind.clone(), x.want.clone(), exec, hung, h));
                        }
                    }
                    for (what, kind, want, exec, hung, h) in readers {
                        let (resp, hung2) = match h.await.unwrap() { Ok((r, _)) => (r, false), Err(_) => (None, true) };
                        let o = Out { exec, resp, task: None, panicked: false, hung: hung || hung2, took: Duration::ZERO, head_at: None };
                        judge(&rep, &what, &kind, &o, &want, false);
                    }
                });
            }
            futures::future::join_all(jobs).await;
            done += plan.len();
        }
    });
    rep.drain_panics();
}
