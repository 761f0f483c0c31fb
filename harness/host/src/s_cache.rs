//! C16: code caches and the runtime snapshot change nothing but the time it takes.
use crate::kit::*;
use crate::s_hostile::{LOOK, how_threads};
use crate::s_life::How;
use futures::FutureExt;
use openworkers_core::*;
use openworkers_runtime_v8 as rt;
use serde_json::{Value, json};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

// ---------------------------------------------------------------- the bundle format
const MAGIC: [u8; 4] = [0x5E, 0xCA, 0xDE, 0xC0];
fn model(d: &[u8]) -> Option<(&str, &[u8])> {
    let n = u32::from_le_bytes(d.get(4..8)?.try_into().unwrap()) as u64;
    if d[..4] != MAGIC || (d.len() as u64) < 8 + n { return None; }
    let (s, c) = d[8..].split_at(n as usize);
    Some((std::str::from_utf8(s).ok()?, c))
}
fn words(r: &mut Rng, n: usize) -> String { (0..n).map(|_| *r.pick(&['a', 'ß', '\u{2028}', '😀', '\n', '\0', '"', '}', '\u{feff}', 'x', '中', '\u{10ffff}'])).collect() }
pub fn bundle(c: &mut Ctx) {
    let (rep, n) = (c.rep.clone(), c.n(60_000, 3_000_000));
    let mut r = c.rng.fork();
    for i in 0..n {
        if !c.time_left() { break; }
        let len = match r.below(6) { 0 => 0, 1 => r.range(1, 3), 2 => r.below(3000), _ => r.below(60) };
        let src = words(&mut r, len);
        let cache = { let n = match r.below(4) { 0 => 0, 1 => r.below(9), _ => r.below(400) }; r.bytes(n) };
        let packed = rt::pack_code_cache(&src, &cache);
        rep.quick_case(&format!("bundle {len} {} {}", cache.len(), i % 1000));
        rep.check(rt::is_code_cache(&packed), "is-bundle", || format!("{src:?}"));
        let u = rt::unpack_code_cache(&packed);
        rep.check(u == Some((src.as_str(), cache.as_slice())), "round-trip", || format!("source of {} bytes, cache of {}: {:?}", src.len(), cache.len(), u.map(|(s, c)| (s.len(), c.len()))));
        // anything else is recognised as such
        let mut bad = packed.clone();
        let kind = r.below(7);
        match kind {
            0 => { let n = r.below(bad.len() + 1); bad.truncate(n); }
            1 => { let k = r.below(8.min(bad.len())); bad[k] ^= 1 << r.below(8); }
            2 => { let v = [u32::MAX, u32::MAX - 7, u32::MAX - 8, 0x7fff_ffff, 0x8000_0000, packed.len() as u32, packed.len() as u32 - 8, packed.len() as u32 - 7, src.len() as u32 + 1][r.below(9)]; bad[4..8].copy_from_slice(&v.to_le_bytes()); }
            3 => { if !src.is_empty() { let k = 8 + r.below(src.len()); bad[k] = *r.pick(&[0x80, 0xff, 0xc0, 0xed, 0xf8]); } }
            4 => { if src.len() > 1 { bad[4..8].copy_from_slice(&(r.below(src.len()) as u32).to_le_bytes()); } }
            5 => { let n = r.below(20); bad = r.bytes(n); }
            _ => { bad = MAGIC.to_vec(); let n = r.below(12); bad.extend(r.bytes(n)); }
        }
        let got = std::panic::catch_unwind(|| (rt::is_code_cache(&bad), rt::unpack_code_cache(&bad).map(|(s, c)| (s.to_string(), c.to_vec()))));
        let want = model(&bad).map(|(s, c)| (s.to_string(), c.to_vec()));
        let is = bad.len() >= 8 && bad[..4] == MAGIC;
        rep.check(matches!(&got, Ok((a, b)) if *a == is && *b == want), "malformed", || format!("kind {kind}, {} bytes {:?}…: {:?} instead of {is} {:?}", bad.len(), &bad[..bad.len().min(12)], got.as_ref().ok().map(|g| (g.0, g.1.as_ref().map(|x| x.0.len()))), want.as_ref().map(|w| w.0.len())));
        rep.count("bundles", 1);
        if want.is_none() { rep.count("malformed", 1); }
    }
    // (sizes beyond 16 and 24 bits)
    for n in [65_535usize, 65_536, 70_001, (1 << 24) - 1, 1 << 24, (1 << 24) + 77] {
        let src: String = "x".repeat(n - 1) + "y";
        let packed = rt::pack_code_cache(&src, b"cache");
        rep.quick_case(&format!("bundle of {n}"));
        rep.check(rt::unpack_code_cache(&packed) == Some((src.as_str(), &b"cache"[..])), "round-trip", || format!("source of {n} bytes"));
        let packed = rt::pack_code_cache("s", src.as_bytes());
        rep.check(rt::unpack_code_cache(&packed) == Some(("s", src.as_bytes())), "round-trip", || format!("cache of {n} bytes"));
    }
    rep.drain_panics();
}

// ---------------------------------------------------------------- programs
fn lit(r: &mut Rng) -> String {
    match r.below(12) {
        0 => format!("{}", r.next() as u32), 1 => format!("-{}.{}e{}", r.below(99), r.below(999), r.below(300)), 2 => js(&words(r, 5)), 3 => format!("`{}${{1+{}}}`", r.below(9), r.below(9)),
        4 => format!("{}n", r.next()), 5 => "'\\ud83d'".into(), 6 => "null".into(), 7 => "undefined".into(), 8 => format!("[{},,{}]", r.below(9), r.below(9)), 9 => format!("{{ a{}: {}, 'b c': [] }}", r.below(9), r.below(99)), 10 => "/a(?<n>.)ß+/giu".into(), _ => "-0".into(),
    }
}
/// A piece of a program: declares `f<i>`, called with a number, any result.
fn piece(r: &mut Rng, i: usize) -> String {
    let (a, b, k) = (lit(r), lit(r), r.below(50));
    let f = format!("f{i}");
    match r.below(26) {
        0 => format!("function {f}(x) {{ /* ü {k} */ return [x, {a}, {b}, arguments.length, {f}.toString()]; }}"),
        1 => format!("const {f} = x => {{ let s = 0; for (let i = 0; i < {k} + x; i++) {{ if (i % 3) continue; s += i; }} return [s, {a}]; }};"),
        2 => format!("class C{i} {{ #p = {a}; static s = {b}; static {{ this.t = [{k}]; }} get p() {{ return this.#p; }} set p(v) {{ this.#p = v; }} static #q() {{ return {k}; }} static q() {{ return C{i}.#q(); }} async *g() {{ yield 1; yield* [2, 3]; }} ['c' + {k}]() {{ return super.toString(); }} }}\nasync function {f}(x) {{ const c = new C{i}(); const o = [c.p, C{i}.s, C{i}.t, C{i}.q(), c['c{k}'](), C{i}.toString().length]; c.p = x; for await (const y of c.g()) o.push(y); return [o, c.p]; }}"),
        3 => format!("function {f}(x) {{ try {{ throw new RangeError({a} + ''); }} catch (e) {{ return [e.stack, e.name]; }} finally {{ x++; }} }}"),
        4 => format!("function {f}(x) {{ const o = {{ get a() {{ return {a}; }}, m() {{ return [...'x😀y']; }}, __proto__: {{ z: {k} }} }}; const {{ a, ...rest }} = o; return [a, Object.keys(rest), o.z, o.m(), o?.q?.r ?? x]; }}"),
        5 => format!("function* gen{i}(n) {{ let y = {k}; while (n-- > 0) y = (yield y * 2) ?? y + 1; return 'done'; }}\nfunction {f}(x) {{ const g = gen{i}(x % 7); return [...g, g.next()]; }}"),
        6 => format!("async function {f}(x) {{ await null; const r = []; await Promise.all([3, 1, 2].map(async n => {{ for (let i = 0; i < n; i++) await 0; r.push(n); }})); return [r, {a}]; }}"),
        7 => format!("function tag{i}(s, ...v) {{ (tag{i}.seen ??= new Set()).add(s); return [s.raw.join('|'), s, v, tag{i}.seen.size, Object.isFrozen(s)]; }}\nfunction {f}(x) {{ return tag{i}`a\\n${{x}}\\u{{1F600}}${{ {a} }}`; }}"),
        8 => format!("function {f}(x) {{ 'use strict'; try {{ undeclared{i} = x; }} catch (e) {{ return [e.message, this === undefined]; }} }}"),
        9 => format!("var {f} = function (x) {{ return typeof late{i} + eval('x + {k}') + new Function('a', 'return a * {k}')(x); }}; var late{i} = {k};"),
        10 => format!("function {f}(x) {{ switch (x % 5) {{ case 0: return 'null'; case {}: {{ break; }} case 3: default: x += {k}; case 1: x++; }} outer: for (const i of [1, 2, 3]) {{ for (const j in {{ a: 1, b: 2 }}) {{ if (i == 2) continue outer; if (j == 'b') break outer; x += j; }} }} return x; }}", r.range(2, 4)),
        11 => format!("function {f}(x) {{ const m = {}.exec('xaßßy'); return [m && m.groups && m.groups.n, 'aXbX'.replace(/x/gi, (s, o) => o), /(?<!\\d)\\p{{L}}+/u.exec('1é2ü')?.[0], {k}]; }}", "/a(?<n>.)ß+/iu"),
        12 => format!("const big{i} = {{ {} }};\nfunction {f}(x) {{ return JSON.stringify(big{i}).length + Object.keys(big{i})[x % 40]; }}", (0..r.range(40, 300)).map(|j| format!("k{j}: {}", lit(r).replace('n', "") .replace("u\"", "\""))).map(|s| if s.contains("udefied") || s.contains("ull") && !s.contains('"') || s.contains('/') || s.contains('`') || s.contains('\\') { s.split(':').next().unwrap().to_string() + ": 0" } else { s }).collect::<Vec<_>>().join(", ")),
        13 => format!("const {f} = (() => {{ let n = {k}; return (x) => [n++, x, (() => n)()]; }})();"),
        14 => format!("function {f}(x) {{ const deep = n => n ? deep(n - 1) : new Error({a} + 'e').stack; return deep(x % 4); }}"),
        15 => format!("function {f}(x) {{ return [({a}) === ({a}), typeof ({b}), String({b}), Number('0x1f'), 0b101, 0o17, 1_000, .5e-3, {k} ** 3, x << 33, -x >>> 1]; }}"),
        16 => format!("function ünïcödé{i}(ñ) {{ const 变量 = {k}; return `${{ñ}}·${{变量}}·\u{2029}·😀`; }}\nconst {f} = ünïcödé{i};"),
        17 => format!("async function {f}(x) {{ try {{ await Promise.reject(new TypeError('r{k}')); }} catch ({{ message, name }}) {{ return [message, name, x]; }} }}"),
        18 => format!("function {f}(x, y = x + {k}, ...z) {{ return [x, y, z, {f}.length, {f}.name, (({{ a = {a} }} = {{}}) => a)()]; }}"),
        19 => format!("function {f}(x) {{ const p = new Proxy({{}}, {{ get: (t, k) => typeof k === 'symbol' ? undefined : k + x, has: () => true, ownKeys: () => ['a', 'b'] }}); with_{i}(p); return [p.foo, 'q' in p, Reflect.ownKeys(p)]; }}\nfunction with_{i}(p) {{ return new Function('p', 'with (p) {{ return foo }}')(p); }}"),
        20 => format!("let {f} = class extends Array {{ sum() {{ return this.reduce((a, b) => a + b, {k}); }} }}; {f} = (K => x => {{ const k = K.from([x, 1, 2]); return [k.sum(), k instanceof K, k.map(y => y * 2).sum()]; }})({f});"),
        21 => format!("{{ function inner{i}() {{ return {k}; }} }}\nfunction {f}(x) {{ return [inner{i}(), typeof this, new.target === undefined, void 0, x, delete globalThis['nope{i}']]; }}"),
        22 => format!("function {f}(x) {{ console.log('log', x, {a}); console.warn({b}); return new Date({k}e3).toISOString() + (12345.678).toLocaleString('de-DE') + Math.max(...[1, x]); }}"),
        23 => format!("const sym{i} = Symbol('s{k}');\nfunction {f}(x) {{ const o = {{ [sym{i}]: x, [`k${{x}}`]: 1, async *[Symbol.asyncIterator]() {{ yield x; }} }}; const w = new WeakMap([[o, {k}]]); return [w.get(o), String(sym{i}), Object.getOwnPropertySymbols(o).length, new Map([[NaN, x]]).get(NaN)]; }}"),
        24 => format!("function {f}(x) {{ const a = new Uint8Array([x, {k}, 300]); const b = new DataView(a.buffer); return [...a, b.getUint16(0), btoa(String.fromCharCode(...a)), new TextEncoder().encode({}).length, crypto.getRandomValues(new Uint8Array(4)).length]; }}", js(&words(r, 4))),
        _ => format!("function {f}(x) {{ {} return s; }}", { let mut s = "let s = 0;".to_string(); for j in 0..r.range(50, 400) { s += &format!(" if (x === {j}) s += {}; else s -= {j};", r.below(1000)); } s }),
    }
}
#[derive(Clone)]
struct Program { src: String, task: bool, what: String }
fn program(r: &mut Rng) -> Program {
    let n = match r.below(4) { 0 => 1, 1 => r.range(20, 60), _ => r.range(2, 12) };
    let mut src = String::new();
    let mut what = String::new();
    if r.chance(1, 8) { src.push_str("#!/usr/bin/env node\n"); what.push_str("hashbang "); }
    if r.chance(1, 6) { src.push_str("'use strict';\n"); what.push_str("strict "); }
    let wide = r.chance(1, 2);
    let mut pieces: Vec<String> = (0..n).map(|i| piece(r, i)).collect();
    if !wide { for p in &mut pieces { *p = p.chars().map(|c| if c.is_ascii() { c } else { 'u' }).collect(); } }
    if wide { what.push_str("two-byte "); }
    src.push_str(&pieces.join("\n"));
    let names = (0..n).map(|i| format!("f{i}")).collect::<Vec<_>>().join(", ");
    src.push_str(&format!("\nconst FS = [{names}]; let served = 0;\nconst show = v => JSON.stringify(v, (k, x) => x === undefined ? '<u>' : typeof x === 'bigint' ? x + 'n' : typeof x === 'symbol' ? String(x) : x instanceof RegExp ? String(x) : Object.is(x, -0) ? '<-0>' : typeof x === 'function' ? x.toString() : x);\nasync function all(x) {{ const o = []; for (const f of FS) {{ try {{ o.push(await f(x)); }} catch (e) {{ o.push(['threw', e.name, e.message, e.stack]); }} }} return o; }}\n"));
    let task = r.chance(1, 6);
    let end = match r.below(10) {
        0 => { what.push_str("throws "); format!("throw new SyntaxError({} + '');", lit(r)) }
        1 => { what.push_str("handler-throws "); "addEventListener('fetch', e => { null.x; }); addEventListener('task', e => { null.x; });".into() }
        2 => { what.push_str("stream "); "addEventListener('fetch', e => e.respondWith((async () => { const a = (await all(served++)).map(show); return new Response(new ReadableStream({ start(c) { for (const s of a) c.enqueue(new TextEncoder().encode(s + '\\n')); c.close(); } }), { status: 203, headers: { 'x-n': String(a.length) } }); })())); addEventListener('task', e => e.waitUntil(all(1)));".into() }
        3 | 4 => { what.push_str("module "); "globalThis.default = { async fetch(q, env, ctx) { ctx.waitUntil(all(2).then(v => console.info(show(v)))); return new Response(show([q.url, await all(served++)])); }, async task(e) { return { data: show(await all(3)) }; } };".into() }
        _ => "addEventListener('fetch', e => e.respondWith((async () => new Response(show(await all(served++)), { headers: [['x-a', '1'], ['x-a', '2']] }))())); addEventListener('task', e => e.respondWith({ success: true, data: served++ }));".into(),
    };
    src.push_str(&end);
    Program { src, task, what: format!("{what}{n} pieces{}", if task { " task" } else { "" }) }
}
fn outcome(o: &Out, ops: &Mock) -> Value {
    let logs: Vec<String> = ops.logs().iter().map(|(l, m)| format!("{l:?} {m}")).collect();
    // (plain workers add the stack to what a plain script throws)
    let exec = match &o.exec { Err(TerminationReason::Exception(m)) => format!("Exception {}", m.split('\n').next().unwrap_or("")), x => format!("{x:?}") };
    json!({ "exec": exec, "resp": o.resp.as_ref().map(|r| json!([r.status, r.headers, r.text()])), "task": format!("{:?}", o.task), "logs": logs, "odd": [o.hung, o.panicked] })
}
static REJECTED: AtomicU64 = AtomicU64::new(0);
/// Counts the runtime's warnings about caches that V8 did not accept.
struct Ear;
struct HasRejected(bool);
impl tracing::field::Visit for HasRejected { fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) { if f.name() == "message" && format!("{v:?}").contains("cache rejected") { self.0 = true; } } }
impl tracing::Subscriber for Ear {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool { *m.level() <= tracing::Level::WARN }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) { let mut v = HasRejected(false); e.record(&mut v); if v.0 { REJECTED.fetch_add(1, SeqCst); } }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
/// Another process of the host: `--in` a JSON list of sources, `--out` the list of their caches.
pub fn child(c: &mut Ctx) {
    let srcs: Vec<String> = serde_json::from_slice(&std::fs::read(c.opt("--in").unwrap()).unwrap()).unwrap();
    let out: Vec<Option<Vec<u8>>> = srcs.iter().map(|s| rt::create_code_cache(s).ok()).collect();
    std::fs::write(c.opt("--out").unwrap(), serde_json::to_vec(&out).unwrap()).unwrap();
}
pub fn surface_child(c: &mut Ctx) {
    let l = on_local(surface());
    std::fs::write(c.opt("--out").unwrap(), serde_json::to_vec(&l).unwrap()).unwrap();
}
fn other_process(args: &[&str], dir: &std::path::Path) -> bool {
    // (the host's libraries, as this process has them)
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let lib = |n: &str| maps.lines().filter_map(|l| l.split_whitespace().last()).find(|p| p.rsplit('/').next().is_some_and(|f| f.starts_with(n) && f.ends_with(".so"))).unwrap_or("").to_string();
    std::process::Command::new("/usr/bin/node").args(args).env("LD_PRELOAD", format!("{}:{}", lib("libshim"), lib("libowh-"))).current_dir(dir).stdout(std::process::Stdio::null()).status().is_ok_and(|s| s.success())
}
struct Scratch(std::path::PathBuf);
impl Scratch { fn new() -> Scratch { let p = std::env::temp_dir().join(format!("owh-cache-{}-{:x}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos())); std::fs::create_dir_all(&p).unwrap(); Scratch(p) } fn f(&self, n: &str) -> String { self.0.join(n).to_string_lossy().into_owned() } }
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

async fn same_behaviour(rep: Report, mut r: Rng, how: How, i: usize, given: Option<Arc<(Program, Vec<u8>)>>) {
    let (p, cache) = match &given { Some(g) => (g.0.clone(), Ok(g.1.clone())), None => { let p = program(&mut r); let c = if r.chance(1, 2) { rt::create_code_cache(&p.src) } else { let s = p.src.clone(); std::thread::spawn(move || rt::create_code_cache(&s)).join().unwrap() }; (p, c) } };
    let how_ = match r.below(8) { 0 => "empty", 1 => "truncated", 2 => "foreign", _ => "matching" };
    let what = format!("{} {how_} {}{} {:x}", how.mode, if given.is_some() { "elsewhere " } else { "" }, p.what, hash_of(&p.src));
    rep.case(what.clone());
    let Ok(cache) = cache else { if std::env::var("OWH_TRACE").is_ok() { eprintln!("{}", p.src); } rep.viol("create", format!("{what}: {:?} for {}", cache.err(), p.src)); return };
    rep.count("caches", 1);
    let bytes = match how_ { "empty" => vec![], "truncated" => cache[..r.below(cache.len())].to_vec(), "foreign" => rt::create_code_cache(&format!("{}\n;{}", p.src, "'x';".repeat(r.range(1, 30)))).unwrap_or_default(), _ => cache };
    let before = REJECTED.load(SeqCst);
    let n = r.range(1, 3);
    let mut all: Vec<Vec<Value>> = vec![];
    for (k, code) in [WorkerCode::js(p.src.clone()), WorkerCode::snapshot(rt::pack_code_cache(&p.src, &bytes))].into_iter().enumerate() {
        let mut seen = vec![];
        for _ in 0..n {
            let ops = Mock::none();
            let ev = if p.task { ev_task("t", Some(json!({ "a": 1 })), None, 1) } else { ev_fetch(get("http://h/p?q=1")) };
            let o = how.run(&Pin::new("o", &format!("c{i}-{k}")), Script::new(code.clone()), ops.clone(), ev).await;
            let mut v = outcome(&o, &ops);
            if how.pool { rep.count("pooled_runs", 1); } 
            // the outcome of work left behind may come in either order with the end of the execution
            if p.what.contains("module") { v["logs"] = json!(v["logs"].as_array().unwrap().iter().filter(|l| !l.as_str().unwrap().starts_with("Info")).count() > 0); }
            seen.push(v);
        }
        all.push(seen);
    }
    let d = all[0].iter().zip(&all[1]).position(|(a, b)| a != b);
    rep.check(d.is_none(), &format!("same:{how_}"), || { let (a, b) = (all[0][d.unwrap()].to_string(), all[1][d.unwrap()].to_string()); let at = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(60); let g = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..(at + 600).min(s.len())]).into_owned(); format!("{what}, request {}: from its cache …{:?} instead of …{:?}", d.unwrap(), g(&b), g(&a)) });
    if all[0].iter().any(|v| v["odd"] != json!([false, false])) { rep.viol("odd", format!("{what}: {}", all[0][0])); }
    if all[0][0]["resp"][0] == 200 || all[0][0]["task"] != "None" { rep.count("answered", 1); }
    rep.count(&format!("cache_{how_}"), 1);
    rep.count("runs_compared", n as u64);
    if !how.pool && how_ != "matching" && before == REJECTED.load(SeqCst) && how_ != "empty" { rep.count("accepted_anyway", 1); }
}
async fn broken(rep: Report, mut r: Rng, how: How, i: usize) {
    // bundles that are none, and bundles of scripts that do not compile
    let good = rt::pack_code_cache("addEventListener('fetch', e => e.respondWith(new Response('from the bundle')))", &[]);
    let (data, kind): (Vec<u8>, &str) = match r.below(6) {
        0 => { let n = r.below(good.len() - 30); (good[..n].to_vec(), "cut") }
        1 => { let n = r.below(200); (r.bytes(n), "noise") }
        2 => (vec![], "nothing"),
        3 => { let mut g = good.clone(); g[4..8].copy_from_slice(&u32::MAX.to_le_bytes()); (g, "length") }
        4 => { let mut g = good.clone(); g[20] = 0xff; (g, "utf8") }
        _ => (rt::pack_code_cache(["function (", "let a; let a;", "await 1;", "import x from 'y';", "var \u{2028} = 'x"][r.below(5)], &[]), "syntax"),
    };
    let what = format!("broken {} {kind} {}", how.mode, data.len());
    rep.case(what.clone());
    let w = Pin::new("o", &format!("b{i}"));
    let o = how.run(&w, Script::new(WorkerCode::snapshot(data)), Mock::none(), ev_fetch(get("http://h/"))).await;
    rep.check(!o.hung && !o.panicked && o.exec.is_err() && o.status() != 200, "broken", || format!("{what}: {}", o.brief()));
    rep.check(matches!(o.exec, Err(TerminationReason::Exception(_) | TerminationReason::InitializationError(_))), "broken-reason", || format!("{what}: {}", o.brief()));
    let o = how.run(&w, Script::new(WorkerCode::snapshot(good)), Mock::none(), ev_fetch(get("http://h/"))).await;
    rep.check(o.ok() && o.text() == "from the bundle", "after-broken", || format!("{what}: {}", o.brief()));
    rep.count("broken", 1);
}
/// Sources for which a cache is made, or refused, without running anything.
fn creation(rep: &Report, r: &mut Rng) {
    let deep = |o: &str, c: &str, n: usize| format!("{}1{}", o.repeat(n), c.repeat(n));
    let list: Vec<(&str, String, Option<bool>)> = vec![
        ("endless", "for (;;) {}".into(), Some(true)), ("endless-fn", "(function f() { f() })(); while (true) new Array(1e6);".into(), Some(true)), ("throws", "throw 1".into(), Some(true)),
        ("exits", "globalThis.process.exit(1)".into(), Some(true)), ("empty", "".into(), Some(true)), ("comment", "// ü".into(), Some(true)), ("hashbang", "#!x\n1".into(), Some(true)), ("html-comment", "<!-- x\n1".into(), Some(true)),
        ("undefined names", "Foo.bar(baz)".into(), Some(true)), ("redeclares", "var Response = 1; function Headers() {}".into(), Some(true)),
        ("nul", "'\0'".into(), Some(true)), ("bom", "\u{feff}1".into(), Some(true)), ("separators", "'\u{2028}'".into(), Some(true)), ("big", format!("const a = [{}];", "1234567,".repeat(300_000)), Some(true)), ("big wide", format!("const a = '{}';", "中😀".repeat(200_000)), Some(true)),
        ("many functions", (0..20_000).map(|i| format!("function f{i}() {{ return {i} }}")).collect(), Some(true)),
        ("unclosed", "function (".into(), Some(false)), ("twice", "let a; let a".into(), Some(false)), ("await", "await 1".into(), Some(false)), ("import", "import 'x'".into(), Some(false)), ("export", "export default 1".into(), Some(false)), ("bad regex", "/(/".into(), Some(false)), ("return", "return 1".into(), Some(false)), ("noise", "\u{10ffff}".into(), Some(false)),
        ("deep arrays", deep("[", "]", 200_000), None), ("deep parens", deep("(", ")", 200_000), None), ("deep functions", deep("(function(){return ", "})()", 20_000), None), ("deep blocks", deep("{", "}", 100_000), None), ("deep sums", format!("{}1", "1+".repeat(200_000)), None), ("deep ternaries", format!("{}1", "1?1:".repeat(100_000)), None), ("deep members", format!("a{}", ".b".repeat(100_000)), None), ("deep arrows", format!("{}1", "a=>".repeat(50_000)), None), ("deep templates", deep("`${", "}`", 20_000), None), ("deep classes", deep("(class { static x = ", "})", 5_000), None),
    ];
    for (what, src, want) in list {
        rep.case(format!("create {what}"));
        let t0 = std::time::Instant::now();
        let other = r.chance(1, 2);
        let s2 = src.clone();
        let got = std::panic::catch_unwind(move || if other { std::thread::Builder::new().stack_size(8 << 20).spawn(move || rt::create_code_cache(&s2)).unwrap().join().unwrap_or(Err("panic".into())) } else { rt::create_code_cache(&s2) });
        rep.check(got.is_ok(), "create-panic", || what.to_string());
        let Ok(got) = got else { continue };
        if let Some(w) = want { rep.check(got.is_ok() == w, "create", || format!("{what}: {:?}", got.as_ref().map(|c| c.len()))); }
        rep.check(t0.elapsed().as_secs() < 20, "create-slow", || format!("{what}: {:?}", t0.elapsed()));
        if let Ok(c) = got { rep.check(!c.is_empty() && rt::unpack_code_cache(&rt::pack_code_cache(&src, &c)) == Some((src.as_str(), c.as_slice())), "create-pack", || what.to_string()); }
        rep.count("creations", 1);
    }
}
pub fn cache(c: &mut Ctx) {
    let _ = tracing::subscriber::set_global_default(Ear);
    let how = How::of(c, |l| { l.max_wall_clock_time_ms = 15_000; });
    let mut rr = c.rng.fork();
    creation(&c.rep.clone(), &mut rr);
    // caches that other processes made, with and without a runtime snapshot
    let dir = Scratch::new();
    let progs: Vec<Program> = (0..c.n(60, 600)).map(|_| program(&mut rr)).collect();
    std::fs::write(dir.f("in"), serde_json::to_vec(&progs.iter().map(|p| &p.src).collect::<Vec<_>>()).unwrap()).unwrap();
    let mut elsewhere: Vec<Arc<(Program, Vec<u8>)>> = vec![];
    for (k, d) in [std::env::current_dir().unwrap(), dir.0.clone()].iter().enumerate() {
        c.rep.case(format!("another process {k}"));
        let ok = other_process(&["cache-child", "--in", &dir.f("in"), "--out", &dir.f("out")], d);
        let l: Vec<Option<Vec<u8>>> = std::fs::read(dir.f("out")).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
        c.rep.check(ok && l.len() == progs.len() && l.iter().all(|x| x.is_some()), "elsewhere", || format!("another process made {} of {} caches", l.iter().flatten().count(), progs.len()));
        elsewhere.extend(progs.iter().zip(l).filter_map(|(p, x)| Some(Arc::new((p.clone(), x?)))));
        let _ = std::fs::remove_file(dir.f("out"));
    }
    // a cache that matches its source is accepted
    let before = REJECTED.load(SeqCst);
    on_local(async { for (i, e) in elsewhere.iter().enumerate().take(12) {
        c.rep.case(format!("accept {} {i}", how.mode));
        let o = how.run(&Pin::new("o", &format!("acc{i}")), Script::new(WorkerCode::snapshot(rt::pack_code_cache(&e.0.src, &e.1))), Mock::none(), ev_fetch(get("http://h/"))).await;
        c.rep.check(!o.hung && !o.panicked, "accept-end", || o.brief());
    } });
    c.rep.check(REJECTED.load(SeqCst) == before, "rejected", || format!("{} of 12 matching caches were rejected", REJECTED.load(SeqCst) - before));
    c.rep.count("accepted", 12);
    let (rep, n) = (c.rep.clone(), c.n(700, 60_000));
    how_threads(c, n, |r, i| { let (rep, how) = (rep.clone(), how.clone()); let g = (i % 4 == 1).then(|| elsewhere[i % elsewhere.len()].clone()); Box::new(move || if i % 12 == 5 { broken(rep, r, how, i).boxed_local() } else { same_behaviour(rep, r, how, i, g).boxed_local() }) });
    rep.count("rejected", REJECTED.load(SeqCst));
}

// ---------------------------------------------------------------- the runtime snapshot
async fn surface() -> Value {
    let s = format!("{LOOK}\nconst top = look(2).lines; addEventListener('fetch', e => e.respondWith(new Response(JSON.stringify([top, look(2).lines]))));");
    let o = worker_once(Script::new(s), roomy(), Mock::none(), ev_fetch(get("http://h/"))).await;
    if o.ok() && o.status() == 200 { o.json() } else { json!(o.brief()) }
}
pub fn snapshot(c: &mut Ctx) {
    let rep = c.rep.clone();
    let dir = Scratch::new();
    let mut all = vec![];
    for (k, d) in [std::env::current_dir().unwrap(), dir.0.clone()].iter().enumerate() {
        rep.case(format!("surface {}", if k == 0 { "with snapshot" } else { "without snapshot" }));
        let ok = other_process(&["surface-child", "--out", &dir.f("out")], d);
        let v: Value = std::fs::read(dir.f("out")).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
        rep.check(ok && v.is_array(), "surface-child", || format!("{k}: {}", v.to_string().chars().take(600).collect::<String>()));
        let _ = std::fs::remove_file(dir.f("out"));
        all.push(v);
    }
    rep.check(rt::platform::get_snapshot().is_some(), "no-snapshot", || "the runtime snapshot could not be created or loaded".into());
    for (at, name) in ["top level", "handler"].iter().enumerate() {
        rep.case(format!("compare {name}"));
        let lines = |v: &Value| -> std::collections::BTreeSet<String> { v[at].as_array().into_iter().flatten().map(|l| { // (the order of the globals is that of their creation)
            let mut k: Vec<&str> = l.as_str().unwrap_or("").split('|').collect(); k[1..].sort(); k.join("|") }).collect() };
        let (a, b) = (lines(&all[0]), lines(&all[1]));
        let (x, y): (Vec<_>, Vec<_>) = (a.difference(&b).collect(), b.difference(&a).collect());
        rep.check(x.is_empty() && y.is_empty() && !a.is_empty(), "surface", || { let (p, q) = (x.first().map_or("", |s| s), y.first().map_or("", |s| s)); let k = p.bytes().zip(q.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(30); let g = |s: &str| String::from_utf8_lossy(&s.as_bytes()[k.min(s.len())..(k + 300).min(s.len())]).into_owned(); format!("{name}: {} of {} objects differ, e.g. {} …{:?} with, …{:?} without snapshot", x.len().max(y.len()), b.len(), p.split(' ').next().unwrap_or(""), g(p), g(q)) });
        rep.count("surface_objects", a.len() as u64);
    }
    // creating one is repeatable, and harms no one who runs meanwhile
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    std::thread::scope(|t| {
        for _ in 0..3 { let (stop, rep) = (stop.clone(), rep.clone()); t.spawn(move || on_local(async move { while !stop.load(SeqCst) {
            let o = worker_once(fetch_script("return new Response('x' + new Headers([['a', 'b']]).get('a') + new URL('http://q/z').pathname)"), roomy(), Mock::none(), ev_fetch(get("http://h/"))).await;
            rep.check(o.ok() && o.text() == "xb/z", "meanwhile", || o.brief());
            rep.beat(); rep.count("meanwhile", 1);
        } })); }
        for i in 0..c.n(6, 40) {
            if !c.time_left() { break; }
            rep.case(format!("create snapshot {i}"));
            let r = rt::create_runtime_snapshot();
            rep.check(r.as_ref().is_ok_and(|s| s.output.len() > 10_000), "create-snapshot", || format!("{:?}", r.as_ref().map(|s| s.output.len())));
            rep.count("snapshots", 1);
        }
        stop.store(true, SeqCst);
    });
    rep.drain_panics();
}
