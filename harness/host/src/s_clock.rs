//! C31: the clocks a script can read.
use crate::kit::*;
use crate::s_life::How;
use openworkers_core::*;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

const CLOCK: &str = r#"
const born = Math.random().toString(36) + Math.random().toString(36);
async function clock(plan, tag) {
  const st = { n: 0, off: 0, back: 0, fine: 0, odd: 0 }, marks = [], values = new Set();
  let last = -1, n = 0;
  const detached = performance.now;
  const now = (k = 0) => {
    const v = k === 1 ? detached() : k === 2 ? performance.now.call(null, 1, 2) : performance.now();
    st.n++;
    if (typeof v !== 'number' || !(v >= 0)) st.odd++;
    if (Math.abs(v * 10 - Math.round(v * 10)) > 1e-5) st.off++;
    if (v < last) st.back++;
    if (v > last && last >= 0 && v - last < 0.0999) st.fine++;
    last = v;
    return v;
  };
  const date = () => { const d = Date.now(); if (!Number.isInteger(d)) st.odd++; return d; };
  const mark = async () => {
    const id = tag + '.' + n++, d1 = date(), p1 = now(n % 3);
    const r = await fetch('http://m/' + id);
    const p2 = now(n % 3), d2 = date();
    marks.push([id, p1, p2, d1, d2]);
    await r.text();
  };
  for (const [k, x] of plan) {
    if (k === 'burst') { for (let i = 0; i < x * 400; i++) now(i % 3); }
    else if (k === 'spin') { const t = date() + x; while (date() < t) now(); }
    else if (k === 'sleep') { now(); await new Promise(f => setTimeout(f, x)); now(); }
    else if (k === 'micro') { for (let i = 0; i < x; i++) { await null; now(); } }
    else if (k === 'both') await Promise.all([mark(), mark(), (async () => { await null; now(); })()]);
    else await mark();
  }
  return { born, st, marks };
}
addEventListener('fetch', e => e.respondWith((async () => { const q = await e.request.json(); return new Response(JSON.stringify(await clock(q.plan, q.tag))); })()));
"#;

struct Origin { lo: f64, hi: f64, first: String }

pub fn clock(c: &mut Ctx) {
    let how = How::of(c, |_| {});
    let base = Instant::now();
    let ms = move |i: Instant| i.duration_since(base).as_nanos() as f64 / 1e6;
    let wall = || SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_nanos() as f64 / 1e6;
    let seen: Arc<Mutex<HashMap<String, (f64, f64)>>> = Default::default();
    let origins: Arc<Mutex<HashMap<String, Origin>>> = Default::default();
    let (s2, base2) = (seen.clone(), base);
    let ops = Mock::new(move |i, op| { if let Op::Fetch(q) = &op { s2.lock().unwrap().insert(q.url.rsplit('/').next().unwrap_or("").to_string(), (base2.elapsed().as_nanos() as f64 / 1e6, SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_nanos() as f64 / 1e6)); } async move { tokio::time::sleep(Duration::from_micros((i % 7) as u64 * 300)).await; Reply::Http(Ok(text_response(200, "m"))) } });
    let (rep, h, n) = (c.rep.clone(), how.clone(), c.n(400, 20_000));
    how.clone().campaign(c, n, 8, move |mut rng, i| {
        let (rep, how, ops, seen, origins) = (rep.clone(), h.clone(), ops.clone(), seen.clone(), origins.clone());
        Box::new(move || Box::pin(async move {
            let plan: Vec<Value> = (0..rng.range(2, 7)).map(|_| { let (k, x) = match rng.below(7) { 0 => ("burst", rng.range(1, 12)), 1 => ("spin", rng.range(1, 6)), 2 => ("sleep", rng.below(12)), 3 => ("micro", rng.range(1, 40)), 4 => ("both", 0), _ => ("mark", 0) }; json!([k, x]) }).chain([json!(["mark", 0])]).collect();
            let (wid, tag) = (format!("w{}", rng.below(2)), format!("{i}-{}", rng.below(1 << 30)));
            let what = format!("{} clock {wid} {}", how.mode, Value::from(plan.clone()));
            rep.case(what.clone());
            let (t0, w0) = (ms(Instant::now()), wall());
            let o = how.run(&Pin::new("o", &wid), Script::new(CLOCK), ops, ev_fetch(post("http://h/", json!({ "plan": plan, "tag": tag }).to_string()))).await;
            let (t1, w1) = (ms(Instant::now()), wall());
            if !o.ok() || o.status() != 200 { rep.viol("clock:run", format!("{what}: {}", o.brief())); return; }
            let r = o.json();
            let st = |k: &str| r["st"][k].as_u64().unwrap_or(u64::MAX);
            rep.count("readings", st("n"));
            for (k, sig, say) in [("back", "clock-back", "performance.now() went back"), ("off", "clock-grid", "readings which are no multiple of 0.1 ms"), ("fine", "clock-fine", "two readings less than 0.1 ms apart"), ("odd", "clock-odd", "readings which are no time")] { rep.check(st(k) == 0, sig, || format!("{what}: {say}: {} of {}", st(k), st("n"))); }
            let born = r["born"].as_str().unwrap_or("").to_string();
            let mut all = origins.lock().unwrap();
            let fresh = !all.contains_key(&born);
            let g = all.entry(born).or_insert(Origin { lo: t0, hi: t1, first: what.clone() });
            rep.count(if fresh { "contexts" } else { "contexts_again" }, 1);
            for m in r["marks"].as_array().into_iter().flatten() {
                let (id, v) = (m[0].as_str().unwrap_or(""), |k: usize| m[k].as_f64().unwrap_or(f64::NAN));
                let Some((at, sys)) = seen.lock().unwrap().remove(id) else { rep.viol("clock-mark", format!("{what}: operation {id} never arrived")); continue };
                rep.count("marks", 1);
                // the operation arrived between the two readings
                g.hi = g.hi.min(at - v(1));
                g.lo = g.lo.max(at - v(2) - 0.1);
                rep.check(g.lo <= g.hi + 0.002, "clock-rate", || format!("{what}: {id} arrived at {at:.3} ms between performance.now() = {} and {}; the context's clock cannot have started anywhere: not before {:.3}, not after {:.3} (made by {})", v(1), v(2), g.lo, g.hi, g.first));
                rep.check(v(3) <= sys + 1.0 && sys <= v(4) + 1.0 + 0.01, "clock-date", || format!("{what}: {id} arrived at {sys:.3} between Date.now() = {} and {}", v(3), v(4)));
                if w1 - w0 < 0.0 { rep.inconclusive("the system clock was set back"); }
            }
            rep.seen(&what);
        }))
    }, || {});
}
