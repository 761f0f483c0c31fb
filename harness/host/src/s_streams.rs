//! C07: StreamManager against a sequential model and under concurrent producers/consumers.
use crate::kit::*;
use bytes::Bytes;
use futures::FutureExt;
use openworkers_runtime_v8::runtime::stream_manager::{StreamChunk, StreamManager};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
enum C { D(u64), Done, Err(u64) }
/// chunks come in many sizes; what is in them follows from their number
fn data(n: u64) -> Bytes {
    let pad = [0usize, 0, 0, 1, 2, 9, 300, 5000, 70_000][(hash_of(&n) % if n % 16 == 3 { 9 } else { 7 }) as usize];
    let mut v = n.to_le_bytes().to_vec();
    v.resize(8 + pad, n as u8);
    Bytes::from(v)
}
fn undata(b: &[u8]) -> u64 {
    let n = b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(u64::MAX);
    if n != u64::MAX && data(n) == b { n } else { u64::MAX - 1 }
}
fn chunk(c: &C) -> StreamChunk { match c { C::D(n) => StreamChunk::Data(data(*n)), C::Done => StreamChunk::Done, C::Err(n) => StreamChunk::Error(format!("e{n}")) } }
fn unchunk(c: &StreamChunk) -> C { match c { StreamChunk::Data(b) => C::D(undata(b)), StreamChunk::Done => C::Done, StreamChunk::Error(e) => C::Err(e[1..].parse().unwrap_or(u64::MAX)) } }

#[derive(PartialEq, Clone, Copy, Debug)]
enum Rdr { Here, Taken, Gone }
struct M { q: VecDeque<C>, sender: bool, rdr: Rdr, info: Option<String>, taken: Option<tokio::sync::mpsc::Receiver<StreamChunk>> }

pub fn model(c: &mut Ctx) {
    let rounds = c.n(400, 6000);
    for round in 0..rounds {
        if !c.time_left() { break; }
        let mut r = c.rng.fork();
        let hwm = *r.pick(&[1usize, 1, 2, 3, 5, 16]);
        let rep = c.rep.clone();
        let mut trace: Vec<String> = vec![];
        rep.quick_case(&format!("model hwm={hwm} round={round}"));
        tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(tokio::task::unconstrained(async {
            let sm = StreamManager::with_high_water_mark(hwm);
            let mut m: BTreeMap<u64, M> = BTreeMap::new();
            let mut ever: HashSet<u64> = HashSet::new();
            let mut next = 0u64;
            for _ in 0..r.range(10, 80) {
                let ids: Vec<u64> = m.keys().copied().collect();
                let id = if ids.is_empty() || r.chance(1, 12) { *r.pick(&[0u64, 999, ids.first().copied().unwrap_or(7) + 1000]) } else { *r.pick(&ids) };
                let op = r.below(100);
                next += 1;
                let fail = |what: &str, t: &Vec<String>| format!("{what}; hwm={hwm}; trace: {}", t.join(" "));
                if op < 12 {
                    let url = format!("http://u/{next}");
                    let id = sm.create_stream(url.clone());
                    trace.push(format!("create={id}"));
                    rep.check(ever.insert(id), "id-reused", || fail(&format!("stream id {id} handed out twice"), &trace));
                    m.insert(id, M { q: VecDeque::new(), sender: true, rdr: Rdr::Here, info: Some(url), taken: None });
                } else if op < 50 {
                    let ch = match r.below(12) { 0 => C::Done, 1 => C::Err(next), _ => C::D(next) };
                    let asynchronous = r.chance(1, 2);
                    let got = if asynchronous { match sm.write_chunk(id, chunk(&ch)).now_or_never() { None => "pending", Some(Ok(())) => "ok", Some(Err(_)) => "err" } }
                        else { match sm.try_write_chunk(id, chunk(&ch)) { Ok(()) => "ok", Err(_) => "err" } };
                    let want = match m.get_mut(&id) {
                        Some(s) if s.sender => {
                            if s.rdr == Rdr::Gone { s.sender = false; "err" }
                            else if s.q.len() >= hwm { if asynchronous { "pending" } else { "err" } }
                            else { s.q.push_back(ch.clone()); "ok" }
                        }
                        _ => "err",
                    };
                    trace.push(format!("{}write({id},{ch:?})={got}", if asynchronous { "" } else { "try_" }));
                    rep.eq("write-outcome", got, want, || fail("write", &trace));
                } else if op < 80 {
                    let got = match sm.read_chunk(id).now_or_never() { None => "pending".to_string(), Some(Ok(ch)) => format!("{:?}", unchunk(&ch)), Some(Err(_)) => "err".into() };
                    // a dropped pending read gives the receiver up: model it as reader gone
                    let want = match m.get_mut(&id) {
                        Some(s) if s.rdr == Rdr::Here => match s.q.pop_front() {
                            Some(ch) => { if !matches!(ch, C::D(_)) { s.rdr = Rdr::Gone; s.q.clear(); } format!("{ch:?}") }
                            None if s.sender => { s.rdr = Rdr::Gone; "pending".into() }
                            None => { s.rdr = Rdr::Gone; "err".into() }
                        },
                        _ => "err".into(),
                    };
                    trace.push(format!("read({id})={got}"));
                    rep.eq("read-outcome", got, want, || fail("read", &trace));
                } else if op < 86 {
                    let got = sm.take_receiver(id);
                    trace.push(format!("take({id})={}", got.is_some()));
                    let want = m.get(&id).is_some_and(|s| s.rdr == Rdr::Here);
                    rep.eq("take-outcome", got.is_some(), want, || fail("take_receiver", &trace));
                    if let (Some(s), Some(rx)) = (m.get_mut(&id), got) { s.rdr = Rdr::Taken; s.taken = Some(rx); }
                } else if op < 92 {
                    if let Some(s) = m.get_mut(&id) && let Some(mut rx) = s.taken.take() {
                        if r.chance(1, 4) { s.rdr = Rdr::Gone; s.q.clear(); trace.push(format!("drop_taken({id})")); }
                        else {
                            let got = rx.try_recv().ok().map(|x| unchunk(&x));
                            trace.push(format!("recv_taken({id})={got:?}"));
                            rep.eq("taken-outcome", got, s.q.pop_front(), || fail("taken receiver", &trace));
                            s.taken = Some(rx);
                        }
                    }
                } else if op < 98 {
                    sm.close_stream(id);
                    trace.push(format!("close({id})"));
                    if let Some(s) = m.get_mut(&id) { s.sender = false; s.info = None; if s.rdr == Rdr::Here { s.rdr = Rdr::Gone; s.q.clear(); } }
                } else {
                    sm.clear();
                    trace.push("clear".into());
                    for s in m.values_mut() { s.info = None; if s.rdr != Rdr::Taken { s.sender = false; s.rdr = Rdr::Gone; s.q.clear(); } }
                }
                // observers
                for (id, s) in &m {
                    rep.eq("info", sm.get_stream_info(*id), s.info.clone(), || fail(&format!("get_stream_info({id})"), &trace));
                    // a sender whose reader went away may be forgotten lazily, never the reverse
                    if s.rdr != Rdr::Gone || !s.sender { rep.eq("has-sender", sm.has_sender(*id), s.sender, || fail(&format!("has_sender({id})"), &trace)); }
                }
                let lo = m.values().filter(|s| s.sender && s.rdr != Rdr::Gone).count();
                let hi = m.values().filter(|s| s.sender).count();
                let n = sm.active_count();
                rep.check(n >= lo && n <= hi, "active-count", || fail(&format!("active_count {n}, expected {lo}..={hi}"), &trace));
            }
        }));
        c.rep.seen(&trace.join(" "));
        c.rep.count("model_ops", trace.len() as u64);
    }
}

/// One operation at a time, but reads and writes which have to wait stay in flight.
#[derive(PartialEq, Clone, Copy, Debug)]
enum R2 { Here, Taken, Gone, Reading }
struct S2 { q: VecDeque<C>, sender: bool, open: bool, rdr: R2, writers: VecDeque<(u64, C)>, taken: Option<tokio::sync::mpsc::Receiver<StreamChunk>>, loose: bool }
type Fut = std::pin::Pin<Box<dyn Future<Output = Result<Option<C>, String>>>>;
fn settle(s: &mut S2, hwm: usize, reader: Option<u64>, out: &mut BTreeMap<u64, Result<Option<C>, ()>>) {
    loop {
        if s.rdr == R2::Gone { for (op, _) in s.writers.drain(..) { s.sender = false; out.insert(op, Err(())); } s.q.clear(); return; }
        if s.q.len() < hwm && let Some((op, c)) = s.writers.pop_front() { s.q.push_back(c); out.insert(op, Ok(None)); continue; }
        if s.rdr == R2::Reading {
            if let Some(c) = s.q.pop_front() {
                s.rdr = if matches!(c, C::D(_)) && s.open { R2::Here } else { R2::Gone };
                out.insert(reader.unwrap(), Ok(Some(c)));
                continue;
            }
            if !s.sender { s.rdr = R2::Gone; out.insert(reader.unwrap(), Err(())); continue; }
        }
        return;
    }
}
pub fn inflight(c: &mut Ctx) {
    let rounds = c.n(1500, 40_000);
    for round in 0..rounds {
        if !c.time_left() { break; }
        let mut r = c.rng.fork();
        let hwm = *r.pick(&[1usize, 1, 2, 3]);
        let rep = c.rep.clone();
        rep.quick_case(&format!("inflight hwm={hwm} round={round}"));
        let sm = Arc::new(StreamManager::with_high_water_mark(hwm));
        let (mut m, mut futs, mut reading): (BTreeMap<u64, S2>, BTreeMap<u64, (u64, Fut)>, BTreeMap<u64, u64>) = Default::default();
        let mut trace: Vec<String> = vec![];
        let mut op = 0u64;
        'history: for _ in 0..r.range(10, 60) {
            op += 1;
            if m.len() < 2 || (m.len() < 4 && r.chance(1, 10)) {
                let id = sm.create_stream(String::new());
                trace.push(format!("create={id}"));
                if !rep.check(!m.contains_key(&id), "id-reused", || format!("id {id} again; {}", trace.join(" "))) { break; }
                m.insert(id, S2 { q: VecDeque::new(), sender: true, open: true, rdr: R2::Here, writers: VecDeque::new(), taken: None, loose: false });
                continue;
            }
            let ids: Vec<u64> = m.keys().copied().collect();
            let id = *r.pick(&ids);
            let mut expect = BTreeMap::new();
            {
                let s = m.get_mut(&id).unwrap();
                match r.below(20) {
                    0..=6 => {
                        let ch = match r.below(14) { 0 => C::Done, 1 => C::Err(op), _ => C::D(op) };
                        trace.push(format!("w{op}({id},{ch:?})"));
                        let (sm2, x) = (sm.clone(), chunk(&ch));
                        futs.insert(op, (id, Box::pin(async move { sm2.write_chunk(id, x).await.map(|_| None) })));
                        if !s.sender { expect.insert(op, Err(())); } else { s.writers.push_back((op, ch)); }
                    }
                    7 => {
                        let got = sm.try_write_chunk(id, chunk(&C::D(op))).is_ok();
                        trace.push(format!("try{op}({id})={got}"));
                        let want = s.sender && s.rdr != R2::Gone && s.q.len() < hwm;
                        if !rep.check(got == want, "inflight-try-write", || format!("try_write_chunk gave {got}, expected {want}; hwm={hwm} {}", trace.join(" "))) { break 'history; }
                        if want { s.q.push_back(C::D(op)); } else if s.rdr == R2::Gone { s.sender = false; }
                    }
                    8..=14 => {
                        trace.push(format!("r{op}({id})"));
                        let sm2 = sm.clone();
                        futs.insert(op, (id, Box::pin(async move { sm2.read_chunk(id).await.map(|x| Some(unchunk(&x))) })));
                        if s.rdr == R2::Here { s.rdr = R2::Reading; reading.insert(id, op); } else { expect.insert(op, Err(())); }
                    }
                    15 => {
                        let got = sm.take_receiver(id);
                        trace.push(format!("take({id})={}", got.is_some()));
                        if !rep.check(got.is_some() == (s.rdr == R2::Here), "inflight-take", || format!("take_receiver; {}", trace.join(" "))) { break 'history; }
                        if let Some(rx) = got { s.taken = Some(rx); s.rdr = R2::Taken; }
                    }
                    16 => if let Some(mut rx) = s.taken.take() {
                        if r.chance(1, 4) { trace.push(format!("drop_taken({id})")); s.rdr = R2::Gone; }
                        else {
                            let got = rx.try_recv().ok().map(|x| unchunk(&x));
                            trace.push(format!("recv({id})={got:?}"));
                            if !s.loose && !rep.check(got == s.q.pop_front(), "inflight-taken", || format!("taken receiver; {}", trace.join(" "))) { break 'history; }
                            s.taken = Some(rx);
                        }
                    },
                    17 => { // a waiting read or write is given up
                        let mine: Vec<u64> = futs.iter().filter(|(_, (i, _))| *i == id).map(|(k, _)| *k).collect();
                        if !mine.is_empty() {
                            let k = *r.pick(&mine);
                            trace.push(format!("cancel{k}"));
                            futs.remove(&k);
                            s.writers.retain(|(o, _)| *o != k);
                            if reading.get(&id) == Some(&k) { s.rdr = R2::Gone; }
                        }
                    }
                    18 => {
                        trace.push(format!("close({id})"));
                        sm.close_stream(id);
                        s.sender = false; s.open = false;
                        match s.rdr { R2::Here => s.rdr = R2::Gone, R2::Taken if !s.writers.is_empty() => s.loose = true, _ => {} }
                    }
                    _ => if r.chance(1, 3) {
                        trace.push("clear".into());
                        sm.clear();
                        for s in m.values_mut() { s.open = false; if s.rdr != R2::Taken { s.sender = false; } if s.rdr == R2::Here { s.rdr = R2::Gone; } }
                    },
                }
            }
            for (id, s) in m.iter_mut() { if !s.loose { settle(s, hwm, reading.get(id).copied(), &mut expect); } }
            // what really happens: let every waiting operation run until nothing changes
            let mut got = BTreeMap::new();
            loop {
                let mut progress = false;
                let keys: Vec<u64> = futs.keys().copied().collect();
                for k in keys {
                    let (_, f) = futs.get_mut(&k).unwrap();
                    if let Some(x) = f.as_mut().now_or_never() { futs.remove(&k); got.insert(k, x.map_err(|_| ())); progress = true; }
                }
                if !progress { break; }
            }
            let loose: HashSet<u64> = m.iter().filter(|(_, s)| s.loose).map(|(i, _)| *i).collect();
            if !loose.is_empty() { rep.count("inflight_loose", 1); break; }
            rep.count("inflight_resolved", got.len() as u64);
            rep.max("max_inflight", futs.len() as u64);
            if !rep.check(got == expect, "inflight-outcome", || format!("operations completed {got:?}, expected {expect:?} (op {op}); hwm={hwm}; {}", trace.join(" "))) { break; }
        }
        c.rep.seen(&trace.join(" "));
        c.rep.count("inflight_ops", trace.len() as u64);
    }
}

/// Concurrent producers, consumers, closers on a multi-thread runtime.
pub fn stress(c: &mut Ctx) {
    let rounds = c.n(40, 800);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap();
    for round in 0..rounds {
        if !c.time_left() { break; }
        let mut r = c.rng.fork();
        let hwm = *r.pick(&[1usize, 2, 3, 8]);
        let n = r.range(4, 24);
        let rep = c.rep.clone();
        rep.case(format!("stress round={round} hwm={hwm} streams={n}"));
        let sm = Arc::new(StreamManager::with_high_water_mark(hwm));
        let ids = Arc::new(Mutex::new(HashSet::new()));
        rt.block_on(async {
            let mut js = vec![];
            for k in 0..n {
                let mut r = r.fork();
                let (sm, rep, ids) = (sm.clone(), rep.clone(), ids.clone());
                js.push(tokio::spawn(async move { one_stream(k as u64, hwm, &mut r, sm, rep, ids).await }));
            }
            for j in js { let _ = j.await; rep.beat(); }
        });
        // every stream was ended or closed by its task: nothing may be left behind
        let left = sm.active_count();
        c.rep.check(left == 0, "left-over", || format!("{left} senders remain after every stream was closed"));
    }
}
async fn jitter(r: &mut Rng) {
    match r.below(6) { 0 => tokio::task::yield_now().await, 1 => tokio::time::sleep(Duration::from_micros(r.below(300) as u64)).await, 2 => { for _ in 0..r.below(2000) { std::hint::spin_loop() } } _ => {} }
}
async fn one_stream(k: u64, hwm: usize, r: &mut Rng, sm: Arc<StreamManager>, rep: Report, ids: Arc<Mutex<HashSet<u64>>>) {
    let id = sm.create_stream(format!("u{k}"));
    rep.check(ids.lock().unwrap().insert(id), "id-reused", || format!("concurrent create_stream returned id {id} twice"));
    rep.eq("info", sm.get_stream_info(id), Some(format!("u{k}")), || "get_stream_info right after create".into());
    let total = r.range(0, 120) as u64;
    let mode = r.below(10); // 0..=5 complete, 6 error end, 7 close mid-way, 8 reader drops, 9 two readers
    let written = Arc::new(AtomicU64::new(0));
    let read = Arc::new(AtomicU64::new(0));
    let buffered_max = Arc::new(AtomicI64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let prod = {
        let (sm, written, stop, mut r, rep2) = (sm.clone(), written.clone(), stop.clone(), r.fork(), rep.clone());
        tokio::spawn(async move {
            let mut accepted = vec![];
            for i in 0..total {
                jitter(&mut r).await;
                let ch = StreamChunk::Data(data((k << 32) | i));
                if r.chance(1, 5) {
                    loop {
                        match sm.try_write_chunk(id, ch.clone()) { Ok(()) => break,
                            Err(_) if sm.has_sender(id) && !stop.load(Ordering::SeqCst) => tokio::task::yield_now().await,
                            Err(_) => return (accepted, false) }
                    }
                } else if sm.write_chunk(id, ch).await.is_err() { return (accepted, false); }
                written.fetch_add(1, Ordering::SeqCst);
                accepted.push((k << 32) | i);
            }
            let end = if mode == 6 { StreamChunk::Error("e7".into()) } else { StreamChunk::Done };
            let ok = sm.write_chunk(id, end).await.is_ok();
            rep2.count("stream_ends_written", ok as u64);
            (accepted, ok)
        })
    };
    let mut got = vec![];
    let mut end = None;
    let close_at = r.below(total as usize + 1) as u64;
    let t0 = Instant::now();
    loop {
        jitter(r).await;
        if mode == 7 && read.load(Ordering::SeqCst) >= close_at {
            let sm2 = sm.clone();
            // close from another thread while a read may be in flight
            let h = tokio::spawn(async move { sm2.close_stream(id) });
            if r.chance(1, 2) { if let Ok(Ok(x)) = tokio::time::timeout(Duration::from_secs(10), sm.read_chunk(id)).await { if let C::D(n) = unchunk(&x) { got.push(n) } } }
            let _ = h.await;
            break;
        }
        if mode == 8 && read.load(Ordering::SeqCst) >= close_at { drop(sm.take_receiver(id)); break; }
        let b = written.load(Ordering::SeqCst) as i64 - read.load(Ordering::SeqCst) as i64;
        buffered_max.fetch_max(b, Ordering::SeqCst);
        rep.check(b <= hwm as i64, "backpressure", || format!("{b} chunks accepted but unread with a buffer of {hwm}"));
        match tokio::time::timeout(Duration::from_secs(15), sm.read_chunk(id)).await {
            Err(_) => { rep.viol("reader-stuck", format!("read did not complete: stream {id}, {} written, {} read", written.load(Ordering::SeqCst), read.load(Ordering::SeqCst))); break; }
            Ok(Ok(x)) => { match unchunk(&x) { C::D(n) => { got.push(n); read.fetch_add(1, Ordering::SeqCst); } e => { end = Some(e); break; } } }
            Ok(Err(e)) => { rep.viol("reader-error", format!("read failed on an open stream: {e}")); break; }
        }
    }
    stop.store(true, Ordering::SeqCst);
    let res = tokio::time::timeout(Duration::from_secs(15), prod).await;
    let Ok(Ok((accepted, ended))) = res else { rep.viol("writer-stuck", format!("writer of stream {id} did not finish after its reader ended (mode {mode})")); return; };
    let expect = (0..total).map(|i| (k << 32) | i).collect::<Vec<_>>();
    rep.check(got.len() <= expect.len() && got[..] == expect[..got.len()], "order", || format!("stream {id} delivered {:x?}, expected a prefix of 0..{total} tagged {k:x}", got));
    if mode <= 6 || mode == 9 {
        rep.check(got == expect && ended && accepted.len() as u64 == total, "lost-chunk", || format!("stream {id}: {} of {total} chunks delivered, end written {ended}", got.len()));
        let want = if mode == 6 { C::Err(7) } else { C::Done };
        rep.check(end == Some(want.clone()), "end-marker", || format!("stream {id} ended with {end:?}, expected {want:?}"));
    }
    // afterwards: closed for good
    for _ in 0..2 {
        let w = tokio::time::timeout(Duration::from_secs(10), sm.write_chunk(id, StreamChunk::Data(Bytes::from_static(b"late123!")))).await;
        rep.check(matches!(w, Ok(Err(_))), "late-write", || format!("write after the end of stream {id} (mode {mode}): {:?}", w.map(|x| x.is_ok())));
        let rd = tokio::time::timeout(Duration::from_secs(10), sm.read_chunk(id)).await;
        rep.check(matches!(rd, Ok(Err(_))), "late-read", || format!("read after the end of stream {id} (mode {mode}) gave {rd:?}"));
    }
    rep.check(!sm.has_sender(id), "late-sender", || format!("has_sender({id}) after the end (mode {mode})"));
    if mode == 7 { rep.eq("info-after-close", sm.get_stream_info(id), None, || format!("stream {id} after close")); }
    rep.count("chunks_delivered", got.len() as u64);
    rep.max("max_buffered", buffered_max.load(Ordering::SeqCst).max(0) as u64);
    rep.seen(&format!("k{k} mode{mode} total{total} close{close_at} hwm{hwm}"));
    let _ = (t0, r.next());
    sm.close_stream(id);
}

/// The request-body pump: upstream channel -> stream.
pub fn pump(c: &mut Ctx) {
    let rounds = c.n(150, 3000);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    for round in 0..rounds {
        if !c.time_left() { break; }
        let mut r = c.rng.fork();
        let (hwm, cap, total) = (*r.pick(&[1usize, 2, 4, 16]), r.range(1, 4), r.range(0, 60));
        let fail_at = if r.chance(1, 3) { Some(r.below(total + 1)) } else { None };
        let close_at = if r.chance(1, 4) { Some(r.below(total + 1)) } else { None };
        let rep = c.rep.clone();
        rep.quick_case(&format!("pump hwm={hwm} cap={cap} total={total} fail={fail_at:?} close={close_at:?}"));
        let mut rr = r.fork();
        rt.block_on(async {
            let sm = Arc::new(StreamManager::with_high_water_mark(hwm));
            let (tx, rx) = tokio::sync::mpsc::channel::<Result<Bytes, String>>(cap);
            let id = sm.pump_request_body(rx);
            let up = tokio::spawn(async move {
                for i in 0..total {
                    if fail_at == Some(i) { let _ = tx.send(Err("e9".into())).await; return Ok(i); }
                    jitter(&mut rr).await;
                    if rr.chance(1, 6) && tx.send(Ok(Bytes::new())).await.is_err() { return Err(i); } // an empty chunk is no end
                    if tx.send(Ok(data(i as u64))).await.is_err() { return Err(i); }
                }
                Ok(total)
            });
            let mut got = vec![];
            let mut end = None;
            loop {
                if close_at == Some(got.len()) { sm.close_stream(id); break; }
                jitter(&mut r).await;
                match tokio::time::timeout(Duration::from_secs(10), sm.read_chunk(id)).await {
                    Ok(Ok(StreamChunk::Data(b))) if b.is_empty() => {}
                    Ok(Ok(x)) => match unchunk(&x) { C::D(n) => got.push(n), e => { end = Some(e); break; } },
                    Ok(Err(e)) => { rep.viol("pump-read-error", format!("round {round}: {e}")); break; }
                    Err(_) => { rep.viol("pump-stuck", format!("round {round}: read of the pumped body never completed (total {total}, got {})", got.len())); break; }
                }
            }
            let n_want = fail_at.unwrap_or(total);
            if end.is_some() {
                rep.check(got == (0..n_want as u64).collect::<Vec<_>>(), "pump-content", || format!("pumped {got:?}, expected 0..{n_want}"));
                rep.eq("pump-end", end.clone().unwrap(), if fail_at.is_some_and(|f| f < total) { C::Err(9) } else { C::Done }, || format!("total {total} fail {fail_at:?}"));
            }
            // a closed consumer must release the producer
            match tokio::time::timeout(Duration::from_secs(10), up).await {
                Ok(_) => {}
                Err(_) => { rep.viol("pump-upstream-stuck", format!("upstream sender still blocked after the body was {}", if end.is_some() { "read to its end" } else { "closed" })); }
            }
            rep.count("pump_chunks", got.len() as u64);
        });
    }
}

/// Two operations at the same moment on a stream with some chunks in its buffer: what they
/// return and what is left afterwards must be explained by one order of the two.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op2 { Read, Close, Clear, Take, Write, TryWrite, Create, Abort }
#[derive(Debug)]
enum Out2 { Read(Option<C>), Wrote(bool), Took(Option<tokio::sync::mpsc::Receiver<StreamChunk>>), Id(u64), Unit, Pending }
fn act(sm: &StreamManager, id: u64, op: Op2, n: u64) -> Out2 {
    match op {
        Op2::Read => match sm.read_chunk(id).now_or_never() { None => Out2::Pending, Some(x) => Out2::Read(x.ok().map(|c| unchunk(&c))) },
        Op2::Close => { sm.close_stream(id); Out2::Unit }
        Op2::Clear => { sm.clear(); Out2::Unit }
        Op2::Abort => { sm.abort_response_streams(); Out2::Unit }
        Op2::Take => Out2::Took(sm.take_receiver(id)),
        Op2::Write => match sm.write_chunk(id, chunk(&C::D(n))).now_or_never() { None => Out2::Pending, Some(x) => Out2::Wrote(x.is_ok()) },
        Op2::TryWrite => Out2::Wrote(sm.try_write_chunk(id, chunk(&C::D(n))).is_ok()),
        Op2::Create => Out2::Id(sm.create_stream("other".into())),
    }
}
pub fn race(c: &mut Ctx) {
    let rounds = c.n(30_000, 600_000);
    let pairs = [(Op2::Read, Op2::Close), (Op2::Read, Op2::Close), (Op2::Read, Op2::Clear), (Op2::Read, Op2::Take), (Op2::Read, Op2::Write), (Op2::Read, Op2::TryWrite), (Op2::Read, Op2::Read), (Op2::Write, Op2::Write),
        (Op2::Write, Op2::TryWrite), (Op2::TryWrite, Op2::TryWrite), (Op2::Write, Op2::Close), (Op2::TryWrite, Op2::Close), (Op2::Write, Op2::Clear), (Op2::Create, Op2::Create), (Op2::Close, Op2::Close), (Op2::Close, Op2::Take), (Op2::Take, Op2::Take),
        (Op2::Create, Op2::Clear), (Op2::Read, Op2::Abort), (Op2::Write, Op2::Abort), (Op2::Write, Op2::Take), (Op2::Create, Op2::Close)];
    let slot: Arc<Mutex<Option<(Arc<StreamManager>, u64, Op2, u64)>>> = Arc::new(Mutex::new(None));
    let (go, fin) = (Arc::new(AtomicU64::new(0)), Arc::new(Mutex::new(None::<Out2>)));
    let quit = Arc::new(AtomicBool::new(false));
    let other = { let (slot, go, fin, quit) = (slot.clone(), go.clone(), fin.clone(), quit.clone()); std::thread::spawn(move || {
        let (mut seen, mut idle) = (0, 0u64);
        while !quit.load(Ordering::SeqCst) {
            if go.load(Ordering::SeqCst) == seen { idle += 1; if idle % 4096 == 0 { std::thread::yield_now(); } std::hint::spin_loop(); continue; }
            seen += 1;
            let (sm, id, op, spin) = slot.lock().unwrap().take().unwrap();
            for _ in 0..spin { std::hint::spin_loop(); }
            let o = act(&sm, id, op, 901);
            drop(sm);
            *fin.lock().unwrap() = Some(o);
        }
    }) };
    let rep = c.rep.clone();
    for round in 0..rounds {
        if round % 64 == 0 { if !c.time_left() { break; } rep.beat(); }
        let r = &mut c.rng;
        let (mut a, mut b) = *r.pick(&pairs);
        if r.chance(1, 2) { std::mem::swap(&mut a, &mut b); }
        let hwm = r.range(5, 8);
        let k = r.range(if a == Op2::Read || b == Op2::Read { 2 } else { 0 }, 3) as u64;
        let ended = k > 0 && a != Op2::Write && b != Op2::Write && a != Op2::TryWrite && b != Op2::TryWrite && r.chance(1, 4);
        let what = format!("{a:?}||{b:?} k={k} hwm={hwm} ended={ended}");
        if round % 64 == 0 { rep.case(format!("race round={round} {what}")); }
        let sm = Arc::new(StreamManager::with_high_water_mark(hwm));
        for _ in 0..r.below(3) { sm.create_stream("before".into()); }
        let id = if a == Op2::Abort || b == Op2::Abort { sm.create_response_stream() } else { sm.create_stream("it".into()) };
        for n in 0..k { let _ = sm.try_write_chunk(id, chunk(&C::D(n))); }
        if ended { let _ = sm.try_write_chunk(id, StreamChunk::Done); }
        *slot.lock().unwrap() = Some((sm.clone(), id, b, r.below(400) as u64));
        let spin = r.below(400);
        go.fetch_add(1, Ordering::SeqCst);
        for _ in 0..spin { std::hint::spin_loop(); }
        let x = act(&sm, id, a, 900);
        let t0 = Instant::now();
        let y = loop { if let Some(o) = fin.lock().unwrap().take() { break o; } if t0.elapsed() > Duration::from_secs(20) { rep.viol("race-stuck", what.clone()); quit.store(true, Ordering::SeqCst); return; } if t0.elapsed() > Duration::from_millis(1) { std::thread::yield_now(); } std::hint::spin_loop(); };
        let full = || format!("{what}: {x:?} / {y:?}");
        let outs = [(a, &x), (b, &y)];
        let has = |o: Op2| a == o || b == o;
        rep.check(!matches!(x, Out2::Pending) && !matches!(y, Out2::Pending), "race-pending", full);
        if let (Out2::Id(i), Out2::Id(j)) = (&x, &y) { rep.check(i != j && *i != id && *j != id, "id-reused", full); }
        // everything that was delivered, in the order in which it could be
        let mut sent: Vec<C> = (0..k).map(C::D).collect();
        if ended { sent.push(C::Done); }
        let reads: Vec<C> = outs.iter().filter_map(|(_, o)| match o { Out2::Read(Some(c)) => Some(c.clone()), _ => None }).collect();
        let wrote: Vec<u64> = outs.iter().enumerate().filter_map(|(i, (_, o))| matches!(o, Out2::Wrote(true)).then_some(900 + i as u64)).collect();
        let closing = has(Op2::Close) || has(Op2::Clear) || has(Op2::Abort);
        if !closing { for (o, out) in &outs {
            if matches!(o, Op2::Write | Op2::TryWrite) { rep.check(matches!(out, Out2::Wrote(true)), "race-write-refused", full); }
        } }
        let alone = !closing && !has(Op2::Take) && !(a == Op2::Read && b == Op2::Read);
        if alone { for (o, out) in &outs { if *o == Op2::Read { rep.check(matches!(out, Out2::Read(Some(_))), "race-read-refused", full); } } }
        // reads see the head of the queue
        let mut sorted = reads.clone(); sorted.sort_by_key(|c| if let C::D(n) = c { *n } else { u64::MAX });
        rep.check(sorted[..] == sent[..sorted.len()], "race-order", full);
        let mut rest: Vec<C> = vec![];
        let mut took = 0;
        let (mut x, mut y) = (x, y);
        for o in [&mut x, &mut y] { if let Out2::Took(Some(rx)) = o { took += 1; while let Ok(c) = rx.try_recv() { rest.push(unchunk(&c)); } } }
        rep.check(took <= 1, "race-taken-twice", || what.clone());
        // afterwards, one at a time
        let over = closing && !(took == 1 && has(Op2::Clear)) && !(has(Op2::Create));
        if !over && took == 0 { while let Out2::Read(Some(c)) = act(&sm, id, Op2::Read, 0) { let end = !matches!(c, C::D(_)); rest.push(c); if end || rest.len() > 20 { break; } } }
        if over || has(Op2::Close) {
            let w = sm.try_write_chunk(id, chunk(&C::D(5))).is_ok();
            rep.check(!w && !sm.has_sender(id) && sm.get_stream_info(id).is_none(), "race-open-after-close", || format!("{what}: write accepted {w}, has_sender {}, info {:?}", sm.has_sender(id), sm.get_stream_info(id)));
            let rd = act(&sm, id, Op2::Read, 0);
            rep.check(matches!(rd, Out2::Read(None)), "race-read-after-close", || format!("{what}: {rd:?} read from a closed stream"));
        }
        if !closing {
            let mut got: Vec<C> = sorted; got.extend(rest.iter().cloned());
            let orders: Vec<Vec<C>> = [wrote.clone(), wrote.iter().rev().copied().collect()].into_iter().map(|w| sent.iter().cloned().chain(w.into_iter().map(C::D)).collect()).collect();
            // (a finished stream need not give out what is behind its end)
            rep.check(orders.contains(&got), "race-lost", || format!("{what}: delivered {got:?}, sent {:?}", orders[0]));
        }
        rep.seen(&what);
        rep.count("races", 1);
        sm.close_stream(id);
    }
    quit.store(true, Ordering::SeqCst);
    let _ = other.join();
}
