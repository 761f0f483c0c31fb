//! C15 external-memory conservation, C26 deferred destruction and lock discipline.
use crate::kit::*;
use openworkers_runtime_v8 as rt;
use rt::{DeriveGcTraceable, ExternalMemoryGuard, GcTraceable, LockerManagedIsolate, Tracked};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc::channel;

/// A locker-managed isolate usable from several threads (V8's own Locker serialises).
struct Iso(*mut LockerManagedIsolate);
unsafe impl Send for Iso {}
unsafe impl Sync for Iso {}
impl Iso {
    fn new() -> Iso { let mut l = roomy(); l.heap_max_mb = 64; Iso(Box::into_raw(Box::new(LockerManagedIsolate::new(l)))) }
    fn lock(&self) -> (v8::Locker<'static>, rt::JsLock) { unsafe { (*self.0).lock() } }
    fn raw(&self) -> *mut std::ffi::c_void { unsafe { (*self.0).isolate.as_raw() as *mut _ } }
    fn pending(&self) -> i64 { unsafe { (*self.0).pending_memory_delta.load(Ordering::SeqCst) } }
    fn queue(&self) -> Arc<rt::DeferredDestructionQueue> { unsafe { (*self.0).deferred_destruction_queue.clone() } }
    fn free(self) { unsafe { drop(Box::from_raw(self.0)) } }
}

struct G { g: ExternalMemoryGuard, amount: i64, reported: i64, iso: Option<usize>, id: usize }

/// Random histories of guards and (nested) locks against a ledger model.
pub fn ext_model(c: &mut Ctx) {
    let isos: Vec<Iso> = (0..3).map(|_| Iso::new()).collect();
    let rounds = c.n(1500, 30_000);
    for round in 0..rounds {
        if !c.time_left() { break; }
        let mut r = c.rng.fork();
        c.rep.quick_case(&format!("external memory history {round}"));
        let mut trace = String::new();
        let mut locks: Vec<(usize, (v8::Locker<'static>, rt::JsLock))> = vec![];
        let mut gs: Vec<G> = vec![];
        let mut next = 0;
        let steps = r.range(10, 80);
        let base: Vec<i64> = isos.iter().map(|i| mon_ext(i.raw())).collect();
        for _ in 0..steps {
            let cur = locks.last().map(|l| l.0);
            let report = |g: &mut G, d: i64| { g.amount += d; if d != 0 { if g.iso.is_none() { g.iso = cur; } if g.iso.is_some() { g.reported += d; } } };
            match r.below(10) {
                0 | 1 if locks.len() < 4 => {
                    let k = r.below(3);
                    locks.push((k, isos[k].lock()));
                    trace.push_str(&format!("lock{k} "));
                    c.rep.eq("pending-applied-on-lock", isos[k].pending(), 0, || format!("pending delta of isolate {k} after lock; {trace}"));
                }
                2 if !locks.is_empty() => { let (k, l) = locks.pop().unwrap(); drop(l.1); drop(l.0); trace.push_str(&format!("unlock{k} ")); }
                3 | 4 => {
                    let a = *r.pick(&[0i64, 1, 7, 1000, 4096, 1 << 20, 123_456]);
                    let g = ExternalMemoryGuard::new(a);
                    trace.push_str(&format!("g{next}=new({a}) "));
                    gs.push(G { g, amount: a, reported: if cur.is_some() { a } else { 0 }, iso: cur, id: next });
                    next += 1;
                }
                5 => {
                    let g = if r.chance(1, 2) { ExternalMemoryGuard::empty() } else { ExternalMemoryGuard::default() };
                    trace.push_str(&format!("g{next}=empty "));
                    gs.push(G { g, amount: 0, reported: 0, iso: cur, id: next });
                    next += 1;
                }
                6 if !gs.is_empty() => {
                    let k = r.below(gs.len()); let g = &mut gs[k];
                    let d = *r.pick(&[0i64, 5, -3, 4096, -4096, 100_000]);
                    trace.push_str(&format!("g{}.adjust({d}) ", g.id));
                    g.g.adjust(d); report(g, d);
                }
                7 if !gs.is_empty() => {
                    let k = r.below(gs.len()); let g = &mut gs[k];
                    let a = *r.pick(&[0i64, 10, 5000, 1 << 18]);
                    trace.push_str(&format!("g{}.set({a}) ", g.id));
                    let d = a - g.amount;
                    g.g.set(a); report(g, d);
                }
                8 if !gs.is_empty() => { let k = r.below(gs.len()); let g = gs.swap_remove(k); trace.push_str(&format!("drop g{} ", g.id)); }
                9 if !gs.is_empty() => {
                    // dropped or adjusted on a thread that holds no lock
                    let k = r.below(gs.len());
                    if r.chance(1, 2) { let g = gs.swap_remove(k); trace.push_str(&format!("drop-elsewhere g{} ", g.id)); std::thread::spawn(move || drop(g)).join().unwrap(); }
                    else {
                        let g = &mut gs[k];
                        let d = *r.pick(&[64i64, -64, 9000]);
                        trace.push_str(&format!("g{}.adjust-elsewhere({d}) ", g.id));
                        std::thread::scope(|s| { let gg = &mut g.g; s.spawn(move || gg.adjust(d)); });
                        g.amount += d; if g.iso.is_some() { g.reported += d; }
                    }
                }
                _ => continue,
            }
            c.rep.count("ext_steps", 1);
            for g in &gs { if !c.rep.eq("guard-amount", g.g.amount(), g.amount, || format!("amount() of g{}; {trace}", g.id)) { break; } }
            for (k, iso) in isos.iter().enumerate() {
                let want: i64 = gs.iter().filter(|g| g.iso == Some(k)).map(|g| g.reported).sum();
                let got = mon_ext(iso.raw()) - base[k] + iso.pending();
                if !c.rep.eq("conservation", got, want, || format!("reported + pending of isolate {k} against its live guards; {trace}")) { break; }
            }
        }
        while let Some((_, l)) = locks.pop() { drop(l.1); drop(l.0); }
        gs.clear();
        for (k, iso) in isos.iter().enumerate() {
            let (l, j) = iso.lock();
            c.rep.eq("returns-to-zero", mon_ext(iso.raw()) - base[k], 0, || format!("isolate {k} after all guards are gone; {trace}"));
            drop(j); drop(l);
        }
        c.rep.check(rt::JsLock::try_current().is_none(), "lock-stack-restored", || format!("a JsLock is still current after all were dropped; {trace}"));
        c.rep.seen(&trace);
        if !c.rep.0.lock().unwrap().violations.is_empty() { break; }
    }
    lock_verdict(c, "external memory");
    // one adjust call per report, none for zero
    for i in isos { i.free(); }
}

/// Guards shared out to threads which drop, adjust and resize them while others hold the lock.
pub fn ext_stress(c: &mut Ctx) {
    let rounds = c.n(120, 1500);
    for round in 0..rounds {
        if !c.time_left() { break; }
        let threads = c.rng.range(2, 7);
        let per = c.rng.range(20, 300);
        c.rep.case(format!("external memory stress round={round} threads={threads} guards={per}"));
        let isos: Arc<Vec<Iso>> = Arc::new(vec![Iso::new(), Iso::new()]);
        let mut hs = vec![];
        for _ in 0..threads {
            let (isos, mut r, rep) = (isos.clone(), c.rng.fork(), c.rep.clone());
            hs.push(std::thread::spawn(move || {
                let mut mine: Vec<Tracked<Vec<u8>>> = vec![];
                let mut raw: Vec<ExternalMemoryGuard> = vec![];
                for _ in 0..per {
                    let k = r.below(2);
                    match r.below(4) {
                        0 => { let l = isos[k].lock(); mine.push(Tracked::new(vec![0u8; r.below(5000)])); raw.push(ExternalMemoryGuard::new(r.below(9999) as i64)); drop(l.1); drop(l.0); }
                        1 => { if let Some(t) = mine.last_mut() { t.get_mut().reserve_exact(3000); t.update_size(); } if let Some(g) = raw.last_mut() { g.adjust(r.below(100) as i64 - 50); } }
                        2 => { if !mine.is_empty() { let i = r.below(mine.len()); let t = mine.swap_remove(i); if r.chance(1, 2) { drop(t.into_inner()); } } }
                        _ => { let l = isos[k].lock(); if !raw.is_empty() { let i = r.below(raw.len()); raw.swap_remove(i); } drop(l.1); drop(l.0); }
                    }
                }
                rep.count("stress_ops", per as u64);
            }));
        }
        for h in hs { let _ = h.join(); }
        for (k, iso) in isos.iter().enumerate() {
            let l = iso.lock();
            c.rep.eq("returns-to-zero-stress", mon_ext(iso.raw()), 0, || format!("isolate {k} after {threads} threads dropped all their guards"));
            c.rep.eq("pending-zero", iso.pending(), 0, || "pending after lock".into());
            drop(l.1); drop(l.0);
        }
        for i in Arc::try_unwrap(isos).ok().unwrap() { i.free(); }
        if !c.rep.0.lock().unwrap().violations.is_empty() { break; }
    }
    lock_verdict(c, "external memory stress");
}

// ---------------------------------------------------------------- sizes
#[derive(DeriveGcTraceable)]
struct Plain { #[gc(track)] a: Vec<u8>, b: Vec<u8>, #[gc(track)] c: String, #[allow(dead_code)] n: u64 }
#[derive(DeriveGcTraceable)]
struct Tuple(#[gc(track)] String, Vec<u8>, #[gc(track)] Vec<String>, #[gc(track)] Option<Box<String>>);
#[derive(DeriveGcTraceable)]
struct Unit;
#[derive(DeriveGcTraceable)]
struct NoneTracked { #[allow(dead_code)] a: Vec<u8>, #[allow(dead_code)] b: String }
#[derive(DeriveGcTraceable)]
#[gc(crate_path = "openworkers_runtime_v8")]
struct Gen<T: GcTraceable> where T: Clone {
    /// documented
    #[gc(track)] x: T,
    #[gc(track)] y: Option<T>,
    #[gc(track)] z: Vec<T>,
    w: T,
}
#[derive(DeriveGcTraceable)]
struct Nested { #[gc(track)] p: Plain, q: Plain, #[gc(track)] t: Option<Tuple>, #[gc(track)] b: bytes::Bytes }
#[derive(DeriveGcTraceable)]
struct Last { #[allow(dead_code)] a: String, #[allow(dead_code)] b: String, #[gc(track)] c: String }

pub fn sizes(c: &mut Ctx) {
    let iso = Iso::new();
    let rounds = c.n(4000, 60_000);
    let sv = |r: &mut Rng| { let mut v = Vec::with_capacity(r.below(300)); v.extend(r.bytes(v.capacity().min(20))); v };
    let ss = |r: &mut Rng| { let mut s = String::with_capacity(r.below(200)); for _ in 0..r.below(30) { s.push(*r.pick(&['a', 'é', '𝄞'])); } s };
    for round in 0..rounds {
        if !c.time_left() { break; }
        let mut r = c.rng.fork();
        c.rep.quick_case(&format!("sizes {round} {}", r.next()));
        let e = |sig: &str, got: usize, want: usize| { c.rep.eq(sig, got, want, || format!("round {round} seed {}", c.seed)); };
        let plain = |r: &mut Rng| Plain { a: sv(r), b: sv(r), c: ss(r), n: 1 };
        let psz = |p: &Plain| p.a.capacity() + p.c.capacity();
        let v = sv(&mut r); e("size-vec-u8", v.external_memory_size(), v.capacity());
        let s = ss(&mut r); e("size-string", s.external_memory_size(), s.capacity());
        let nb = r.below(500); let b = bytes::Bytes::from(r.bytes(nb)); e("size-bytes", b.external_memory_size(), b.len());
        let sl = b.slice(0..b.len() / 2); e("size-bytes", sl.external_memory_size(), sl.len());
        let o: Option<String> = if r.chance(1, 2) { Some(ss(&mut r)) } else { None };
        e("size-option", o.external_memory_size(), o.as_ref().map(|s| s.capacity()).unwrap_or(0));
        let bx = Box::new(sv(&mut r)); e("size-box", bx.external_memory_size(), 24 + bx.capacity());
        let mut vs: Vec<String> = Vec::with_capacity(r.below(9)); for _ in 0..r.below(12) { vs.push(ss(&mut r)); }
        let vsz = |v: &Vec<String>| v.capacity() * 24 + v.iter().map(|s| s.capacity()).sum::<usize>();
        e("size-vec", vs.external_memory_size(), vsz(&vs));
        let vv: Vec<Vec<u8>> = (0..r.below(5)).map(|_| sv(&mut r)).collect();
        e("size-vec-vec", vv.external_memory_size(), vv.capacity() * 24 + vv.iter().map(|s| s.capacity()).sum::<usize>());
        let rc = std::rc::Rc::new(ss(&mut r)); e("size-rc", rc.external_memory_size(), 24 + rc.capacity());
        let rc2 = rc.clone(); e("size-rc-shared", rc.external_memory_size() + rc2.external_memory_size(), 0);
        let ar = Arc::new(sv(&mut r)); e("size-arc", ar.external_memory_size(), 24 + ar.capacity());
        let ar2 = ar.clone(); e("size-arc-shared", ar.external_memory_size() + ar2.external_memory_size(), 0);
        let p = plain(&mut r); e("derive-named", p.external_memory_size(), psz(&p));
        let t = Tuple(ss(&mut r), sv(&mut r), vs.clone(), r.chance(1, 2).then(|| Box::new(ss(&mut r))));
        let tsz = |t: &Tuple| t.0.capacity() + vsz(&t.2) + t.3.as_ref().map(|b| 24 + b.capacity()).unwrap_or(0);
        e("derive-tuple", t.external_memory_size(), tsz(&t)); let _ = &t.1;
        e("derive-unit", Unit.external_memory_size(), 0);
        e("derive-none", NoneTracked { a: sv(&mut r), b: ss(&mut r) }.external_memory_size(), 0);
        let l = Last { a: ss(&mut r), b: ss(&mut r), c: ss(&mut r) }; e("derive-last", l.external_memory_size(), l.c.capacity());
        let g = Gen { x: ss(&mut r), y: o.clone(), z: vs.clone(), w: ss(&mut r) };
        e("derive-generic", g.external_memory_size(), g.x.capacity() + g.y.as_ref().map(|s| s.capacity()).unwrap_or(0) + vsz(&g.z)); let _ = &g.w;
        let n = Nested { p: plain(&mut r), q: plain(&mut r), t: r.chance(1, 2).then_some(t), b };
        e("derive-nested", n.external_memory_size(), psz(&n.p) + n.t.as_ref().map(tsz).unwrap_or(0) + n.b.len());
        let _ = (&n.q, &p.b, p.n);
        // Tracked follows the size of its value
        let base = mon_ext(iso.raw());
        let lk = iso.lock();
        let mut tr = Tracked::new(sv(&mut r));
        e("tracked-new", (mon_ext(iso.raw()) - base) as usize, tr.get().capacity());
        let k = r.below(4000); tr.get_mut().reserve_exact(k);
        tr.update_size();
        e("tracked-update", (mon_ext(iso.raw()) - base) as usize, tr.get().capacity());
        tr.get_mut().clear(); tr.get_mut().shrink_to_fit(); tr.update_size();
        e("tracked-shrink", (mon_ext(iso.raw()) - base) as usize, 0);
        let mut tn = Tracked::new(n); tn.get_mut().p.a.reserve_exact(100); tn.update_size();
        e("tracked-derived", (mon_ext(iso.raw()) - base) as usize, tn.get().external_memory_size());
        let gd = rt::tracked_guard(&vs); e("tracked-guard", gd.amount() as usize, vsz(&vs)); drop(gd);
        e("tracked-guard", (mon_ext(iso.raw()) - base) as usize, tn.get().external_memory_size());
        drop(tn.into_inner());
        e("tracked-into-inner", (mon_ext(iso.raw()) - base) as usize, 0);
        drop(tr);
        e("tracked-drop", (mon_ext(iso.raw()) - base) as usize, 0);
        drop(lk.1); drop(lk.0);
        c.rep.count("size_checks", 24);
    }
    iso.free();
}

// ---------------------------------------------------------------- deferred destruction
struct H(v8::Global<v8::Value>);
unsafe impl Send for H {}
impl H { fn defer(self, q: &rt::DeferredDestructionQueue) { q.defer(self.0) } }
fn globals(iso: &Iso, n: usize) -> Vec<v8::Global<v8::Value>> {
    let (mut l, j) = iso.lock();
    let v = {
        let s = std::pin::pin!(v8::HandleScope::new(&mut *l));
        let mut s = s.init();
        let ctx = v8::Context::new(&s, Default::default());
        let s = &mut v8::ContextScope::new(&mut s, ctx);
        (0..n).map(|i| { let x: v8::Local<v8::Value> = v8::Number::new(s, i as f64 + 0.5).into(); v8::Global::new(s.as_ref(), x) }).collect()
    };
    drop(j); drop(l);
    v
}

pub fn defer_model(c: &mut Ctx) {
    let isos: Vec<Iso> = (0..2).map(|_| Iso::new()).collect();
    let rounds = c.n(400, 8000);
    for round in 0..rounds {
        if !c.time_left() { break; }
        let mut r = c.rng.fork();
        c.rep.quick_case(&format!("deferred history {round}"));
        let mut stock: Vec<Vec<v8::Global<v8::Value>>> = isos.iter().map(|i| globals(i, 24)).collect();
        let mut queued = [0u64; 2];
        let mut trace = String::new();
        for _ in 0..r.range(5, 50) {
            let k = r.below(2);
            let q = isos[k].queue();
            let before = mon_live(isos[k].raw());
            match r.below(5) {
                0 | 1 => { if let Some(g) = stock[k].pop() { q.defer(g); queued[k] += 1; trace.push_str(&format!("d{k} ")); c.rep.eq("not-before-lock", mon_live(isos[k].raw()), before, || format!("deferring destroyed a handle at once; {trace}")); } }
                2 => { if let Some(g) = stock[k].pop() { let (q, g) = (q.clone(), H(g)); std::thread::spawn(move || g.defer(&q)).join().unwrap(); queued[k] += 1; trace.push_str(&format!("D{k} ")); } }
                3 => {
                    // the next lock destroys everything queued, once
                    let l = isos[k].lock();
                    trace.push_str(&format!("L{k} "));
                    c.rep.eq("destroyed-on-lock", before - mon_live(isos[k].raw()), queued[k] as i64, || format!("handles destroyed by the lock; {trace}"));
                    queued[k] = 0;
                    if r.chance(1, 3) { if let Some(g) = stock[k].pop() { q.defer(g); queued[k] += 1; trace.push_str("d-inside "); } }
                    drop(l.1); drop(l.0);
                }
                _ => {
                    let mut l = isos[k].lock();
                    c.rep.eq("destroyed-on-lock", before - mon_live(isos[k].raw()), queued[k] as i64, || format!("handles destroyed by the lock; {trace}"));
                    queued[k] = 0;
                    let n = r.below(4).min(stock[k].len());
                    for _ in 0..n { q.defer(stock[k].pop().unwrap()); }
                    let b2 = mon_live(isos[k].raw());
                    q.process_all();
                    trace.push_str(&format!("P{k}({n}) "));
                    c.rep.eq("destroyed-by-process", b2 - mon_live(isos[k].raw()), n as i64, || format!("handles destroyed by process_all; {trace}"));
                    q.process_all();
                    c.rep.eq("destroyed-twice", b2 - mon_live(isos[k].raw()), n as i64, || format!("a second process_all; {trace}"));
                    let _ = &mut l.0;
                    drop(l.1); drop(l.0);
                }
            }
            c.rep.count("deferred_steps", 1);
            for j in 0..2 {
                let q = isos[j].queue();
                c.rep.eq("queue-len", (q.len(), q.has_pending(), q.is_empty()), (queued[j], queued[j] > 0, queued[j] == 0), || format!("len/has_pending/is_empty of queue {j}; {trace}"));
            }
        }
        for k in 0..2 {
            let l = isos[k].lock();
            let v = std::mem::take(&mut stock[k]);
            drop(v);
            c.rep.eq("handle-balance", mon_live(isos[k].raw()), 0, || format!("live handles of isolate {k} at the end; {trace}"));
            drop(l.1); drop(l.0);
        }
        c.rep.seen(&trace);
        if !c.rep.0.lock().unwrap().violations.is_empty() { break; }
    }
    lock_verdict(c, "deferred destruction");
    // handles still queued when their isolate is gone
    let m0 = mon();
    for i in isos { let q = i.queue(); for g in globals(&i, 5) { q.defer(g); } i.free(); drop(q); }
    let m1 = mon();
    c.rep.eq("after-dispose", m1.reset_unknown - m0.reset_unknown, 0, || "handles of a disposed isolate were reset".into());
}

pub fn defer_stress(c: &mut Ctx) {
    let rounds = c.n(60, 800);
    for round in 0..rounds {
        if !c.time_left() { break; }
        let threads = c.rng.range(1, 6);
        let per = c.rng.range(20, 400);
        c.rep.case(format!("deferred stress round={round} threads={threads} handles={per}"));
        let iso = Arc::new(Iso::new());
        let m0 = mon();
        let live_threads = Arc::new(AtomicU64::new(threads as u64));
        let mut txs = vec![];
        let mut hs = vec![];
        let processing = Arc::new(AtomicBool::new(false));
        for _ in 0..threads {
            let (tx, rx) = channel::<H>();
            txs.push(tx);
            let (q, lt, mut r) = (iso.queue(), live_threads.clone(), c.rng.fork());
            hs.push(std::thread::spawn(move || {
                for g in rx { g.defer(&q); if r.chance(1, 6) { std::thread::yield_now(); } }
                lt.fetch_sub(1, Ordering::SeqCst);
            }));
        }
        let mut r = c.rng.fork();
        let total = threads * per;
        let mut pool = globals(&iso, total);
        while let Some(g) = pool.pop() { let _ = txs[r.below(threads)].send(H(g)); if r.chance(1, 200) { let l = iso.lock(); drop(l.1); drop(l.0); } }
        drop(txs);
        let q = iso.queue();
        // two threads lock and process concurrently with the deferrals
        let (i2, lt2, rep2) = (iso.clone(), live_threads.clone(), c.rep.clone());
        let p2 = processing.clone();
        let h2 = std::thread::spawn(move || { while lt2.load(Ordering::SeqCst) > 0 { let l = i2.lock(); p2.store(true, Ordering::SeqCst); let n = i2.queue().len(); if n > total as u64 { rep2.viol("pending-count-underflow", format!("queue length {n} with at most {total} handles ever deferred")); } drop(l.1); drop(l.0); } });
        while live_threads.load(Ordering::SeqCst) > 0 {
            let l = iso.lock();
            let n = q.len();
            if n > total as u64 { c.rep.viol("pending-count-underflow", format!("queue length {n} with at most {total} handles ever deferred")); }
            drop(l.1); drop(l.0);
        }
        for h in hs { let _ = h.join(); }
        let _ = h2.join();
        let l = iso.lock();
        drop(l.1); drop(l.0);
        c.rep.eq("queue-drained", (q.len(), q.has_pending()), (0, false), || "after all deferrals and one more lock".into());
        c.rep.eq("exactly-once", mon_live(iso.raw()), 0, || format!("handles of {total} left alive"));
        let m1 = mon();
        c.rep.eq("reset-twice", m1.reset_unknown - m0.reset_unknown, 0, || "handles were reset twice".into());
        c.rep.count("handles_deferred", total as u64);
        drop(q);
        Arc::try_unwrap(iso).ok().unwrap().free();
        if !c.rep.0.lock().unwrap().violations.is_empty() { break; }
    }
    lock_verdict(c, "deferred stress");
}

/// The shim's lock monitors: nothing of a shared isolate was touched by a thread without its lock.
pub fn lock_verdict(c: &Ctx, what: &str) {
    let m = mon();
    c.rep.eq("handle-released-without-lock", m.reset_unlocked, 0, || format!("{what}: V8 handles reset by a thread that does not hold the isolate's lock"));
    c.rep.eq("memory-adjusted-without-lock", m.adjust_unlocked, 0, || format!("{what}: external memory adjusted without the lock"));
    c.rep.eq("scope-without-lock", m.scope_unlocked, 0, || format!("{what}: handle scopes opened without the lock"));
    c.rep.eq("handle-released-twice", m.reset_unknown, 0, || format!("{what}: handles reset which are not live"));
    c.rep.count("mon_handles_reset", m.global_reset);
    c.rep.count("mon_scopes", m.scopes);
    c.rep.count("mon_locks", m.locks);
    c.rep.count("mon_adjusts", m.adjusts);
    c.rep.count("mon_disposed", m.disposed);
}
