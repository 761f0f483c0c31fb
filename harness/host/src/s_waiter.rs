//! C14: AsyncWaiter — sequential FIFO model, multi-thread stress with spurious polls.
use crate::kit::*;
use openworkers_runtime_v8::AsyncWaiter;
use std::collections::VecDeque;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

struct Flag(AtomicUsize);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }

pub fn model(c: &mut Ctx) {
    let rounds = c.n(3000, 60_000);
    for round in 0..rounds {
        if !c.time_left() { break; }
        let mut r = c.rng.fork();
        let n = r.range(2, 7);
        c.rep.quick_case(&format!("model round {round} waiters {n}"));
        let w = AsyncWaiter::new();
        let flags: Vec<Arc<Flag>> = (0..n).map(|_| Arc::new(Flag(AtomicUsize::new(0)))).collect();
        let wakers: Vec<Waker> = flags.iter().map(|f| Waker::from(f.clone())).collect();
        #[derive(PartialEq, Clone, Copy, Debug)]
        enum S { Idle, Queued, Woken, Holds }
        let mut st = vec![S::Idle; n];
        let mut q: VecDeque<usize> = VecDeque::new();
        let mut holder: Option<usize> = None;
        let mut trace = String::new();
        let allow_repoll = r.chance(1, 3);
        for _ in 0..r.range(8, 60) {
            let i = r.below(n);
            match st[i] {
                S::Holds => {
                    let before: Vec<usize> = flags.iter().map(|f| f.0.load(Ordering::SeqCst)).collect();
                    w.unlock(); st[i] = S::Idle; holder = None; trace.push_str(&format!("u{i} "));
                    let woken: Vec<usize> = (0..n).filter(|&k| flags[k].0.load(Ordering::SeqCst) > before[k]).collect();
                    if !allow_repoll {
                        let want: Vec<usize> = q.pop_front().into_iter().collect();
                        c.rep.eq("fifo-wake", woken.clone(), want, || format!("release woke the wrong waiters; trace {trace}"));
                    } else {
                        let want = q.pop_front();
                        if let Some(k) = want { q.retain(|x| *x != k); }
                    }
                    for k in woken { if st[k] == S::Queued { st[k] = S::Woken; } }
                }
                s => {
                    if s == S::Queued && !allow_repoll { continue; }
                    // re-polling a waiter that was not woken: only sound to model when it is held
                    if s == S::Queued && holder.is_none() { continue; }
                    let got = w.try_lock(&mut Context::from_waker(&wakers[i]));
                    trace.push_str(&format!("t{i}={} ", got as u8));
                    c.rep.eq("mutual-exclusion", got, holder.is_none(), || format!("try_lock with holder {holder:?}; trace {trace}"));
                    if got { holder = Some(i); st[i] = S::Holds; q.retain(|x| *x != i); } else { if s != S::Queued { q.push_back(i); } st[i] = S::Queued; }
                }
            }
            c.rep.eq("is-free", w.is_free(), holder.is_none(), || format!("is_free; trace {trace}"));
            if !allow_repoll { c.rep.eq("queue-len", w.queue_len(), q.len(), || format!("queue_len; trace {trace}")); }
        }
        // run down: whoever is woken takes its turn; nobody may be left waiting
        let mut steps = 0;
        while st.iter().any(|s| *s != S::Idle) && steps < 500 {
            steps += 1;
            if let Some(h) = holder { w.unlock(); holder = None; st[h] = S::Idle; }
            else {
                let Some(k) = (0..n).find(|&k| (st[k] == S::Queued || st[k] == S::Woken) && flags[k].0.load(Ordering::SeqCst) > 0) else { break };
                flags[k].0.store(0, Ordering::SeqCst);
                if w.try_lock(&mut Context::from_waker(&wakers[k])) { holder = Some(k); st[k] = S::Holds; } else { st[k] = S::Queued; }
            }
        }
        c.rep.check(st.iter().all(|s| *s == S::Idle), "lost-wakeup", || format!("free, yet waiters {st:?} are never woken; trace {trace}"));
        c.rep.seen(&trace);
    }
}

struct Park(std::thread::Thread, AtomicBool);
impl Wake for Park { fn wake(self: Arc<Self>) { self.1.store(true, Ordering::SeqCst); self.0.unpark(); } }

pub fn stress(c: &mut Ctx) {
    let rounds = c.n(600, 8000);
    for round in 0..rounds {
        if !c.time_left() { break; }
        let n = c.rng.range(2, 8);
        let iters = c.n(400, 800);
        let spurious = c.rng.chance(1, 3);
        c.rep.case(format!("stress round={round} threads={n} iters={iters} spurious={spurious}"));
        let w = Arc::new(AsyncWaiter::new());
        let inside = Arc::new(AtomicUsize::new(0));
        let done = Arc::new(AtomicUsize::new(0));
        let deadline = Instant::now() + Duration::from_secs(20);
        let mut hs = vec![];
        for t in 0..n {
            let (w, inside, done, rep, mut r) = (w.clone(), inside.clone(), done.clone(), c.rep.clone(), c.rng.fork());
            hs.push(std::thread::spawn(move || {
                let mut waits = 0u64;
                for i in 0..iters {
                    // a fresh waker per acquisition, as a fresh task would have
                    let p = Arc::new(Park(std::thread::current(), AtomicBool::new(false)));
                    let waker = Waker::from(p.clone());
                    let mut cx = Context::from_waker(&waker);
                    loop {
                        let poll = if w.try_lock(&mut cx) { Poll::Ready(()) } else { Poll::Pending };
                        if poll.is_ready() { break; }
                        waits += 1;
                        loop {
                            if p.1.swap(false, Ordering::SeqCst) { break; }
                            if spurious && r.chance(1, 40) { break; }
                            if Instant::now() > deadline {
                                rep.viol("lost-wakeup-stress", format!("thread {t} iteration {i}: waiting with is_free={} queue_len={} and never woken", w.is_free(), w.queue_len()));
                                return;
                            }
                            std::thread::park_timeout(Duration::from_millis(50));
                        }
                    }
                    let k = inside.fetch_add(1, Ordering::SeqCst);
                    if k != 0 { rep.viol("mutual-exclusion-stress", format!("{} holders at once", k + 1)); }
                    for _ in 0..r.below(60) { std::hint::spin_loop() }
                    inside.fetch_sub(1, Ordering::SeqCst);
                    w.unlock();
                    if r.chance(1, 8) { std::thread::yield_now() }
                }
                rep.count("acquisitions", iters as u64);
                rep.count("waits", waits);
                done.fetch_add(1, Ordering::SeqCst);
            }));
        }
        for h in hs { let _ = h.join(); }
        c.rep.seen(&format!("round {round} done {}", done.load(Ordering::SeqCst)));
        if done.load(Ordering::SeqCst) == n { c.rep.check(w.is_free(), "left-locked", || "all done but still locked".into()); }
        if !c.rep.0.lock().unwrap().violations.is_empty() { break; }
    }
}
