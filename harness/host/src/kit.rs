//! Shared machinery: recording operations handler, request/response drivers, report.
use futures::FutureExt;
use futures::future::BoxFuture;
use openworkers_core::*;
use openworkers_runtime_v8 as rt;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ rng
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    pub fn fork(&mut self) -> Rng { Rng(self.next()) }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------------ report
#[derive(Default)]
pub struct ReportInner {
    pub violations: Vec<(String, String)>,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub current: String,
    pub evals: u64,
    pub cur_hash: Option<u64>,
    pub inconclusive: Vec<String>,
}
#[derive(Clone)]
pub struct Report(pub Arc<Mutex<ReportInner>>);
static BEAT: AtomicU64 = AtomicU64::new(0);
pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static GLOBAL_REPORT: Mutex<Option<Report>> = Mutex::new(None);

impl Report {
    pub fn new() -> Self { Report(Arc::new(Mutex::new(ReportInner::default()))) }
    /// Announce the case about to run (crash and hang attribution, distinctness).
    pub fn case(&self, name: impl Into<String>) {
        let name = name.into();
        BEAT.fetch_add(1, Ordering::SeqCst);
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        g.evals += 1;
        let h = hash_of(&name);
        g.cur_hash = g.distinct.insert(h).then_some(h);
        if g.samples.len() < 12 { let s: String = name.chars().take(300).collect(); g.samples.push(s); }
        g.current = name.clone();
        drop(g);
        emit(&serde_json::json!({"ev":"case","name":name}));
    }
    /// A case whose start is not worth an output line (high volume, cannot crash the host).
    pub fn quick_case(&self, name: &str) {
        BEAT.fetch_add(1, Ordering::SeqCst);
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        g.evals += 1;
        let h = hash_of(name);
        g.cur_hash = g.distinct.insert(h).then_some(h);
        if g.samples.len() < 12 { let s: String = name.chars().take(300).collect(); g.samples.push(s); }
        g.current = name.to_string();
    }
    /// Keep the in-process hang watchdog quiet: progress was made.
    pub fn beat(&self) { BEAT.fetch_add(1, Ordering::SeqCst); }
    /// What the current case turned out to be (a trace, an outcome): replaces its name for
    /// distinctness; a second call within one case counts as a further case.
    pub fn seen(&self, t: &str) {
        let h = hash_of(t);
        let mut g = self.0.lock().unwrap();
        match g.cur_hash.take() { Some(c) => { g.distinct.remove(&c); } None => g.evals += 1 }
        g.distinct.insert(h);
    }
    pub fn count(&self, k: &str, n: u64) { *self.0.lock().unwrap().counters.entry(k.to_string()).or_default() += n; }
    pub fn max(&self, k: &str, n: u64) { let mut g = self.0.lock().unwrap(); let e = g.counters.entry(k.to_string()).or_default(); *e = (*e).max(n); }
    pub fn viol(&self, sig: impl Into<String>, detail: impl Into<String>) {
        let (sig, mut detail) = (sig.into(), detail.into());
        if detail.len() > 4000 { let mut e = 4000; while !detail.is_char_boundary(e) { e -= 1; } detail.truncate(e); detail.push_str("…"); }
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        let cur = g.current.clone();
        if g.violations.iter().filter(|(s, _)| *s == sig).count() < 3 {
            g.violations.push((sig.clone(), detail.clone()));
            drop(g);
            emit(&serde_json::json!({"ev":"violation","sig":sig,"detail":detail,"case":cur}));
        }
    }
    pub fn inconclusive(&self, what: impl Into<String>) {
        let w = what.into();
        emit(&serde_json::json!({"ev":"inconclusive","what":w}));
        self.0.lock().unwrap().inconclusive.push(w);
    }
    pub fn check(&self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        self.count("oracle_checks", 1);
        if !ok { self.viol(sig, detail()); }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&self, sig: &str, got: T, want: T, what: impl FnOnce() -> String) -> bool {
        self.count("oracle_checks", 1);
        if got != want { self.viol(sig, format!("{}: got {got:?}, expected {want:?}", what())); false } else { true }
    }
    /// Panics recorded since the last call become violations.
    pub fn drain_panics(&self) {
        let v: Vec<String> = std::mem::take(&mut *PANICS.lock().unwrap());
        for p in v { let loc = p.split('|').next().unwrap_or("").to_string(); self.viol(format!("panic:{loc}"), p); }
    }
    pub fn finish(&self) {
        self.drain_panics();
        let g = self.0.lock().unwrap();
        emit(&serde_json::json!({"ev":"report","evals":g.evals,"distinct":g.distinct.len(),"counters":g.counters,"samples":g.samples,
            "violations":g.violations.len(),"inconclusive":g.inconclusive,
            "hashes":g.distinct.iter().take(40_000).map(|h| format!("{h:x}")).collect::<Vec<_>>()}));
    }
}
pub fn emit(v: &serde_json::Value) {
    use std::io::Write;
    let mut s = v.to_string();
    s.push('\n');
    let _ = OUT.lock().unwrap_or_else(|e| e.into_inner()).write_all(s.as_bytes());
}
/// Events go out on a descriptor of their own: V8 prints uncaught exceptions on stdout, through a
/// buffer that cuts lines anywhere.
static OUT: std::sync::LazyLock<Mutex<std::fs::File>> = std::sync::LazyLock::new(|| unsafe {
    use std::os::fd::FromRawFd;
    let fd = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 100);
    let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
    libc::dup2(null, 1);
    libc::close(null);
    Mutex::new(std::fs::File::from_raw_fd(fd))
});
pub fn own_output() { std::sync::LazyLock::force(&OUT); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| { let f = l.file().rsplit('/').take(2).collect::<Vec<_>>(); f.into_iter().rev().collect::<Vec<_>>().join("/") }).unwrap_or_default();
        let line = info.location().map(|l| l.line()).unwrap_or(0);
        let msg = info.payload().downcast_ref::<String>().cloned().or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        eprintln!("PANIC at {loc}:{line}: {msg}");
        if std::env::var("OWH_BT").is_ok() { eprintln!("{}", std::backtrace::Backtrace::force_capture()); }
        // serde_v8 panics on values it cannot convert; the runtime catches that (if it did not, the process would end)
        if loc.contains("serde-v8") { return; }
        PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(format!("{loc}|{line}|{msg}"));
    }));
}

/// A thread which ends the process with status 97 when no case makes progress for `secs`.
pub fn start_watchdog(secs: u64, rep: Report) {
    std::thread::spawn(move || {
        let mut last = BEAT.load(Ordering::SeqCst);
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let b = BEAT.load(Ordering::SeqCst);
            if b != last { last = b; since = Instant::now(); }
            if since.elapsed().as_secs() >= secs {
                let cur = rep.0.try_lock().map(|g| g.current.clone()).unwrap_or_default();
                emit(&serde_json::json!({"ev":"hang","case":cur,"secs":secs}));
                unsafe { libc::_exit(97) }
            }
        }
    });
}

pub struct Ctx {
    pub rep: Report,
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub args: Vec<String>,
    /// stop starting new cases after this many seconds
    pub budget: Duration,
    pub t0: Instant,
}
impl Ctx {
    pub fn opt(&self, k: &str) -> Option<String> { self.args.iter().position(|a| a == k).and_then(|i| self.args.get(i + 1)).cloned() }
    pub fn time_left(&self) -> bool { self.t0.elapsed() < self.budget }
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
}

// ------------------------------------------------------------------ operations
#[derive(Clone, Debug, PartialEq)]
pub enum ReqBody { None, Bytes(Vec<u8>), Stream(Vec<Result<Vec<u8>, String>>) }
impl ReqBody {
    pub fn flat(&self) -> Vec<u8> {
        match self { ReqBody::None => vec![], ReqBody::Bytes(b) => b.clone(),
            ReqBody::Stream(c) => c.iter().filter_map(|x| x.as_ref().ok()).flatten().copied().collect() }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Req { pub method: String, pub url: String, pub headers: BTreeMap<String, String>, pub body: ReqBody }
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Fetch(Req), BindFetch(String, Req), BindWorker(String, Req), Storage(String, StorageOp), Kv(String, KvOp),
    Db(String, DatabaseOp), Ws(String, BTreeMap<String, String>),
}
pub enum Reply {
    Http(Result<HttpResponse, String>), Storage(StorageResult), Kv(KvResult), Db(DatabaseResult),
    Ws(Result<WebSocketConnection, String>),
}
pub type Responder = Box<dyn Fn(usize, Op) -> BoxFuture<'static, Reply> + Send + Sync>;
#[derive(Clone, Debug)]
pub enum Ev { Call(usize, Op), Reply(usize), Dropped(usize), Log(LogLevel, String) }
pub struct Mock { pub n: AtomicUsize, pub ev: Mutex<Vec<(Instant, Ev)>>, pub f: Responder, pub drain_bodies: bool }
struct DropMark<'a>(&'a Mock, usize, bool);
impl Drop for DropMark<'_> {
    fn drop(&mut self) { let e = if self.2 { Ev::Reply(self.1) } else { Ev::Dropped(self.1) }; self.0.ev.lock().unwrap().push((Instant::now(), e)); }
}
impl Mock {
    pub fn new<F, Fut>(f: F) -> Arc<Mock> where F: Fn(usize, Op) -> Fut + Send + Sync + 'static, Fut: Future<Output = Reply> + Send + 'static {
        Arc::new(Mock { n: AtomicUsize::new(0), ev: Mutex::new(vec![]), f: Box::new(move |i, o| Box::pin(f(i, o))), drain_bodies: true })
    }
    /// the reply to one operation, unrecorded
    pub async fn answer(&self, op: Op) -> Reply { (self.f)(0, op).await }
    /// every operation fails
    pub fn none() -> Arc<Mock> { Mock::new(|_, op| async move { err_reply(&op, "unavailable") }) }
    pub fn logs(&self) -> Vec<(LogLevel, String)> {
        self.ev.lock().unwrap().iter().filter_map(|(_, e)| if let Ev::Log(l, m) = e { Some((*l, m.clone())) } else { None }).collect()
    }
    pub fn calls(&self) -> Vec<Op> {
        self.ev.lock().unwrap().iter().filter_map(|(_, e)| if let Ev::Call(_, o) = e { Some(o.clone()) } else { None }).collect()
    }
    pub fn clear(&self) { self.ev.lock().unwrap().clear(); }
    async fn run(&self, op: Op) -> Reply {
        let i = self.n.fetch_add(1, Ordering::SeqCst);
        self.ev.lock().unwrap().push((Instant::now(), Ev::Call(i, op.clone())));
        let mut m = DropMark(self, i, false);
        let r = (self.f)(i, op).await;
        m.2 = true;
        r
    }
    async fn req(&self, r: HttpRequest) -> Req {
        let body = match r.body {
            RequestBody::None => ReqBody::None,
            RequestBody::Bytes(b) => ReqBody::Bytes(b.to_vec()),
            RequestBody::Stream(mut rx) => {
                let mut v = vec![];
                if self.drain_bodies { while let Some(c) = rx.recv().await { v.push(c.map(|b| b.to_vec())); } }
                ReqBody::Stream(v)
            }
        };
        Req { method: r.method.as_str().to_string(), url: r.url, headers: r.headers.into_iter().collect(), body }
    }
}
pub fn err_reply(op: &Op, e: &str) -> Reply {
    match op {
        Op::Fetch(_) | Op::BindFetch(..) | Op::BindWorker(..) => Reply::Http(Err(e.into())),
        Op::Storage(..) => Reply::Storage(StorageResult::Error(e.into())),
        Op::Kv(..) => Reply::Kv(KvResult::Error(e.into())),
        Op::Db(..) => Reply::Db(DatabaseResult::Error(e.into())),
        Op::Ws(..) => Reply::Ws(Err(e.into())),
    }
}
impl OperationsHandler for Mock {
    fn handle_fetch(&self, r: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> {
        Box::pin(async move { let r = self.req(r).await; match self.run(Op::Fetch(r)).await { Reply::Http(h) => h, _ => Err("mock".into()) } })
    }
    fn handle_log(&self, level: LogLevel, message: String) { self.ev.lock().unwrap().push((Instant::now(), Ev::Log(level, message))); }
    fn handle_binding_fetch(&self, b: &str, r: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> {
        let b = b.to_string();
        Box::pin(async move { let r = self.req(r).await; match self.run(Op::BindFetch(b, r)).await { Reply::Http(h) => h, _ => Err("mock".into()) } })
    }
    fn handle_binding_worker(&self, b: &str, r: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> {
        let b = b.to_string();
        Box::pin(async move { let r = self.req(r).await; match self.run(Op::BindWorker(b, r)).await { Reply::Http(h) => h, _ => Err("mock".into()) } })
    }
    fn handle_binding_storage(&self, b: &str, op: StorageOp) -> OpFuture<'_, StorageResult> {
        let b = b.to_string();
        Box::pin(async move { match self.run(Op::Storage(b, op)).await { Reply::Storage(h) => h, _ => StorageResult::Error("mock".into()) } })
    }
    fn handle_binding_kv(&self, b: &str, op: KvOp) -> OpFuture<'_, KvResult> {
        let b = b.to_string();
        Box::pin(async move { match self.run(Op::Kv(b, op)).await { Reply::Kv(h) => h, _ => KvResult::Error("mock".into()) } })
    }
    fn handle_binding_database(&self, b: &str, op: DatabaseOp) -> OpFuture<'_, DatabaseResult> {
        let b = b.to_string();
        Box::pin(async move { match self.run(Op::Db(b, op)).await { Reply::Db(h) => h, _ => DatabaseResult::Error("mock".into()) } })
    }
    fn handle_websocket_connect(&self, url: String, headers: HashMap<String, String>) -> OpFuture<'_, Result<WebSocketConnection, String>> {
        Box::pin(async move { match self.run(Op::Ws(url, headers.into_iter().collect())).await { Reply::Ws(h) => h, _ => Err("mock".into()) } })
    }
}

// ------------------------------------------------------------------ http helpers
pub fn req(method: HttpMethod, url: &str) -> HttpRequest { HttpRequest { method, url: url.into(), headers: HashMap::new(), body: RequestBody::None } }
pub fn get(url: &str) -> HttpRequest { req(HttpMethod::Get, url) }
pub fn post(url: &str, body: impl Into<Vec<u8>>) -> HttpRequest {
    let mut r = req(HttpMethod::Post, url);
    r.body = RequestBody::Bytes(bytes::Bytes::from(body.into()));
    r
}
pub fn text_response(status: u16, s: impl Into<String>) -> HttpResponse {
    HttpResponse { status, headers: vec![], body: ResponseBody::Bytes(bytes::Bytes::from(s.into())) }
}

#[derive(Debug, Clone, PartialEq)]
pub enum BodyOut { None, Bytes(Vec<u8>), Stream { chunks: Vec<Result<Vec<u8>, String>>, ended: bool } }
#[derive(Debug, Clone, PartialEq)]
pub struct Resp { pub status: u16, pub headers: Vec<(String, String)>, pub body: BodyOut }
impl Resp {
    pub fn bytes(&self) -> Vec<u8> {
        match &self.body { BodyOut::None => vec![], BodyOut::Bytes(b) => b.clone(),
            BodyOut::Stream { chunks, .. } => chunks.iter().filter_map(|c| c.as_ref().ok()).flatten().copied().collect() }
    }
    pub fn text(&self) -> String { String::from_utf8_lossy(&self.bytes()).into_owned() }
    pub fn json(&self) -> serde_json::Value { serde_json::from_slice(&self.bytes()).unwrap_or(serde_json::Value::String(format!("<not json: {:?}>", self.text()))) }
    pub fn error(&self) -> Option<String> { if let BodyOut::Stream { chunks, .. } = &self.body { chunks.iter().find_map(|c| c.as_ref().err().cloned()) } else { None } }
    pub fn header(&self, n: &str) -> Vec<&str> { self.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.as_str()).collect() }
}
#[derive(Debug)]
pub struct Out {
    pub exec: Result<(), TerminationReason>,
    pub resp: Option<Resp>,
    pub task: Option<TaskResult>,
    pub panicked: bool,
    pub hung: bool,
    /// exec() returned this long after it was called
    pub took: Duration,
    /// the response head arrived this long after the call
    pub head_at: Option<Duration>,
}
impl Out {
    pub fn text(&self) -> String { self.resp.as_ref().map(|r| r.text()).unwrap_or_default() }
    pub fn json(&self) -> serde_json::Value { self.resp.as_ref().map(|r| r.json()).unwrap_or(serde_json::Value::Null) }
    pub fn status(&self) -> u16 { self.resp.as_ref().map(|r| r.status).unwrap_or(0) }
    pub fn ok(&self) -> bool { self.exec.is_ok() && !self.hung && !self.panicked }
    pub fn brief(&self) -> String {
        format!("exec={:?} hung={} panicked={} status={} body={:?}", self.exec, self.hung, self.panicked, self.status(), self.text().chars().take(600).collect::<String>())
    }
}
#[derive(Clone, Default)]
pub struct Client {
    /// pause before every body read
    pub pace: Option<Duration>,
    /// read this many chunks, then drop the body
    pub disconnect_after: Option<usize>,
    /// drop the response receiver before the head arrives
    pub never_listen: bool,
    /// given permits once the client has the head of the answer
    pub answered: Option<Arc<tokio::sync::Semaphore>>,
}
pub async fn read_response(rx: tokio::sync::oneshot::Receiver<HttpResponse>, c: &Client, t0: Instant) -> (Option<Resp>, Option<Duration>) {
    if c.never_listen { drop(rx); return (None, None); }
    let Ok(r) = rx.await else { return (None, None) };
    let at = t0.elapsed();
    if let Some(s) = &c.answered { s.add_permits(10_000); }
    let body = match r.body {
        ResponseBody::None => BodyOut::None,
        ResponseBody::Bytes(b) => BodyOut::Bytes(b.to_vec()),
        ResponseBody::Stream(mut rx) => {
            let (mut chunks, mut ended) = (vec![], false);
            loop {
                if c.disconnect_after.is_some_and(|n| chunks.len() >= n) { break; }
                if let Some(p) = c.pace { tokio::time::sleep(p).await; }
                match rx.recv().await { Some(x) => chunks.push(x.map(|b| b.to_vec())), None => { ended = true; break; } }
            }
            BodyOut::Stream { chunks, ended }
        }
    };
    (Some(Resp { status: r.status, headers: r.headers, body }), Some(at))
}

pub enum Rx { Http(tokio::sync::oneshot::Receiver<HttpResponse>), Task(tokio::sync::oneshot::Receiver<TaskResult>) }
pub fn ev_fetch(r: HttpRequest) -> (Event, Rx) { let (e, rx) = Event::fetch(r); (e, Rx::Http(rx)) }
pub fn ev_task(id: &str, payload: Option<serde_json::Value>, src: Option<TaskSource>, attempt: u32) -> (Event, Rx) {
    let (e, rx) = Event::task(id.into(), payload, src, attempt);
    (e, Rx::Task(rx))
}

/// Drive one execution and its client together, bounded by `deadline` (whose expiry is `hung`).
pub async fn drive<F>(exec: F, rx: Rx, client: Client, deadline: Duration) -> Out where F: Future<Output = Result<(), TerminationReason>> {
    let t0 = Instant::now();
    let took = std::cell::Cell::new(Duration::ZERO);
    let fut = async {
        let e = async { let r = AssertUnwindSafe(exec).catch_unwind().await; took.set(t0.elapsed()); r };
        match rx {
            Rx::Http(rx) => { let (e, (r, at)) = tokio::join!(e, read_response(rx, &client, t0)); (e, r, at, None) }
            Rx::Task(rx) => { let (e, r) = tokio::join!(e, rx); (e, None, None, r.ok()) }
        }
    };
    match tokio::time::timeout(deadline, fut).await {
        Ok((Ok(exec), resp, head_at, task)) => Out { exec, resp, task, panicked: false, hung: false, took: took.get(), head_at },
        Ok((Err(_), resp, head_at, task)) => Out { exec: Err(TerminationReason::Other("PANIC".into())), resp, task, panicked: true, hung: false, took: took.get(), head_at },
        Err(_) => Out { exec: Err(TerminationReason::Other(if took.get() == Duration::ZERO { "HUNG" } else { "HUNG CLIENT" }.into())), resp: None, task: None, panicked: false, hung: true, took: t0.elapsed(), head_at: None },
    }
}

pub fn roomy() -> RuntimeLimits {
    RuntimeLimits { heap_initial_mb: 1, heap_max_mb: 256, max_cpu_time_ms: 20_000, max_wall_clock_time_ms: 60_000, stream_buffer_size: 16 }
}
pub const DEADLINE: Duration = Duration::from_secs(20);

/// A fresh Worker per request.
pub async fn worker_once(script: Script, limits: RuntimeLimits, ops: OperationsHandle, ev: (Event, Rx)) -> Out {
    worker_client(script, limits, ops, ev, Client::default(), DEADLINE).await
}
pub async fn worker_client(script: Script, limits: RuntimeLimits, ops: OperationsHandle, ev: (Event, Rx), c: Client, dl: Duration) -> Out {
    let exec = async move {
        let mut w = rt::Worker::new_with_ops(script, Some(limits), ops).await?;
        w.exec(ev.0).await
    };
    drive(exec, ev.1, c, dl).await
}
pub struct Pin { pub owner: String, pub worker: String, pub version: i32, pub env_ts: Option<i64> }
impl Pin { pub fn new(o: &str, w: &str) -> Pin { Pin { owner: o.into(), worker: w.into(), version: 1, env_ts: None } } }
pub fn pin_exec(p: &Pin, script: Script, ops: OperationsHandle, ev: Event, warm: Option<rt::WarmHitCallback>) -> impl Future<Output = Result<(), TerminationReason>> + use<> {
    rt::execute_pinned(rt::PinnedExecuteRequest {
        owner_id: p.owner.clone(), worker_id: p.worker.clone(), version: p.version, script, ops, task: ev, on_warm_hit: warm, env_updated_at: p.env_ts,
    })
}
pub async fn pinned_once(p: &Pin, script: Script, ops: OperationsHandle, ev: (Event, Rx)) -> Out {
    drive(pin_exec(p, script, ops, ev.0, None), ev.1, Client::default(), DEADLINE).await
}
pub fn init_pool(max_per_thread: usize, max_per_owner: Option<usize>, conc: usize, cached: usize, limits: RuntimeLimits) {
    rt::init_pinned_pool(rt::PinnedPoolConfig { max_per_thread, max_per_owner, max_concurrent_per_isolate: conc, max_cached_contexts: cached, limits });
}

/// Run an async body on a current-thread runtime with a LocalSet, as a server thread would.
pub fn on_local<T>(f: impl Future<Output = T>) -> T {
    let r = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let local = tokio::task::LocalSet::new();
    r.block_on(local.run_until(f))
}
pub fn spread(h: &[(&str, &str)]) -> HashMap<String, String> { h.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() }
/// JavaScript string literal for arbitrary text
pub fn js(s: &str) -> String { serde_json::to_string(s).unwrap().replace('\u{2028}', "\\u2028").replace('\u{2029}', "\\u2029") }
pub fn fetch_script(body: &str) -> Script { Script::new(format!("addEventListener('fetch', e => e.respondWith((async (request) => {{ {body} }})(e.request)));")) }

// ------------------------------------------------------------------ shim monitors
unsafe extern "C" {
    fn owh_mon_counts(out: *mut u64);
    fn owh_mon_ext(i: *mut std::ffi::c_void) -> i64;
    fn owh_mon_live(i: *mut std::ffi::c_void) -> i64;
    fn owh_mon_term(i: *mut std::ffi::c_void) -> i64;
    pub fn owh_alloc(a: *const std::ffi::c_void, n: usize, zero: i32) -> *mut std::ffi::c_void;
    pub fn owh_free(a: *const std::ffi::c_void, d: *mut std::ffi::c_void, n: usize);
}
#[derive(Default, Clone, Copy, Debug)]
pub struct Mon { pub global_new: u64, pub global_reset: u64, pub reset_unlocked: u64, pub scope_unlocked: u64, pub adjust_unlocked: u64,
    pub reset_unknown: u64, pub locks: u64, pub disposed: u64, pub leaked: u64, pub scopes: u64, pub adjusts: u64, pub locked_isolates: u64 }
pub fn mon() -> Mon {
    let mut o = [0u64; 16];
    unsafe { owh_mon_counts(o.as_mut_ptr()) }
    Mon { global_new: o[0], global_reset: o[1], reset_unlocked: o[2], scope_unlocked: o[3], adjust_unlocked: o[4], reset_unknown: o[5], locks: o[6], disposed: o[7], leaked: o[8], scopes: o[9], adjusts: o[10], locked_isolates: o[11] }
}
/// what was reported to this isolate so far
pub fn mon_ext(i: *mut std::ffi::c_void) -> i64 { unsafe { owh_mon_ext(i) } }
/// live Global handles of this isolate
pub fn mon_live(i: *mut std::ffi::c_void) -> i64 { unsafe { owh_mon_live(i) } }
/// how often this isolate was told to terminate execution
pub fn mon_term(i: *mut std::ffi::c_void) -> i64 { unsafe { owh_mon_term(i) } }
