use crate::kit::*;
use openworkers_core::*;
use std::time::Duration;
use std::sync::Arc;
/// Developer scenario: run a script file (--script F) under Worker, print the response.
pub fn run(c: &mut Ctx) {
    let opt = |k: &str| c.args.iter().position(|a| a == k).and_then(|i| c.args.get(i + 1)).cloned();
    if let Some(p) = opt("--p") { return probes(&p); }
    if let Some(p) = opt("--snap") { let r = openworkers_runtime_v8::create_runtime_snapshot(); eprintln!("{:?}", r.as_ref().map(|s| s.output.len())); std::fs::write(p, r.unwrap().output).unwrap(); return; }
    if let Some(p) = opt("--cache") { let s = std::fs::read_to_string(p).unwrap(); let r = openworkers_runtime_v8::create_code_cache(&s); eprintln!("{:?}", r.map(|s| s.len())); return; }
    let src = std::fs::read_to_string(opt("--script").unwrap()).unwrap();
    let mut limits = roomy(); if let Some(w)=opt("--wall") {limits.max_wall_clock_time_ms=w.parse().unwrap();} if let Some(w)=opt("--heap") {limits.heap_max_mb=w.parse().unwrap();} if let Some(w)=opt("--cpu") {limits.max_cpu_time_ms=w.parse().unwrap();}
    on_local(async {
        let ops = Mock::new(|i, op| async move { match &op { Op::Fetch(r) => Reply::Http(Ok(text_response(200, format!("#{i} {} {} {:?}", r.method, r.url, r.body)))), _ => err_reply(&op, "nope") } });
        let o = worker_client(Script::new(src.as_str()), limits, ops.clone(), ev_fetch(post("http://host/path?x=1", "hello")), Client::default(), std::time::Duration::from_secs(15)).await;
        for (l, m) in ops.logs() { eprintln!("LOG {l:?} {m}"); }
        eprintln!("exec={:?} took={:?} hung={} panicked={}", o.exec, o.took, o.hung, o.panicked);
        if let Some(r) = &o.resp { eprintln!("{} {:?}\n{}", r.status, r.headers, r.text()); if let Some(e) = r.error() { eprintln!("ERR {e}"); } }
    });
}
fn stream_resp(n: usize, gap: u64, tag: &'static str) -> HttpResponse {
    let (tx, rx) = tokio::sync::mpsc::channel(4);
    tokio::spawn(async move { for i in 0..n { tokio::time::sleep(Duration::from_millis(gap)).await; if tx.send(Ok(bytes::Bytes::from(format!("{tag}{i};")))).await.is_err() { eprintln!("upstream {tag}: receiver gone at {i}"); return; } } });
    HttpResponse { status: 200, headers: vec![], body: ResponseBody::Stream(rx) }
}
fn probes(p: &str) {
    let mut lim = roomy(); lim.max_wall_clock_time_ms = 2000; lim.max_cpu_time_ms = 500;
    init_pool(4, None, 1, 4, lim.clone());
    let ops: OperationsHandle = Mock::new(|_i, op| async move { match &op {
        Op::Fetch(r) if r.url.contains("stream") => Reply::Http(Ok(stream_resp(10, 20, "s"))),
        Op::Fetch(r) => { let ms: u64 = r.url.rsplit('=').next().unwrap().parse().unwrap_or(0); tokio::time::sleep(Duration::from_millis(ms)).await; Reply::Http(Ok(text_response(200, r.url.clone()))) }
        _ => err_reply(&op, "nope") } });
    let pin = Pin::new("o", "worker-1");
    on_local(async {
        match p {
            "late" => {
                let s = || Script::new("addEventListener('fetch', e => e.respondWith((async()=>{ const u=e.request.url; if(u.includes('/a')){ fetch('http://up/A?ms=100'); return new Response('a done'); } const r=await fetch('http://up/B?ms=300'); return new Response(await r.text()); })()))");
                let o = pinned_once(&pin, s(), ops.clone(), ev_fetch(get("http://x/a"))).await; eprintln!("{}", o.brief());
                let o = pinned_once(&pin, s(), ops.clone(), ev_fetch(get("http://x/b"))).await; eprintln!("{}", o.brief());
            }
            "fwd" => {
                let s = || Script::new("addEventListener('fetch', e => e.respondWith((async()=>{ const u=e.request.url; if(u.includes('/a')){ return fetch('http://up/stream'); } return new Response('b'); })()))");
                let o = worker_once(s(), lim.clone(), ops.clone(), ev_fetch(get("http://x/a"))).await; eprintln!("worker {}", o.brief());
                let o = pinned_once(&pin, s(), ops.clone(), ev_fetch(get("http://x/a"))).await; eprintln!("pooled {}", o.brief());
                let (a, b) = tokio::join!(pinned_once(&pin, s(), ops.clone(), ev_fetch(get("http://x/a"))), async { tokio::time::sleep(Duration::from_millis(60)).await; pinned_once(&pin, s(), ops.clone(), ev_fetch(get("http://x/b"))).await });
                eprintln!("pooled A {}\nB {}", a.brief(), b.brief());
            }
            "term" => {
                for code in ["addEventListener('fetch', e => { while(true){} })", "addEventListener('fetch', e => e.respondWith(new Promise(()=>{})))", "addEventListener('fetch', e => e.respondWith((async()=>{await 1; while(true){}})()))"] {
                    let o = drive(pin_exec(&Pin::new("o", code), Script::new(code), ops.clone(), { let (e, _r) = Event::fetch(get("http://x/a")); e }, None), ev_fetch(get("http://x")).1, Client{never_listen:true,..Default::default()}, Duration::from_secs(4)).await;
                    eprintln!("{}", o.brief());
                    let o = pinned_once(&Pin::new("o", "fresh"), Script::new("addEventListener('fetch', e => e.respondWith(new Response('fine')))"), ops.clone(), ev_fetch(get("http://x/a"))).await; eprintln!("   next {}", o.brief());
                    eprintln!("   {:?}", openworkers_runtime_v8::get_local_pool_stats());
                }
            }
            "drop" => {
                let s = || Script::new("addEventListener('fetch', e => e.respondWith((async()=>{ const r=await fetch('http://up/B?ms=300'); return new Response(await r.text()); })()))");
                for _ in 0..3 { let (e, _rx) = Event::fetch(get("http://x/b")); let r = tokio::time::timeout(Duration::from_millis(100), pin_exec(&pin, s(), ops.clone(), e, None)).await; eprintln!("{:?} {:?}", r.is_err(), openworkers_runtime_v8::get_local_pool_stats()); }
            }
            "slow" => {
                let s = || Script::new("addEventListener('fetch', e => e.respondWith((async()=>{ const enc=new TextEncoder(); let i=0; const st=new ReadableStream({pull(c){ if(i<17) c.enqueue(enc.encode('c'+(i++)+';')); else c.close(); }}); return new Response(st); })()))");
                let mut l = lim.clone(); l.stream_buffer_size = 1; l.max_wall_clock_time_ms = 20000;
                let o = worker_client(s(), l.clone(), ops.clone(), ev_fetch(get("http://x/a")), Client{pace: Some(Duration::from_millis(50)), ..Default::default()}, Duration::from_secs(10)).await; eprintln!("slow {}", o.brief());
                if let Some(r)=&o.resp { eprintln!("{:?}", r.body); }
            }
            "stacked" => {
                // repeated exec on one Worker
                let s = Script::new("let n=0; addEventListener('fetch', e => e.respondWith((async()=>{ n++; if (e.request.url.includes('slow')) await new Promise(r=>setTimeout(r,50)); return new Response('n='+n+' '+e.request.url); })()))");
                let mut w = openworkers_runtime_v8::Worker::new_with_ops(s, Some(lim.clone()), ops.clone()).await.unwrap();
                for u in ["http://x/1","http://x/slow2","http://x/3"] {
                    let (e, rx) = Event::fetch(get(u)); let r = w.exec(e).await; eprintln!("{r:?} {:?}", rx.await.map(|r| r.status));
                }
            }
            _ => {}
        }
    });
    let _ = Arc::new(0);
}
/// Makes the fault a sanitizer exists to find: a check whose sanitizer stays quiet here sees nothing.
#[inline(never)]
pub fn canary(c: &mut Ctx) {
    struct Cell(std::cell::UnsafeCell<u64>);
    unsafe impl Sync for Cell {}
    static SHARED: Cell = Cell(std::cell::UnsafeCell::new(0));
    let kind = c.opt("--kind").unwrap_or_default();
    c.rep.case(format!("canary {kind}"));
    match kind.as_str() {
        "race" => { let b = std::sync::Barrier::new(2); std::thread::scope(|t| for k in 0..2u64 { let b = &b; t.spawn(move || for i in 0..20_000 { if i % 1000 == 0 { b.wait(); } unsafe { let p = SHARED.0.get(); p.write_volatile(p.read_volatile() + i + k) } if i % 100 == 0 { std::thread::yield_now() } }); }) }
        "quiet" => { let m = Arc::new(std::sync::Mutex::new(0u64)); std::thread::scope(|t| for _ in 0..4 { let m = m.clone(); t.spawn(move || for i in 0..2000u64 { *m.lock().unwrap() += i }); }); }
        "uaf" => { let b = Box::new([7u8; 64]); let p = Box::into_raw(b); unsafe { drop(Box::from_raw(p)); eprintln!("{}", std::ptr::read_volatile(std::hint::black_box(p) as *const u8)); } }
        _ => { let b: Vec<u8> = vec![1; std::hint::black_box(64)]; unsafe { eprintln!("{}", std::ptr::read_volatile(b.as_ptr().add(std::hint::black_box(70)))); } }
    }
}
