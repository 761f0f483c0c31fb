//! Verification host: runs inside node's process on node's V8 (see shim/).
#![allow(dead_code)]
pub mod kit;
mod s_diff;
mod s_gc;
mod s_life;
mod s_hostile;
mod s_ws;
mod s_cache;
mod s_clock;
mod s_left;
mod s_limits;
mod s_outcome;
mod s_pool;
mod s_probe;
mod s_req;
mod s_resp;
mod s_streams;
mod s_waiter;
use kit::*;
use std::time::{Duration, Instant};

type Scenario = fn(&mut Ctx);
const SCENARIOS: &[(&str, Scenario)] = &[
    ("probe", s_probe::run),
    ("canary", s_probe::canary),
    ("diff", s_diff::run),
    ("ext-model", s_gc::ext_model),
    ("ext-stress", s_gc::ext_stress),
    ("gc-sizes", s_gc::sizes),
    ("defer-model", s_gc::defer_model),
    ("defer-stress", s_gc::defer_stress),
    ("guards-cpu", s_limits::guards_cpu),
    ("guards-wall", s_limits::guards_wall),
    ("neighbours", s_limits::neighbours),
    ("wall-shapes", s_limits::wall_shapes),
    ("cpu-shapes", s_limits::cpu_shapes),
    ("within", s_limits::within),
    ("alloc-model", s_limits::alloc_model),
    ("timers", s_life::timers),
    ("life", s_life::life),
    ("hostile", s_hostile::hostile),
    ("confine", s_hostile::confine),
    ("clock", s_clock::clock),
    ("leftovers", s_left::leftovers),
    ("cancelled", s_left::cancelled),
    ("bundle", s_cache::bundle),
    ("cache", s_cache::cache),
    ("cache-child", s_cache::child),
    ("snapshot", s_cache::snapshot),
    ("surface-child", s_cache::surface_child),
    ("websocket", s_ws::websocket),
    ("env", s_life::env),
    ("console", s_life::console),
    ("mem-shapes", s_limits::mem_shapes),
    ("mem-creep", s_limits::mem_creep),
    ("mem-within", s_limits::mem_within),
    ("outcomes", s_outcome::outcomes),
    ("gone", s_outcome::gone),
    ("pool-history", s_pool::history),
    ("pool-isolation", s_pool::isolation),
    ("pool-idle", s_pool::idle),
    ("req-fidelity", s_req::fidelity),
    ("operations", s_req::operations),
    ("resp-fidelity", s_resp::fidelity),
    ("resp-pool", s_resp::fidelity_pool),
    ("streams-model", s_streams::model),
    ("streams-inflight", s_streams::inflight),
    ("streams-stress", s_streams::stress),
    ("streams-race", s_streams::race),
    ("streams-pump", s_streams::pump),
    ("waiter-model", s_waiter::model),
    ("waiter-stress", s_waiter::stress),
];

#[unsafe(no_mangle)]
pub extern "C" fn owh_main(argc: i32, argv: *const *const libc::c_char) -> i32 {
    let args: Vec<String> = (0..argc as usize).map(|i| unsafe { std::ffi::CStr::from_ptr(*argv.add(i)) }.to_string_lossy().into_owned()).collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    own_output();
    install_panic_hook();
    let rep = Report::new();
    *GLOBAL_REPORT.lock().unwrap() = Some(rep.clone());
    let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let hang = opt("--hang").and_then(|s| s.parse().ok()).unwrap_or(60);
    let budget = Duration::from_secs(opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(600));
    start_watchdog(hang, rep.clone());
    let name = args.get(1).cloned().unwrap_or_default();
    let Some((_, f)) = SCENARIOS.iter().find(|(n, _)| *n == name) else { eprintln!("no scenario {name}"); return 2 };
    let mut ctx = Ctx { rep: rep.clone(), seed, thorough: opt("--tier").as_deref() == Some("thorough"), rng: Rng::new(seed), args, budget, t0: Instant::now() };
    f(&mut ctx);
    rep.finish();
    // V8 isolates parked in thread-locals are not worth tearing down here.
    unsafe { libc::_exit(0) }
}

// (the runtime's own atomics in the variants with injected delays)
#[cfg(feature = "jitter")]
pub use openworkers_runtime_v8::__jsync::atomic::AtomicBool as Flag;
#[cfg(not(feature = "jitter"))]
pub use std::sync::atomic::AtomicBool as Flag;
