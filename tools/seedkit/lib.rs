//! The demonstration's host: the real runtime inside node's process, on node's V8.
#![allow(dead_code)]
pub mod kit;
mod demo;
use kit::*;

#[unsafe(no_mangle)]
pub extern "C" fn owh_main(_argc: i32, _argv: *const *const libc::c_char) -> i32 {
    let rep = Report::new();
    install_panic_hook();
    start_watchdog(100, rep.clone());
    let bad = demo::run();
    for b in &bad { eprintln!("BROKEN: {b}"); }
    let panics = std::mem::take(&mut *PANICS.lock().unwrap());
    unsafe { libc::_exit(if bad.is_empty() && panics.is_empty() { 0 } else { 1 }) }
}
