//! Differential scenarios: one JS case file, run with the same seed in plain node and in a worker.
use crate::kit::*;
use openworkers_core::*;
use std::io::Write;
use std::time::Duration;

const LIB: &str = include_str!("../../js/lib.js");
fn file(area: &str) -> &'static str {
    match area {
        "text" => include_str!("../../js/text.js"),
        "crypto" => include_str!("../../js/crypto.js"),
        "body" => include_str!("../../js/body.js"),
        "web" => include_str!("../../js/web.js"),
        "rstream" => include_str!("../../js/rstream.js"),
        "abort" => include_str!("../../js/abort.js"),
        a => panic!("no area {a}"),
    }
}
fn node(src: &str) -> Result<String, String> {
    let mut p = std::process::Command::new("/usr/bin/node").args(["--no-warnings", "--unhandled-rejections=none"]).arg("-")
        .env_remove("LD_PRELOAD").env_remove("NODE_OPTIONS").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    p.stdin.take().unwrap().write_all(src.as_bytes()).map_err(|e| e.to_string())?;
    let o = p.wait_with_output().map_err(|e| e.to_string())?;
    if !o.status.success() { return Err(String::from_utf8_lossy(&o.stderr).chars().take(2000).collect()); }
    Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}
fn parse(s: &str) -> Vec<(String, String, String)> { s.lines().filter_map(|l| serde_json::from_str(l).ok()).collect() }

pub fn run(c: &mut Ctx) {
    let area = c.args.get(2).cloned().unwrap_or_default();
    let opt = |k: &str| c.args.iter().position(|a| a == k).and_then(|i| c.args.get(i + 1)).cloned();
    let body = file(&area);
    let n: usize = opt("--n").and_then(|s| s.parse().ok()).unwrap_or(40);
    let rounds: usize = opt("--rounds").and_then(|s| s.parse().ok()).unwrap_or(c.n(60, 4000));
    let own = rt_self_checks(&area);
    for k in 0..rounds {
        if !c.time_left() { break; }
        let seed = c.rng.next() as u32;
        c.rep.case(format!("diff-{area} seed={seed} n={n} round={k}"));
        let reference = std::thread::spawn(move || node(&format!("{LIB}\n{body}\nrunCases({seed}, {n}, body).then(s => process.stdout.write(s))")));
        let script = format!("{LIB}\n{body}\n{own}\naddEventListener('fetch', e => e.respondWith(runCases({seed}, {n}, body).then(s => new Response(s), x => new Response('FAILED ' + (x && x.stack)))))");
        let o = on_local(worker_client(Script::new(script.as_str()), roomy(), Mock::none(), ev_fetch(get("http://x/")), Client::default(), Duration::from_secs(50)));
        let want = match reference.join().unwrap() { Ok(s) => parse(&s), Err(e) => { c.rep.inconclusive(format!("node: {e}")); continue; } };
        if !o.ok() || o.status() != 200 || o.text().starts_with("FAILED ") { c.rep.viol(format!("diff:{area}-run"), o.brief()); continue; }
        let got = parse(&o.text());
        if got.len() != want.len() { c.rep.viol(format!("diff:{area}-count"), format!("{} outcomes instead of {}: {}", got.len(), want.len(), o.brief())); continue; }
        for (g, w) in got.iter().zip(&want) {
            c.rep.count("compared", 1);
            c.rep.count(&format!("compared_{}", w.0), 1);
            if w.2 == "throws" || w.2.starts_with("throws ") { c.rep.count("compared_failures", 1); }
            c.rep.check(g == w, &format!("diff:{}", w.0), || format!("seed {seed}: {} of {}: runtime {} / reference {}", w.0, w.1, g.2, w.2));
            c.rep.seen(&format!("{}|{}", w.0, w.1));
        }
    }
}
fn rt_self_checks(_area: &str) -> &'static str { "" }
