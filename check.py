#!/usr/bin/env python3
"""check.py ID: decide one property against /repo's working tree (see DESIGN.md).

Builds the runtime from /repo together with the verification host, runs the property's
jobs (checks.py), judges what their monitors reported, writes evidence/<ID>.json.
Exit 0: held. Exit 1: VIOLATION line printed. Exit 2: the check itself failed.
check.py --replay FILE: re-run the job which a VIOLATION line names."""
import json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
sys.path.insert(0, V)
import checks  # noqa: E402


def build(variants):
    t = time.time()
    r = subprocess.run(["bash", f"{V}/harness/build.sh", REPO, *variants], capture_output=True, text=True)
    if r.returncode:
        print((r.stdout + r.stderr)[-4000:], file=sys.stderr)
        print("check: the build of /repo with the verification host failed", file=sys.stderr)
        sys.exit(2)
    return time.time() - t


def snapshot(variant):
    """The runtime snapshot of the build, in a directory of its own: the host looks for it in its working directory.
    Without it (creation failed) the host runs without; that it can be created is C16's matter."""
    d = f"{V}/build/snap-{variant}"
    os.makedirs(d, exist_ok=True)
    f = f"{d}/runtime-snapshot.bin"
    if os.path.exists(f):
        os.unlink(f)
    env = dict(os.environ, **preload(variant))
    r = subprocess.run(["/usr/bin/node", "probe", "--snap", f], env=env, cwd=f"{V}/build", capture_output=True, timeout=120)
    if r.returncode or not os.path.exists(f):
        print(f"check: no runtime snapshot: {r.stderr.decode('utf-8', 'replace')[-1000:]}", file=sys.stderr)


def preload(variant):
    """The libraries of a host, and what its sanitizer is told."""
    libs = [f"{V}/build/bin/libshim.so", f"{V}/build/bin/libowh-{variant}.so"]
    env = {}
    san = variant.split("-")[0]
    if san in SANITIZERS:
        libs.insert(0, subprocess.run(["clang", f"--print-file-name=libclang_rt.{san}-x86_64.so"], capture_output=True, text=True).stdout.strip())
        env = SANITIZERS[san]
    return dict(env, LD_PRELOAD=":".join(libs))


# node's own code is not instrumented: TSan does not judge what only it did, ASan does not look for its leaks
SANITIZERS = {
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:handle_segv=0:detect_stack_use_after_return=0:allocator_may_return_null=1"},
    "tsan": {"TSAN_OPTIONS": "ignore_noninstrumented_modules=1:handle_segv=0:exitcode=0:allocator_may_return_null=1:history_size=4"},
}


def sanitizer_reports(err):
    """(signature, text) of every report of a sanitizer: its kind and the runtime's functions it names."""
    out = []
    for m in re.finditer(r"(?:ERROR|WARNING): (AddressSanitizer|ThreadSanitizer): ([^\n(]*)", err):
        text = err[m.start():m.start() + 12000].split("\n==================")[0].split("\nSUMMARY:")[0]
        fns = [f for f in re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(.*?) (?:/|\()", text) if "openworkers" in f]
        fns = [re.sub(r"\{closure#\d+\}|<.*?>| ", "", f)[-60:] for f in fns]
        kind = re.sub(r" on address.*", "", m[2]).strip().replace(" ", "-")
        out.append((f"{m[1][0]}San:{kind}:{fns[0] if fns else 'other'}", text))
    return out


def run_job(job, seed):
    """Run one job; returns its parsed events and how it ended."""
    variant, args = job["variant"], list(job["args"])
    budget = job["budget"][TIER == "thorough"]
    if job.get("cmd"):
        argv = [a.format(V=V, REPO=REPO) for a in job["cmd"]] + ["--seed", str(seed), "--tier", TIER, "--budget", str(budget)]
        env = dict(os.environ)
    else:
        argv = ["/usr/bin/node", *args, "--seed", str(seed), "--tier", TIER, "--budget", str(budget), "--hang", str(job.get("hang", 60))]
        env = dict(os.environ, **preload(variant))
    env.update(job.get("env", {}))
    t0 = time.time()
    p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=f"{V}/build/snap-{variant}" if job.get("snap") else f"{V}/build", start_new_session=True)
    killed = False
    try:
        out, err = p.communicate(timeout=budget * 2 + 120)
    except subprocess.TimeoutExpired:
        killed = True
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
    ev, last = [], ""
    for line in out.decode("utf-8", "replace").split("\n"):
        if not line.startswith("{"):
            continue
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("ev") == "case":
            last = e["name"]
        else:
            ev.append(e)
    rep = next((e for e in ev if e["ev"] == "report"), None)
    return dict(job=job, seed=seed, rc=p.returncode, killed=killed, events=ev, report=rep, last=last,
                err=err.decode("utf-8", "replace")[-3000:], san=sanitizer_reports(err.decode("utf-8", "replace")), wall=time.time() - t0, argv=argv)


def ending(r):
    """None when the run ended normally, else (signature, detail) of an abnormal end."""
    hang = next((e for e in r["events"] if e["ev"] == "hang"), None)
    if hang or r["killed"]:
        case = (hang or {}).get("case") or r["last"]
        return f"hang:{label(case)}", f"no progress in case: {case}"
    if r["report"] is None or r["rc"] != 0:
        return f"crash:{label(r['last'])}", f"process ended with status {r['rc']} during case: {r['last']}\n{r['err'][-1500:]}"
    return None


def label(case):
    """The stable part of a case name (up to the first space)."""
    return (case or "start").split(" ")[0]


def findings(pid):
    out, path = [], f"{V}/known-findings.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m[1] == pid:
                out.append((m[2], m[3]))
    return out


def main(pid):
    t0 = time.time()
    chk = checks.CHECKS[pid]
    jobs = chk["jobs"]
    variants = sorted({j["variant"] for j in jobs if j.get("variant")})
    build_s = build(variants) if variants else 0.0
    lost = sorted(v for v in variants if v.startswith("jit") and not os.path.exists(f"{V}/build/bin/libowh-{v}.so"))
    jobs = [j for j in jobs if j.get("variant") not in lost]
    for v in sorted({j["variant"] for j in jobs if j.get("snap")}):
        snapshot(v)
    plan = []
    for j in jobs:
        n = j["seeds"][TIER == "thorough"]
        plan += [(j, SEED * 1000 + k) for k in range(n)]
    par = chk.get("parallel", 6)
    solo = [(j, s) for j, s in plan if j.get("solo")]
    rest = [(j, s) for j, s in plan if not j.get("solo")]
    with ThreadPoolExecutor(par) as ex:
        results = list(ex.map(lambda js: run_job(*js), rest))
    results += [run_job(j, s) for j, s in solo]

    viols, notes, cover, hashes, samples = [], [], {}, set(), []
    evals = 0
    notes += [f"variant {v} could not be built from these sources: its jobs were left out" for v in lost]
    for r in results:
        end = ending(r)
        viols += [(sig, f"[{r['last']}] {text}", r) for sig, text in r["san"] if not r["job"].get("canary")]
        if r["job"].get("canary"):
            # the sanitizer is asked to find a fault made for it
            found = any(sig.split(":")[1] == r["job"]["canary"] for sig, _ in r["san"])
            cover["canaries_found"] = cover.get("canaries_found", 0) + found
            evals += 1
            continue
        if r["san"] and end:
            continue
        if end:
            # once more, alone: an abnormal end counts only if it comes back
            again = [run_job(r["job"], r["seed"]) for _ in range(2)]
            hit = next((ending(a) for a in again if ending(a)), None)
            if hit and r["rc"] != -9:
                viols.append((hit[0], hit[1], r))
            elif r["rc"] == -9 and hit:
                print(f"check: {r['argv']} was killed twice\n{r['err']}", file=sys.stderr)
                sys.exit(2)
            else:
                notes.append(f"abnormal end did not come back: {end[0]}: {end[1][:300]}")
                r = again[-1]
        # what an instrumented (slower) run finds wrong besides is for the checks that run uninstrumented
        todo = [e for e in r["events"] if e["ev"] == "violation" and not r["job"].get("only_san")]
        timed = [e for e in todo if e["sig"].startswith("time:")]
        if timed:
            # verdicts that depend on elapsed time must hold up on a quiet machine
            again = run_job(r["job"], r["seed"])
            sigs = {e["sig"] for e in again["events"] if e["ev"] == "violation"}
            for e in timed:
                if e["sig"] not in sigs:
                    todo.remove(e)
                    notes.append(f"timing verdict did not come back: {e['sig']}: {e['detail'][:200]}")
        viols += [(e["sig"], f"[{e.get('case', '')}] {e['detail']}", r) for e in todo]
        notes += [f"inconclusive: {e['what'][:300]}" for e in r["events"] if e["ev"] == "inconclusive"]
        rep = r["report"]
        if rep:
            evals += rep["evals"]
            hashes |= {(label_job(r["job"]), h) for h in rep.get("hashes", [])}
            for k, n in rep["counters"].items():
                cover[k] = max(cover.get(k, 0), n) if k.startswith("max_") else cover.get(k, 0) + n
            samples += [f"{label_job(r['job'])}: {s}" for s in rep["samples"][:3]]

    listed, known_seen, fresh = findings(pid), {}, {}
    for sig, detail, r in viols:
        k = next((f for f in listed if sig_match(f[0], sig)), None)
        if k:
            known_seen.setdefault(k, 0)
            known_seen[k] += 1
        else:
            fresh.setdefault(sig, (detail, r))
    # enough must have been observed for a verdict
    low = [f"{k}: {cover.get(k, 0)} < {n}" for k, n in chk.get("floor", {}).items() if cover.get(k, 0) < n]

    os.makedirs(f"{V}/evidence/replay", exist_ok=True)
    coverage = dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=chk["rule"], samples=samples[:24] or ["(none)"],
                    counters=cover, jobs=[dict(job=label_job(r["job"]), seed=r["seed"], wall_s=round(r["wall"], 1)) for r in results],
                    build_s=round(build_s, 1))
    if notes:
        coverage["notes"] = notes[:40]
    ev = dict(property=pid, tier=TIER, seed=SEED, level="exploration", coverage=coverage,
              assumptions=checks.ASSUMPTIONS + chk.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(fresh))
    with open(f"{V}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)

    for (sig, what), n in known_seen.items():
        print(f"KNOWN-FINDING: property={pid} {sig}: {what} (seen {n}x)")
    for n in notes[:10]:
        print(f"note: {n}")
    for i, (sig, (detail, r)) in enumerate(fresh.items()):
        path = f"{V}/evidence/replay/{pid}-{i}.json"
        with open(path, "w") as f:
            json.dump(dict(property=pid, sig=sig, detail=detail, job=r["job"], seed=r["seed"], tier=TIER, argv=r["argv"], last_case=r["last"]), f, indent=1)
        print(f"{sig}: {detail[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
    print(f"{pid}: {evals} cases, {len(hashes)} distinct, {cover.get('oracle_checks', 0)} oracle checks, {round(time.time() - t0, 1)} s")
    if fresh:
        sys.exit(1)
    if low:
        print(f"check: too little was observed: {low}", file=sys.stderr)
        sys.exit(2)


def sig_match(pat, sig):
    return sig == pat or (pat.endswith("*") and sig.startswith(pat[:-1]))


def label_job(j):
    return " ".join([j.get("variant") or "-", *(["snapshot"] if j.get("snap") else []), *(j["args"] or j.get("cmd", []))])


def replay(path):
    rec = json.load(open(path))
    global TIER
    TIER = rec["tier"]
    if rec["job"].get("variant"):
        build([rec["job"]["variant"]])
        if rec["job"].get("snap"):
            snapshot(rec["job"]["variant"])
    r = run_job(rec["job"], rec["seed"])
    for e in r["events"]:
        if e["ev"] in ("violation", "hang"):
            print(json.dumps(e))
    end = ending(r)
    if end:
        print(end)
    for sig, text in r["san"]:
        print(sig, text)
    sys.exit(1 if end or r["san"] or any(e["ev"] == "violation" for e in r["events"]) else 0)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        replay(sys.argv[2])
    else:
        main(sys.argv[1])
