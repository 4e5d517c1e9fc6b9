//! Parent side: forks one process per simulated run, collects results,
//! minimises failures, writes replay files and evidence.
use crate::json::J;
use crate::obj;
use crate::run::*;
use crate::sys;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::os::fd::FromRawFd;

pub struct Child {
    pub pid: i32,
    pub fd: i32,
    pub buf: Vec<u8>,
    pub tag: usize,
    pub o: Opts,
}
fn ncpu() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
}
fn spawn(scn: &'static Scn, o: Opts, slot: usize, tag: usize) -> Child {
    unsafe {
        let mut p = [0i32; 2];
        libc::pipe(p.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            let mut have: libc::cpu_set_t = std::mem::zeroed();
            libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut have);
            let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &have)).collect();
            if !cpus.is_empty() {
                libc::CPU_SET(cpus[slot % cpus.len()], &mut set);
                libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
            }
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            if !o.echo {
                let n = libc::open(b"/dev/null\0".as_ptr() as *const i8, libc::O_WRONLY);
                libc::dup2(n, 2);
            }
            run_child(scn, o, p[1]);
        }
        libc::close(p[1]);
        Child { pid, fd: p[0], buf: Vec::new(), tag, o }
    }
}
fn reap(c: Child) -> J {
    let mut st = 0;
    unsafe {
        libc::close(c.fd);
        libc::waitpid(c.pid, &mut st, 0);
    }
    if let Some(i) = c.buf.iter().position(|b| *b == b'\n') {
        if let Ok(j) = J::parse(&c.buf[..i]) {
            return j;
        }
    }
    if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) != libc::SIGKILL {
        return obj! {"status" => J::s("viol"), "key" => J::s("crash"), "msg" => J::s(&format!("the router process died from signal {}", libc::WTERMSIG(st)))};
    }
    obj! {"status" => J::s("lost"), "msg" => J::s(&format!("no result, wait status {:x}", st))}
}
pub fn run_one(scn: &'static Scn, o: Opts) -> J {
    let mut c = spawn(scn, o, 0, 0);
    let mut f = unsafe { std::fs::File::from_raw_fd(libc::dup(c.fd)) };
    let mut b = Vec::new();
    let _ = f.read_to_end(&mut b);
    c.buf = b;
    reap(c)
}
/// Runs jobs in parallel; `next` supplies them, `got` takes results and says whether to go on.
pub fn pool(
    scn: &'static Scn,
    width: usize,
    mut next: impl FnMut() -> Option<(usize, Opts)>,
    mut got: impl FnMut(usize, &Opts, J) -> bool,
) {
    let mut slots: Vec<Option<Child>> = (0..width).map(|_| None).collect();
    let mut go = true;
    let mut more = true;
    loop {
        for i in 0..width {
            if slots[i].is_none() && go && more {
                match next() {
                    Some((tag, o)) => slots[i] = Some(spawn(scn, o, i, tag)),
                    None => more = false,
                }
            }
        }
        let live: Vec<usize> = (0..width).filter(|i| slots[*i].is_some()).collect();
        if live.is_empty() {
            return;
        }
        if !go {
            for i in live {
                let c = slots[i].take().unwrap();
                unsafe {
                    libc::kill(c.pid, libc::SIGKILL);
                }
                reap(c);
            }
            return;
        }
        let mut pf: Vec<libc::pollfd> = live.iter().map(|i| libc::pollfd { fd: slots[*i].as_ref().unwrap().fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe {
            libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000);
        }
        for (n, i) in live.iter().enumerate() {
            if pf[n].revents == 0 {
                continue;
            }
            let mut b = [0u8; 65536];
            let k = unsafe { libc::read(pf[n].fd, b.as_mut_ptr() as *mut _, b.len()) };
            if k > 0 {
                slots[*i].as_mut().unwrap().buf.extend_from_slice(&b[..k as usize]);
            } else {
                let c = slots[*i].take().unwrap();
                let (tag, o) = (c.tag, c.o.clone());
                let j = reap(c);
                if !got(tag, &o, j) {
                    go = false;
                }
            }
        }
    }
}
fn st(j: &J) -> &str {
    j.get("status").and_then(|s| s.str()).unwrap_or("")
}
fn key(j: &J) -> &str {
    j.get("key").and_then(|s| s.str()).unwrap_or("")
}
fn int(j: &J, k: &str) -> i64 {
    j.get(k).and_then(|x| x.int()).unwrap_or(0)
}
fn now_s() -> f64 {
    sys::real_now_ns() as f64 / 1e9
}

/// Known findings of a property: key -> text.
pub fn known(prop: &str) -> BTreeMap<String, (String, Option<u64>)> {
    let mut m = BTreeMap::new();
    let dir = root();
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", dir)) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut p = rest.splitn(3, ' ');
                let a = p.next().unwrap_or("");
                let b = p.next().unwrap_or("");
                let t = p.next().unwrap_or("");
                if a == format!("property={}", prop) {
                    if let Some(k) = b.strip_prefix("key=") {
                        let (seed, t) = match t.strip_prefix("seed=") {
                            Some(r) => {
                                let (n, r) = r.split_once(' ').unwrap_or((r, ""));
                                (n.parse().ok(), r)
                            }
                            None => (None, t),
                        };
                        m.insert(k.to_string(), (t.to_string(), seed));
                    }
                }
            }
        }
    }
    m
}
pub fn root() -> String {
    std::env::var("HRSIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub fn minimise(scn: &'static Scn, o: &Opts, k0: &str, budget_s: f64) -> (Opts, J) {
    let end = now_s() + budget_s;
    let mut best = o.clone();
    best.trace = false;
    let mut bestj = run_one(scn, best.clone());
    let fails = |j: &J| st(j) == "viol" && key(j) == k0;
    // simpler schedule and network first
    for f in [|o: &mut Opts| o.calm_sched = true, |o: &mut Opts| o.calm_net = true] {
        let mut c = best.clone();
        f(&mut c);
        let j = run_one(scn, c.clone());
        if fails(&j) {
            best = c;
            bestj = j;
        }
    }
    let n = int(&bestj, "nitems") as usize;
    let mut on: Vec<usize> = (0..n).filter(|i| !best.disabled.contains(i)).collect();
    let w = ncpu().min(8);
    let mut chunk = (on.len() + 1) / 2;
    while chunk >= 1 && now_s() < end && !on.is_empty() {
        // candidates: leave out one chunk each
        let parts: Vec<Vec<usize>> = on.chunks(chunk).map(|c| c.to_vec()).collect();
        let mut i = 0;
        let mut found: Option<(usize, J)> = None;
        let cand: Vec<Opts> = parts
            .iter()
            .map(|p| {
                let mut c = best.clone();
                c.disabled.extend(p.iter().copied());
                c
            })
            .collect();
        pool(
            scn,
            w,
            || {
                if i < cand.len() && now_s() < end {
                    i += 1;
                    Some((i - 1, cand[i - 1].clone()))
                } else {
                    None
                }
            },
            |t, _, j| {
                if fails(&j) {
                    found = Some((t, j));
                    return false;
                }
                true
            },
        );
        if let Some((t, j)) = found {
            best = cand[t].clone();
            on.retain(|x| !best.disabled.contains(x));
            bestj = j;
            if chunk > on.len() {
                chunk = on.len().max(1);
            }
        } else {
            if chunk == 1 {
                break;
            }
            chunk = (chunk + 1) / 2;
        }
    }
    // try the calm variants again on the small case
    for f in [|o: &mut Opts| o.calm_sched = true, |o: &mut Opts| o.calm_net = true] {
        let mut c = best.clone();
        f(&mut c);
        if now_s() < end + 5.0 {
            let j = run_one(scn, c.clone());
            if fails(&j) {
                best = c;
                bestj = j;
            }
        }
    }
    (best, bestj)
}

pub fn replay_json(scn: &Scn, o: &Opts, j: &J) -> J {
    obj! {
        "property" => J::s(scn.id),
        "seed" => J::s(&o.seed.to_string()),
        "thorough" => J::Bool(o.tier_thorough),
        "calm_sched" => J::Bool(o.calm_sched),
        "calm_net" => J::Bool(o.calm_net),
        "disabled" => J::Arr(o.disabled.iter().map(|d| J::i(*d as i64)).collect()),
        "key" => J::s(key(j)),
        "violation" => j.get("msg").cloned().unwrap_or(J::Null),
        "hash" => j.get("hash").cloned().unwrap_or(J::Null),
        "steps" => j.get("steps").cloned().unwrap_or(J::Null),
        "simulated_ns" => j.get("now").cloned().unwrap_or(J::Null),
        "items" => J::Arr(j.get("items").and_then(|a| a.arr()).map(|v| v.iter().filter(|s| !s.str().unwrap_or("").starts_with("(off)")).cloned().collect()).unwrap_or_default()),
        "trace" => j.get("trace").cloned().unwrap_or(J::Null),
        "log" => j.get("log").cloned().unwrap_or(J::Null)
    }
}

pub fn check(scn: &'static Scn, tier: &str) -> i32 {
    let thorough = tier == "thorough";
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let envn = |n: &str| std::env::var(n).ok().and_then(|s| s.parse::<u64>().ok());
    let runs = envn("HRSIM_RUNS").unwrap_or(if thorough { scn.thorough } else { scn.quick });
    let cap = envn("HRSIM_SECS").unwrap_or(if thorough { 600 } else { 75 }) as f64;
    let kn = known(scn.id);
    let t0 = now_s();
    let base = vseed.wrapping_add(1).wrapping_mul(10_000_000);
    let mut i = 0u64;
    let mut agg_f: BTreeMap<String, i64> = BTreeMap::new();
    let mut agg_p: BTreeMap<String, i64> = BTreeMap::new();
    let mut agg_k: BTreeMap<String, i64> = BTreeMap::new();
    let mut orders: BTreeSet<String> = BTreeSet::new();
    let mut hashes: BTreeMap<u64, String> = BTreeMap::new();
    let mut cover: BTreeSet<String> = BTreeSet::new();
    let (mut evals, mut nruns, mut simns, mut steps, mut switches, mut slow, mut lost, mut maxthr) = (0i64, 0u64, 0i64, 0i64, 0i64, 0u64, 0u64, 0i64);
    let (mut rechecks, mut mismatches) = (0u64, 0u64);
    let mut samples: Vec<J> = Vec::new();
    let mut knowns: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut bad: Option<(Opts, J)> = None;
    let mut unrepro = 0u64;
    let mut maxsteps = 0i64;
    // recorded reproductions of known findings first
    for (kk, (_, seed)) in &kn {
        if let Some(seed) = seed {
            let j = run_one(scn, Opts { seed: *seed, ..Default::default() });
            let what = format!("seed {}: {}", seed, j.get("msg").and_then(|m| m.str()).unwrap_or(""));
            if st(&j) == "viol" && key(&j) == kk {
                knowns.insert(kk.clone(), (1, what));
            } else {
                eprintln!("hrsim: known finding {} did not show again ({} {})", kk, st(&j), what);
            }
        }
    }
    loop {
        let mut viol: Option<(Opts, J)> = None;
        pool(
            scn,
            ncpu().min(16),
            || {
                if now_s() - t0 > cap {
                    return None;
                }
                // one run in 50 is executed twice: same seed, same execution
                if i < runs {
                    let tag = i;
                    i += 1;
                    let o = Opts { seed: base + tag, tier_thorough: thorough, ..Default::default() };
                    Some((tag as usize, o))
                } else if rechecks < (runs / 50).max(4).min(runs) {
                    rechecks += 1;
                    let o = Opts { seed: base + (rechecks - 1) * 50 % runs, tier_thorough: thorough, ..Default::default() };
                    Some((usize::MAX, o))
                } else {
                    None
                }
            },
            |tag, o, j| {
                let h = j.get("hash").and_then(|x| x.str()).unwrap_or("").to_string();
                if tag == usize::MAX {
                    if let Some(x) = hashes.get(&o.seed) {
                        if *x != h {
                            mismatches += 1;
                        }
                    }
                    return true;
                }
                nruns += 1;
                match st(&j) {
                    "slow" => slow += 1,
                    "lost" => {
                        lost += 1;
                        eprintln!("hrsim: seed {}: {}", o.seed, j.get("msg").and_then(|m| m.str()).unwrap_or(""));
                    }
                    s => {
                        hashes.insert(o.seed, h);
                        evals += int(&j, "evals");
                        simns += int(&j, "now");
                        steps += int(&j, "steps");
                        maxsteps = maxsteps.max(int(&j, "steps"));
                        switches += int(&j, "switches");
                        maxthr = maxthr.max(int(&j, "threads"));
                        for (f, m) in [("faults", &mut agg_f), ("probes", &mut agg_p), ("kinds", &mut agg_k)] {
                            if let Some(v) = j.get(f).and_then(|x| x.obj()) {
                                for (k, n) in v {
                                    *m.entry(k.clone()).or_insert(0) += n.int().unwrap_or(0);
                                }
                            }
                        }
                        if matches!(j.get("nontrivial"), Some(J::Bool(true))) {
                            if let Some(x) = j.get("order").and_then(|x| x.str()) {
                                orders.insert(x.to_string());
                            }
                        }
                        if cover.len() < 2_000_000 {
                            for c in j.get("cover").and_then(|x| x.arr()).unwrap_or(&vec![]) {
                                if let Some(x) = c.str() {
                                    cover.insert(x.to_string());
                                }
                            }
                        }
                        if samples.len() < 5 {
                            if let Some(x) = j.get("sample").and_then(|x| x.str()) {
                                if !x.is_empty() {
                                    samples.push(J::s(x));
                                }
                            }
                        }
                        if s == "viol" {
                            if kn.contains_key(key(&j)) {
                                let e = knowns.entry(key(&j).to_string()).or_insert((0, String::new()));
                                e.0 += 1;
                                if e.1.is_empty() {
                                    e.1 = format!("seed {}: {}", o.seed, j.get("msg").and_then(|m| m.str()).unwrap_or(""));
                                }
                            } else {
                                viol = Some((o.clone(), j));
                                return false;
                            }
                        }
                    }
                }
                true
            },
        );
        match viol {
            None => break,
            Some((o, j)) => {
                // the same seed must fail the same way again
                let j2 = run_one(scn, o.clone());
                if st(&j2) == "viol" && key(&j2) == key(&j) {
                    bad = Some((o, j2));
                    break;
                }
                unrepro += 1;
                eprintln!("hrsim: seed {} failed ({}: {}) but not again; ignored", o.seed, key(&j), j.get("msg").and_then(|m| m.str()).unwrap_or(""));
                if unrepro > 20 {
                    break;
                }
            }
        }
    }
    let explore = now_s() - t0;
    let mut viols = 0;
    let mut code = 0;
    let mut replay_path = String::new();
    if let Some((o, j)) = bad {
        viols = 1;
        code = 1;
        let k0 = key(&j).to_string();
        eprintln!("hrsim: {} seed {} violates: {}: {}", scn.id, o.seed, k0, j.get("msg").and_then(|m| m.str()).unwrap_or(""));
        let (mut bo, _) = minimise(scn, &o, &k0, if thorough { 120.0 } else { 45.0 });
        bo.trace = true;
        let bj = run_one(scn, bo.clone());
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        replay_path = format!("{}/{}-{}.json", dir, scn.id, o.seed);
        let _ = std::fs::write(&replay_path, replay_json(scn, &bo, &bj).to_string());
        println!("{}", bj.get("msg").and_then(|m| m.str()).unwrap_or(""));
        for it in bj.get("items").and_then(|a| a.arr()).unwrap_or(&vec![]).iter().filter(|s| !s.str().unwrap_or("").starts_with("(off)")).take(40) {
            println!("  {}", it.str().unwrap_or(""));
        }
    }
    for (k, (n, ex)) in &knowns {
        let ex: String = ex.replace('\n', " ").chars().take(300).collect();
        println!("KNOWN-FINDING: property={} {} {} ({} runs, e.g. {})", scn.id, k, kn[k].0, n, ex);
    }
    let hours = explore / 3600.0;
    let m = |b: &BTreeMap<String, i64>| J::Obj(b.iter().map(|(k, v)| (k.clone(), J::i(*v))).collect());
    let ev = obj! {
        "property" => J::s(scn.id),
        "tier" => J::s(tier),
        "seed" => J::i(vseed as i64),
        "level" => J::s("exploration"),
        "coverage" => obj! {
            "evaluations" => J::i((nruns - slow - lost) as i64),
            "distinct_nontrivial" => J::i(orders.len() as i64),
            "rule" => J::s(&format!("one evaluation is one simulated run from its own seed, with every oracle of the property applied; distinct_nontrivial counts distinct executions by the hash of the order of scheduling decisions and externally visible steps, counting only runs that are non-trivial: {}", scn.rule)),
            "samples" => J::Arr(if samples.is_empty() { vec![J::s("no non-trivial run")] } else { samples }),
            "first_seed" => J::i(base as i64),
            "runs_per_hour" => J::i((nruns as f64 / hours.max(1e-9)) as i64),
            "simulated_seconds" => J::Num(format!("{:.3}", simns as f64 / 1e9)),
            "simulated_seconds_per_hour" => J::Num(format!("{:.1}", simns as f64 / 1e9 / hours.max(1e-9))),
            "scheduling_steps" => J::i(steps),
            "max_steps_in_a_run" => J::i(maxsteps),
            "thread_switches" => J::i(switches),
            "max_router_threads" => J::i(maxthr),
            "faults_injected" => m(&agg_f),
            "oracle_evaluations" => J::i(evals),
            "oracle_evaluations_by_kind" => m(&agg_k),
            "probes" => m(&agg_p),
            "distinct_states" => J::i(cover.len() as i64),
            "runs_without_answer" => J::i((slow + lost) as i64),
            "determinism_rechecks" => J::i(rechecks as i64),
            "determinism_mismatches" => J::i(mismatches as i64),
            "unreproduced_failures" => J::i(unrepro as i64),
            "known_findings_hit" => J::Obj(knowns.iter().map(|(k, v)| (k.clone(), J::i(v.0 as i64))).collect()),
            "replay" => J::s(&replay_path),
            "real_components" => J::s("the whole router process built from /repo (HTTP server and client stack, tokio and ntex runtimes, planner, executor, caches, pools, background tasks, telemetry) on simulated threads"),
            "stubbed_components" => J::s("libc boundary: threads scheduling, futexes, clocks, timers, entropy, sockets, epoll, name resolution, files under /sim, inotify, signals; subgraphs, clients, CDN, coprocessor and other peers are simulated actors; no TLS")
        },
        "wall_s" => J::Num(format!("{:.2}", now_s() - t0)),
        "assumptions" => J::Arr(vec![
            J::s("threads interleave at libc calls and at seeded allocation points, not between arbitrary instructions; memory is sequentially consistent"),
            J::s("the harness links the router with opt-level 1 and debug assertions")
        ]),
        "violations" => J::i(viols)
    };
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, scn.id), ev.to_string());
    eprintln!(
        "hrsim: {} {}: {} runs in {:.1} s, {} evaluations, {} distinct, {:.0} simulated s, slow {} lost {} mismatch {}/{}",
        scn.id, tier, nruns, explore, evals, orders.len(), simns as f64 / 1e9, slow, lost, mismatches, rechecks
    );
    if code == 1 {
        println!("VIOLATION property={} replay={}", scn.id, replay_path);
        return 1;
    }
    if nruns == 0 || (slow + lost) * 5 > nruns || mismatches * 2 > rechecks.max(1) {
        eprintln!("hrsim: too many runs without an answer");
        return 2;
    }
    0
}

pub fn replay(scns: &'static [Scn], path: &str) -> i32 {
    let j = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|b| J::parse(&b)) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let p = j.get("property").and_then(|s| s.str()).unwrap_or("");
    let scn = match scns.iter().find(|s| s.id == p) {
        Some(s) => s,
        None => return 2,
    };
    let b = |k: &str| matches!(j.get(k), Some(J::Bool(true)));
    let o = Opts {
        seed: j.get("seed").and_then(|s| s.str()).and_then(|s| s.parse().ok()).unwrap_or(0),
        tier_thorough: b("thorough"),
        disabled: j.get("disabled").and_then(|a| a.arr()).map(|v| v.iter().filter_map(|x| x.int()).map(|x| x as usize).collect()).unwrap_or_default(),
        calm_sched: b("calm_sched"),
        calm_net: b("calm_net"),
        trace: true,
        ..Default::default()
    };
    let r = run_one(scn, o);
    for l in r.get("trace").and_then(|a| a.arr()).unwrap_or(&vec![]) {
        println!("{}", l.str().unwrap_or(""));
    }
    println!("status {} key {} msg {}", st(&r), key(&r), r.get("msg").and_then(|m| m.str()).unwrap_or(""));
    let same = r.get("hash") == j.get("hash") && key(&r) == j.get("key").and_then(|k| k.str()).unwrap_or("");
    println!("{}", if same { "reproduced exactly" } else { "NOT reproduced exactly" });
    if st(&r) == "viol" {
        println!("VIOLATION property={} replay={}", p, path);
        1
    } else {
        0
    }
}
