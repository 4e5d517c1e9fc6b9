//! One simulated run: what a scenario records, and how it ends.
use crate::json::J;
use crate::kernel::*;
#[allow(unused_imports)]
use crate::obj;
use crate::rng::*;
use crate::sys;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub seed: u64,
    pub tier_thorough: bool,
    pub disabled: BTreeSet<usize>,
    /// overrides found by the minimiser
    pub calm_sched: bool,
    pub calm_net: bool,
    pub trace: bool,
    pub echo: bool,
    pub no_stdio: bool,
    pub known: BTreeSet<String>,
}

pub struct Rec {
    pub prop: &'static str,
    pub o: Opts,
    pub items: Vec<String>,
    pub item_on: Vec<bool>,
    pub evals: u64,
    pub kinds: BTreeMap<String, u64>,
    pub cover: BTreeSet<u64>,
    pub viol: Option<(String, String)>,
    pub nontrivial: bool,
    pub fd: i32,
    pub router_done: Option<String>,
    pub expect_exit: bool,
    pub exit_waiters: Vec<TaskId>,
    pub allow_panic: bool,
    pub sample: String,
    /// A known finding the generated input of this run may hit.
    pub odd: Option<&'static str>,
}
static mut R: *mut Rec = std::ptr::null_mut();
pub fn r() -> &'static mut Rec {
    unsafe { &mut *R }
}
pub fn init(rec: Rec) {
    unsafe { R = Box::leak(Box::new(rec)) }
}

/// One generated action or fault. None: switched off by the minimiser. Every
/// item has its own random stream, so that leaving one out changes no other.
pub fn item(desc: &str) -> Option<Rng> {
    let rr = r();
    let i = rr.items.len();
    rr.items.push(desc.to_string());
    let on = !rr.o.disabled.contains(&i);
    rr.item_on.push(on);
    if on {
        Some(Rng::derive(rr.o.seed, 0x1000_0000 + i as u64))
    } else {
        None
    }
}
/// Refine the description of the item generated last.
pub fn item_desc(s: String) {
    let rr = r();
    if let Some(l) = rr.items.last_mut() {
        *l = s;
    }
}
pub fn stream(tag: u64) -> Rng {
    Rng::derive(r().o.seed, 0x2000_0000 + tag)
}
/// An oracle evaluation of the given kind that passed.
pub fn ok(kind: &str) {
    let rr = r();
    rr.evals += 1;
    if let Some(v) = rr.kinds.get_mut(kind) {
        *v += 1
    } else {
        rr.kinds.insert(kind.to_string(), 1);
    }
}
pub fn cover(h: u64) {
    let c = &mut r().cover;
    if c.len() < 4000 {
        c.insert(h);
    }
}
pub fn cover_s(s: &str) {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    cover(h);
}
pub fn nontrivial() {
    r().nontrivial = true;
}
/// The property is broken: end the run here. `key` names what broke, `msg` how.
pub fn violate(key: &str, msg: impl Into<String>) -> ! {
    let m: String = msg.into();
    k().log(|| format!("VIOLATION {}: {}", key, m));
    r().viol = Some((key.to_string(), m));
    k().do_finish(Finish::Done)
}
#[macro_export]
macro_rules! check {
    ($kind:expr, $c:expr, $($a:tt)*) => {
        if $c { $crate::run::ok($kind) } else { $crate::run::violate($kind, format!($($a)*)) }
    };
}
#[macro_export]
macro_rules! hist {
    ($($a:tt)*) => { $crate::kernel::k().log(|| format!($($a)*)) };
}
pub fn done() -> ! {
    k().do_finish(Finish::Done)
}
/// Called on the router's main thread when its entry point returned.
pub fn on_router_exit(res: Result<(), String>) {
    let _e = Enter::new();
    let rr = r();
    let s = match res {
        Ok(()) => "ok".to_string(),
        Err(e) => format!("error: {}", e),
    };
    hist!("router entry point returned: {}", s);
    rr.router_done = Some(s);
    let kk = k();
    for t in std::mem::take(&mut rr.exit_waiters) {
        kk.wake_task(t);
    }
    if !rr.expect_exit {
        violate("router-exited", format!("the router stopped on its own: {}", rr.router_done.clone().unwrap()));
    }
}
pub struct RouterExit;
impl std::future::Future for RouterExit {
    type Output = String;
    fn poll(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<String> {
        match &r().router_done {
            Some(s) => std::task::Poll::Ready(s.clone()),
            None => {
                let t = k().cur_task;
                r().exit_waiters.push(t);
                std::task::Poll::Pending
            }
        }
    }
}

pub fn result_json(kk: &Kernel, f: &str) -> J {
    let rr = r();
    let mut viol = rr.viol.clone();
    let mut status = "ok";
    if viol.is_none() {
        match f {
            "Deadlock" => viol = Some(("stuck".into(), "nothing can make progress any more: every thread of the router and the environment waits".into())),
            "StepCap" => viol = Some(("no-progress".into(), format!("run not finished after {} scheduling steps, simulated time {:.3} s", kk.steps, kk.now as f64 / 1e9))),
            "Memory" => viol = Some(("memory".into(), "the router's memory grew without bound".into())),
            _ => {
                if let Some(c) = kk.exited {
                    if !rr.expect_exit {
                        viol = Some(("process-exit".into(), format!("the router process ended with code {}", c)));
                    }
                }
            }
        }
    }
    if let (Some(v), Some(p)) = (viol.as_mut(), kk.panics.first()) {
        v.1 += &format!("\n [a thread panicked: {}]", p);
    }
    if viol.is_none() && !kk.panics.is_empty() && !rr.allow_panic {
        viol = Some(("panic".into(), kk.panics[0].clone()));
    }
    if viol.is_some() {
        status = "viol";
    }
    let mut j = obj! {
        "status" => J::s(status),
        "seed" => J::s(&rr.o.seed.to_string()),
        "evals" => J::i(rr.evals as i64),
        "now" => J::i(kk.now as i64),
        "steps" => J::i(kk.steps as i64),
        "switches" => J::i(kk.switches as i64),
        "threads" => J::i(kk.threads.len() as i64),
        "hash" => J::s(&format!("{:016x}", kk.hash)),
        "order" => J::s(&format!("{:016x}", kk.order_hash)),
        "nontrivial" => J::Bool(rr.nontrivial),
        "nitems" => J::i(rr.items.len() as i64),
        "faults" => J::Obj(kk.faults.iter().map(|(k, v)| (k.to_string(), J::i(*v as i64))).collect()),
        "probes" => J::Obj(kk.probes.iter().map(|(k, v)| (k.to_string(), J::i(*v as i64))).collect()),
        "kinds" => J::Obj(rr.kinds.iter().map(|(k, v)| (k.to_string(), J::i(*v as i64))).collect()),
        "cover" => J::Arr(rr.cover.iter().map(|c| J::s(&format!("{:x}", c))).collect()),
        "sample" => J::s(&rr.sample)
    };
    if let Some((k, m)) = viol {
        if let J::Obj(o) = &mut j {
            o.push(("key".into(), J::s(&k)));
            o.push(("msg".into(), J::s(&m)));
        }
    }
    if let J::Obj(o) = &mut j {
        if rr.o.trace || status == "viol" {
            o.push(("items".into(), J::Arr(rr.items.iter().zip(&rr.item_on).map(|(s, on)| J::s(&format!("{}{}", if *on { "" } else { "(off) " }, s))).collect())));
        }
        if rr.o.trace {
            o.push(("trace".into(), J::Arr(kk.trace.iter().map(|s| J::s(s)).collect())));
        }
        if rr.o.trace && !rr.o.no_stdio {
            let s = String::from_utf8_lossy(&kk.stdio).to_string();
            let l: Vec<J> = s.lines().rev().take(400).map(J::s).collect();
            o.push(("log".into(), J::Arr(l.into_iter().rev().collect())));
        }
    }
    j
}
pub fn emit(kk: &Kernel, f: &str) {
    let mut s = result_json(kk, f).to_string();
    s.push('\n');
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let n = unsafe { sys::raw3(libc::SYS_write, r().fd as i64, b[i..].as_ptr() as i64, (b.len() - i) as i64) };
        if n <= 0 {
            break;
        }
        i += n as usize;
    }
}

fn router_main() {
    std::panic::set_hook(Box::new(|i| {
        // outside: a panic of the simulated world itself, which is reported as such
        let world = !simulated();
        let _e = Enter::new();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let s = format!("{}panic at {}: {}", if world { "world " } else { "" }, loc, m);
        k().log(|| s.clone());
        k().panics.push(s);
    }));
    let sys = ntex::rt::System::build().name("main").build(ntex::rt::DefaultRuntime);
    let res = sys.block_on(async {
        hive_router::init_rustls_crypto_provider();
        hive_router::router_entrypoint(hive_router::PluginRegistry::new()).await
    });
    on_router_exit(res.map_err(|e| e.to_string()));
}

pub fn sched_for(o: &Opts) -> SchedCfg {
    let mut g = Rng::derive(o.seed, 0x5ced);
    let mut c = SchedCfg {
        policy: *g.pick(&[0u8, 0, 0, 1, 1, 2]),
        alloc_mean: *g.pick(&[0u64, 100, 400, 400, 1500, 1500, 6000]),
        lock_switch: *g.pick(&[32u64, 256, 256, 700]),
        tick: *g.pick(&[50u64, 500, 500, 2000]),
        stall: *g.pick(&[0u64, 0, 0, 0, 2, 30]),
        stall_max: 5 * MS,
        max_steps: 4_000_000,
    };
    if o.calm_sched {
        c.policy = 2;
        c.alloc_mean = 0;
        c.stall = 0;
        c.tick = 50;
    }
    c
}

/// Runs the scenario in this process (a forked child); never returns.
pub fn run_child(scn: &'static Scn, o: Opts, fd: i32) -> ! {
    let vars: Vec<_> = std::env::vars_os().map(|x| x.0).filter(|k| k != "HRSIM_Q" && k != "HRSIM_V").collect();
    for k in vars {
        std::env::remove_var(k);
    }
    std::env::set_var("ROUTER_CONFIG_FILE_PATH", "/sim/router.yaml");
    std::env::set_var("CARGO", "1");
    std::env::set_var("TZ", "UTC");
    let cfg = sched_for(&o);
    let cpu = if o.tier_thorough { 40_000 } else { 20_000 };
    run(
        o.seed,
        cfg,
        move |kk| {
            kk.trace_on = o.trace;
            kk.echo = o.echo;
            kk.finish = Some(Box::new(|kk, f| emit(kk, &format!("{:?}", f))));
            init(Rec {
                prop: scn.id,
                o,
                items: vec![],
                item_on: vec![],
                evals: 0,
                kinds: BTreeMap::new(),
                cover: BTreeSet::new(),
                viol: None,
                nontrivial: false,
                fd,
                router_done: None,
                expect_exit: false,
                exit_waiters: vec![],
                allow_panic: false,
                sample: String::new(), odd: None,
            });
            (scn.setup)(kk);
        },
        router_main,
        cpu,
        move |kk, hang| {
            // CPU budget used up: the run gives no answer
            let s = if hang {
                format!("{{\"status\":\"viol\",\"key\":\"hang\",\"msg\":\"a router thread computes for seconds without reaching any scheduling point\",\"steps\":{},\"now\":{}}}\n", kk.steps, kk.now)
            } else {
                format!("{{\"status\":\"slow\",\"steps\":{},\"now\":{}}}\n", kk.steps, kk.now)
            };
            sys::raw_write(fd, s.as_bytes());
            3
        },
    )
}

pub struct Scn {
    pub id: &'static str,
    pub setup: fn(&mut Kernel),
    /// runs of the quick and the thorough check
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}
