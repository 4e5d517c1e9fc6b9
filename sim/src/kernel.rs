//! The virtual kernel: baton scheduler for real threads, virtual time, futexes,
//! descriptors, epoll, TCP, timers and an executor for the simulated world
//! (subgraphs, clients, CDN, ...), all driven by one seed.
//!
//! Exactly one router thread runs at any time (it "holds the baton"); all state
//! below is touched only by the baton holder.
use crate::rng::Rng;
use crate::sys;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::ffi::c_void;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

pub const NONE: usize = usize::MAX;
pub const VFD_BASE: i32 = 10_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(NONE) };
}
#[inline(always)]
pub fn cur() -> usize {
    CUR.with(|c| c.get())
}

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut IN_K: bool = false;
static mut NO_PREEMPT: u32 = 0;
static mut K: *mut Kernel = std::ptr::null_mut();
static mut ALLOC_COUNTDOWN: u64 = u64::MAX;

/// The kernel. Only valid under the baton.
pub fn k() -> &'static mut Kernel {
    unsafe { &mut *K }
}
/// Should the calling thread's libc calls be simulated?
#[inline(always)]
pub fn simulated() -> bool {
    ACTIVE.load(Ordering::Relaxed) && cur() != NONE && unsafe { !IN_K }
}

pub struct Enter;
impl Enter {
    #[inline]
    pub fn new() -> Enter {
        unsafe {
            IN_K = true;
        }
        Enter
    }
}
impl Drop for Enter {
    #[inline]
    fn drop(&mut self) {
        unsafe {
            IN_K = false;
        }
    }
}

#[inline(always)]
pub fn in_kernel() -> bool {
    unsafe { IN_K }
}
pub fn out_of_memory() -> ! {
    unsafe { IN_K = true };
    k().do_finish(Finish::Memory)
}
#[inline(always)]
pub fn alloc_point() {
    unsafe {
        if IN_K || NO_PREEMPT != 0 {
            return;
        }
        ALLOC_COUNTDOWN -= 1;
        if ALLOC_COUNTDOWN == 0 {
            let _e = Enter::new();
            let kk = k();
            ALLOC_COUNTDOWN = kk.next_countdown();
            kk.sched_point(SP_ALLOC);
        }
    }
}

// reasons, for the trace hash
pub const SP_ALLOC: u8 = 1;
pub const SP_LOCK: u8 = 2;
pub const SP_IO: u8 = 3;
pub const SP_YIELD: u8 = 4;
pub const SP_WAKE: u8 = 5;
pub const SP_CLOCK: u8 = 6;

#[derive(Clone, Debug, PartialEq)]
pub enum Block {
    Futex(usize, u32),
    Epoll(i32),
    Fd(i32),
    Sleep,
    Join(usize),
    Stall,
    Sig,
}
#[derive(Clone, Debug, PartialEq)]
pub enum TState {
    Runnable,
    Blocked(Block),
    Dead,
}
pub struct Thr {
    pub id: usize,
    pub sem: Box<AtomicU32>,
    pub state: TState,
    pub timed_out: bool,
    pub gen: u64,
    pub prio: u64,
    pub pth: u64,
    pub name: String,
}

pub type TaskId = usize;
pub enum Ev {
    Thread(usize, u64),
    Task(TaskId),
    ConnRx(usize, Vec<u8>),
    ConnRxFin(usize),
    ConnRxRst(usize),
    ConnWorld(usize, Vec<u8>),
    ConnWorldFin(usize),
    ConnWorldRst(usize),
    Connect(usize),
    TimerFd(usize, u64),
    Unstall(usize, u64),
    Fault(Box<dyn FnOnce(&mut Kernel)>),
}

// ------------------------------------------------------------------ objects
pub struct Conn {
    pub obj: usize, // router-side object, NONE when closed
    pub router_local: (u32, u16),
    pub router_peer: (u32, u16),
    pub connected: bool,
    pub conn_err: i32,
    // towards the router
    pub rx: VecDeque<u8>,
    pub rx_pending: usize, // bytes in flight
    pub rx_fin: bool,
    pub rx_rst: bool,
    pub rx_last: u64,
    pub rx_window: usize,
    // towards the world
    pub wx: VecDeque<u8>,
    pub wx_pending: usize,
    pub wx_fin: bool,
    pub wx_rst: bool,
    pub wx_last: u64,
    pub tx_window: usize,
    pub tx_blocked: bool,
    pub router_shut_wr: bool,
    pub router_closed: bool,
    pub router_shut_rd: bool,
    pub world_closed: bool,
    pub task: Option<TaskId>,  // world task waiting on this connection (read)
    pub gtasks: Vec<TaskId>, // world tasks waiting for its end
    pub wtask: Option<TaskId>, // world task waiting to write
    pub net: Net,
    pub bytes_to_router: u64,
    pub bytes_to_world: u64,
}
/// Link behaviour of one connection.
#[derive(Clone, Debug)]
pub struct Net {
    pub lat_lo: u64,
    pub lat_hi: u64,
    /// 0: whole writes, 1: random pieces, 2: byte by byte
    pub chunk: u8,
    pub gap_hi: u64,
}
impl Default for Net {
    fn default() -> Self {
        Net { lat_lo: 20_000, lat_hi: 200_000, chunk: 0, gap_hi: 50_000 }
    }
}
pub enum ObjKind {
    TcpNew { bound: (u32, u16) },
    Listener { addr: (u32, u16), backlog: VecDeque<usize> },
    Conn(usize),
    EventFd { val: u64, sema: bool },
    TimerFd { deadline: u64, interval: u64, expirations: u64, gen: u64 },
    Epoll(Epoll),
    Pipe { peer: usize, buf: VecDeque<u8>, peer_closed: bool },
    File { path: String, pos: u64, append: bool, write: bool, snap: Option<std::sync::Arc<Vec<u8>>> },
    Inotify { watches: BTreeMap<i32, String>, queue: VecDeque<Vec<u8>>, next_wd: i32 },
    Dir { path: String, names: Vec<String>, pos: usize },
    Free,
}
pub struct Obj {
    pub kind: ObjKind,
    pub refs: u32,
    pub nonblock: bool,
    pub gen_in: u64,
    pub gen_out: u64,
    pub watchers: Vec<usize>, // epoll objects
}
#[derive(Default)]
pub struct Epoll {
    pub regs: BTreeMap<i32, Reg>,
}
#[derive(Clone)]
pub struct Reg {
    pub events: u32,
    pub data: u64,
    pub rep_in: u64,
    pub rep_out: u64,
    pub armed: bool,
    pub obj: usize,
}

// ------------------------------------------------------------------ memfs
#[derive(Clone)]
pub struct MemFile {
    pub data: std::sync::Arc<Vec<u8>>,
    pub mtime_ns: u64, // realtime
    pub ino: u64,
}
#[derive(Default)]
pub struct MemFs {
    pub files: BTreeMap<String, MemFile>,
    pub next_ino: u64,
    /// per path: remaining faults (errno on open/read) — see fs_fault
    pub open_err: BTreeMap<String, (u32, i32)>,
    pub read_err: BTreeMap<String, (u32, i32)>,
}

// ------------------------------------------------------------------ config
#[derive(Clone, Debug)]
pub struct SchedCfg {
    /// 0 uniform random, 1 priorities with change points, 2 run-to-block (no preemption)
    pub policy: u8,
    /// mean number of allocations between preemption points, 0 = never
    pub alloc_mean: u64,
    /// probability (per 1024) to switch at lock/wake points
    pub lock_switch: u64,
    /// max clock advance per scheduling step in ns
    pub tick: u64,
    /// probability (per 65536) that a thread is stalled at a scheduling point
    pub stall: u64,
    pub stall_max: u64,
    pub max_steps: u64,
}
impl Default for SchedCfg {
    fn default() -> Self {
        SchedCfg { policy: 0, alloc_mean: 2000, lock_switch: 256, tick: 2_000, stall: 0, stall_max: 20 * MS, max_steps: 3_000_000 }
    }
}

type TaskFut = Pin<Box<dyn Future<Output = ()>>>;
pub struct WTask {
    pub fut: Option<TaskFut>,
    pub name: String,
    pub queued: bool,
}
pub type Acceptor = Box<dyn FnMut(&mut Kernel, usize, (u32, u16)) -> bool>;

pub struct Kernel {
    pub seed: u64,
    pub now: u64,
    pub real_offset: i64, // realtime = EPOCH + now + real_offset
    pub cfg: SchedCfg,
    pub rs: Rng, // scheduling
    pub rn: Rng, // network
    pub re: Rng, // entropy handed to the router
    pub threads: Vec<Thr>,
    pub running: usize,
    pub evq: BTreeMap<(u64, u64), Ev>,
    pub evseq: u64,
    pub fds: BTreeMap<i32, usize>,
    pub next_fd: i32,
    pub objs: Vec<Obj>,
    pub conns: Vec<Conn>,
    pub listeners: BTreeMap<(u32, u16), usize>,      // router listeners -> obj
    pub acceptors: BTreeMap<(u32, u16), Acceptor>,   // world listeners
    pub default_acceptor_refuse: bool,
    pub dns: BTreeMap<String, u32>,
    pub tasks: Vec<WTask>,
    pub ready: VecDeque<TaskId>,
    pub cur_task: TaskId,
    pub fs: MemFs,
    pub stack_next: usize,
    pub steps: u64,
    pub switches: u64,
    pub hash: u64,       // of the whole execution (determinism check)
    pub order_hash: u64, // of the order of externally meaningful steps (interleaving measure)
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<String, u64>,
    pub stdio: Vec<u8>,
    pub echo: bool,
    pub finish: Option<Box<dyn FnMut(&mut Kernel, Finish)>>,
    pub finished: bool,
    pub sig_handlers: BTreeMap<i32, usize>,
    pub sig_thread: usize,
    pub sig_pending: VecDeque<i32>,
    pub exited: Option<i64>,
    pub panics: Vec<String>,
    pub next_port: u16,
    pub free_tasks: Vec<TaskId>,
    pub stalls_on: bool,
    pub waker_stub: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Finish {
    Done,
    Deadlock,
    StepCap,
    Memory,
}

pub const EPOCH_NS: u64 = 1_790_000_000 * SEC; // simulated wall clock at start

impl Kernel {
    pub fn new(seed: u64, cfg: SchedCfg) -> Kernel {
        let mut rs = Rng::derive(seed, 0x5c4ed);
        let first = rs.next();
        let _ = first;
        Kernel {
            seed,
            now: 1000,
            real_offset: 0,
            cfg,
            rs,
            rn: Rng::derive(seed, 0x4e7),
            re: Rng::derive(seed, 0xe4709),
            threads: Vec::new(),
            running: NONE,
            evq: BTreeMap::new(),
            evseq: 0,
            fds: BTreeMap::new(),
            next_fd: VFD_BASE,
            objs: Vec::new(),
            conns: Vec::new(),
            listeners: BTreeMap::new(),
            acceptors: BTreeMap::new(),
            default_acceptor_refuse: true,
            dns: BTreeMap::new(),
            tasks: Vec::new(),
            ready: VecDeque::new(),
            cur_task: NONE,
            fs: MemFs::default(),
            stack_next: 0x3000_0000_0000,
            steps: 0,
            switches: 0,
            hash: 0xcbf29ce484222325,
            order_hash: 0xcbf29ce484222325,
            trace_on: false,
            trace: Vec::new(),
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            stdio: Vec::new(),
            echo: false,
            finish: None,
            finished: false,
            sig_handlers: BTreeMap::new(),
            sig_thread: NONE,
            sig_pending: VecDeque::new(),
            exited: None,
            panics: Vec::new(),
            next_port: 40000,
            free_tasks: Vec::new(),
            stalls_on: true,
            waker_stub: 0,
        }
    }

    // -------------------------------------------------------------- logging
    #[inline]
    pub fn h(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x100000001b3).rotate_left(5);
    }
    pub fn ho(&mut self, v: u64) {
        self.order_hash = (self.order_hash ^ v).wrapping_mul(0x100000001b3).rotate_left(5);
    }
    pub fn log(&mut self, s: impl FnOnce() -> String) {
        if self.trace_on {
            let line = format!("[{:>12.6}] {}", self.now as f64 / 1e9, s());
            if self.echo {
                sys::raw_write(2, line.as_bytes());
                sys::raw_write(2, b"\n");
            }
            self.trace.push(line);
        }
    }
    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
    }
    pub fn probe(&mut self, name: &str) {
        if let Some(v) = self.probes.get_mut(name) {
            *v += 1;
        } else {
            self.probes.insert(name.to_string(), 1);
        }
    }

    // -------------------------------------------------------------- time
    pub fn at(&mut self, t: u64, e: Ev) -> (u64, u64) {
        self.evseq += 1;
        let key = (t.max(self.now), self.evseq);
        self.evq.insert(key, e);
        key
    }
    pub fn realtime(&self) -> u64 {
        (EPOCH_NS as i64 + self.now as i64 + self.real_offset) as u64
    }
    fn next_countdown(&mut self) -> u64 {
        let m = self.cfg.alloc_mean;
        if m == 0 || self.cfg.policy == 2 {
            return u64::MAX;
        }
        1 + self.rs.below(2 * m)
    }

    // -------------------------------------------------------------- scheduler
    /// Voluntary or preemptive scheduling point of the running thread.
    pub fn sched_point(&mut self, reason: u8) {
        self.step();
        let me = self.running;
        let switch = match (self.cfg.policy, reason) {
            (_, SP_YIELD) => true,
            (2, _) => false,
            (_, SP_ALLOC) => true,
            (_, SP_IO) => self.rs.chance(self.cfg.lock_switch, 1024),
            _ => self.rs.chance(self.cfg.lock_switch, 1024),
        };
        self.due();
        if self.stalls_on && self.cfg.stall > 0 && self.rs.chance(self.cfg.stall, 65536) {
            let d = self.rs.log_range(100_000, self.cfg.stall_max);
            self.fault("thread-stall");
            self.log(|| format!("fault: thread {} stalled for {} us", me, d / 1000));
            let g = self.threads[me].gen + 1;
            self.threads[me].gen = g;
            self.threads[me].state = TState::Blocked(Block::Stall);
            let t = self.now + d;
            self.at(t, Ev::Unstall(me, g));
            self.reschedule();
            return;
        }
        if !switch {
            return;
        }
        let n = self.pick(reason == SP_YIELD);
        if n != me {
            self.switch_to(n);
        }
    }
    fn step(&mut self) {
        self.steps += 1;
        if self.steps > self.cfg.max_steps {
            self.do_finish(Finish::StepCap);
        }
        let t = self.cfg.tick;
        if t > 0 {
            self.now += self.rs.below(t + 1);
        }
    }
    fn pick(&mut self, yielding: bool) -> usize {
        let me = self.running;
        let mut n = 0usize;
        for t in &self.threads {
            if t.state == TState::Runnable {
                n += 1;
            }
        }
        if n == 0 {
            return NONE;
        }
        if n == 1 {
            return self.threads.iter().find(|t| t.state == TState::Runnable).unwrap().id;
        }
        if self.cfg.policy == 1 {
            // priorities; occasionally reassign
            if self.rs.chance(1, 64) {
                let i = self.rs.usize(self.threads.len());
                let p = self.rs.next();
                self.threads[i].prio = p;
            }
            let mut best = NONE;
            let mut bp = 0;
            for t in &self.threads {
                if t.state == TState::Runnable && !(yielding && t.id == me) && (best == NONE || t.prio > bp) {
                    best = t.id;
                    bp = t.prio;
                }
            }
            if yielding && best != NONE {
                // a spinning thread must not starve the others
                let p = self.rs.next() >> 1;
                self.threads[me].prio = p.min(self.threads[me].prio / 2);
            }
            return best;
        }
        let mut i = if yielding && self.threads[me].state == TState::Runnable {
            // choose among the others
            let mut j = self.rs.usize(n - 1);
            for t in &self.threads {
                if t.state == TState::Runnable && t.id != me {
                    if j == 0 {
                        return t.id;
                    }
                    j -= 1;
                }
            }
            unreachable!()
        } else {
            self.rs.usize(n)
        };
        for t in &self.threads {
            if t.state == TState::Runnable {
                if i == 0 {
                    return t.id;
                }
                i -= 1;
            }
        }
        unreachable!()
    }
    fn switch_to(&mut self, n: usize) {
        let me = self.running;
        self.switches += 1;
        self.h(0x100 + n as u64);
        self.ho(0x100 + n as u64);
        self.running = n;
        let p: *const AtomicU32 = &*self.threads[n].sem;
        let mine: *const AtomicU32 = if me == NONE || self.threads[me].state == TState::Dead {
            std::ptr::null()
        } else {
            &*self.threads[me].sem
        };
        unsafe {
            (*p).store(1, Ordering::Release);
        }
        sys::futex_wake(p as *const u32);
        // nothing shared may be touched from here on until the baton is back
        if !mine.is_null() {
            wait_baton(mine);
        }
    }
    /// The running thread cannot go on: find somebody who can.
    pub fn reschedule(&mut self) {
        self.step();
        let me = self.running;
        loop {
            self.due();
            let n = self.pick(false);
            if n != NONE {
                if n != me {
                    self.switch_to(n);
                }
                return;
            }
            match self.evq.keys().next() {
                Some(&(t, _)) => {
                    if t > self.now {
                        self.now = t;
                    }
                }
                None => {
                    self.do_finish(Finish::Deadlock);
                }
            }
        }
    }
    pub fn do_finish(&mut self, f: Finish) -> ! {
        self.finished = true;
        if let Some(mut fin) = self.finish.take() {
            fin(self, f);
        }
        sys::exit_group(0)
    }
    /// Block the running thread; true if its deadline passed.
    pub fn block(&mut self, b: Block, deadline: Option<u64>) -> bool {
        let me = self.running;
        let t = &mut self.threads[me];
        t.gen += 1;
        let g = t.gen;
        t.timed_out = false;
        t.state = TState::Blocked(b);
        if let Some(d) = deadline {
            self.at(d, Ev::Thread(me, g));
        }
        self.reschedule();
        self.threads[me].timed_out
    }
    pub fn make_runnable(&mut self, id: usize) {
        let t = &mut self.threads[id];
        if t.state != TState::Dead {
            t.gen += 1;
            t.state = TState::Runnable;
        }
    }
    fn due(&mut self) {
        loop {
            self.run_world();
            let key = match self.evq.keys().next() {
                Some(&key) if key.0 <= self.now => key,
                _ => return,
            };
            let ev = self.evq.remove(&key).unwrap();
            self.handle(ev);
        }
    }
    fn handle(&mut self, ev: Ev) {
        match ev {
            Ev::Thread(id, g) => {
                if self.threads[id].gen == g && matches!(self.threads[id].state, TState::Blocked(_)) {
                    self.threads[id].timed_out = true;
                    self.make_runnable(id);
                }
            }
            Ev::Unstall(id, g) => {
                if self.threads[id].gen == g {
                    self.make_runnable(id);
                }
            }
            Ev::Task(t) => self.wake_task(t),
            Ev::ConnRx(c, data) => {
                let n = data.len();
                let cn = &mut self.conns[c];
                cn.rx_pending -= n;
                if cn.obj == NONE {
                    // data for a closed socket: peer gets a reset
                    if !cn.wx_rst {
                        cn.wx_rst = true;
                        self.wake_conn(c);
                    }
                    return;
                }
                if cn.rx_rst {
                    return;
                }
                cn.bytes_to_router += n as u64;
                cn.rx.extend(data);
                let o = cn.obj;
                self.h(0x2000 ^ ((c as u64) << 16) ^ n as u64);
                self.ho(0x2000 ^ ((c as u64) << 16));
                self.edge_in(o);
            }
            Ev::ConnRxFin(c) => {
                let cn = &mut self.conns[c];
                cn.rx_fin = true;
                let o = cn.obj;
                self.h(0x3000 ^ c as u64);
                if o != NONE {
                    self.edge_in(o);
                }
            }
            Ev::ConnRxRst(c) => {
                let cn = &mut self.conns[c];
                cn.rx_rst = true;
                cn.rx.clear();
                let o = cn.obj;
                self.h(0x3800 ^ c as u64);
                if o != NONE {
                    self.edge_in(o);
                    self.edge_out(o);
                }
            }
            Ev::ConnWorld(c, data) => {
                self.conns[c].wx_pending -= data.len();
                if self.conns[c].world_closed {
                    // world side gone: RST back
                    if !self.conns[c].rx_rst && self.conns[c].obj != NONE {
                        let t = self.now + 10_000;
                        self.at(t, Ev::ConnRxRst(c));
                    }
                    return;
                }
                self.conns[c].bytes_to_world += data.len() as u64;
                self.ho(0x4000 ^ ((c as u64) << 16));
                self.conns[c].wx.extend(data);
                self.wake_conn(c);
            }
            Ev::ConnWorldFin(c) => {
                self.conns[c].wx_fin = true;
                self.wake_conn(c);
            }
            Ev::ConnWorldRst(c) => {
                self.conns[c].wx_rst = true;
                self.wake_conn(c);
            }
            Ev::Connect(c) => {
                let peer = self.conns[c].router_peer;
                if self.conns[c].router_closed {
                    return;
                }
                let mut ok = false;
                if let Some(mut a) = self.acceptors.remove(&peer) {
                    ok = a(self, c, peer);
                    self.acceptors.entry(peer).or_insert(a);
                }
                let cn = &mut self.conns[c];
                if ok {
                    cn.connected = true;
                } else if cn.conn_err == -1 {
                    // black hole: nothing ever happens
                    return;
                } else if cn.conn_err == 0 {
                    cn.conn_err = libc::ECONNREFUSED;
                }
                let o = cn.obj;
                self.h(0x5000 ^ c as u64);
                if o != NONE {
                    self.edge_in(o);
                    self.edge_out(o);
                }
            }
            Ev::TimerFd(o, g) => {
                let now = self.now;
                let mut again = None;
                if let ObjKind::TimerFd { deadline, interval, expirations, gen } = &mut self.objs[o].kind {
                    if *gen != g {
                        return;
                    }
                    *expirations += 1;
                    if *interval > 0 {
                        *deadline = now + *interval;
                        again = Some((*deadline, g));
                    } else {
                        *deadline = 0;
                    }
                } else {
                    return;
                }
                if let Some((d, g)) = again {
                    self.at(d, Ev::TimerFd(o, g));
                }
                self.edge_in(o);
            }
            Ev::Fault(f) => f(self),
        }
    }

    // -------------------------------------------------------------- futex
    pub fn futex_wait(&mut self, addr: usize, val: u32, mask: u32, deadline: Option<u64>) -> i32 {
        if unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) } != val {
            self.sched_point(SP_LOCK);
            return -libc::EAGAIN;
        }
        if let Some(d) = deadline {
            if d <= self.now {
                self.sched_point(SP_YIELD);
                return -libc::ETIMEDOUT;
            }
        }
        let to = self.block(Block::Futex(addr, mask), deadline);
        if to {
            -libc::ETIMEDOUT
        } else {
            0
        }
    }
    pub fn futex_wake(&mut self, addr: usize, n: i32, mask: u32) -> i32 {
        let mut w: Vec<usize> = self
            .threads
            .iter()
            .filter(|t| matches!(t.state, TState::Blocked(Block::Futex(a, m)) if a == addr && m & mask != 0))
            .map(|t| t.id)
            .collect();
        if w.len() > 1 {
            self.rs.shuffle(&mut w);
        }
        let cnt = w.len().min(n.max(0) as usize);
        for &id in &w[..cnt] {
            self.make_runnable(id);
        }
        cnt as i32
    }

    // -------------------------------------------------------------- threads
    pub fn add_thread(&mut self, name: String) -> usize {
        let id = self.threads.len();
        let prio = self.rs.next();
        self.threads.push(Thr {
            id,
            sem: Box::new(AtomicU32::new(0)),
            state: TState::Runnable,
            timed_out: false,
            gen: 0,
            prio,
            pth: 0,
            name,
        });
        id
    }
    pub fn thread_exit(&mut self) {
        let me = self.running;
        self.threads[me].state = TState::Dead;
        self.threads[me].gen += 1;
        let joiners: Vec<usize> =
            self.threads.iter().filter(|t| t.state == TState::Blocked(Block::Join(me))).map(|t| t.id).collect();
        for j in joiners {
            self.make_runnable(j);
        }
        self.h(0x6000 ^ me as u64);
        self.reschedule();
    }

    // -------------------------------------------------------------- objects and readiness
    pub fn new_obj(&mut self, kind: ObjKind) -> usize {
        self.objs.push(Obj { kind, refs: 0, nonblock: false, gen_in: 1, gen_out: 1, watchers: Vec::new() });
        self.objs.len() - 1
    }
    pub fn new_fd(&mut self, obj: usize) -> i32 {
        let fd = self.next_fd;
        self.next_fd += 1;
        self.objs[obj].refs += 1;
        self.fds.insert(fd, obj);
        fd
    }
    pub fn edge_in(&mut self, o: usize) {
        self.objs[o].gen_in += 1;
        self.notify(o);
    }
    pub fn edge_out(&mut self, o: usize) {
        self.objs[o].gen_out += 1;
        self.notify(o);
    }
    fn notify(&mut self, o: usize) {
        let watchers = self.objs[o].watchers.clone();
        for id in 0..self.threads.len() {
            match self.threads[id].state {
                TState::Blocked(Block::Epoll(ep)) if watchers.contains(&(ep as usize)) => self.make_runnable(id),
                TState::Blocked(Block::Fd(x)) if x as usize == o => self.make_runnable(id),
                _ => {}
            }
        }
    }
    /// poll(2) style readiness mask.
    pub fn mask(&self, o: usize) -> u32 {
        let (i, out, rdhup, hup, err) = (
            libc::EPOLLIN as u32,
            libc::EPOLLOUT as u32,
            libc::EPOLLRDHUP as u32,
            libc::EPOLLHUP as u32,
            libc::EPOLLERR as u32,
        );
        match &self.objs[o].kind {
            ObjKind::Conn(c) => {
                let c = &self.conns[*c];
                let mut m = 0;
                if c.conn_err > 0 {
                    return i | out | err | hup | rdhup;
                }
                if !c.connected {
                    return 0;
                }
                if c.rx_rst {
                    return i | out | err | hup | rdhup;
                }
                if !c.rx.is_empty() || c.rx_fin || c.router_shut_rd {
                    m |= i;
                }
                if c.rx_fin || c.router_shut_rd {
                    m |= rdhup;
                }
                if (c.rx_fin || c.router_shut_rd) && c.router_shut_wr {
                    m |= hup;
                }
                if c.wx.len() + c.wx_pending < c.tx_window {
                    m |= out;
                }
                m
            }
            ObjKind::Listener { backlog, .. } => {
                if backlog.is_empty() {
                    0
                } else {
                    i
                }
            }
            ObjKind::EventFd { val, .. } => (if *val > 0 { i } else { 0 }) | out,
            ObjKind::TimerFd { expirations, .. } => {
                if *expirations > 0 {
                    i
                } else {
                    0
                }
            }
            ObjKind::Pipe { buf, peer_closed, .. } => {
                (if !buf.is_empty() || *peer_closed { i } else { 0 }) | out | if *peer_closed { hup | rdhup } else { 0 }
            }
            ObjKind::Inotify { queue, .. } => {
                if queue.is_empty() {
                    0
                } else {
                    i
                }
            }
            ObjKind::TcpNew { .. } => out | hup,
            _ => i | out,
        }
    }
    pub fn epoll_collect(&mut self, ep: usize, max: usize, out: &mut Vec<(u32, u64)>) {
        let regs: Vec<i32> = match &self.objs[ep].kind {
            ObjKind::Epoll(e) => e.regs.keys().cloned().collect(),
            _ => return,
        };
        let mut hits: Vec<(i32, u32)> = Vec::new();
        for fd in regs {
            let r = match &self.objs[ep].kind {
                ObjKind::Epoll(e) => e.regs[&fd].clone(),
                _ => unreachable!(),
            };
            if !r.armed {
                continue;
            }
            let m = self.mask(r.obj) & (r.events | (libc::EPOLLERR | libc::EPOLLHUP) as u32);
            if m == 0 {
                continue;
            }
            if r.events & libc::EPOLLET as u32 != 0 {
                let ob = &self.objs[r.obj];
                if ob.gen_in == r.rep_in && ob.gen_out == r.rep_out {
                    continue;
                }
                // an edge of the other direction only reports if it is of interest
                let in_new = ob.gen_in != r.rep_in && m & !(libc::EPOLLOUT as u32) != 0;
                let out_new = ob.gen_out != r.rep_out && m & libc::EPOLLOUT as u32 != 0;
                if !in_new && !out_new {
                    continue;
                }
            }
            hits.push((fd, m));
        }
        if hits.len() > 1 {
            self.rs.shuffle(&mut hits);
        }
        hits.truncate(max);
        for (fd, m) in hits {
            let (gi, go) = {
                let o = match &self.objs[ep].kind {
                    ObjKind::Epoll(e) => e.regs[&fd].obj,
                    _ => unreachable!(),
                };
                (self.objs[o].gen_in, self.objs[o].gen_out)
            };
            if let ObjKind::Epoll(e) = &mut self.objs[ep].kind {
                let r = e.regs.get_mut(&fd).unwrap();
                r.rep_in = gi;
                r.rep_out = go;
                if r.events & libc::EPOLLONESHOT as u32 != 0 {
                    r.armed = false;
                }
                out.push((m, r.data));
            }
            self.h(0x7000 ^ ((fd as u64) << 20) ^ m as u64);
        }
    }
    pub fn close_fd(&mut self, fd: i32) -> bool {
        let o = match self.fds.remove(&fd) {
            Some(o) => o,
            None => return false,
        };
        // epoll registrations are keyed by fd here; drop them
        let watchers = self.objs[o].watchers.clone();
        for w in watchers {
            let mut still = false;
            if let ObjKind::Epoll(e) = &mut self.objs[w].kind {
                // registration disappears when the last descriptor of the object goes
                if let Some(r) = e.regs.get(&fd) {
                    if r.obj == o {
                        e.regs.remove(&fd);
                    }
                }
                still = e.regs.values().any(|r| r.obj == o);
            }
            if !still {
                self.objs[o].watchers.retain(|x| *x != w);
            }
        }
        self.objs[o].refs -= 1;
        if self.objs[o].refs == 0 {
            self.release(o);
        }
        true
    }
    fn release(&mut self, o: usize) {
        let kind = std::mem::replace(&mut self.objs[o].kind, ObjKind::Free);
        match kind {
            ObjKind::Conn(c) => {
                let cn = &mut self.conns[c];
                cn.obj = NONE;
                cn.router_closed = true;
                let unread = !cn.rx.is_empty();
                let shut = cn.router_shut_wr;
                self.h(0x8000 ^ c as u64);
                if unread {
                    self.conn_to_world(c, 2, Vec::new());
                } else if !shut {
                    self.conns[c].router_shut_wr = true;
                    self.conn_to_world(c, 1, Vec::new());
                }
                let d = format!("router closed conn {}", c);
                self.log(|| d);
                self.wake_conn(c);
            }
            ObjKind::Listener { addr, backlog } => {
                self.listeners.remove(&addr);
                for c in backlog {
                    self.conns[c].wx_rst = true;
                    self.wake_conn(c);
                }
                self.log(|| format!("router closed listener {}", addr.1));
            }
            ObjKind::Pipe { peer, .. } => {
                if let ObjKind::Pipe { peer_closed, .. } = &mut self.objs[peer].kind {
                    *peer_closed = true;
                    self.edge_in(peer);
                }
            }
            ObjKind::Epoll(e) => {
                for r in e.regs.values() {
                    self.objs[r.obj].watchers.retain(|w| *w != o);
                }
            }
            _ => {}
        }
    }

    // -------------------------------------------------------------- connections
    pub fn new_conn(&mut self, local: (u32, u16), peer: (u32, u16)) -> usize {
        self.conns.push(Conn {
            obj: NONE,
            router_local: local,
            router_peer: peer,
            connected: false,
            conn_err: 0,
            rx: VecDeque::new(),
            rx_pending: 0,
            rx_fin: false,
            rx_rst: false,
            rx_last: 0,
            rx_window: 256 * 1024,
            wx: VecDeque::new(),
            wx_pending: 0,
            wx_fin: false,
            wx_rst: false,
            wx_last: 0,
            tx_window: 256 * 1024,
            tx_blocked: false,
            router_shut_wr: false,
            router_closed: false,
            router_shut_rd: false,
            world_closed: false,
            task: None,
            wtask: None,
            gtasks: vec![],
            net: Net::default(),
            bytes_to_router: 0,
            bytes_to_world: 0,
        });
        self.conns.len() - 1
    }
    fn wake_conn(&mut self, c: usize) {
        if let Some(t) = self.conns[c].task.take() {
            self.wake_task(t);
        }
        if let Some(t) = self.conns[c].wtask.take() {
            self.wake_task(t);
        }
        for t in std::mem::take(&mut self.conns[c].gtasks) {
            self.wake_task(t);
        }
    }
    /// Router to world: 0 data, 1 fin, 2 reset.
    pub fn conn_to_world(&mut self, c: usize, what: u8, data: Vec<u8>) {
        let net = self.conns[c].net.clone();
        let lat = self.rn.range(net.lat_lo, net.lat_hi.max(net.lat_lo));
        let t = (self.now + lat).max(self.conns[c].wx_last + 1);
        self.conns[c].wx_last = t;
        match what {
            0 => {
                self.conns[c].wx_pending += data.len();
                self.at(t, Ev::ConnWorld(c, data));
            }
            1 => {
                self.at(t, Ev::ConnWorldFin(c));
            }
            _ => {
                self.at(t, Ev::ConnWorldRst(c));
            }
        }
    }
    /// World to router, split into chunks by the link.
    pub fn conn_to_router(&mut self, c: usize, data: &[u8]) {
        let net = self.conns[c].net.clone();
        let mut off = 0;
        while off < data.len() {
            let n = match net.chunk {
                0 => data.len() - off,
                1 => {
                    let m = (data.len() - off) as u64;
                    if self.rn.chance(1, 3) {
                        m as usize
                    } else {
                        self.rn.log_range(1, m) as usize
                    }
                }
                _ => 1,
            };
            let lat = if off == 0 { self.rn.range(net.lat_lo, net.lat_hi.max(net.lat_lo)) } else { self.rn.below(net.gap_hi + 1) };
            let base = if off == 0 { self.now } else { self.conns[c].rx_last };
            let t = (base + lat).max(self.conns[c].rx_last + 1);
            self.conns[c].rx_last = t;
            let piece = data[off..off + n].to_vec();
            self.conns[c].rx_pending += n;
            self.at(t, Ev::ConnRx(c, piece));
            off += n;
        }
    }
    pub fn conn_fin_to_router(&mut self, c: usize) {
        let net = self.conns[c].net.clone();
        let lat = self.rn.range(net.lat_lo, net.lat_hi.max(net.lat_lo));
        let t = (self.now + lat).max(self.conns[c].rx_last + 1);
        self.conns[c].rx_last = t;
        self.at(t, Ev::ConnRxFin(c));
    }
    pub fn conn_rst_to_router(&mut self, c: usize) {
        let t = (self.now + self.conns[c].net.lat_lo).max(self.conns[c].rx_last + 1);
        self.conns[c].rx_last = t;
        self.at(t, Ev::ConnRxRst(c));
    }
    /// World opens a connection to a router listener.
    pub fn world_connect(&mut self, addr: (u32, u16)) -> Option<usize> {
        let o = match self.listeners.get(&addr).or_else(|| self.listeners.get(&(0, addr.1))) {
            Some(o) => *o,
            None => return None,
        };
        self.next_port += 1;
        let port = self.next_port;
        let c = self.new_conn(addr, (0x0a640001, port));
        self.conns[c].connected = true;
        // the object is created at accept time; data may arrive before
        let co = self.new_obj(ObjKind::Conn(c));
        self.conns[c].obj = co;
        if let ObjKind::Listener { backlog, .. } = &mut self.objs[o].kind {
            backlog.push_back(c);
        }
        self.edge_in(o);
        Some(c)
    }

    // -------------------------------------------------------------- world executor
    pub fn spawn(&mut self, name: &str, f: impl Future<Output = ()> + 'static) -> TaskId {
        let t = WTask { fut: Some(Box::pin(f)), name: name.to_string(), queued: true };
        self.tasks.push(t);
        let id = self.tasks.len() - 1;
        self.ready.push_back(id);
        id
    }
    pub fn wake_task(&mut self, t: TaskId) {
        let w = &mut self.tasks[t];
        if w.fut.is_some() && !w.queued {
            w.queued = true;
            self.ready.push_back(t);
        } else if t == self.cur_task && !w.queued {
            // woken while running
            w.queued = true;
            self.ready.push_back(t);
        }
    }
    fn run_world(&mut self) {
        if self.cur_task != NONE {
            return;
        }
        while let Some(t) = self.ready.pop_front() {
            self.tasks[t].queued = false;
            if let Some(mut f) = self.tasks[t].fut.take() {
                self.cur_task = t;
                let w = noop_waker();
                let mut cx = Context::from_waker(&w);
                let r = f.as_mut().poll(&mut cx);
                self.cur_task = NONE;
                if r.is_pending() {
                    self.tasks[t].fut = Some(f);
                }
            }
        }
    }
    pub fn kill_task(&mut self, t: TaskId) {
        if t != self.cur_task {
            self.tasks[t].fut = None;
        }
    }
}

pub fn wait_baton(mine: *const AtomicU32) {
    unsafe {
        while (*mine).load(Ordering::Acquire) == 0 {
            sys::futex_wait(mine as *const u32, 0);
        }
        (*mine).store(0, Ordering::Relaxed);
    }
}

fn noop_waker() -> Waker {
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn no(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, no, no, no);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

/// Awaitable: current virtual time reaches `t`.
pub struct SleepUntil(pub u64, bool);
impl Future for SleepUntil {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        let kk = k();
        if kk.now >= self.0 {
            return Poll::Ready(());
        }
        if !self.1 {
            self.1 = true;
            let t = kk.cur_task;
            kk.at(self.0, Ev::Task(t));
        }
        Poll::Pending
    }
}
pub fn sleep(d: u64) -> SleepUntil {
    SleepUntil(k().now + d, false)
}
pub fn sleep_until(t: u64) -> SleepUntil {
    SleepUntil(t, false)
}

// ------------------------------------------------------------------ start-up of the simulation
struct Start {
    id: usize,
    sem: *const AtomicU32,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
}
static mut EXIT_KEY: libc::pthread_key_t = 0;

extern "C" fn trampoline(a: *mut c_void) -> *mut c_void {
    unsafe {
        let st = a as *mut Start;
        wait_baton((*st).sem);
        CUR.with(|c| c.set((*st).id));
        libc::pthread_setspecific(EXIT_KEY, 1 as *const c_void);
        IN_K = false;
        ((*st).f)((*st).arg)
    }
}
extern "C" fn key_dtor(v: *mut c_void) {
    unsafe {
        let n = v as usize;
        if n < 3 {
            libc::pthread_setspecific(EXIT_KEY, (n + 1) as *const c_void);
            return;
        }
        if cur() == NONE {
            return;
        }
        IN_K = true;
        let kk = k();
        kk.thread_exit();
        // somebody else runs now; this thread touches nothing shared any more
        CUR.with(|c| c.set(NONE));
    }
}

/// Create a router thread (runnable, does not run yet). Under the baton or at start-up.
pub unsafe fn create_thread(
    out: *mut libc::pthread_t,
    size: usize,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> i32 {
    let kk = k();
    let id = kk.add_thread(String::new());
    let size = (size.max(2 << 20) + 4095) & !4095;
    let base = kk.stack_next;
    kk.stack_next += size + (1 << 16);
    let r = sys::raw6(
        libc::SYS_mmap,
        base as i64,
        size as i64,
        (libc::PROT_READ | libc::PROT_WRITE) as i64,
        (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE) as i64,
        -1,
        0,
    );
    if r != base as i64 {
        sys::raw_write(2, b"hrsim: cannot map stack\n");
        sys::exit_group(4);
    }
    let st = Box::leak(Box::new(Start { id, sem: &*kk.threads[id].sem, f, arg }));
    let mut attr: libc::pthread_attr_t = std::mem::zeroed();
    libc::pthread_attr_init(&mut attr);
    sys::real!(pthread_attr_setstack: fn(*mut libc::pthread_attr_t, *mut c_void, usize) -> i32)(
        &mut attr,
        base as *mut c_void,
        size,
    );
    let mut pt: libc::pthread_t = 0;
    let rc = sys::real!(pthread_create: fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> i32)(
        &mut pt,
        &attr,
        trampoline,
        st as *mut Start as *mut c_void,
    );
    if rc != 0 {
        kk.threads[id].state = TState::Dead;
        return rc;
    }
    kk.threads[id].pth = pt;
    if !out.is_null() {
        *out = pt;
    }
    kk.h(0x9000 ^ id as u64);
    0
}

type MainFn = Box<dyn FnOnce()>;
extern "C" fn main_start(a: *mut c_void) -> *mut c_void {
    let f: Box<MainFn> = unsafe { Box::from_raw(a as *mut MainFn) };
    f();
    std::ptr::null_mut()
}
extern "C" fn sig_start(_: *mut c_void) -> *mut c_void {
    loop {
        let h = {
            let _e = Enter::new();
            let kk = k();
            loop {
                if let Some(s) = kk.sig_pending.pop_front() {
                    if let Some(h) = kk.sig_handlers.get(&s) {
                        break (*h, s);
                    }
                } else {
                    kk.block(Block::Sig, None);
                }
            }
        };
        unsafe {
            let mut info: libc::siginfo_t = std::mem::zeroed();
            info.si_signo = h.1;
            let f: extern "C" fn(i32, *mut libc::siginfo_t, *mut c_void) = std::mem::transmute(h.0);
            f(h.1, &mut info, std::ptr::null_mut());
        }
    }
}
impl Kernel {
    pub fn kill(&mut self, sig: i32) {
        self.sig_pending.push_back(sig);
        let t = self.sig_thread;
        if self.threads[t].state == TState::Blocked(Block::Sig) {
            self.make_runnable(t);
        }
    }
}

/// Run the simulation in this (freshly forked, single-threaded) process; never returns.
/// `setup` runs in kernel context before the first step.
pub fn run(
    seed: u64,
    cfg: SchedCfg,
    setup: impl FnOnce(&mut Kernel),
    main: impl FnOnce() + 'static,
    watchdog_cpu_ms: u64,
    on_watchdog: impl Fn(&Kernel, bool) -> i32,
) -> ! {
    unsafe {
        crate::alloc::start();
        libc::pthread_key_create(&mut *std::ptr::addr_of_mut!(EXIT_KEY), Some(std::mem::transmute(key_dtor as extern "C" fn(*mut c_void))));
        IN_K = true;
        // everything below allocates on behalf of the simulation: use the arena from here on
        CUR.with(|c| c.set(usize::MAX - 1));
        K = Box::leak(Box::new(Kernel::new(seed, cfg)));
        let kk = k();
        setup(kk);
        let b: Box<MainFn> = Box::new(Box::new(main));
        let arg = Box::into_raw(b) as *mut c_void;
        ALLOC_COUNTDOWN = kk.next_countdown();
        create_thread(std::ptr::null_mut(), 16 << 20, main_start, arg);
        create_thread(std::ptr::null_mut(), 2 << 20, sig_start, std::ptr::null_mut());
        kk.sig_thread = 1;
        kk.threads[0].name = "main".into();
        ACTIVE.store(true, Ordering::SeqCst);
        CUR.with(|c| c.set(NONE));
        // hand the baton to thread 0
        kk.running = 0;
        let p: *const AtomicU32 = &*kk.threads[0].sem;
        (*p).store(1, Ordering::Release);
        sys::futex_wake(p as *const u32);
        // watchdog: CPU time, so that a loaded machine does not matter
        let w = AtomicU32::new(0);
        let t0 = sys::real_now_ns();
        let (mut last_steps, mut last_cpu) = (0u64, 0u64);
        loop {
            sys::futex_wait_timeout(&w as *const _ as *const u32, 0, 500);
            let cpu = sys::real_cpu_ns() / MS;
            let wall = (sys::real_now_ns() - t0) / MS;
            let steps = std::ptr::read_volatile(&(*K).steps);
            if steps != last_steps {
                last_steps = steps;
                last_cpu = cpu;
            }
            // a thread computed for seconds without reaching any scheduling point
            let hang = cpu - last_cpu > 8000;
            if hang || cpu > watchdog_cpu_ms || wall > watchdog_cpu_ms * 8 {
                let code = on_watchdog(&*K, hang);
                sys::exit_group(code);
            }
        }
    }
}
pub fn no_preempt(on: bool) {
    unsafe {
        if on {
            NO_PREEMPT += 1
        } else {
            NO_PREEMPT -= 1
        }
    }
}
