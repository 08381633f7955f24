//! The simulated kernel: scheduler, clock, in-memory file system, fault
//! injection. Everything here runs while holding the single "token": exactly
//! one simulated thread runs at any time and only this file decides which.
//! The libc symbols that enter it are in `libc_hooks.rs`.
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicBool, Ordering::*};
use crate::json::J;
use crate::rng::{hash_bytes, mix, Rng};

pub const FD0: i32 = 0x4000_0000;
pub const ROOT: &[u8] = b"/@sim";

thread_local! {
    static TID: Cell<u32> = const { Cell::new(0) };
    static BUSY: Cell<u32> = const { Cell::new(0) };
    /// the standard library is still setting the thread up: what it allocates
    /// for that depends on addresses
    static STARTING: Cell<bool> = const { Cell::new(false) };
}
pub fn tid() -> u32 { TID.with(|t| t.get()) }
pub fn set_tid(v: u32) { TID.with(|t| t.set(v)) }
/// true if the caller is a simulated thread that is not inside the simulator
pub fn in_sim() -> bool { tid() != 0 && BUSY.with(|b| b.get()) == 0 }

/// While alive, everything this thread does is harness work: no events.
pub struct Busy(i32);
impl Busy {
    pub fn new() -> Busy { BUSY.with(|b| b.set(b.get() + 1)); Busy(errno()) }
}
impl Drop for Busy {
    fn drop(&mut self) { set_errno(self.0); BUSY.with(|b| b.set(b.get() - 1)); }
}
impl Busy { pub fn fail(&mut self, e: i32) { self.0 = e; } }

pub fn errno() -> i32 { unsafe { *libc::__errno_location() } }
pub fn set_errno(e: i32) { unsafe { *libc::__errno_location() = e } }

// ---------------------------------------------------------------- raw kernel

pub unsafe fn sys6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
/// result in the libc convention
pub unsafe fn pass(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r = sys6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 { set_errno(-r as i32); -1 } else { r }
}
fn raw_wait(a: &AtomicU32, v: u32) { unsafe { sys6(202, a as *const _ as usize, 128, v as usize, 0, 0, 0); } }
fn raw_wait_ms(a: &AtomicU32, v: u32, ms: i64) {
    let ts = [ms / 1000, (ms % 1000) * 1_000_000];
    unsafe { sys6(202, a as *const _ as usize, 128, v as usize, ts.as_ptr() as usize, 0, 0); }
}
fn raw_wake(a: &AtomicU32) { unsafe { sys6(202, a as *const _ as usize, 129, 1, 0, 0, 0); } }
pub fn cpu_ns() -> i64 {
    let mut ts = [0i64; 2];
    unsafe { sys6(228, 2, ts.as_mut_ptr() as usize, 0, 0, 0, 0); }
    ts[0] * 1_000_000_000 + ts[1]
}
pub fn wall_ns() -> i64 {
    let mut ts = [0i64; 2];
    unsafe { sys6(228, 1, ts.as_mut_ptr() as usize, 0, 0, 0, 0); }
    ts[0] * 1_000_000_000 + ts[1]
}

// ---------------------------------------------------------------- structures

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St { Ready, Futex(usize, u32, u64), Join(u32), Sleep(u64), Fifo, Stalled, Done }
pub const NEVER: u64 = u64::MAX;

pub struct Th {
    pub st: St,
    pub token: &'static AtomicU32,
    pub timed_out: bool,
    pub prio: i64,
    pub events: u64,
    pub pthread: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Dir, File, Link, Fifo, Sock }

pub struct Ino {
    pub kind: Kind,
    pub mode: u32,
    pub size: u64,
    pub seed: i64,
    pub fake: Option<u64>,
    pub data: Option<Vec<u8>>,
    pub kids: Vec<(Vec<u8>, usize)>,
    pub to: Vec<u8>,
    pub parent: usize,
    /// what stat calls the object: device and inode number, and when it was
    /// last changed (content times stay constant: they can be set by anyone)
    pub dev: u64,
    pub num: u64,
    pub ctime: u64,
}

pub struct Ofd { pub ino: usize, pub pos: u64, pub path: Vec<u8>, pub write: bool, pub append: bool, pub opath: bool, pub refs: u32, pub got: Vec<u8> }

pub struct SimDir {
    pub fd: i32,
    pub buf: Box<libc::dirent64>,
    pub queue: VecDeque<(Vec<u8>, u8, u64)>,
    pub last: Option<(u64, Vec<u8>)>,
    pub eof: bool,
}

/// what a path of the scanned tree was at some moment
#[derive(Clone, PartialEq, Debug)]
pub enum Snap { Dir, Link(Vec<u8>), File(u32, u64, i64), Other }

#[derive(Clone)]
pub struct Fault { pub op: String, pub path: Vec<u8>, pub nth: i64, pub act: String, pub errno: i32, pub n: u64, pub off: i64, pub once: bool, pub from: bool, pub used: u32 }
#[derive(Clone)]
pub struct Mut { pub op: String, pub path: Vec<u8>, pub nth: i64, pub doit: String, pub p: Vec<u8>, pub arg: J, pub done: bool }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode { Rand, Pct, Rr, Picks }

pub struct Ev { pub step: u64, pub tid: u32, pub op: &'static str, pub path: Vec<u8>, pub ret: i64 }

#[derive(Default, Clone)]
pub struct Stats {
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
}

pub struct Sim {
    /// working directory of the process, if it is a simulated one
    pub cwd: Vec<u8>,
    pub next_num: BTreeMap<u64, u64>,
    tables: std::collections::HashMap<usize, (usize, Vec<u8>, std::collections::HashMap<Vec<u8>, usize>)>,
    pub th: Vec<Th>,
    pub cur: u32,
    pub step: u64,
    pub dec: u64,
    pub polite: u32,
    pub max_steps: u64,
    pub switches: u64,
    pub trace: u64,
    pub order_hash: u64,
    pub now: u64,
    pub tick: u64,
    pub latency: u64,
    pub nclock: u64,
    pub clock_jumps: Vec<(u64, i64)>,
    pub skew: i64,
    pub rng: Rng,
    pub rand_state: u64,
    pub mode: Mode,
    pub p_sys: u64,
    pub p_alloc: u64,
    pub rr: u64,
    pub change: BTreeSet<u64>,
    pub low: i64,
    pub picks_in: BTreeMap<u64, u32>,
    pub picks_out: Vec<(u64, u32)>,
    pub stalls: Vec<(u32, u64)>,
    pub spurious: u64,
    /// mean distance of the points between basic blocks; 0: none
    pub fine: u64,
    pub fine_rng: Rng,
    pub fine_now: bool,
    pub fine_points: u64,
    pub advances: u32,
    pub ready: Vec<u32>,
    pub live: u32,
    pub root_done: bool,
    pub fatal: Option<(String, String)>,
    pub done: &'static AtomicU32,
    pub panics: Vec<(u32, String)>,
    pub threads_made: u32,
    // file system
    pub ino: Vec<Ino>,
    pub fds: Vec<Option<usize>>,
    pub ofds: Vec<Ofd>,
    pub dirs: BTreeMap<usize, usize>,
    pub open_now: i64,
    pub open_peak: i64,
    pub order: u64,
    pub dchunk: u64,
    pub dtype: u64,
    pub rsplit: u64,
    pub reint: u64,
    pub dirsize: u64,
    /// what the file system says about its objects besides what counts
    pub st: u64,
    pub cpus: u64,
    pub counts: BTreeMap<(String, Vec<u8>), i64>,
    pub faults: Vec<Fault>,
    pub muts: Vec<Mut>,
    pub fired_errnos: Vec<(i32, String)>,
    pub bytes_read: u64,
    pub junk_reads: u64,
    pub evs: Vec<Ev>,
    pub evs_on: bool,
    pub stderr: Vec<u8>,
    pub stdout: Vec<u8>,
    pub wsplit: u64,
    pub fsyncs: u64,
    pub crash_step: u64,
    pub fifo_path: Vec<u8>,
    pub stats: Stats,
    pub muts_done: u64,
    pub keep_reads: bool,
    pub snaps: Vec<(Vec<u8>, Snap)>,
    pub snap_roots: Vec<Vec<u8>>,
    /// changes the simulated program made itself, and special files it opened
    pub wrote: Vec<(&'static str, Vec<u8>)>,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
static MEM_LIVE: AtomicI64 = AtomicI64::new(0);
static MEM_PEAK: AtomicI64 = AtomicI64::new(0);
static MEM_CAP: AtomicI64 = AtomicI64::new(i64::MAX);
pub static STEP_MIRROR: AtomicU64 = AtomicU64::new(0);
pub static ACTIVE: AtomicBool = AtomicBool::new(false);

#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim { unsafe { &mut *SIM } }
pub fn has_sim() -> bool { unsafe { !SIM.is_null() } }

fn new_token() -> &'static AtomicU32 { Box::leak(Box::new(AtomicU32::new(0))) }

impl Sim {
    pub fn new(case: &J) -> Box<Sim> {
        let sched = case.get("sched");
        let seed = sched.get("seed").int() as u64;
        let mode = match sched.get("mode").str() { "rand" => Mode::Rand, "pct" => Mode::Pct, "rr" => Mode::Rr, _ => Mode::Picks };
        let io = case.get("io");
        let mut s = Box::new(Sim {
            th: Vec::new(), cur: 0, step: 0, dec: 0, polite: 0, max_steps: 3_000_000, switches: 0, trace: 0, order_hash: 0,
            now: 1_000_000_000_000, tick: case.get("clock").get("tick").int_or(1000).clamp(0, 1 << 40) as u64,
            latency: case.get("clock").get("lat").uint(), nclock: 0, clock_jumps: Vec::new(), skew: 0,
            rng: Rng::new(mix(seed ^ 0x5eed)), rand_state: mix(case.get("rseed").int() as u64 ^ 77), mode,
            p_sys: sched.get("p").int_or(200).clamp(0, 1024) as u64, p_alloc: sched.get("pa").int_or(0).clamp(0, 1024) as u64,
            rr: sched.get("k").int_or(3).max(1) as u64, change: BTreeSet::new(), low: -1,
            picks_in: BTreeMap::new(), picks_out: Vec::new(), stalls: Vec::new(),
            spurious: sched.get("spur").uint(), fine: sched.get("fine").uint(), fine_rng: Rng::new(mix(seed ^ 0xf19e)), fine_now: false, fine_points: 0, advances: 0, ready: Vec::with_capacity(64),
            live: 0, root_done: false, fatal: None, done: new_token(), panics: Vec::new(), threads_made: 0,
            ino: Vec::new(), fds: Vec::new(), ofds: Vec::new(), dirs: BTreeMap::new(), open_now: 0, open_peak: 0,
            order: io.get("order").int() as u64, dchunk: io.get("dchunk").uint(), dtype: io.get("dt").int() as u64,
            rsplit: io.get("rs").int() as u64, reint: io.get("ri").int() as u64, dirsize: io.get("dirsize").int_or(4096).max(0) as u64, st: io.get("st").int() as u64,
            next_num: BTreeMap::new(), tables: Default::default(), cwd: io.get("cwd").bytes(), cpus: io.get("cpus").int_or(4).clamp(1, 64) as u64,
            counts: BTreeMap::new(), faults: Vec::new(), muts: Vec::new(), fired_errnos: Vec::new(),
            bytes_read: 0, junk_reads: 0, evs: Vec::new(), evs_on: false, stderr: Vec::new(), stdout: Vec::new(),
            wsplit: io.get("ws").int() as u64, fsyncs: 0, crash_step: case.get("crash").get("step").uint(),
            fifo_path: Vec::new(), stats: Stats::default(), muts_done: 0, keep_reads: false, snaps: Vec::new(), snap_roots: Vec::new(), wrote: Vec::new(),
        });
        if mode == Mode::Pct {
            let d = sched.get("d").int_or(3).clamp(0, 50);
            let k = sched.get("k").int_or(2000).max(1) as u64;
            for _ in 0..d { let c = s.rng.below(k) + 1; s.change.insert(c); }
        }
        for p in sched.get("picks").items() { s.picks_in.insert(p.at(0).uint(), p.at(1).uint() as u32); }
        for p in sched.get("stalls").items() { s.stalls.push((p.at(0).uint() as u32, p.at(1).uint())); }
        for p in case.get("clock").get("jumps").items() { s.clock_jumps.push((p.at(0).uint(), p.at(1).int())); }
        s.faults = Sim::parse_faults(case.get("faults"));
        for m in case.get("muts").items() {
            s.muts.push(Mut { op: m.get("op").str().into(), path: m.get("path").bytes(), nth: m.get("nth").int(),
                doit: m.get("do").str().into(), p: m.get("p").bytes(), arg: m.get("arg").clone(), done: false });
        }
        s.ino.push(Ino { kind: Kind::Dir, mode: 0o755, size: 0, seed: 0, fake: None, data: None, kids: vec![], to: vec![], parent: 0, dev: 77, num: 1000, ctime: 0 });
        for n in case.get("fs").items() { s.build(0, n); }
        s
    }

    pub fn parse_faults(l: &J) -> Vec<Fault> {
        l.items().iter().map(|f| Fault { op: f.get("op").str().into(), path: f.get("path").bytes(), nth: f.get("nth").int(),
            act: f.get("act").str().into(), errno: f.get("errno").int() as i32, n: f.get("n").uint(),
            off: f.get("off").int_or(-1), once: f.get("once").bool(), from: f.get("from").bool(), used: 0 }).collect()
    }

    /// the object of that name in a directory
    pub fn lookup(&mut self, dir: usize, name: &[u8]) -> Option<usize> {
        let kids = &self.ino[dir].kids;
        if kids.len() < 1500 { return kids.iter().find(|k| k.0 == name).map(|k| k.1); }
        // a table of those added so far; positions are checked when used
        let t = self.tables.entry(dir).or_insert_with(|| (0, Vec::new(), Default::default()));
        let stale = t.0 > kids.len() || t.0 > 0 && kids[t.0 - 1].0 != t.1 || t.2.get(name).map_or(false, |&p| kids.get(p).map_or(true, |k| k.0 != name));
        if stale { *t = (0, Vec::new(), Default::default()); }
        while t.0 < kids.len() { t.2.entry(kids[t.0].0.clone()).or_insert(t.0); t.1 = kids[t.0].0.clone(); t.0 += 1; }
        t.2.get(name).map(|&p| kids[p].1)
    }

    pub fn build(&mut self, parent: usize, n: &J) -> usize {
        let kind = match n.get("t").str() { "d" => Kind::Dir, "l" => Kind::Link,
            "o" => if n.get("o").str() == "fifo" { Kind::Fifo } else { Kind::Sock }, _ => Kind::File };
        let mode = match kind { Kind::Dir => 0o755, Kind::Link => 0o777, _ => n.get("x").int_or(0o644) as u32 & 0o7777 };
        let data = if n.has("data") { Some(n.get("data").bytes()) } else { None };
        self.ino.push(Ino { kind, mode, size: n.get("s").uint(), seed: n.get("c").int(),
            fake: if n.has("z") { Some(n.get("z").uint()) } else { None }, data, kids: vec![], to: n.get("to").bytes(), parent, dev: 0, num: 0, ctime: 0 });
        let id = self.ino.len() - 1;
        // a mounted file system numbers its objects on its own
        let dev = if kind == Kind::Dir && n.has("dev") { n.get("dev").uint().clamp(1, 1 << 30) } else { self.ino[parent].dev };
        let next = self.next_num.entry(dev).or_insert(1000);
        *next += 1;
        self.ino[id].num = *next;
        self.ino[id].dev = dev;
        // another name of a file that is there already
        if kind == Kind::File && n.has("id") {
            let num = (1 << 20) + n.get("id").uint() % (1 << 20);
            let i = &self.ino[id];
            let same = |o: &Ino| o.kind == Kind::File && o.mode == i.mode && o.size == i.size && o.seed == i.seed && o.fake == i.fake && o.data == i.data;
            if self.ino[..id].iter().all(|o| o.dev != dev || o.num != num || same(o)) { self.ino[id].num = num; }
        }
        for k in n.get("k").items() {
            if k.get("t").str() == "w" { for k in crate::json::wide_kids(k) { self.build(id, &k); } self.probe("very wide directory"); }
            else { self.build(id, k); }
        }
        let name = n.get("n").bytes();
        if !name.is_empty() && !name.contains(&b'/') && !name.contains(&0) && name != b"." && name != b".." && name.len() <= 255
            && self.lookup(parent, &name).is_none() {
            self.ino[parent].kids.push((name, id));
        }
        id
    }

    pub fn probe(&mut self, k: &str) { *self.stats.probes.entry(k.to_string()).or_insert(0) += 1; }
    pub fn fired(&mut self, k: &str) { *self.stats.faults.entry(k.to_string()).or_insert(0) += 1; }

    // ------------------------------------------------------------ scheduler

    fn add_thread(&mut self) -> u32 {
        let id = self.th.len() as u32 + 1;
        let prio = (mix(self.rand_state ^ id as u64 ^ 0xabc) >> 2) as i64 + 1_000_000;
        let prio = if self.mode == Mode::Pct { (self.rng.next() >> 2) as i64 + 1_000_000 } else { prio };
        self.th.push(Th { st: St::Ready, token: new_token(), timed_out: false, prio, events: 0, pthread: 0 });
        self.live += 1;
        id
    }

    fn t(&mut self, id: u32) -> &mut Th { &mut self.th[id as usize - 1] }

    /// who runs next; None: nobody can
    fn decide(&mut self, cur: u32, sys: bool, polite: bool) -> Option<u32> {
        // a stalled thread is slow, not dead: others that only spin let it go on
        if polite { self.polite += 1; if self.polite > 300 {
            self.polite = 0;
            if let Some(t) = self.th.iter_mut().find(|t| t.st == St::Stalled) { t.st = St::Ready; }
        } }
        loop {
            self.ready.clear();
            for (i, t) in self.th.iter().enumerate() { if t.st == St::Ready { self.ready.push(i as u32 + 1); } }
            if !self.ready.is_empty() { break; }
            // quiescence: time passes, or a stalled thread finally runs
            let mut best: Option<(u64, u32)> = None;
            let mut stalled = None;
            for (i, t) in self.th.iter().enumerate() {
                let d = match t.st { St::Futex(_, _, d) => d, St::Sleep(d) => d, St::Stalled => { if stalled.is_none() { stalled = Some(i as u32 + 1); } NEVER } _ => NEVER };
                if d != NEVER && best.map_or(true, |b| d < b.0) { best = Some((d, i as u32 + 1)); }
            }
            if let Some(s) = stalled { if best.is_none() || self.advances >= 20 {
                self.t(s).st = St::Ready; self.advances = 0; continue;
            } }
            match best {
                Some((d, id)) => { self.now = self.now.max(d); self.advances += 1;
                    let t = self.t(id); t.timed_out = true; t.st = St::Ready; }
                None => return None,
            }
        }
        let cur_ready = self.ready.contains(&cur);
        let default = if cur_ready && !polite { cur }
            else if polite { *self.ready.iter().find(|&&x| x > cur).or_else(|| self.ready.iter().find(|&&x| x != cur)).unwrap_or(&self.ready[0]) }
            else { self.ready[0] };
        self.dec += 1;
        let step = self.dec;
        let n = self.ready.len();
        let chosen = match self.mode {
            Mode::Picks => match self.picks_in.get(&step) { Some(p) if self.ready.contains(p) => *p, _ => default },
            _ if n == 1 => self.ready[0],
            _ if self.fine_now => { let i = self.rng.us(n); self.ready[i] }
            Mode::Rand => {
                let p = if sys { self.p_sys } else { self.p_alloc };
                if !cur_ready || polite || self.rng.below(1024) < p { let i = self.rng.us(n); self.ready[i] } else { default }
            }
            Mode::Rr => if sys && step % self.rr == 0 {
                *self.ready.iter().find(|&&x| x > cur).unwrap_or(&self.ready[0]) } else { default },
            Mode::Pct => {
                if polite || self.change.contains(&self.step) { self.low -= 1; let l = self.low; if cur_ready { self.t(cur).prio = l; } }
                let mut b = self.ready[0];
                for i in 1..n { let c = self.ready[i]; if self.th[c as usize - 1].prio > self.th[b as usize - 1].prio { b = c; } }
                b
            }
        };
        if chosen != default && self.picks_out.len() < 100_000 { self.picks_out.push((step, chosen)); }
        Some(chosen)
    }
}

/// Stops the case: the violation is recorded, the controller takes over and
/// this thread never runs again.
pub fn fatal(class: &str, msg: &str) -> ! {
    BUSY.with(|b| b.set(b.get() + 1));
    let s = sim();
    if s.fatal.is_none() { s.fatal = Some((class.to_string(), msg.to_string())); }
    if PRELOAD.load(Relaxed) { (unsafe { PRELOAD_FATAL })(); }
    s.done.store(1, SeqCst);
    raw_wake(s.done);
    loop { let z = AtomicU32::new(0); raw_wait(&z, 0); }
}
pub static PRELOAD: AtomicBool = AtomicBool::new(false);
fn nop() {}
pub static mut PRELOAD_FATAL: fn() = nop;

fn give(to: u32) { let t = sim().t(to).token; t.store(1, SeqCst); raw_wake(t); }
fn token(id: u32) -> &'static AtomicU32 { sim().th[id as usize - 1].token }
fn take(t: &'static AtomicU32) {
    // spin a little: a hand-over usually comes back soon
    for _ in 0..50 { if t.load(Acquire) == 1 { break; } std::hint::spin_loop(); }
    while t.load(SeqCst) == 0 { raw_wait(t, 0); }
    t.store(0, SeqCst);
}

fn describe_stuck() -> String {
    let s = sim();
    let mut m = String::new();
    for (i, t) in s.th.iter().enumerate() {
        if t.st != St::Done {
            let n = match t.st { St::Futex(..) => "waits on a futex", St::Join(_) => "joins a thread", St::Fifo => "blocks opening a fifo", _ => "waits" };
            m.push_str(&format!("thread {} {}; ", i + 1, n));
        }
    }
    m
}

/// Hand the token to whoever the scheduler picks; returns when it comes back.
fn resched(sys: bool, polite: bool) {
    let me = tid();
    let s = sim();
    match s.decide(me, sys, polite) {
        Some(n) if n == me => {}
        Some(n) => {
            s.switches += 1;
            s.cur = n;
            s.order_hash = mix(s.order_hash ^ n as u64 ^ mix(s.step));
            let t = token(me); // not after `give`: the table may grow then
            give(n);
            take(t);
        }
        None => {
            let (class, what) = if s.root_done { ("thread-leak", "threads left behind never finish: ") } else { ("deadlock", "no thread can ever run: ") };
            let fifo = s.th.iter().any(|t| t.st == St::Fifo);
            let m = format!("{}{}", what, describe_stuck());
            fatal(if fifo { "blocked-on-fifo" } else { class }, &m);
        }
    }
}

fn count_event(h: u64) {
    let me = tid();
    let s = sim();
    s.step += 1;
    s.now += s.tick;
    STEP_MIRROR.store(s.step, Relaxed);
    s.trace = mix(s.trace ^ h ^ ((me as u64) << 56));
    if s.step > s.max_steps { fatal("step-limit", &format!("no end after {} simulated steps", s.step)); }
    if s.crash_step != 0 && s.step == s.crash_step { s.fired("crash"); fatal("crash", "killed"); }
    let t = s.t(me);
    t.events += 1;
    let ev = t.events;
    if !s.stalls.is_empty() && s.stalls.iter().any(|x| *x == (me, ev)) { s.t(me).st = St::Stalled; s.fired("stall"); }
}

/// A point where another thread may run. Caller holds Busy.
pub fn event(h: u64, polite: bool) { STARTING.with(|x| x.set(false)); count_event(h); resched(true, polite); }

pub fn on_alloc(size: usize) {
    if !in_sim() { return; }
    let _b = Busy::new();
    let live = MEM_LIVE.fetch_add(size as i64, Relaxed) + size as i64;
    if live > MEM_PEAK.load(Relaxed) { MEM_PEAK.store(live, Relaxed); }
    if live > MEM_CAP.load(Relaxed) { fatal("memory", &format!("{} bytes of memory in use or asked for at once", live)); }
    if STARTING.with(|x| x.get()) { return; }
    count_event(0x1111 ^ size as u64);
    resched(false, false);
}
/// One more basic block. Threads may be switched here too, every so often; a
/// thread that only spins lets the others go on.
static POINTS_LEFT: AtomicI64 = AtomicI64::new(0);
#[inline]
pub fn point() {
    if !in_sim() { return; }
    STARTING.with(|x| x.set(false));
    let n = POINTS_LEFT.load(Relaxed);
    if n > 0 { POINTS_LEFT.store(n - 1, Relaxed); return; }
    fine_point();
}
#[cold]
fn fine_point() {
    let _b = Busy::new();
    let s = sim();
    if s.fine == 0 {
        POINTS_LEFT.store(1_000_000, Relaxed);
        resched(true, true);
        return;
    }
    let gap = s.fine_rng.below(2 * s.fine.min(1 << 30)) as i64;
    POINTS_LEFT.store(gap, Relaxed);
    s.fine_points += 1;
    if s.fine_points % 100_000 == 0 { s.fine *= 4; }
    s.max_steps += 1;
    count_event(0xb10c);
    s.fine_now = true;
    resched(false, false);
    sim().fine_now = false;
}
pub fn on_free(size: usize) {
    if !in_sim() { return; }
    MEM_LIVE.fetch_sub(size as i64, Relaxed);
}
pub fn mem_peak() -> i64 { MEM_PEAK.load(Relaxed) }
pub fn mem_cap(n: i64) { MEM_CAP.store(n, Relaxed) }

// ------------------------------------------------------------- blocking calls

pub fn futex_wait(addr: usize, val: u32, bits: u32, deadline: u64) -> i32 {
    event(0xf01, false);
    let me = tid();
    let s = sim();
    let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
    if cur != val { return libc::EAGAIN; }
    if s.spurious != 0 && s.mode != Mode::Picks && s.rng.below(64) < s.spurious { s.fired("futex-eintr"); return libc::EINTR; }
    s.t(me).st = St::Futex(addr, bits, deadline);
    s.t(me).timed_out = false;
    resched(true, false);
    if sim().t(me).timed_out { libc::ETIMEDOUT } else { 0 }
}

pub fn futex_wake(addr: usize, n: u32, bits: u32) -> i32 {
    let s = sim();
    let mut woken = 0;
    for t in s.th.iter_mut() {
        if woken >= n { break; }
        if let St::Futex(a, b, _) = t.st { if a == addr && (b & bits) != 0 { t.st = St::Ready; t.timed_out = false; woken += 1; } }
    }
    event(0xf02, false);
    woken as i32
}

pub fn sleep_ns(ns: u64) {
    let me = tid();
    let s = sim();
    s.t(me).st = St::Sleep(s.now.saturating_add(ns));
    event(0x51ee9, false);
}

pub fn clock_read() -> u64 {
    event(0xc10c, false);
    let s = sim();
    s.nclock += 1;
    let n = s.nclock;
    for &(at, d) in &s.clock_jumps { if at == n { s.skew = s.skew.saturating_add(d); *s.stats.faults.entry(if d < 0 { "clock-back" } else { "clock-jump" }.into()).or_insert(0) += 1; } }
    (s.now as i64 + s.skew).max(1) as u64
}

pub fn random_bytes(buf: &mut [u8]) {
    let s = sim();
    for b in buf { s.rand_state = mix(s.rand_state); *b = s.rand_state as u8; }
}

// ------------------------------------------------------------- threads

/// Register a thread; it first runs when the scheduler picks it.
pub fn thread_register() -> (u32, &'static AtomicU32) { let s = sim(); s.threads_made += 1; let id = s.add_thread(); (id, token(id)) }
pub fn thread_unregister(id: u32) { let s = sim(); s.t(id).st = St::Done; s.live -= 1; }

/// First thing a simulated thread does.
pub fn thread_begin(id: u32, t: &'static AtomicU32) { set_tid(id); STARTING.with(|x| x.set(true)); BUSY.with(|b| b.set(1)); take(t); BUSY.with(|b| b.set(0)); }

/// The root is a bare thread: what std does around the threads it starts
/// takes locks, outside of the simulation if the root were one of them.
struct Root { id: u32, token: &'static AtomicU32, f: Box<dyn FnOnce() + Send> }
extern "C" fn root_thread(p: *mut libc::c_void) -> *mut libc::c_void {
    let r = unsafe { Box::from_raw(p as *mut Root) };
    thread_begin(r.id, r.token); STARTING.with(|x| x.set(false));
    (r.f)();
    { let _b = Busy::new(); sim().root_done = true; }
    thread_end();
    std::ptr::null_mut()
}

/// Last thing a simulated thread does.
pub fn thread_end() {
    BUSY.with(|b| b.set(1));
    let me = tid();
    let s = sim();
    s.step += 1;
    s.trace = mix(s.trace ^ 0xdead ^ ((me as u64) << 56));
    s.t(me).st = St::Done;
    s.live -= 1;
    for t in s.th.iter_mut() { if t.st == St::Join(me) { t.st = St::Ready; } }
    if s.live == 0 {
        s.done.store(1, SeqCst);
        raw_wake(s.done);
    } else {
        match s.decide(me, true, false) {
            Some(n) => { s.switches += 1; s.cur = n; s.order_hash = mix(s.order_hash ^ n as u64 ^ mix(s.step)); give(n); }
            None => {
                let (class, what) = if s.root_done { ("thread-leak", "threads left behind never finish: ") } else { ("deadlock", "no thread can ever run: ") };
                let fifo = s.th.iter().any(|t| t.st == St::Fifo);
                let m = format!("{}{}", what, describe_stuck());
                fatal(if fifo { "blocked-on-fifo" } else { class }, &m);
            }
        }
    }
    set_tid(0);
}

pub fn join(id: u32) {
    event(0x101, false);
    let me = tid();
    if sim().t(id).st != St::Done { sim().t(me).st = St::Join(id); resched(true, false); }
}

pub enum End { Finished, Fatal(String, String), Spin, Stuck }

/// Runs `root` as simulated thread 1 of `case`; returns when every simulated
/// thread has finished or the case was stopped. After anything but
/// `End::Finished` the process must exit (threads are still parked in it).
pub fn run<F: FnOnce() + Send + 'static>(case: &J, setup: impl FnOnce(&mut Sim), root: F, cpu_limit_s: i64) -> (End, &'static mut Sim) {
    MEM_LIVE.store(0, SeqCst); MEM_PEAK.store(0, SeqCst); MEM_CAP.store(1 << 30, SeqCst);
    let cpu_limit_s = if case.has("huge") { cpu_limit_s * 8 } else { cpu_limit_s };
    let mut s = Sim::new(case);
    setup(&mut s);
    unsafe {
        if !SIM.is_null() { drop(Box::from_raw(SIM)); }
        SIM = Box::into_raw(s);
    }
    log::set_max_level(if case.get("io").get("log").bool() { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    let id = sim().add_thread();
    ACTIVE.store(true, SeqCst);
    POINTS_LEFT.store(if sim().fine == 0 { 1_000_000 } else { 0 }, Relaxed);
    sim().cur = id;
    let arg = Box::into_raw(Box::new(Root { id, token: token(id), f: Box::new(root) }));
    let mut h: libc::pthread_t = 0;
    if unsafe { libc::pthread_create(&mut h, std::ptr::null(), root_thread, arg as *mut libc::c_void) } != 0 { panic!("pthread_create"); }
    give(id);
    let done = sim().done;
    let cpu0 = cpu_ns();
    let mut wall0 = wall_ns();
    let mut last_step = 0;
    let mut last_cpu = cpu0;
    let end = loop {
        if done.load(SeqCst) == 1 { break None; }
        raw_wait_ms(done, 0, 200);
        if done.load(SeqCst) == 1 { break None; }
        let st = STEP_MIRROR.load(Relaxed);
        let cpu = cpu_ns();
        if cpu - cpu0 > cpu_limit_s * 1_000_000_000 { break Some(End::Spin); }
        if st != last_step || cpu - last_cpu > 20_000_000 { last_step = st; last_cpu = cpu; wall0 = wall_ns(); }
        if wall_ns() - wall0 > 120_000_000_000 { break Some(End::Stuck); }
    };
    ACTIVE.store(false, SeqCst);
    if let Some(e) = end { return (e, sim()); }
    if let Some((c, m)) = sim().fatal.clone() { return (End::Fatal(c, m), sim()); }
    unsafe { libc::pthread_join(h, std::ptr::null_mut()); }
    (End::Finished, sim())
}

/// The application's logger: it makes the text, takes standard error for
/// itself as loggers do (the lock can be contended) and writes nothing.
pub struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        let t = format!("{} {}", r.level(), r.args());
        let e = std::io::stderr();
        let mut e = e.lock();
        let _ = std::io::Write::write_all(&mut e, &t.as_bytes()[..0]);
    }
    fn flush(&self) {}
}

/// LD_PRELOAD mode: the calling thread becomes simulated thread 1.
pub fn adopt(case: &J, setup: impl FnOnce(&mut Sim)) {
    let mut s = Sim::new(case);
    setup(&mut s);
    unsafe { SIM = Box::into_raw(s); }
    let id = sim().add_thread();
    sim().cur = id;
    PRELOAD.store(true, SeqCst);
    POINTS_LEFT.store(if sim().fine == 0 { 1_000_000 } else { 0 }, Relaxed);
    set_tid(id);
}

// ------------------------------------------------------------- faults

/// (a temporary file beside the output of the command counts as the output)
fn path_match(pat: &[u8], path: &[u8]) -> bool { pat == path || pat == b"*" || pat == b"/out/index" && path.starts_with(b"/out/") }

/// failures of standard output and standard error are told apart from file writes
fn stream_op(op: &str, path: &[u8]) -> String { if op == "write" && (path == b"stderr" || path == b"stdout") { String::from_utf8_lossy(path).into() } else { op.into() } }

pub enum Trig { None, Errno(i32), Short(u64), Zero }

/// Every simulated system call on a path comes here first: it is a scheduling
/// point, other processes' changes keyed to it are applied, and faults fire.
pub fn trigger(op: &'static str, path: &[u8]) -> Trig {
    event(hash_bytes(op.len() as u64, op.as_bytes()) ^ hash_bytes(1, path), false);
    let s = sim();
    if s.latency != 0 { let l = mix(s.latency ^ s.step) % s.latency; s.now += l; }
    let c = s.counts.entry((op.to_string(), path.to_vec())).or_insert(0);
    let nth = *c;
    *c += 1;
    if s.evs_on { let (step, t) = (s.step, tid()); s.evs.push(Ev { step, tid: t, op, path: path.to_vec(), ret: nth }); }
    for i in 0..s.muts.len() {
        let m = &s.muts[i];
        if !m.done && m.op == op && m.path == path && m.nth == nth {
            s.muts[i].done = true;
            let m = s.muts[i].clone();
            if mutate(&m) { s.muts_done += 1; snapshot(); let k = format!("mutation:{}", m.doit); s.fired(&k); }
        }
    }
    for i in 0..s.faults.len() {
        let f = &s.faults[i];
        if f.off < 0 && f.op == op && path_match(&f.path, path) && (f.nth == nth || (f.from && nth >= f.nth)) {
            let f = f.clone();
            s.faults[i].used += 1;
            return match f.act.as_str() {
                "errno" => { let op = stream_op(op, path); s.fired(&format!("{}:{}", op, errname(f.errno))); s.fired_errnos.push((f.errno, op)); Trig::Errno(f.errno) }
                "short" => { s.fired(&format!("{}:short", op)); Trig::Short(f.n.max(1)) }
                "zero" => { s.fired(&format!("{}:eof", op)); Trig::Zero }
                "crash" => { s.fired("crash"); fatal("crash", "killed"); }
                _ => Trig::None,
            };
        }
    }
    Trig::None
}

/// Codes below zero: errors that do not come from the operating system.
pub fn mkerr(c: i32) -> std::io::Error {
    use std::io::{Error, ErrorKind as K};
    match c {
        -1 => K::UnexpectedEof.into(),
        -2 => Error::new(K::Other, "injected failure"),
        -3 => Error::new(K::InvalidData, "injected bad data"),
        -4 => Error::new(K::WriteZero, "injected zero"),
        -5 => K::WouldBlock.into(),
        -6 => K::BrokenPipe.into(),
        -7 => Error::new(K::InvalidInput, "injected input"),
        -8 => K::NotFound.into(),
        n => Error::from_raw_os_error(n),
    }
}
pub fn errcode(e: &std::io::Error) -> Option<i32> {
    e.raw_os_error().or_else(|| (-8..0).find(|c| { let m = mkerr(*c); m.kind() == e.kind() && m.to_string() == e.to_string() }))
}
pub fn errname(e: i32) -> String {
    match e { -1 => "kind:UnexpectedEof", -2 => "kind:Other", -3 => "kind:InvalidData", -4 => "kind:WriteZero", -5 => "kind:WouldBlock", -6 => "kind:BrokenPipe", -7 => "kind:InvalidInput", -8 => "kind:NotFound", libc::EACCES => "EACCES", libc::ENOENT => "ENOENT", libc::EIO => "EIO", libc::EMFILE => "EMFILE", libc::ENFILE => "ENFILE",
        libc::ENOMEM => "ENOMEM", libc::ELOOP => "ELOOP", libc::ENOSPC => "ENOSPC", libc::EPIPE => "EPIPE", libc::EINTR => "EINTR",
        libc::ESTALE => "ESTALE", libc::EISDIR => "EISDIR", libc::EPERM => "EPERM", libc::ENOTDIR => "ENOTDIR", libc::EDQUOT => "EDQUOT",
        libc::EFBIG => "EFBIG", libc::EAGAIN => "EAGAIN", libc::ETIMEDOUT => "ETIMEDOUT", libc::EBADF => "EBADF", libc::EINVAL => "EINVAL",
        libc::ENXIO => "ENXIO", libc::EROFS => "EROFS",
        n => return format!("E{}", n) }.to_string()
}

// ------------------------------------------------------------- file system

pub fn content_at(seed: i64, off: u64, out: &mut [u8]) {
    if seed == 0 { for b in out.iter_mut() { *b = 0; } return; }
    let mut i = 0usize;
    while i < out.len() {
        let o = off + i as u64;
        let w = mix(seed as u64 ^ (o / 8).wrapping_mul(0x9e37_79b9)).to_le_bytes();
        let k = (o % 8) as usize;
        let n = (8 - k).min(out.len() - i);
        out[i..i + n].copy_from_slice(&w[k..k + n]);
        i += n;
    }
}

pub fn real_size(i: &Ino) -> u64 { match &i.data { Some(d) => d.len() as u64, None => i.size } }

/// absolute simulated path, or None if the path is not ours
pub fn sim_path(p: &[u8]) -> Option<&[u8]> {
    if p.starts_with(ROOT) && (p.len() == ROOT.len() || p[ROOT.len()] == b'/') { Some(&p[ROOT.len()..]) } else { None }
}

pub struct Found { pub parent: usize, pub name: Vec<u8>, pub ino: Option<usize>, pub canon: Vec<u8> }

fn join_path(base: &[u8], name: &[u8]) -> Vec<u8> {
    let mut v = base.to_vec();
    if !v.ends_with(b"/") { v.push(b'/'); }
    v.extend_from_slice(name);
    v
}

pub fn walk(start: usize, base: &[u8], path: &[u8], follow: bool, depth: u32) -> Result<Found, i32> {
    if path.len() >= 4096 { return Err(libc::ENAMETOOLONG); }
    walk_any(start, base, path, follow, depth)
}
fn walk_any(start: usize, base: &[u8], path: &[u8], follow: bool, depth: u32) -> Result<Found, i32> {
    if depth > 20 { return Err(libc::ELOOP); }
    if path.contains(&0) { return Err(libc::EINVAL); }
    let s = sim();
    let comps: Vec<&[u8]> = path.split(|&b| b == b'/').filter(|c| !c.is_empty()).collect();
    let trailing = path.ends_with(b"/");
    let mut cur = start;
    let mut canon = if base.is_empty() { b"/".to_vec() } else { base.to_vec() };
    let mut res = Found { parent: s.ino[cur].parent, name: b".".to_vec(), ino: Some(cur), canon: canon.clone() };
    for (i, c) in comps.iter().enumerate() {
        let last = i + 1 == comps.len();
        if s.ino[cur].kind != Kind::Dir { return Err(libc::ENOTDIR); }
        if *c == b"." { res = Found { parent: s.ino[cur].parent, name: b".".to_vec(), ino: Some(cur), canon: canon.clone() }; continue; }
        if *c == b".." {
            cur = s.ino[cur].parent;
            if let Some(k) = canon.iter().rposition(|&b| b == b'/') { canon.truncate(k); if canon.is_empty() { canon.push(b'/'); } }
            res = Found { parent: s.ino[cur].parent, name: b"..".to_vec(), ino: Some(cur), canon: canon.clone() };
            continue;
        }
        if c.len() > 255 { return Err(libc::ENAMETOOLONG); }
        let found = s.lookup(cur, c);
        let cpath = join_path(&canon, c);
        match found {
            None => {
                if last { return Ok(Found { parent: cur, name: c.to_vec(), ino: None, canon: cpath }); }
                return Err(libc::ENOENT);
            }
            Some(n) => {
                if s.ino[n].kind == Kind::Link && (!last || follow || trailing) {
                    let to = s.ino[n].to.clone();
                    let f = if to.starts_with(b"/") {
                        let p = match sim_path(&to) { Some(p) => p.to_vec(), None => return Err(libc::ENOENT) };
                        walk(0, b"/", &p, true, depth + 1)?
                    } else { walk(cur, &canon, &to, true, depth + 1)? };
                    if last { return Ok(f); }
                    match f.ino { None => return Err(libc::ENOENT), Some(x) => { cur = x; canon = f.canon; } }
                } else {
                    res = Found { parent: cur, name: c.to_vec(), ino: Some(n), canon: cpath.clone() };
                    cur = n;
                    canon = cpath;
                }
            }
        }
    }
    if trailing && res.ino.map_or(false, |i| s.ino[i].kind != Kind::Dir) { return Err(libc::ENOTDIR); }
    Ok(res)
}

/// resolve dirfd + path; None: not a simulated object
pub fn resolve(dirfd: i32, path: &[u8], follow: bool) -> Option<Result<Found, i32>> {
    if let Some(p) = sim_path(path) { return Some(walk(0, b"/", p, follow, 0)); }
    if path.starts_with(b"/") { return None; }
    if dirfd == libc::AT_FDCWD && !sim().cwd.is_empty() {
        let cwd = sim().cwd.clone();
        return Some(match find(&cwd) {
            Some(Found { ino: Some(i), canon, .. }) => if path.is_empty() { Err(libc::ENOENT) } else { walk(i, &canon, path, follow, 0) },
            _ => Err(libc::ENOENT),
        });
    }
    if !is_fd(dirfd) { return if dirfd >= FD0 { Some(Err(libc::EBADF)) } else { None }; }
    let o = ofd(dirfd);
    let (ino, base) = (o.ino, o.path.clone());
    if path.is_empty() { return Some(Err(libc::ENOENT)); }
    if sim().ino[ino].kind != Kind::Dir { return Some(Err(libc::ENOTDIR)); }
    Some(walk(ino, &base, path, follow, 0))
}

pub fn is_fd(fd: i32) -> bool { fd >= FD0 && has_sim() && matches!(sim().fds.get((fd - FD0) as usize), Some(Some(_))) }
pub fn ofd(fd: i32) -> &'static mut Ofd { let s = sim(); let i = s.fds[(fd - FD0) as usize].unwrap(); &mut s.ofds[i] }

pub fn new_fd(o: Ofd) -> i32 {
    let s = sim();
    s.ofds.push(o);
    let oi = s.ofds.len() - 1;
    bind_fd(oi)
}
pub fn bind_fd(oi: usize) -> i32 {
    let s = sim();
    s.open_now += 1;
    s.open_peak = s.open_peak.max(s.open_now);
    for i in 0..s.fds.len() { if s.fds[i].is_none() { s.fds[i] = Some(oi); return FD0 + i as i32; } }
    s.fds.push(Some(oi));
    FD0 + s.fds.len() as i32 - 1
}
pub fn close_fd(fd: i32) {
    let s = sim();
    let oi = s.fds[(fd - FD0) as usize].take();
    s.open_now -= 1;
    if let Some(oi) = oi { s.ofds[oi].refs -= 1; }
}

pub fn open(dirfd: i32, path: &[u8], flags: i32, mode: u32) -> Option<Result<i32, i32>> {
    let nofollow = flags & libc::O_NOFOLLOW != 0;
    let opath = flags & libc::O_PATH != 0;
    let wr = !opath && (flags & libc::O_ACCMODE) != libc::O_RDONLY;
    // the name for fault matching: before other processes change anything
    let pre = match resolve(dirfd, path, !nofollow)? { Ok(f) => f.canon, Err(_) => match resolve(dirfd, path, false)? { Ok(f) => f.canon, Err(_) => b"?".to_vec() } };
    let op = if wr { "openw" } else if opath { "opend" } else if flags & libc::O_DIRECTORY != 0 { "opendir" } else { "open" };
    if wr || (!opath && flags & (libc::O_CREAT | libc::O_TRUNC) != 0) { sim().wrote.push(("opened for writing", pre.clone())); }
    match trigger(op, &pre) { Trig::Errno(e) => return Some(Err(e)), _ => {} }
    Some((|| {
        let f = resolve(dirfd, path, !nofollow).unwrap_or(Err(libc::ENOENT))?;
        let s = sim();
        let ino = match f.ino {
            None => {
                if flags & libc::O_CREAT == 0 || !wr { return Err(libc::ENOENT); }
                new_node(f.parent, &f.name, Kind::File, mode & 0o7777, b"")
            }
            Some(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 { return Err(libc::EEXIST); }
                i
            }
        };
        let k = s.ino[ino].kind;
        if flags & libc::O_DIRECTORY != 0 && k != Kind::Dir { return Err(if k == Kind::Link && nofollow && false { libc::ELOOP } else { libc::ENOTDIR }); }
        if !opath {
            if let Kind::Fifo | Kind::Sock = k { sim().wrote.push(("opened special file", f.canon.clone())); }
            match k {
                Kind::Link => return Err(libc::ELOOP),
                Kind::Sock => return Err(libc::ENXIO),
                Kind::Dir if wr => return Err(libc::EISDIR),
                Kind::Fifo if !wr && flags & libc::O_NONBLOCK == 0 => {
                    // nobody ever opens the other end
                    sim().fifo_path = f.canon.clone();
                    sim().t(tid()).st = St::Fifo;
                    resched(true, false);
                }
                Kind::Fifo if wr => return Err(libc::ENXIO),
                _ => {}
            }
            if wr && flags & libc::O_TRUNC != 0 { let i = &mut sim().ino[ino]; i.data = Some(vec![]); i.size = 0; }
            if wr && sim().ino[ino].data.is_none() {
                let i = &mut sim().ino[ino];
                let mut d = vec![0u8; i.size as usize];
                content_at(i.seed, 0, &mut d);
                i.data = Some(d);
            }
        }
        Ok(new_fd(Ofd { ino, pos: 0, path: f.canon, write: wr, append: flags & libc::O_APPEND != 0, opath, refs: 1, got: Vec::new() }))
    })())
}

pub fn read(fd: i32, out: &mut [u8], at: Option<u64>) -> Result<usize, i32> {
    let path = ofd(fd).path.clone();
    let t = trigger("read", &path);
    if !is_fd(fd) { return Err(libc::EBADF); }
    let o = ofd(fd);
    if o.opath { return Err(libc::EBADF); }
    let s = sim();
    let nth = s.counts.get(&("read".to_string(), path.clone())).copied().unwrap_or(0) as u64;
    let mut max = out.len();
    match t {
        Trig::Errno(e) => return Err(e),
        Trig::Zero => return Ok(0),
        Trig::Short(n) => max = max.min(n as usize),
        Trig::None => {
            if s.ino[o.ino].kind == Kind::File {
                if s.reint != 0 {
                    // interrupted calls, at most `most` in a row for the same file
                    let most = [1, 1, 1, 2, 2, 3, 6, 30][(s.reint % 8) as usize];
                    let (g, k) = (nth / (most + 1), nth % (most + 1));
                    let h = mix(s.reint ^ hash_bytes(5, &path) ^ g);
                    if h % 3 == 0 && k < 1 + (h >> 9) % most { if k > 0 { s.fired("read:EINTR again"); } s.fired("read:EINTR"); return Err(libc::EINTR); }
                }
                if s.rsplit != 0 && max > 1 {
                    let h = mix(s.rsplit as u64 ^ hash_bytes(3, &path) ^ nth.wrapping_mul(77));
                    let m = match h % 4 { 0 => max, 1 => 1 + (h >> 8) as usize % 8, 2 => 1 + (h >> 8) as usize % max, _ => 4000 + (h >> 8) as usize % 300 };
                    if m < max { max = m; s.fired("read:short"); }
                }
            }
        }
    }
    let i = &s.ino[o.ino];
    if i.kind == Kind::Dir { return Err(libc::EISDIR); }
    let pos = at.unwrap_or(o.pos);
    let size = real_size(i);
    let n = (max as u64).min(size.saturating_sub(pos)) as usize;
    match &i.data { Some(d) => out[..n].copy_from_slice(&d[pos as usize..pos as usize + n]), None => content_at(i.seed, pos, &mut out[..n]) }
    if n == 0 { s.junk_reads += 1; }
    s.bytes_read += n as u64;
    if s.keep_reads { ofd(fd).got.extend_from_slice(&out[..n]); }
    if at.is_none() { ofd(fd).pos += n as u64; }
    Ok(n)
}

/// Where a write of `len` bytes at `off` on `path` must stop, and the error
/// if it cannot accept anything.
pub fn write_limit(path: &[u8], off: u64, len: usize) -> Result<usize, i32> {
    let t = trigger("write", path);
    let mut n = len;
    match t { Trig::Errno(e) => return Err(e), Trig::Short(k) => n = n.min(k as usize), Trig::Zero => n = 0, Trig::None => {} }
    let s = sim();
    if s.wsplit != 0 && n > 1 {
        let h = mix(s.wsplit as u64 ^ hash_bytes(9, path) ^ off.wrapping_mul(31));
        if h % 2 == 0 { let m = 1 + (h >> 8) as usize % n; if m < n { n = m; s.fired("write:short"); } }
    }
    for i in 0..s.faults.len() {
        let f = s.faults[i].clone();
        if f.op != "write" || f.off < 0 || !path_match(&f.path, path) || (f.once && f.used > 0) { continue; }
        let fo = f.off as u64;
        if off >= fo && (off == fo || !f.once) {
            s.faults[i].used += 1;
            if f.act == "crash" { s.fired("crash"); fatal("crash", "killed"); }
            if f.act == "zero" { s.fired("write:zero"); let op = stream_op("write", path); s.fired_errnos.push((0, op)); return Ok(0); }
            let op = stream_op("write", path);
            s.fired(&format!("{}:{}", op, errname(f.errno)));
            s.fired_errnos.push((f.errno, op));
            return Err(f.errno);
        }
        if off < fo && off + n as u64 > fo { n = (fo - off) as usize; }
    }
    Ok(n)
}

pub fn write(fd: i32, data: &[u8]) -> Result<usize, i32> {
    if fd == 1 || fd == 2 {
        let off = if fd == 1 { sim().stdout.len() } else { sim().stderr.len() } as u64;
        let n = write_limit(if fd == 1 { b"stdout" } else { b"stderr" }, off, data.len())?;
        let b = if fd == 1 { &mut sim().stdout } else { &mut sim().stderr };
        b.extend_from_slice(&data[..n]);
        return Ok(n);
    }
    let (path, w) = { let o = ofd(fd); (o.path.clone(), o.write) };
    if !w { return Err(libc::EBADF); }
    let off = { let o = ofd(fd); if o.append { real_size(&sim().ino[o.ino]) } else { o.pos } };
    let n = write_limit(&path, off, data.len())?;
    let o = ofd(fd);
    let off = if o.append { real_size(&sim().ino[o.ino]) } else { o.pos };
    let d = sim().ino[o.ino].data.get_or_insert_with(Vec::new);
    let end = off as usize + n;
    if d.len() < end { d.resize(end, 0); }
    d[off as usize..end].copy_from_slice(&data[..n]);
    o.pos = end as u64;
    Ok(n)
}

pub struct StatOut { pub mode: u32, pub size: u64, pub ino: u64, pub dev: u64, pub nlink: u64, pub ctime: u64, pub mtime: u64, pub blocks: u64, pub blksize: u64 }
pub fn stat_ino(i: usize) -> StatOut {
    let s = sim();
    let n = &s.ino[i];
    let fmt = match n.kind { Kind::Dir => libc::S_IFDIR, Kind::File => libc::S_IFREG, Kind::Link => libc::S_IFLNK, Kind::Fifo => libc::S_IFIFO, Kind::Sock => libc::S_IFSOCK };
    let size = match n.kind { Kind::Dir => s.dirsize, Kind::Link => n.to.len() as u64, Kind::File => n.fake.unwrap_or(real_size(n)), _ => 0 };
    let nlink = match n.kind {
        Kind::Dir => 2 + n.kids.iter().filter(|k| s.ino[k.1].kind == Kind::Dir).count() as u64,
        _ => if n.num >= 1 << 20 { s.ino.iter().filter(|o| o.dev == n.dev && o.num == n.num).count() as u64 } else { 1 },
    };
    let mut o = StatOut { mode: fmt | n.mode, size, ino: n.num, dev: n.dev, nlink, ctime: n.ctime, mtime: 0, blocks: (size.min(1 << 50) + 511) / 512, blksize: 4096 };
    if s.st != 0 {
        // file systems differ in these, one has the same habits everywhere
        let z = mix(s.st);
        o.blksize = [4096, 4096, 512, 1, 0, 65536, 1 << 20, 1 << 22, 1000][(z % 9) as usize];
        match (z >> 8) % 5 { 0 => o.blocks = 0, 1 => o.blocks = mix(s.st ^ i as u64) % 3 * o.blocks, 2 => o.blocks = 1, _ => {} }
        if (z >> 16) % 2 == 0 { o.mtime = n.ctime; }
        match n.kind {
            Kind::Dir => { if (z >> 24) % 3 == 0 { o.nlink = 1; } if (z >> 32) % 2 == 0 { o.size = [0, 0, 3, 1 << 20][(z >> 36) as usize % 4]; } }
            Kind::Link => match (z >> 40) % 4 { 0 => o.size = 0, 1 => o.size = 64, _ => {} },
            _ => {}
        }
    }
    o
}

/// a new object made by the code under test
pub fn new_node(parent: usize, name: &[u8], kind: Kind, mode: u32, to: &[u8]) -> usize {
    let s = sim();
    let id = s.ino.len();
    let data = if kind == Kind::File { Some(vec![]) } else { None };
    s.ino.push(Ino { kind, mode, size: 0, seed: 0, fake: None, data, kids: vec![], to: to.to_vec(), parent, dev: s.ino[parent].dev, num: (2 << 20) + id as u64, ctime: 0 });
    s.ino[parent].kids.push((name.to_vec(), id));
    id
}

/// stat by fd (empty path) or by name
pub fn stat(dirfd: i32, path: &[u8], follow: bool) -> Option<Result<StatOut, i32>> {
    if path.is_empty() {
        if !is_fd(dirfd) { return if dirfd >= FD0 { Some(Err(libc::EBADF)) } else { None }; }
        let p = ofd(dirfd).path.clone();
        return Some(match trigger("stat", &p) { Trig::Errno(e) => Err(e), _ => Ok(stat_ino(ofd(dirfd).ino)) });
    }
    let pre = match resolve(dirfd, path, follow)? { Ok(f) => f.canon, Err(_) => b"?".to_vec() };
    Some(match trigger("lstat", &pre) {
        Trig::Errno(e) => Err(e),
        _ => resolve(dirfd, path, follow).unwrap_or(Err(libc::ENOENT)).and_then(|f| f.ino.ok_or(libc::ENOENT)).map(stat_ino),
    })
}

pub fn readlink(dirfd: i32, path: &[u8]) -> Option<Result<Vec<u8>, i32>> {
    const P: &[u8] = b"/proc/self/fd/";
    if path.starts_with(P) {
        let n: i32 = std::str::from_utf8(&path[P.len()..]).ok()?.parse().ok()?;
        if !is_fd(n) { return None; }
        let p = ofd(n).path.clone();
        return Some(match trigger("fdpath", &p) { Trig::Errno(e) => Err(e), _ => { let mut v = ROOT.to_vec(); v.extend_from_slice(&p); Ok(v) } });
    }
    let pre = match resolve(dirfd, path, false)? { Ok(f) => f.canon, Err(_) => b"?".to_vec() };
    Some(match trigger("readlink", &pre) {
        Trig::Errno(e) => Err(e),
        _ => resolve(dirfd, path, false).unwrap_or(Err(libc::ENOENT)).and_then(|f| f.ino.ok_or(libc::ENOENT))
            .and_then(|i| if sim().ino[i].kind == Kind::Link { Ok(sim().ino[i].to.clone()) } else { Err(libc::EINVAL) }),
    })
}

fn order_key(order: u64, dir: usize, name: &[u8]) -> u64 {
    if order == 0 { 0 } else { hash_bytes(order ^ mix(dir as u64), name) }
}

/// next directory entry; Ok(None): end
pub fn readdir(d: &mut SimDir) -> Result<Option<(Vec<u8>, u8, u64)>, i32> {
    let (ino, path) = { let o = ofd(d.fd); (o.ino, o.path.clone()) };
    match trigger("readdir", &path) { Trig::Errno(e) => return Err(e), _ => {} }
    if d.queue.is_empty() && !d.eof {
        let s = sim();
        if s.ino[ino].kind != Kind::Dir { return Err(libc::ENOTDIR); }
        let mut all: Vec<(u64, Vec<u8>, usize)> = s.ino[ino].kids.iter().map(|k| (order_key(s.order, ino, &k.0), k.0.clone(), k.1)).collect();
        all.push((order_key(s.order, ino, b"."), b".".to_vec(), ino));
        all.push((order_key(s.order, ino, b".."), b"..".to_vec(), s.ino[ino].parent));
        if s.order == 0 { for (i, e) in all.iter_mut().enumerate() { e.0 = i as u64 + 1; } } // insertion order
        if s.order != 0 { all.sort(); }
        let max = if s.dchunk == 0 { usize::MAX } else { (s.dchunk as usize).max(if all.len() > 1500 { all.len() / 40 } else { 0 }) };
        let mut n = 0;
        for (k, name, i) in all {
            if let Some(l) = &d.last { if s.order != 0 { if (k, &name) <= (l.0, &l.1) { continue; } } else if k <= l.0 { continue; } }
            if n == max { break; }
            n += 1;
            let mut dt = match s.ino[i].kind { Kind::Dir => libc::DT_DIR, Kind::File => libc::DT_REG, Kind::Link => libc::DT_LNK, Kind::Fifo => libc::DT_FIFO, Kind::Sock => libc::DT_SOCK };
            if s.dtype != 0 && mix(s.dtype as u64 ^ hash_bytes(2, &name)) % 2 == 0 { dt = libc::DT_UNKNOWN; *s.stats.faults.entry("readdir:type-unknown".into()).or_insert(0) += 1; }
            d.queue.push_back((name.clone(), dt, s.ino[i].num));
            d.last = Some((k, name));
        }
        if n == 0 { d.eof = true; }
    }
    Ok(d.queue.pop_front())
}

// ------------------------------------------------------------- other processes

pub fn lookup(p: &[u8]) -> Option<usize> { find(p).and_then(|f| f.ino) }
fn find(p: &[u8]) -> Option<Found> { walk_any(0, b"/", p, false, 0).ok() }

fn detach(parent: usize, name: &[u8]) { sim().ino[parent].kids.retain(|k| k.0 != name); }
/// a removed directory is empty: its entries were removed first
fn empty_out(i: usize) { let kids = std::mem::take(&mut sim().ino[i].kids); for k in kids { empty_out(k.1); } }

/// every entry that is a name of the same object
fn names_of(i: usize) -> Vec<usize> {
    let s = sim();
    let (d, n) = (s.ino[i].dev, s.ino[i].num);
    (0..s.ino.len()).filter(|&j| j == i || s.ino[j].dev == d && s.ino[j].num == n).collect()
}

/// Apply one change made by another process. False if it does not apply.
pub fn mutate(m: &Mut) -> bool {
    let f = match find(&m.p) { Some(f) => f, None => return false };
    let s = sim();
    match m.doit.as_str() {
        "rm" => { match f.ino { None => return false, Some(i) => empty_out(i) } detach(f.parent, &f.name); true }
        // replace or create: the new object appears atomically under the name
        "put" => {
            if f.name == b"." || f.name == b".." { return false; }
            if let Some(i) = f.ino { empty_out(i); }
            detach(f.parent, &f.name);
            let mut n = m.arg.clone();
            n.set("n", J::b(&f.name));
            s.build(f.parent, &n);
            true
        }
        "rename" => {
            let i = match f.ino { Some(i) => i, None => return false };
            let to = match find(&m.arg.bytes()) { Some(t) => t, None => return false };
            if to.parent == i { return false; }
            let mut a = to.parent;
            while a != 0 { if a == i { return false; } a = s.ino[a].parent; }
            detach(f.parent, &f.name);
            detach(to.parent, &to.name);
            s.ino[i].parent = to.parent;
            s.ino[to.parent].kids.push((to.name, i));
            true
        }
        "truncate" | "extend" => {
            let i = match f.ino { Some(i) if s.ino[i].kind == Kind::File => i, _ => return false };
            if s.ino[i].data.is_some() { return false; }
            for j in names_of(i) { s.ino[j].size = m.arg.uint(); s.ino[j].ctime += 1; }
            true
        }
        "rewrite" => {
            let i = match f.ino { Some(i) if s.ino[i].kind == Kind::File => i, _ => return false };
            for j in names_of(i) { s.ino[j].seed = m.arg.int(); s.ino[j].ctime += 1; }
            true
        }
        "chmod" => {
            let i = match f.ino { Some(i) => i, None => return false };
            for j in names_of(i) { s.ino[j].mode = m.arg.uint() as u32 & 0o7777; s.ino[j].ctime += 1; }
            true
        }
        _ => false,
    }
}

/// Adds the present state of the scanned directories to the set of versions.
pub fn snapshot() {
    let roots = sim().snap_roots.clone();
    for r in roots {
        if let Some(i) = find(&r).and_then(|f| f.ino) { snap_rec(i, b""); }
    }
}
fn snap_rec(i: usize, path: &[u8]) {
    let s = sim();
    let n = &s.ino[i];
    let sn = match n.kind { Kind::Dir => Snap::Dir, Kind::Link => Snap::Link(n.to.clone()), Kind::File => Snap::File(n.mode, real_size(n), n.seed), _ => Snap::Other };
    let e = (if path.is_empty() { b"/".to_vec() } else { path.to_vec() }, sn);
    if !s.snaps.contains(&e) { s.snaps.push(e); }
    for (name, k) in s.ino[i].kids.clone() { let mut p = path.to_vec(); p.push(b'/'); p.extend_from_slice(&name); snap_rec(k, &p); }
}
