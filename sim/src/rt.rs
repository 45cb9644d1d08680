//! The simulator's runtime: a scheduler that parks and releases the real threads of a run one at a time,
//! and the seams it controls (futexes, thread creation, clock, randomness, output device, allocator).
//!
//! Exactly one simulated thread executes at any moment, so the runtime's state needs no locks of its own.
#![allow(static_mut_refs)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 96;
pub const MAX_TRACE: usize = 1 << 16;
pub const MAX_FAULTS: usize = 1 << 14;
pub const RESBUF: usize = 48 << 20;
pub const DISKBUF: usize = 4 << 20;
const NEVER: u64 = u64::MAX;

// ---------------------------------------------------------------- small deterministic helpers

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD6E8FEB86659FD93))
}
pub fn hash3(a: u64, b: u64, c: u64) -> u64 {
    hash2(hash2(a, b), c)
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(mix(s ^ 0x5DEECE66D))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below((b - a + 1) as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Geometric-ish quantum of the given mean
    pub fn quantum(&mut self, mean: u64) -> u64 {
        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        (1.0 + (-(1.0 - u).ln()) * mean as f64).min(1e12) as u64
    }
}

// ---------------------------------------------------------------- configuration of a run

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// random quanta; `a` and `b` are the means of the fine and coarse phases
    Random,
    /// priorities with `a` change points
    Pct,
    /// strict rotation with quantum `a`
    Rotate,
    /// pre-empt at accesses to data other threads may touch, with probability a/16, coarse mean `b` otherwise
    Hot,
    /// no pre-emption: threads run until they block
    Coop,
    /// follow a recorded trace
    Trace,
}

#[derive(Clone, Debug)]
pub struct SchedCfg {
    pub mode: Mode,
    pub seed: u64,
    pub a: u64,
    pub b: u64,
    pub max_switches: u64,
    pub stalls: u64, // chance (of 1000) that a switch also stalls the thread switched away from
    pub spurious: u64, // chance (of 1000) of a spurious wake-up per futex wait
    pub trace: Vec<Ent>,
}

#[derive(Clone, Debug)]
pub struct FaultCfg {
    /// probability (of 1000) that a write call is faulted
    pub rate: u64,
    pub mask: u64,
    pub seed: u64,
    /// explicit faults (replay); used when `explicit`
    pub list: Vec<FEnt>,
    pub explicit: bool,
}

#[derive(Clone, Debug)]
pub struct Env {
    pub hash_seed: u64,
    pub alloc_seed: u64,
    pub clock_base: u64,
    pub clock_jumps: u64, // chance (of 1000) of a forward jump per clock reading
    pub pid: i32,
    pub stack_off: u64,
    /// blocks with pages of their own, which nobody may touch past their end or after they are freed: 0 none, else
    /// all of 256 bytes and more and one in this many of the smaller ones
    pub guard: u64,
    /// in the so-manieth call of a client the so-manieth allocation fails; 0 none
    pub oom: (u64, u64),
    /// the program is at another place in memory
    pub elsewhere: bool,
    pub vars: Vec<(String, String)>,
}

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ent {
    pub from: u32,
    pub to: u32,
    pub own: u64,
    pub stall: u64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct FEnt {
    pub tid: u32,
    pub idx: u32,
    pub kind: u32,
    pub arg: u32,
}

pub const W_SHORT: u32 = 0;
pub const W_EINTR: u32 = 1;
pub const W_EAGAIN: u32 = 2;
pub const W_EPIPE: u32 = 3;
pub const W_ENOSPC: u32 = 4;
pub const W_EIO: u32 = 5;
pub const W_EBADF: u32 = 6;
pub const W_ZERO: u32 = 7;
pub const W_SLOW: u32 = 8;
pub const NWF: usize = 9;
pub const WNAMES: [&str; NWF] = [
    "write:short", "write:EINTR", "write:EAGAIN", "write:EPIPE", "write:ENOSPC", "write:EIO", "write:EBADF",
    "write:zero", "write:slow",
];

// ---------------------------------------------------------------- memory shared with the worker

#[repr(C)]
pub struct Shm {
    pub done: u32, // 0 running, 1 finished, 2 violation
    pub vclass: [u8; 64],
    pub vmsg: [u8; 2048],
    pub steps: u64,
    pub now: u64,
    pub switches: u64,
    pub preempts: u64,
    pub hot: u64,
    pub hot_preempts: u64,
    pub allocs: u64,
    pub writes: u64,
    pub wbytes: u64,
    pub rands: u64,
    pub clocks: u64,
    pub clock_jumps: u64,
    pub fwaits: u64,
    pub fwakes: u64,
    pub spurious: u64,
    pub timeouts: u64,
    pub stalls: u64,
    pub tjumps: u64,
    pub threads: u64,
    pub getenvs: u64,
    pub fired: [u64; 16],
    pub loghash: u64,
    pub ileave: u64,
    pub ntrace: u32,
    pub nfault: u32,
    pub crash_tid: u32,
    /// allocations that failed, and whether one of them ended the process
    pub ooms: u32,
    pub oom_end: u32,
    pub cur_op: [i32; MAXT],
    pub op_own0: [u64; MAXT],
    pub mem: [[i64; 2]; 64],
    pub nmem: u32,
    pub maxop: u64,
    /// exit status of a copy (see fork_each)
    pub each: u32,
    pub go: u32,
    /// own steps of each thread at the end
    pub own: [u64; MAXT],
    /// own steps of the writing thread around its first and last write to the disk
    pub disk_at: [u64; 2],
    pub trace: [Ent; MAX_TRACE],
    pub faults: [FEnt; MAX_FAULTS],
    pub disk_len: [u64; 4],
    pub disk_commit: [u64; 4],
    pub disk: [[u8; DISKBUF]; 2],
    pub reslen: u64,
    pub res: [u8; RESBUF],
}

pub static mut SHM: *mut Shm = std::ptr::null_mut();
/// Coverage counters, shared by all workers
pub static mut COV: *mut u8 = std::ptr::null_mut();
pub const COVSZ: usize = 1 << 18;
static mut NGUARD: u32 = 0;
pub fn guards() -> u32 {
    unsafe { NGUARD }
}

// ---------------------------------------------------------------- scheduler state

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Free,
    Run,
    Futex,
    Join,
    Sleep,
    Exited,
}

struct Th {
    st: St,
    own: u64,
    prio: i64,
    addr: usize,
    deadline: u64,
    woken: u8, // 0 not, 1 woken, 2 timed out, 3 spurious
    join: usize,
    stall: u64,
    nwrite: u32,
    nintr: u32,
    nrand: u64,
    nhot: u64,
    nwait: u64,
    ntrace: usize,
    since: u64,
    real: libc::pthread_t,
    rearm: u32,
    start: Option<extern "C" fn(*mut libc::c_void) -> *mut libc::c_void>,
    arg: *mut libc::c_void,
}
const TH0: Th = Th {
    st: St::Free, own: 0, prio: 0, addr: 0, deadline: NEVER, woken: 0, join: 0, stall: 0, nwrite: 0, nintr: 0, nrand: 0,
    nhot: 0, nwait: 0, ntrace: 0, since: 0, real: 0, rearm: 0, start: None, arg: std::ptr::null_mut(),
};
static mut TH: [Th; MAXT] = [TH0; MAXT];
static GATE: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];

static mut ACTIVE: bool = false;
static mut CUR: usize = 0;
static mut NTH: usize = 0;
static mut BUDGET: i64 = i64::MAX;
static mut SEG: i64 = i64::MAX;
static mut STEPS: u64 = 0;
static mut CLOCK_OFF: u64 = 0;
static mut LAST_GUARD: u32 = 0;
static mut RNG: Rng = Rng(0);
static mut FINE: bool = false;
static mut FINE_MEAN: u64 = 10;
static mut LOW_PRIO: i64 = 0;
static mut STEP_LIMIT: u64 = u64::MAX;
/// limit of own steps within one operation
static mut OP_LIMIT: u64 = u64::MAX;
static mut OP_ALLOW: [u64; MAXT] = [u64::MAX; MAXT];
static mut OP_END: [u64; MAXT] = [NEVER; MAXT];
static mut OOM_OPS: u64 = 0;
static mut OOM_LEFT: u64 = 0;
static mut OOM_TID: usize = 0;
static mut OOM_HIT: [bool; MAXT] = [false; MAXT];
static mut CRASH_AT: u64 = NEVER;
static mut CRASH_TID: usize = usize::MAX;
static mut CFG: Option<&'static RunCfg> = None;
static mut HOT_LO: usize = 0;
static mut HOT_HI: usize = 0;
static mut SH_LO: usize = 0;
static mut SH_HI: usize = 0;
static mut PCT_AT: [u64; MAXT] = [NEVER; MAXT];
static mut KEY: libc::pthread_key_t = 0;

pub struct RunCfg {
    pub sched: SchedCfg,
    pub fault: FaultCfg,
    pub env: Env,
    pub step_limit: u64,
    pub op_limit: u64,
    /// kill the process when thread .0 has executed .1 own steps
    pub crash: Option<(usize, u64)>,
}

extern "C" {
    static mut __data_start: u8;
    static mut _end: u8;
    fn __errno_location() -> *mut i32;
}

type PcFn = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> i32;
type PjFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
static mut REAL_PC: Option<PcFn> = None;
static mut REAL_PJ: Option<PjFn> = None;

pub unsafe fn sc(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r;
    std::arch::asm!("syscall", inlateout("rax") n=>r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

pub fn raw_exit(code: i32) -> ! {
    unsafe {
        sc(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}

// ---------------------------------------------------------------- violations raised inside a run

struct FixedBuf<'a>(&'a mut [u8], usize);
impl<'a> std::fmt::Write for FixedBuf<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if self.1 + 1 < self.0.len() {
                self.0[self.1] = b;
                self.1 += 1;
            }
        }
        Ok(())
    }
}

/// End the run with a violation of class `class`
pub fn violate(class: &str, msg: std::fmt::Arguments) -> ! {
    unsafe {
        sync();
        let s = &mut *SHM;
        if s.done == 0 {
            s.done = 2;
            let n = class.len().min(63);
            s.vclass[..n].copy_from_slice(&class.as_bytes()[..n]);
            let mut w = FixedBuf(&mut s.vmsg, 0);
            let _ = std::fmt::write(&mut w, msg);
            export();
        }
        raw_exit(77)
    }
}

unsafe fn export() {
    let s = &mut *SHM;
    s.steps = STEPS;
    s.now = now();
    for i in 0..NTH {
        s.own[i] = TH[i].own;
    }
}

// ---------------------------------------------------------------- steps

#[inline(always)]
unsafe fn step() {
    BUDGET -= 1;
    if BUDGET <= 0 {
        slow();
    }
}

/// Account the steps executed since the budget was set
unsafe fn sync() {
    if !ACTIVE {
        return;
    }
    let used = (SEG - BUDGET) as u64;
    STEPS += used;
    TH[CUR].own += used;
    SEG = BUDGET;
}

unsafe fn now() -> u64 {
    STEPS + CLOCK_OFF
}

unsafe fn log(a: u64, b: u64, c: u64) {
    let s = &mut *SHM;
    s.loghash = hash3(s.loghash ^ a, b, c);
}

/// Set how long the current thread may run before something has to be decided
unsafe fn set_budget() {
    let c = CFG.unwrap();
    let own = TH[CUR].own;
    let mut n = STEP_LIMIT.saturating_sub(STEPS).max(1);
    n = n.min(OP_END[CUR].saturating_sub(own).max(1));
    if CRASH_TID == CUR {
        n = n.min(CRASH_AT.saturating_sub(own).max(1));
    }
    let multi = runnable_other();
    if c.sched.mode == Mode::Trace {
        let t = &c.sched.trace;
        let th = &mut TH[CUR];
        // entries of this thread, in order of its own steps
        while th.ntrace < t.len() && (t[th.ntrace].from as usize != CUR || t[th.ntrace].own < own) {
            th.ntrace += 1;
        }
        if th.ntrace < t.len() {
            n = n.min((t[th.ntrace].own - own).max(1));
        }
    } else if multi && (*SHM).switches < c.sched.max_switches {
        let q = match c.sched.mode {
            Mode::Random => {
                if RNG.chance(1, 24) {
                    FINE = !FINE;
                    FINE_MEAN = [1, 2, 5, 12, 40][RNG.below(5) as usize];
                }
                if FINE {
                    RNG.quantum(FINE_MEAN)
                } else {
                    let m = if RNG.chance(1, 2) { c.sched.a } else { c.sched.b };
                    RNG.quantum(m)
                }
            }
            Mode::Pct => PCT_AT[CUR].saturating_sub(own).max(1).min(200_000),
            Mode::Rotate => c.sched.a,
            Mode::Hot => RNG.quantum(c.sched.b),
            _ => NEVER,
        };
        n = n.min(q.max(1));
    } else if multi && c.sched.mode != Mode::Coop {
        n = n.min(300_000);
    } else {
        // a spinning thread must not starve the one it waits for
        n = n.min(2_000_000);
    }
    BUDGET = n.min(1 << 60) as i64;
    SEG = BUDGET;
}

unsafe fn runnable_other() -> bool {
    for i in 0..NTH {
        if i != CUR && TH[i].st == St::Run {
            return true;
        }
    }
    false
}

#[cold]
#[inline(never)]
unsafe fn slow() {
    if !ACTIVE {
        BUDGET = i64::MAX;
        SEG = i64::MAX;
        return;
    }
    sync();
    let c = CFG.unwrap();
    let own = TH[CUR].own;
    if CRASH_TID == CUR && own >= CRASH_AT {
        // the simulated machine loses the process here
        let s = &mut *SHM;
        s.done = 1;
        s.crash_tid = CUR as u32 + 1;
        export();
        raw_exit(0);
    }
    if STEPS >= STEP_LIMIT {
        violate("no-progress", format_args!("run exceeded {} steps; thread {} in operation {}", STEP_LIMIT, CUR, (*SHM).cur_op[CUR]));
    }
    if own >= OP_END[CUR] {
        violate("no-progress", format_args!("operation {} of thread {} took more than {} steps", (*SHM).cur_op[CUR], CUR, OP_LIMIT.min(OP_ALLOW[CUR])));
    }
    if c.sched.mode == Mode::Trace {
        let t = &c.sched.trace;
        let i = TH[CUR].ntrace;
        if i < t.len() && t[i].from as usize == CUR && t[i].own == own {
            TH[CUR].ntrace += 1;
            let to = t[i].to as usize;
            if t[i].stall > 0 {
                TH[CUR].stall = now() + t[i].stall;
                (*SHM).stalls += 1;
            }
            if to < NTH && to != CUR && TH[to].st == St::Run {
                TH[to].stall = TH[to].stall.min(now());
                switch(to, false);
                return;
            }
        }
        set_budget();
        return;
    }
    if c.sched.mode == Mode::Pct {
        let change = own >= PCT_AT[CUR];
        if change {
            PCT_AT[CUR] = if c.sched.a > 0 && RNG.chance(1, 2) { own + 1 + RNG.quantum(20_000) } else { NEVER };
        }
        if change || TH[CUR].since + 150_000 < own {
            LOW_PRIO -= 1;
            TH[CUR].prio = LOW_PRIO;
        }
    }
    preempt();
}

unsafe fn preempt() {
    let c = CFG.unwrap();
    let mut stall = 0;
    if c.sched.stalls > 0 && RNG.chance(c.sched.stalls, 1000) {
        stall = 1 << RNG.range(6, 22);
    }
    match choose(true) {
        Some(n) if n != CUR => {
            if stall > 0 {
                TH[CUR].stall = now() + stall;
                (*SHM).stalls += 1;
            }
            (*SHM).preempts += 1;
            record(n, stall);
            switch(n, false)
        }
        _ => set_budget(),
    }
}

unsafe fn record(to: usize, stall: u64) {
    let s = &mut *SHM;
    if (s.ntrace as usize) < MAX_TRACE {
        s.trace[s.ntrace as usize] = Ent { from: CUR as u32, to: to as u32, own: TH[CUR].own, stall };
        s.ntrace += 1;
    }
}

/// Wake everything whose simulated time has come
unsafe fn expire() {
    let t = now();
    for i in 0..NTH {
        let th = &mut TH[i];
        match th.st {
            St::Futex | St::Sleep if th.deadline <= t => {
                th.st = St::Run;
                th.woken = 2;
                th.deadline = NEVER;
                (*SHM).timeouts += 1;
            }
            _ => (),
        }
    }
}

/// Pick the thread to run next. `keep`: the current thread is runnable and may be picked.
unsafe fn choose(keep: bool) -> Option<usize> {
    loop {
        expire();
        let t = now();
        let mut cand = [0usize; MAXT];
        let mut n = 0;
        for i in 0..NTH {
            if TH[i].st == St::Run && TH[i].stall <= t && (keep || i != CUR) {
                cand[n] = i;
                n += 1;
            }
        }
        if n == 0 {
            // nobody can run now: jump the clock to the next event
            let mut next = NEVER;
            for i in 0..NTH {
                match TH[i].st {
                    St::Run if (keep || i != CUR) && TH[i].stall > t => next = next.min(TH[i].stall),
                    St::Futex | St::Sleep => next = next.min(TH[i].deadline),
                    _ => (),
                }
            }
            if next == NEVER {
                return None;
            }
            if next > t {
                CLOCK_OFF += next - t;
                (*SHM).tjumps += 1;
            }
            continue;
        }
        let c = CFG.unwrap();
        return Some(match c.sched.mode {
            Mode::Pct => {
                let mut b = cand[0];
                for &i in &cand[..n] {
                    if TH[i].prio > TH[b].prio {
                        b = i;
                    }
                }
                b
            }
            Mode::Rotate => *cand[..n].iter().find(|i| **i > CUR).unwrap_or(&cand[0]),
            Mode::Trace => cand[0],
            Mode::Coop => {
                if keep && cand[..n].contains(&CUR) && TH[CUR].own < TH[CUR].since + 1_900_000 {
                    CUR
                } else {
                    *RNG.pick(&cand[..n])
                }
            }
            _ => {
                // prefer a change of thread
                let mut k = *RNG.pick(&cand[..n]);
                if k == CUR && n > 1 {
                    k = *RNG.pick(&cand[..n]);
                }
                k
            }
        });
    }
}

unsafe fn switch(to: usize, exiting: bool) {
    let s = &mut *SHM;
    let me = CUR;
    s.switches += 1;
    s.ileave = hash3(s.ileave, ((me as u64) << 32) | to as u64, LAST_GUARD as u64);
    log(1, ((me as u64) << 32) | to as u64, TH[me].own);
    CUR = to;
    TH[to].since = TH[to].own;
    set_budget();
    GATE[to].store(1, SeqCst);
    sc(libc::SYS_futex, GATE[to].as_ptr() as i64, 1 | 128, 1, 0, 0, 0);
    if exiting {
        return;
    }
    wait_gate(me);
}

unsafe fn wait_gate(me: usize) {
    while GATE[me].load(SeqCst) == 0 {
        sc(libc::SYS_futex, GATE[me].as_ptr() as i64, 128, 0, 0, 0, 0);
    }
    GATE[me].store(0, SeqCst);
}

/// The current thread cannot go on: run somebody else until it can
unsafe fn block(exiting: bool) {
    sync();
    let c = CFG.unwrap();
    let mut to = None;
    if c.sched.mode == Mode::Trace {
        let t = &c.sched.trace;
        let own = TH[CUR].own;
        let mut i = TH[CUR].ntrace;
        while i < t.len() && (t[i].from as usize != CUR || t[i].own < own) {
            i += 1;
        }
        TH[CUR].ntrace = i;
        if i < t.len() && t[i].own == own {
            TH[CUR].ntrace += 1;
            expire_until(t[i].to as usize);
            let k = t[i].to as usize;
            if k < NTH && TH[k].st == St::Run {
                TH[k].stall = TH[k].stall.min(now());
                to = Some(k);
            }
        }
    }
    let to = match to {
        Some(k) => k,
        None => match choose(!exiting) {
            Some(k) => {
                if c.sched.mode != Mode::Trace {
                    record(k, 0);
                }
                k
            }
            None => deadlock(exiting),
        },
    };
    if to == CUR {
        set_budget();
        return;
    }
    switch(to, exiting)
}

/// In a replay: advance the clock to where the recorded choice became possible
unsafe fn expire_until(k: usize) {
    expire();
    if k >= NTH {
        return;
    }
    let t = now();
    let want = match TH[k].st {
        St::Run => TH[k].stall,
        St::Futex | St::Sleep => TH[k].deadline,
        _ => return,
    };
    // only if nobody else can run, exactly as when it was recorded
    for i in 0..NTH {
        if TH[i].st == St::Run && TH[i].stall <= t && i != CUR {
            return;
        }
    }
    if want != NEVER && want > t {
        let _ = choose(TH[CUR].st == St::Run);
    }
}

unsafe fn deadlock(_exiting: bool) -> ! {
    let mut w = [0u8; 900];
    let mut b = FixedBuf(&mut w, 0);
    use std::fmt::Write;
    for i in 0..NTH {
        if TH[i].st != St::Exited && TH[i].st != St::Free {
            let _ = write!(b, "thread {} {:?} in operation {}; ", i, TH[i].st, (*SHM).cur_op[i]);
        }
    }
    let n = b.1;
    violate("deadlock", format_args!("no thread can run: {}", std::str::from_utf8(&w[..n]).unwrap_or("?")))
}

// ---------------------------------------------------------------- instrumentation callbacks

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    while p < b {
        if *p == 0 {
            NGUARD += 1;
            *p = NGUARD;
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    LAST_GUARD = *g;
    if !COV.is_null() {
        *COV.add(LAST_GUARD as usize & (COVSZ - 1)) = 1;
    }
    step();
}
#[inline(always)]
unsafe fn access(p: *const u8, store: bool) {
    let a = p as usize;
    step();
    if (a >= HOT_LO && a < HOT_HI) || (store && a >= SH_LO && a < SH_HI) {
        hot();
    }
}
/// An access to memory another thread may use too: the places where a pre-emption matters most
#[cold]
#[inline(never)]
unsafe fn hot() {
    if !ACTIVE {
        return;
    }
    (*SHM).hot += 1;
    let c = CFG.unwrap();
    if c.sched.mode == Mode::Trace || c.sched.mode == Mode::Coop || (*SHM).switches >= c.sched.max_switches {
        return;
    }
    let p = if c.sched.mode == Mode::Hot { c.sched.a } else { 2 };
    if RNG.chance(p, 16) {
        sync();
        if runnable_other() {
            (*SHM).hot_preempts += 1;
            // before the access, or soon after it
            if matches!(c.sched.mode, Mode::Hot | Mode::Random) && RNG.chance(1, 2) {
                BUDGET = BUDGET.min(1 + RNG.below(8) as i64);
                SEG = BUDGET;
            } else {
                preempt();
            }
        }
    }
}
macro_rules! ls {
    ($($n:ident $s:expr),*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(p: *const u8) { access(p, $s) })* };
}
ls! {
    __sanitizer_cov_load1 false, __sanitizer_cov_load2 false, __sanitizer_cov_load4 false, __sanitizer_cov_load8 false,
    __sanitizer_cov_load16 false, __sanitizer_cov_store1 true, __sanitizer_cov_store2 true, __sanitizer_cov_store4 true,
    __sanitizer_cov_store8 true, __sanitizer_cov_store16 true
}

// ---------------------------------------------------------------- threads

extern "C" fn tramp(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let id = p as usize;
        libc::pthread_setspecific(KEY, (id + 1) as *const libc::c_void);
        wait_gate(id);
        let f = TH[id].start.unwrap();
        f(TH[id].arg)
    }
}

/// Runs after every other thread-local destructor of the thread
extern "C" fn tsd_end(p: *mut libc::c_void) {
    unsafe {
        let id = p as usize - 1;
        if !ACTIVE {
            return;
        }
        if TH[id].rearm < 2 {
            TH[id].rearm += 1;
            libc::pthread_setspecific(KEY, p);
            return;
        }
        sync();
        TH[id].own += 1;
        TH[id].st = St::Exited;
        for i in 0..NTH {
            if TH[i].st == St::Join && TH[i].join == id {
                TH[i].st = St::Run;
            }
        }
        block(true);
    }
}

const STACKS: usize = 0x10_0000_0000;
const STACK_SPAN: usize = 64 << 20;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> i32 {
    if !ACTIVE {
        return REAL_PC.unwrap()(t, attr, f, arg);
    }
    step();
    if NTH >= MAXT {
        violate("harness", format_args!("too many threads"));
    }
    let c = CFG.unwrap();
    let id = NTH;
    let mut size: usize = 8 << 20;
    if !attr.is_null() {
        libc::pthread_attr_getstacksize(attr, &mut size);
        // what is 2 MB to an unoptimised build, whose frames are several times as large
        if size == 2 << 20 {
            size = 512 << 10;
        }
    }
    size = (size + 4095) & !4095;
    let top = STACKS + (id + 1) * STACK_SPAN - 4096 * (1 + (hash2(c.env.stack_off, id as u64) % 512) as usize);
    let lo = top - size;
    let m = libc::mmap(
        lo as *mut _, size, libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0,
    );
    if m as usize != lo {
        violate("harness", format_args!("no stack for thread {}", id));
    }
    let mut a: libc::pthread_attr_t = std::mem::zeroed();
    libc::pthread_attr_init(&mut a);
    libc::pthread_attr_setstack(&mut a, m, size);
    TH[id] = TH0;
    TH[id].start = Some(f);
    TH[id].arg = arg;
    TH[id].prio = (hash2(c.sched.seed, 77 + id as u64) % 1_000_000) as i64;
    PCT_AT[id] = if c.sched.a > 0 && c.sched.mode == Mode::Pct { pct_point(id) } else { NEVER };
    NTH += 1;
    GATE[id].store(0, SeqCst);
    let r = REAL_PC.unwrap()(t, &a, tramp, id as *mut libc::c_void);
    libc::pthread_attr_destroy(&mut a);
    if r != 0 {
        violate("harness", format_args!("pthread_create failed: {}", r));
    }
    TH[id].real = *t;
    TH[id].st = St::Run;
    (*SHM).threads += 1;
    sync();
    set_budget();
    0
}

/// The stacks have no guard page of their own, but nothing is mapped below them
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(_: *const libc::pthread_attr_t, n: *mut usize) -> i32 {
    *n = 4096;
    0
}

/// A change point, log-uniform over the steps a client may execute
unsafe fn pct_point(id: usize) -> u64 {
    let c = CFG.unwrap();
    let h = hash3(c.sched.seed, 99, id as u64);
    let e = 4 + h % 16;
    (1 << e) + (h >> 8) % (1 << e)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut libc::c_void) -> i32 {
    if ACTIVE {
        step();
        for id in 0..NTH {
            if TH[id].real == t && id > 0 {
                while TH[id].st != St::Exited {
                    sync();
                    TH[CUR].own += 1;
                    TH[CUR].st = St::Join;
                    TH[CUR].join = id;
                    block(false);
                    TH[CUR].st = St::Run;
                }
            }
        }
    }
    REAL_PJ.unwrap()(t, r)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if ACTIVE {
        yield_now();
        0
    } else {
        ret(sc(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
    }
}

unsafe fn yield_now() {
    sync();
    TH[CUR].own += 1;
    STEPS += 1;
    LOW_PRIO -= 1;
    TH[CUR].prio = LOW_PRIO;
    if runnable_other() || CFG.unwrap().sched.mode == Mode::Trace {
        block(false);
    } else {
        set_budget();
    }
}

unsafe fn sleep_ns(ns: u64) {
    sync();
    let th = &mut TH[CUR];
    th.own += 1;
    STEPS += 1;
    th.st = St::Sleep;
    th.deadline = now() + ns.max(1);
    block(false);
    TH[CUR].st = St::Run;
}

// ---------------------------------------------------------------- futexes

unsafe fn futex(addr: usize, op: i64, val: i64, timeout: *const libc::timespec) -> i64 {
    sync();
    TH[CUR].own += 1;
    STEPS += 1;
    let o = op & 127;
    match o {
        0 | 9 => {
            let cur = std::ptr::read_volatile(addr as *const u32);
            if cur != val as u32 {
                set_budget();
                return -(libc::EAGAIN as i64);
            }
            (*SHM).fwaits += 1;
            let c = CFG.unwrap();
            let th = &mut TH[CUR];
            th.nwait += 1;
            th.deadline = NEVER;
            if !timeout.is_null() {
                let d = (*timeout).tv_sec as u64 * 1_000_000_000 + (*timeout).tv_nsec as u64;
                th.deadline = if o == 0 { now() + d } else { d.saturating_sub(clock_base(if op & 256 != 0 { libc::CLOCK_REALTIME } else { libc::CLOCK_MONOTONIC })) };
            }
            th.addr = addr;
            th.woken = 0;
            th.st = St::Futex;
            // a spurious wake-up is a wake-up at an arbitrary later moment
            if c.sched.spurious > 0 {
                let h = hash3(c.env.hash_seed ^ c.fault.seed, 0x51 + CUR as u64, th.nwait);
                if h % 1000 < c.sched.spurious {
                    let d = now() + (1 << (h >> 32) % 18);
                    if d < th.deadline {
                        th.deadline = d;
                        th.woken = 3;
                    }
                }
            }
            let spur = th.woken == 3;
            th.woken = 0;
            block(false);
            let th = &mut TH[CUR];
            th.st = St::Run;
            log(2, CUR as u64, th.woken as u64);
            if th.woken == 2 {
                if spur {
                    (*SHM).spurious += 1;
                    (*SHM).timeouts -= 1;
                    return 0;
                }
                return -(libc::ETIMEDOUT as i64);
            }
            0
        }
        1 | 10 => {
            (*SHM).fwakes += 1;
            let mut woken = 0;
            while woken < val {
                // which waiter the kernel wakes is not specified
                let mut cand = [0usize; MAXT];
                let mut n = 0;
                for i in 0..NTH {
                    if TH[i].st == St::Futex && TH[i].addr == addr {
                        cand[n] = i;
                        n += 1;
                    }
                }
                if n == 0 {
                    break;
                }
                let h = hash3(CFG.unwrap().env.hash_seed, TH[CUR].own, 0x3a + CUR as u64);
                let k = cand[(h % n as u64) as usize];
                TH[k].st = St::Run;
                TH[k].woken = 1;
                TH[k].deadline = NEVER;
                woken += 1;
            }
            set_budget();
            woken
        }
        _ => -(libc::ENOSYS as i64),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if ACTIVE {
        if n == libc::SYS_futex {
            return ret(futex(a as usize, b, c, d as *const _));
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut u8, b as usize, c as u32) as i64;
        }
        if n == libc::SYS_sched_yield {
            return sched_yield() as i64;
        }
    }
    ret(sc(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- clock, randomness, process id

const WALL: i64 = 1_700_000_000_000_000_000;
/// How far the wall clock has been set forward or back; the monotonic one only ever jumps forward
static mut WALL_OFF: i64 = 0;
unsafe fn clock_base(id: i32) -> u64 {
    let base = CFG.unwrap().env.clock_base;
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        base.wrapping_add((WALL + WALL_OFF) as u64)
    } else {
        base
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if !ACTIVE {
        return ret(sc(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as i32;
    }
    step();
    sync();
    let c = CFG.unwrap();
    (*SHM).clocks += 1;
    if c.env.clock_jumps > 0 {
        let h = hash3(c.env.hash_seed, 0x77, (*SHM).clocks);
        if h % 1000 < c.env.clock_jumps {
            match (h >> 10) % 4 {
                0 => CLOCK_OFF += 1 << (10 + (h >> 20) % 30),
                1 => WALL_OFF = (WALL_OFF + (1i64 << (10 + (h >> 20) % 47))).min(WALL),
                2 => WALL_OFF = (WALL_OFF - (1i64 << (10 + (h >> 20) % 47))).max(-WALL),
                // a clock that has lost its battery
                _ if (h >> 20) % 4 == 0 => WALL_OFF = -WALL,
                _ => WALL_OFF -= (1i64 << 32).min(WALL + WALL_OFF),
            }
            (*SHM).clock_jumps += 1;
        }
    }
    let t = now() + clock_base(id);
    (*ts).tv_sec = (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _z: *mut libc::c_void) -> i32 {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !p.is_null() {
        *p = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if ACTIVE {
        sleep_ns((*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64);
        return 0;
    }
    ret(sc(libc::SYS_nanosleep, r as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, r: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if ACTIVE {
        let mut d = (*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64;
        if fl != 0 {
            let base = clock_base(id);
            sync();
            d = d.saturating_sub(base + now());
        }
        sleep_ns(d);
        return 0;
    }
    let r = sc(libc::SYS_clock_nanosleep, id as i64, fl as i64, r as i64, rem as i64, 0, 0);
    -r as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, f: u32) -> isize {
    if !ACTIVE {
        return ret(sc(libc::SYS_getrandom, b as i64, n as i64, f as i64, 0, 0, 0)) as isize;
    }
    step();
    let c = CFG.unwrap();
    (*SHM).rands += 1;
    for i in 0..n {
        if i % 8 == 0 {
            TH[CUR].nrand += 1;
        }
        let h = hash3(c.env.hash_seed, CUR as u64, TH[CUR].nrand);
        *b.add(i) = (h >> (8 * (i % 8))) as u8;
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if ACTIVE {
        step();
        return CFG.unwrap().env.pid;
    }
    sc(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as i32
}

/// Thread ids as the kernel would give them
#[no_mangle]
pub unsafe extern "C" fn gettid() -> i32 {
    if ACTIVE {
        return CFG.unwrap().env.pid + CUR as i32;
    }
    sc(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as i32
}

static mut ENVBUF: [[u8; 40]; 32] = [[0; 40]; 32];
static mut NENV: usize = 0;
extern "C" {
    static environ: *const *const libc::c_char;
}
/// In a simulated world that isn't the plain one, any variable may be set to anything
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let k = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if e.len() > k.len() && e[..k.len()] == *k && e[k.len()] == b'=' {
            if ACTIVE && k.starts_with(b"RUST_") {
                return std::ptr::null_mut();
            }
            return (*p).add(k.len() + 1) as *mut _;
        }
        p = p.add(1);
    }
    if !ACTIVE || k.starts_with(b"RUST_") || k.starts_with(b"LC_") || k.starts_with(b"MALLOC") {
        return std::ptr::null_mut();
    }
    step();
    (*SHM).getenvs += 1;
    let c = CFG.unwrap();
    if c.env.vars.is_empty() {
        return std::ptr::null_mut();
    }
    let mut h = c.env.hash_seed ^ c.env.pid as u64;
    for b in k {
        h = hash2(h, *b as u64);
    }
    if h % 4 == 0 {
        return std::ptr::null_mut();
    }
    let v: &[u8] = match (h >> 8) % 10 {
        0 | 1 | 2 => b"1",
        3 => b"0",
        4 => b"true",
        5 => b"",
        6 => b"/tmp",
        7 => b"7",
        8 => b"\xff\xfe",
        _ => b"debug,all",
    };
    let b = &mut ENVBUF[NENV % 32];
    NENV += 1;
    b[..v.len()].copy_from_slice(v);
    b[v.len()] = 0;
    b.as_mut_ptr() as *mut _
}

/// How many processors the process sees
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, m: *mut libc::cpu_set_t) -> i32 {
    if !ACTIVE {
        let r = sc(libc::SYS_sched_getaffinity, pid as i64, n as i64, m as i64, 0, 0, 0);
        if r < 0 {
            return ret(r) as i32;
        }
        if (r as usize) < n {
            std::ptr::write_bytes((m as *mut u8).add(r as usize), 0, n - r as usize);
        }
        return 0;
    }
    std::ptr::write_bytes(m as *mut u8, 0, n);
    let k = 1 + hash2(CFG.unwrap().env.hash_seed, 0xCC) % 16;
    for i in 0..k {
        *(m as *mut u8).add((i / 8) as usize) |= 1 << (i % 8);
    }
    0
}

// ---------------------------------------------------------------- output device

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if !ACTIVE || (fd != 1 && fd != 2) {
        return ret(sc(libc::SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize;
    }
    sync();
    TH[CUR].own += 1;
    STEPS += 1;
    let c = CFG.unwrap();
    let s = &mut *SHM;
    s.writes += 1;
    let idx = TH[CUR].nwrite;
    TH[CUR].nwrite += 1;
    let mut kind = u32::MAX;
    let mut arg = 0;
    if c.fault.explicit {
        for f in c.fault.list.iter() {
            if f.tid as usize == CUR && f.idx == idx {
                kind = f.kind;
                arg = f.arg;
            }
        }
    } else if c.fault.rate > 0 {
        let h = hash3(c.fault.seed, CUR as u64, idx as u64);
        // a device that once failed tends to stay that way for a while
        let hb = hash3(c.fault.seed ^ 0xB0, CUR as u64, (idx / 16) as u64);
        if h % 1000 < c.fault.rate || (hb % 1000 < c.fault.rate && h % 4 != 0) {
            let mut ks = [0u32; NWF];
            let mut m = 0;
            for k in 0..NWF as u32 {
                if c.fault.mask & (1 << k) != 0 {
                    ks[m] = k;
                    m += 1;
                }
            }
            if m > 0 {
                let hk = if hb % 1000 < c.fault.rate { hb } else { h };
                kind = ks[((hk >> 12) % m as u64) as usize];
                arg = ((h >> 24) & 0xffff) as u32;
            }
        }
    }
    if kind == W_EINTR {
        TH[CUR].nintr += 1;
        if TH[CUR].nintr > 6 {
            TH[CUR].nintr = 0;
            kind = u32::MAX;
        }
    }
    if kind != u32::MAX {
        s.fired[kind as usize] += 1;
        if (s.nfault as usize) < MAX_FAULTS {
            s.faults[s.nfault as usize] = FEnt { tid: CUR as u32, idx, kind, arg };
            s.nfault += 1;
        }
        log(3, CUR as u64, kind as u64);
    }
    let mut take = n;
    let mut err = 0;
    match kind {
        W_SHORT => take = if n > 1 { 1 + arg as usize % (n - 1) } else { n },
        W_EINTR => err = libc::EINTR,
        W_EAGAIN => err = libc::EAGAIN,
        W_EPIPE => err = libc::EPIPE,
        W_ENOSPC => err = libc::ENOSPC,
        W_EIO => err = libc::EIO,
        W_EBADF => err = libc::EBADF,
        W_ZERO => take = 0,
        W_SLOW => {
            sleep_ns(1000 * (1 + arg as u64));
        }
        _ => {
            // a write is a place where the kernel may run somebody else
            if c.sched.mode != Mode::Trace && c.sched.mode != Mode::Coop && s.switches < c.sched.max_switches && RNG.chance(1, 8) && runnable_other() {
                preempt();
            } else {
                set_budget();
            }
        }
    }
    if err != 0 {
        set_budget();
        return ret(-(err as i64)) as isize;
    }
    s.wbytes += take as u64;
    set_budget();
    take as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if ACTIVE && (fd == 1 || fd == 2) {
        for i in 0..n as usize {
            let v = &*v.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base as *const u8, v.iov_len);
            }
        }
        return 0;
    }
    ret(sc(libc::SYS_writev, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}

// ---------------------------------------------------------------- allocator

const ARENA: usize = 0x20_0000_0000;
const ARENA_SZ: usize = 16 << 30;
const LIVE_MAX: i64 = 1500 << 20;
const HDR: usize = 48;
const LIVE: u64 = 0xA11C_0DE5_1234_5678;
const DEAD: u64 = 0xDEAD_0DE5_8765_4321;
const CANARY: u64 = 0xC0FF_EE00_FACE_B00C;
static mut ARENA_ON: bool = false;
static mut BUMP: usize = 0;
static mut NALLOC: u64 = 0;
static mut LIVE_BLOCKS: i64 = 0;
static mut LIVE_BYTES: i64 = 0;
static mut FREE_HEAD: [usize; 128] = [0; 128];
static mut FREE_TAIL: [usize; 128] = [0; 128];
const GUARDED: u64 = 127;
const MAX_GUARDS: u32 = 6000;
static mut GUARDS: u32 = 0;
static mut OLD_SEGV: Option<libc::sigaction> = None;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: u64,
    class: u64,
    align: u64,
    next: u64,
    seq: u64,
}

/// capacity classes: four per power of two
fn class_of(n: usize) -> usize {
    let n = n.max(16);
    let l = (usize::BITS - 1 - n.leading_zeros()) as usize;
    let base = 1usize << l;
    let q = (n - base + base / 4 - 1) / (base / 4);
    l * 4 + q
}
fn class_cap(c: usize) -> usize {
    let base = 1usize << (c / 4);
    base + (c % 4) * (base / 4)
}

extern "C" fn on_segv(_: i32, i: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        let a = (*i).si_addr() as usize;
        if a >= ARENA && a < ARENA + ARENA_SZ {
            violate("use-after-free", format_args!("memory was touched after it was freed, or past the end of its block"));
        }
        // not ours: as it would have been
        if let Some(old) = &*std::ptr::addr_of!(OLD_SEGV) {
            libc::sigaction(libc::SIGSEGV, old, std::ptr::null_mut());
        }
    }
}

unsafe fn watch_guards() {
    let mut sa: libc::sigaction = std::mem::zeroed();
    let mut old: libc::sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_segv as *const () as usize;
    sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
    libc::sigaction(libc::SIGSEGV, &sa, &mut old);
    OLD_SEGV = Some(old);
}

pub struct SimAlloc;

unsafe fn arena_alloc(l: Layout, zero: bool) -> *mut u8 {
    let c = CFG.unwrap();
    NALLOC += 1;
    if OOM_LEFT > 0 && OOM_TID == CUR {
        OOM_LEFT -= 1;
        if OOM_LEFT == 0 {
            (*SHM).ooms += 1;
            OOM_HIT[CUR] = true;
            log(9, CUR as u64, l.size() as u64);
            return std::ptr::null_mut();
        }
    }
    let class = class_of(l.size() + 8);
    let cap = class_cap(class);
    let hdr: usize;
    let guarded = c.env.guard != 0
        && GUARDS < MAX_GUARDS
        && l.align() <= 16
        && (l.size() >= 256 || hash2(c.env.alloc_seed ^ 77, NALLOC) % c.env.guard == 0);
    if guarded {
        GUARDS += 1;
        let start = (BUMP + 4095) & !4095;
        let end = start + ((HDR + l.size() + 8 + 16 + 4095) & !4095);
        BUMP = end + 4096;
        if BUMP > ARENA + ARENA_SZ || LIVE_BYTES > LIVE_MAX {
            violate("no-progress", format_args!("the run held more than {} bytes of heap", LIVE_MAX));
        }
        sc(libc::SYS_mprotect, end as i64, 4096, 0, 0, 0, 0);
        hdr = ((end - 8 - l.size()) & !15) - HDR;
    } else if l.align() <= 16 && FREE_HEAD[class] != 0 {
        let p = FREE_HEAD[class];
        let h = p as *mut Hdr;
        FREE_HEAD[class] = (*h).next as usize;
        if FREE_HEAD[class] == 0 {
            FREE_TAIL[class] = 0;
        }
        if (*h).magic != DEAD {
            violate("heap-corruption", format_args!("a freed block was overwritten (header)"));
        }
        let u = (p + HDR) as *const u8;
        let n = ((*h).size as usize).min(256);
        for i in 0..n {
            if *u.add(i) != 0xDD {
                violate("use-after-free", format_args!("a freed block of {} bytes was written to", (*h).size));
            }
        }
        hdr = p;
    } else {
        let pad = (hash2(c.env.alloc_seed, NALLOC) & 3) as usize * 16;
        let al = l.align().max(16);
        let p = (BUMP + pad + HDR + al - 1) & !(al - 1);
        BUMP = (p + cap + 15) & !15;
        if BUMP > ARENA + ARENA_SZ || LIVE_BYTES > LIVE_MAX {
            violate("no-progress", format_args!("the run held more than {} bytes of heap", LIVE_MAX));
        }
        hdr = p - HDR;
    }
    let h = hdr as *mut Hdr;
    let class = if guarded { GUARDED } else { class as u64 };
    *h = Hdr { magic: LIVE, size: l.size() as u64, class, align: l.align() as u64, next: 0, seq: NALLOC };
    let u = (hdr + HDR) as *mut u8;
    if zero {
        std::ptr::write_bytes(u, 0, l.size());
    } else {
        let fill = (hash2(c.env.alloc_seed, 5) & 0x7f) as u8 | 0x80;
        std::ptr::write_bytes(u, fill, l.size().min(4096));
    }
    (u.add(l.size()) as *mut u64).write_unaligned(CANARY);
    LIVE_BLOCKS += 1;
    LIVE_BYTES += l.size() as i64;
    u
}

unsafe fn arena_free(u: *mut u8, l: Layout) {
    let hdr = u as usize - HDR;
    let h = hdr as *mut Hdr;
    if (*h).magic == DEAD {
        violate("double-free", format_args!("a block of {} bytes was freed twice", l.size()));
    }
    if (*h).magic != LIVE {
        violate("bad-free", format_args!("free of something that is not a heap block ({} bytes)", l.size()));
    }
    if (*h).size as usize != l.size() || (*h).align as usize != l.align() {
        violate("bad-free", format_args!("freed with layout {}/{} but allocated with {}/{}", l.size(), l.align(), (*h).size, (*h).align));
    }
    if (u.add(l.size()) as *const u64).read_unaligned() != CANARY {
        violate("heap-overflow", format_args!("write past the end of a block of {} bytes", l.size()));
    }
    (*h).magic = DEAD;
    LIVE_BLOCKS -= 1;
    LIVE_BYTES -= l.size() as i64;
    if (*h).class == GUARDED {
        let lo = hdr & !4095;
        let n = (u as usize + l.size() + 8 + 4095 & !4095) - lo;
        sc(libc::SYS_madvise, lo as i64, n as i64, libc::MADV_DONTNEED as i64, 0, 0, 0);
        sc(libc::SYS_mprotect, lo as i64, n as i64, 0, 0, 0, 0);
        return;
    }
    std::ptr::write_bytes(u, 0xDD, l.size().min(16384));
    if l.align() > 16 || l.size() > 16384 {
        // not reused; give the pages back
        let lo = (u as usize + 4095) & !4095;
        let hi = (u as usize + l.size()) & !4095;
        if hi > lo {
            sc(libc::SYS_madvise, lo as i64, (hi - lo) as i64, libc::MADV_DONTNEED as i64, 0, 0, 0);
        }
        return;
    }
    let class = (*h).class as usize;
    let fifo = hash2(CFG.unwrap().env.alloc_seed, 9) & 1 == 0;
    (*h).next = 0;
    if FREE_HEAD[class] == 0 {
        FREE_HEAD[class] = hdr;
        FREE_TAIL[class] = hdr;
    } else if fifo {
        (*(FREE_TAIL[class] as *mut Hdr)).next = hdr as u64;
        FREE_TAIL[class] = hdr;
    } else {
        (*h).next = FREE_HEAD[class] as u64;
        FREE_HEAD[class] = hdr;
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ARENA_ON {
            return System.alloc(l);
        }
        step();
        arena_alloc(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ARENA_ON {
            return System.alloc_zeroed(l);
        }
        step();
        arena_alloc(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a >= ARENA && a < ARENA + ARENA_SZ {
            if ARENA_ON {
                step();
            }
            arena_free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let a = p as usize;
        if a >= ARENA && a < ARENA + ARENA_SZ {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if q.is_null() {
                return q;
            }
            std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
            self.dealloc(p, l);
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}

/// What std does when it is out of memory: the process ends here, like one that crashes
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if ACTIVE && OOM_HIT[CUR] {
        sync();
        let s = &mut *SHM;
        s.done = 1;
        s.crash_tid = CUR as u32 + 1;
        s.oom_end = 1;
        export();
        raw_exit(0);
    }
    let me = sc(libc::SYS_getpid, 0, 0, 0, 0, 0, 0);
    libc::signal(libc::SIGABRT, libc::SIG_DFL);
    sc(libc::SYS_kill, me, libc::SIGABRT as i64, 0, 0, 0, 0);
    raw_exit(134)
}

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

// ---------------------------------------------------------------- life of a run, called by the harness

/// Once per process, before any fork
pub fn process_init() {
    unsafe {
        REAL_PC = Some(std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr())));
        REAL_PJ = Some(std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr())));
        libc::pthread_key_create(&mut KEY, Some(std::mem::transmute(tsd_end as *const ())));
        HOT_LO = std::ptr::addr_of!(__data_start) as usize;
        HOT_HI = std::ptr::addr_of!(_end) as usize;
        let m = libc::mmap(
            ARENA as *mut _, ARENA_SZ, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0,
        );
        assert!(m as usize == ARENA, "arena");
        COV = libc::mmap(
            std::ptr::null_mut(), COVSZ, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0,
        ) as *mut u8;
    }
}

pub fn new_shm() -> *mut Shm {
    unsafe {
        let fd = libc::memfd_create(c"simtl".as_ptr(), 0);
        assert!(fd >= 0 && libc::ftruncate(fd, std::mem::size_of::<Shm>() as i64) == 0, "memfd");
        let p = map_shm(fd);
        (*std::ptr::addr_of_mut!(SHM_FDS)).push((p as usize, fd));
        p
    }
}
static mut SHM_FDS: Vec<(usize, i32)> = vec![];
pub fn shm_fd(p: *mut Shm) -> i32 {
    unsafe { (*std::ptr::addr_of!(SHM_FDS)).iter().find(|x| x.0 == p as usize).map_or(-1, |x| x.1) }
}
pub fn map_shm(fd: i32) -> *mut Shm {
    unsafe {
        libc::mmap(
            std::ptr::null_mut(), std::mem::size_of::<Shm>(), libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_NORESERVE, fd, 0,
        ) as *mut Shm
    }
}

/// Begin simulating in this (forked, single-threaded) process
pub fn begin(cfg: &'static RunCfg, shm: *mut Shm) {
    unsafe {
        SHM = shm;
        CFG = Some(cfg);
        for (k, v) in &cfg.env.vars {
            std::env::set_var(k, v);
        }
        RNG = Rng::new(cfg.sched.seed);
        STEP_LIMIT = cfg.step_limit;
        OP_LIMIT = cfg.op_limit;
        if let Some((t, n)) = cfg.crash {
            CRASH_TID = t;
            CRASH_AT = n;
        }
        STEPS = 0;
        CLOCK_OFF = 0;
        OOM_OPS = 0;
        OOM_LEFT = 0;
        NTH = 1;
        CUR = 0;
        TH[0] = TH0;
        TH[0].st = St::Run;
        BUMP = ARENA + 4096 * (1 + (hash2(cfg.env.alloc_seed, 1) % 1024) as usize);
        for i in 0..MAXT {
            (*SHM).cur_op[i] = -1;
        }
        GUARDS = 0;
        if cfg.env.guard != 0 {
            watch_guards();
        }
        ARENA_ON = true;
        ACTIVE = true;
        set_budget();
    }
}

/// From here on, stores into what the root has built so far count as accesses to shared data
pub fn mark_shared() {
    unsafe {
        SH_LO = ARENA;
        SH_HI = BUMP;
    }
}

pub fn end() {
    unsafe {
        sync();
        ACTIVE = false;
        ARENA_ON = false;
        BUDGET = i64::MAX;
        SEG = i64::MAX;
        let s = &mut *SHM;
        s.allocs = NALLOC;
        export();
        s.done = 1;
    }
}

pub fn active() -> bool {
    unsafe { ACTIVE }
}

pub fn me() -> usize {
    unsafe { CUR }
}

/// (thread, own steps, all steps)
pub fn clock() -> (usize, u64, u64) {
    unsafe {
        sync();
        (CUR, TH[CUR].own, STEPS)
    }
}

/// What the current thread's next operations may take
pub fn op_allow(steps: u64) {
    unsafe {
        OP_ALLOW[CUR] = steps;
    }
}

pub fn op_begin(op: i32) {
    unsafe {
        sync();
        let own = TH[CUR].own;
        (*SHM).cur_op[CUR] = op;
        OOM_HIT[CUR] = false;
        if op >= 0 {
            OOM_OPS += 1;
            let oom = CFG.unwrap().env.oom;
            if OOM_OPS == oom.0 {
                OOM_TID = CUR;
                OOM_LEFT = oom.1;
            }
        }
        (*SHM).op_own0[CUR] = own;
        OP_END[CUR] = own.saturating_add(OP_LIMIT.min(OP_ALLOW[CUR]));
        log(4, CUR as u64, op as u64);
        set_budget();
    }
}
/// Returns the own steps the operation took
pub fn op_end() -> u64 {
    unsafe {
        sync();
        let own = TH[CUR].own;
        let n = own - (*SHM).op_own0[CUR];
        if n > (*SHM).maxop {
            (*SHM).maxop = n;
        }
        (*SHM).cur_op[CUR] = -1;
        if OOM_TID == CUR {
            OOM_LEFT = 0;
        }
        OP_END[CUR] = NEVER;
        log(5, CUR as u64, n);
        set_budget();
        n
    }
}

pub fn live() -> (i64, i64) {
    unsafe { (LIVE_BLOCKS, LIVE_BYTES) }
}

pub fn note_mem() {
    unsafe {
        let s = &mut *SHM;
        if (s.nmem as usize) < 64 {
            s.mem[s.nmem as usize] = [LIVE_BLOCKS, LIVE_BYTES];
            s.nmem += 1;
        }
        log(6, LIVE_BLOCKS as u64, LIVE_BYTES as u64);
    }
}

pub static mut RECORD: bool = true;
/// Append a result record
pub fn steps() -> u64 {
    unsafe { STEPS }
}

/// Clients go through their operations more than once
pub static mut AGAIN: bool = false;

pub fn put(client: u32, op: u32, sub: u32, kind: u8, steps: u64, data: &[u8]) {
    unsafe {
        if !RECORD {
            return;
        }
        let s = &mut *SHM;
        let need = 29 + data.len();
        // gone through again: only the first answer that differs is news
        if AGAIN {
            let mut i = 0;
            let mut same = 0;
            while i < s.reslen as usize {
                let b = &s.res[i..];
                let w = |a: usize| u32::from_le_bytes([b[a], b[a + 1], b[a + 2], b[a + 3]]);
                let n = w(21) as usize;
                if w(0) == client && w(4) == op && w(8) == sub {
                    same += 1 + (b[12] == kind && &b[29..29 + n] == data) as usize;
                }
                i += 29 + n;
            }
            if same > 1 {
                return;
            }
        }
        let at = s.reslen as usize;
        if at + need > RESBUF {
            violate("harness", format_args!("result buffer full"));
        }
        let b = &mut s.res[at..at + need];
        b[0..4].copy_from_slice(&client.to_le_bytes());
        b[4..8].copy_from_slice(&op.to_le_bytes());
        b[8..12].copy_from_slice(&sub.to_le_bytes());
        // 3: refused, but for lack of memory
        b[12] = if kind == 1 && OOM_HIT[CUR] { 3 } else { kind };
        b[13..21].copy_from_slice(&steps.to_le_bytes());
        b[21..29].copy_from_slice(&(data.len() as u64).to_le_bytes());
        b[29..].copy_from_slice(data);
        s.reslen += need as u64;
        let mut h = kind as u64;
        for x in data {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        log(7, ((client as u64) << 40) | ((op as u64) << 20) | sub as u64, h);
    }
}

/// A write to file `i` of the simulated disk, which survives the crash of this process
pub fn disk_write(i: usize, data: &[u8]) {
    unsafe {
        step();
        let s = &mut *SHM;
        let at = s.disk_len[i] as usize;
        let n = data.len().min(DISKBUF - at);
        s.disk[i][at..at + n].copy_from_slice(&data[..n]);
        s.disk_len[i] += n as u64;
        sync();
        if s.disk_at[0] == 0 {
            s.disk_at[0] = TH[CUR].own;
        }
        s.disk_at[1] = TH[CUR].own + 2;
        log(8, i as u64, n as u64);
    }
}
pub fn disk_commit(i: usize) {
    unsafe {
        step();
        (*SHM).disk_commit[i] = 1;
    }
}
pub fn sim_step() {
    unsafe { step() }
}
