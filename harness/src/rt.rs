//! The simulator runtime. Lives in a forked child ("universe"); one baton decides which thread runs.
//!
//! Seams (all owned here): basic-block callbacks of the instrumented library (preemption points), the
//! global allocator (addresses, stale contents, failures), libc symbols `syscall` (futex, getrandom),
//! `getrandom`, `clock_gettime`, `nanosleep`, `clock_nanosleep`, `sched_yield`, `sched_getaffinity`,
//! `pthread_create/join/detach`. Outside the window of a simulated operation every seam passes through.
#![allow(static_mut_refs)]
// a third argument instead of variable arguments is the same call on x86-64
#![allow(invalid_runtime_symbol_definitions)]
use crate::prng::Rng;
use crate::spec::{Env, Faults, Replay, Sched as SchedSpec};
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::*};

// ---------------------------------------------------------------- raw syscalls
#[inline(always)]
unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn cvt(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn err(e: i32) -> i64 {
    *libc::__errno_location() = e;
    -1
}
unsafe fn fwait(w: &AtomicU32, v: u32) {
    raw6(libc::SYS_futex, w as *const _ as usize, 128, v as usize, 0, 0, 0);
}
unsafe fn fwake(w: &AtomicU32) {
    raw6(libc::SYS_futex, w as *const _ as usize, 129, 1 << 20, 0, 0, 0);
}

// ---------------------------------------------------------------- state
thread_local! { static TID: Cell<i32> = const { Cell::new(-1) }; }
static mut ACTIVE: bool = false;
static mut STEPS: u64 = 0;
static mut COUNTDOWN: i64 = i64::MAX;
pub const MAXG: usize = 1 << 16;
/// One page range shared between a worker and the universes it forks.
#[repr(C)]
pub struct Shared {
    pub cov: [u8; MAXG],
    pub oom_fired: u64,
    pub steps: u64,
}
static mut SH: *mut Shared = std::ptr::null_mut();
pub fn shared() -> &'static mut Shared {
    unsafe {
        if SH.is_null() {
            SH = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut Shared;
        }
        &mut *SH
    }
}
/// A worker's first step: its own range, shared with nobody but its universes.
pub fn fresh_shared() {
    unsafe { SH = std::ptr::null_mut() }
    shared();
}
static mut NGUARDS: u32 = 0;
/// executions of every block in this universe, up to RARE
static mut HITS: [u8; MAXG] = [0; MAXG];
static mut RARE: u8 = 0;
/// blocks that count as rare however often they run
static mut HOT: [u8; MAXG] = [0; MAXG];
static mut S: Option<Box<Sim>> = None;
static DONE: AtomicU32 = AtomicU32::new(0);

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub forced: u64,
    pub allocs: u64,
    pub oom_fired: u64,
    pub stalls_fired: u64,
    pub waited_on_stalled: u64,
    pub eintr_fired: u64,
    pub short_fired: u64,
    pub spurious_fired: u64,
    pub getrandom_calls: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub sleeps: u64,
    pub affinity_reads: u64,
    pub lib_threads: u64,
    pub thread_local_dtors: u64,
    pub callback_yields: u64,
    pub static_accesses: u64,
    pub rare_switches: u64,
    pub env_reads: u64,
    pub files_looked_for: u64,
    pub outside_calls: u64,
    pub sim_ns: u64,
    pub log_hash: u64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Outcome {
    Finished,
    Deadlock,
    StepBudget,
    OpBudget { thread: usize, op: usize },
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    Blocked { addr: usize, deadline: u64 },
    Sleeping { deadline: u64 },
    Joining(usize),
    Stalled,
    Done,
}

struct Th {
    word: AtomicU32,
    st: St,
    timed_out: bool,
    own: u64,
    start: u64,
    stall_at: u64,
    rare: u64,
    stall_rare: u64,
    op_limit: u64,
    op: usize,
    allocs: u64,
    oom_on: bool,
    pthread: usize,
    /// joined or detached: nobody can name the thread any more
    free: bool,
    detached: bool,
    /// destructors of thread-local data, to be run when the thread ends
    dtors: Vec<(Dtor, *mut libc::c_void)>,
    keys: Vec<(libc::pthread_key_t, *mut libc::c_void)>,
}
type Dtor = unsafe extern "C" fn(*mut libc::c_void);
impl Th {
    fn new() -> Box<Th> {
        Box::new(Th { word: AtomicU32::new(0), st: St::Runnable, timed_out: false, own: 0, start: 0, stall_at: u64::MAX,
            rare: 0, stall_rare: 0, op_limit: u64::MAX, op: 0, allocs: 0, oom_on: false, pthread: 0, free: false, detached: false,
            dtors: vec![], keys: vec![] })
    }
}
/// Library threads that can exist at the same time.
const MAX_LIB_THREADS: usize = 1000;

/// Something a call did to the world outside of it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Effect {
    pub thread: usize,
    pub op: usize,
    pub what: String,
}

pub struct Sim {
    th: Vec<Box<Th>>,
    cur: usize,
    first: u16,
    sched: Rng,
    env_rng: Rng,
    env: Env,
    spec: SchedSpec,
    next_preempt: u64,
    rare_switches: u64,
    step_limit: u64,
    pre_i: usize,
    forced_i: usize,
    pub preempts: Vec<(u64, u16)>,
    pub forced: Vec<u16>,
    choice_i: usize,
    pub choices: Vec<u8>,
    pub stats: Stats,
    pub outcome: Outcome,
    clock_mono: u64,
    clock_skew: i64,
    // allocator
    oom: Option<crate::spec::Oom>,
    oom_rng: Rng,
    oom_seen: u64,
    /// bytes the library has allocated and not given back, and the most since the last operation began
    live: i64,
    peak: i64,
    in_flight: usize,
    callers: usize,
    pub effects: Vec<Effect>,
    /// when each caller ended
    exits: Vec<u64>,
}

fn sim() -> &'static mut Sim {
    unsafe { S.as_mut().unwrap() }
}
#[inline(always)]
fn in_sim() -> bool {
    unsafe { ACTIVE && TID.with(|t| t.get()) >= 0 }
}

// ---------------------------------------------------------------- preemption points
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    while s < e {
        NGUARDS += 1;
        *s = NGUARDS % MAXG as u32;
        s = s.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if ACTIVE {
        let g = *g as usize & (MAXG - 1);
        (*SH).cov[g] = 1;
        if HITS[g] < RARE {
            HITS[g] += 1 - HOT[g];
            rare(false);
        }
        STEPS += 1;
        COUNTDOWN -= 1;
        if COUNTDOWN <= 0 {
            slow();
        }
    }
}
extern "C" {
    static mut __data_start: u8;
    static mut _end: u8;
}
static mut LO: usize = 0;
static mut LEN: usize = 0;
/// Accesses to static memory: state that survives the call or is shared between callers.
macro_rules! access {
    ($($name:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: usize) {
            if a.wrapping_sub(LO) < LEN && ACTIVE {
                rare(true);
            }
        }
    )* };
}
access!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// A point that is reached seldom, or that touches static memory: races live here, so the scheduler likes to switch
/// (and to stall callers) at such points.
#[cold]
#[inline(never)]
unsafe fn rare(access: bool) {
    if TID.with(|t| t.get()) < 0 { return; }
    ACTIVE = false;
    let s = sim();
    let me = s.cur;
    if access { s.stats.static_accesses += 1; }
    s.th[me].rare += 1;
    if s.th[me].rare == s.th[me].stall_rare {
        s.th[me].stall_at = s.own(me);
        COUNTDOWN = 0;
    }
    if s.spec.replay.is_none() && s.spec.rare > 0 && s.rare_switches < 4000 && s.sched.below(s.spec.rare) == 0 {
        s.rare_switches += 1;
        s.stats.rare_switches += 1;
        s.next_preempt = STEPS;
        COUNTDOWN = 0;
    }
    ACTIVE = true;
    if access {
        // a point of its own
        STEPS += 1;
        COUNTDOWN -= 1;
        if COUNTDOWN <= 0 { slow(); }
    }
}
pub fn n_guards() -> usize {
    unsafe { NGUARDS as usize }
}
pub fn coverage() -> Vec<u32> {
    (0..MAXG).filter(|&i| shared().cov[i] != 0).map(|i| i as u32).collect()
}
#[inline(always)]
unsafe fn point(cost: u64) {
    STEPS += cost;
    COUNTDOWN -= cost as i64;
    if COUNTDOWN <= 0 {
        slow();
    }
}

#[cold]
#[inline(never)]
unsafe fn slow() {
    if TID.with(|t| t.get()) < 0 {
        return;
    }
    ACTIVE = false;
    let s = sim();
    if STEPS >= s.step_limit {
        finish(Outcome::StepBudget);
    }
    let me = s.cur;
    let own = s.own(me);
    if own >= s.th[me].op_limit {
        let op = s.th[me].op;
        finish(Outcome::OpBudget { thread: me, op });
    }
    if own >= s.th[me].stall_at {
        s.th[me].stall_at = u64::MAX;
        s.th[me].st = St::Stalled;
        s.stats.stalls_fired += 1;
        s.note(11, me as u64);
        s.block();
    } else if STEPS >= s.next_preempt {
        s.preempt();
    }
    s.arm();
    ACTIVE = true;
}

unsafe fn finish(o: Outcome) -> ! {
    ACTIVE = false;
    let s = sim();
    s.outcome = o;
    DONE.store(1, SeqCst);
    fwake(&DONE);
    park_forever()
}
unsafe fn park_forever() -> ! {
    static NEVER: AtomicU32 = AtomicU32::new(0);
    loop {
        fwait(&NEVER, 0);
    }
}

impl Sim {
    fn own(&self, t: usize) -> u64 {
        unsafe { self.th[t].own + if t == self.cur { STEPS - self.th[t].start } else { 0 } }
    }
    fn note(&mut self, k: u64, v: u64) {
        let mut h = self.stats.log_hash;
        for x in [k, v, unsafe { STEPS }, self.cur as u64] {
            h = (h ^ x).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        self.stats.log_hash = h;
    }
    fn arm(&mut self) {
        unsafe {
            let t = &self.th[self.cur];
            let own = t.own + (STEPS - t.start);
            let mut d = self.step_limit.saturating_sub(STEPS);
            d = d.min(self.next_preempt.saturating_sub(STEPS));
            d = d.min(t.stall_at.saturating_sub(own));
            d = d.min(t.op_limit.saturating_sub(own));
            COUNTDOWN = d.clamp(1, i64::MAX as u64) as i64;
        }
    }
    fn draw_gap(&mut self) {
        unsafe {
            if let Some(r) = &self.spec.replay {
                self.next_preempt = r.preempts.get(self.pre_i).map_or(u64::MAX, |p| p.0.max(STEPS + 1));
            } else if self.spec.mean_gap == 0 || self.stats.switches >= self.spec.max_switches {
                self.next_preempt = u64::MAX;
            } else {
                self.next_preempt = STEPS + 1 + self.sched.below(2 * self.spec.mean_gap);
            }
        }
    }
    fn runnable(&self) -> Vec<usize> {
        (0..self.th.len()).filter(|&i| self.th[i].st == St::Runnable).collect()
    }
    unsafe fn preempt(&mut self) {
        let me = self.cur;
        let to = if let Some(r) = &self.spec.replay {
            let to = r.preempts.get(self.pre_i).map_or(me, |p| p.1 as usize);
            self.pre_i += 1;
            if to < self.th.len() && self.th[to].st == St::Runnable { to } else { me }
        } else {
            let r = self.runnable();
            r[self.sched.below(r.len() as u64) as usize]
        };
        if to != me {
            self.preempts.push((STEPS, to as u16));
            self.stats.switches += 1;
        }
        self.draw_gap();
        self.switch(to);
    }
    /// Called when the current thread cannot go on (blocked, stalled, done): another one runs.
    unsafe fn block(&mut self) {
        let to = self.next();
        self.switch(to);
    }
    unsafe fn next(&mut self) -> usize {
        loop {
            let r = self.runnable();
            if !r.is_empty() {
                let mut to = None;
                if let Some(rp) = &self.spec.replay {
                    to = rp.forced.get(self.forced_i).map(|&x| x as usize).filter(|x| r.contains(x));
                    if to.is_none() { to = Some(r[0]); }
                }
                let to = to.unwrap_or_else(|| r[self.sched.below(r.len() as u64) as usize]);
                self.forced_i += 1;
                self.forced.push(to as u16);
                self.stats.forced += 1;
                return to;
            }
            // nobody can run: jump the clock to the next deadline
            let dl = self.th.iter().filter_map(|t| match t.st {
                St::Blocked { deadline, .. } | St::Sleeping { deadline } if deadline != u64::MAX => Some(deadline),
                _ => None,
            }).min();
            if let Some(d) = dl {
                self.clock_mono = self.clock_mono.max(d);
                for t in self.th.iter_mut() {
                    match t.st {
                        St::Blocked { deadline, .. } if deadline <= d => { t.st = St::Runnable; t.timed_out = true; }
                        St::Sleeping { deadline } if deadline <= d => t.st = St::Runnable,
                        _ => {}
                    }
                }
                self.note(12, d);
                continue;
            }
            // only stalled callers are left: let the first of them go on
            if let Some(i) = (0..self.th.len()).find(|&i| self.th[i].st == St::Stalled) {
                if self.th.iter().any(|t| matches!(t.st, St::Blocked { .. } | St::Joining(_))) {
                    self.stats.waited_on_stalled += 1;
                }
                self.th[i].st = St::Runnable;
                self.note(13, i as u64);
                continue;
            }
            if self.th.iter().all(|t| t.st == St::Done) {
                finish(Outcome::Finished);
            }
            finish(Outcome::Deadlock);
        }
    }
    unsafe fn switch(&mut self, to: usize) {
        let me = self.cur;
        if to == me {
            return;
        }
        let word: *const AtomicU32 = &self.th[me].word;
        if self.hand_over(to) { park_forever(); }
        wait_baton(word);
    }
    /// Lets another thread run. From then on the state of the simulation belongs to it. Is this thread done?
    unsafe fn hand_over(&mut self, to: usize) -> bool {
        let me = self.cur;
        let done = self.th[me].st == St::Done;
        self.note(10, to as u64);
        self.th[me].own += STEPS - self.th[me].start;
        self.cur = to;
        self.th[to].start = STEPS;
        let word: *const AtomicU32 = &self.th[to].word;
        (*word).store(1, SeqCst);
        fwake(&*word);
        done
    }
    /// A scheduling choice other than which thread runs next (whom a wake reaches, spurious wakes).
    fn choose(&mut self, n: u64) -> u64 {
        let c = match &self.spec.replay {
            Some(r) => (*r.choices.get(self.choice_i).unwrap_or(&1) as u64).min(n - 1),
            None => self.sched.below(n),
        };
        self.choice_i += 1;
        self.choices.push(c.min(255) as u8);
        c
    }
    fn now(&mut self) -> u64 {
        unsafe { self.clock_mono + STEPS * 10 }
    }
}
unsafe fn wait_baton(w: *const AtomicU32) {
    while (*w).swap(0, SeqCst) != 1 {
        fwait(&*w, 0);
    }
}

/// Seam call: run `f` on the simulator with the library window closed.
unsafe fn seam<T>(f: impl FnOnce(&mut Sim) -> T) -> T {
    ACTIVE = false;
    let s = sim();
    let r = f(s);
    // a point of interest: the scheduler likes to switch here
    if s.spec.replay.is_none() && s.spec.mean_gap != 0 && s.stats.switches < s.spec.max_switches && s.sched.below(2) == 0 {
        s.next_preempt = STEPS;
    }
    STEPS += 1;
    if STEPS >= s.next_preempt { s.preempt(); }
    s.arm();
    ACTIVE = true;
    r
}

// ---------------------------------------------------------------- harness side API
pub fn setup(env: &Env, spec: &SchedSpec, faults: &Faults, n_threads: usize, step_limit: u64) {
    unsafe {
        shared();
        STEPS = 0;
        COUNTDOWN = 1;
        ACTIVE = false;
        arena_init(env);
        LO = &raw const __data_start as usize;
        LEN = &raw const _end as usize - LO;
        // a schedule that was written out does not look at rare points, unless a stall is counted in them
        RARE = if (spec.rare > 0 && spec.replay.is_none()) || !faults.rare_stalls.is_empty() { spec.rare_hits } else { 0 };
        if RARE > 0 && spec.focus > 0 {
            for g in 0..MAXG { HOT[g] = (Rng::derive(spec.seed, 0xf0c5, g as u64).below(spec.focus as u64) == 0) as u8; }
        }
        // never grows: waiting threads look at their entries while others run
        let mut th = Vec::with_capacity(n_threads + MAX_LIB_THREADS);
        th.extend((0..n_threads).map(|i| {
            let mut t = Th::new();
            t.stall_at = faults.stalls.iter().filter(|s| s.0 == i).map(|s| s.1).min().unwrap_or(u64::MAX);
            t.stall_rare = faults.rare_stalls.iter().filter(|s| s.0 == i).map(|s| s.1).min().unwrap_or(0);
            t
        }));
        S = Some(Box::new(Sim {
            th, cur: 0, first: 0, sched: Rng::new(spec.seed), env_rng: Rng::new(env.entropy), env: env.clone(), spec: spec.clone(),
            next_preempt: u64::MAX, rare_switches: 0, step_limit, pre_i: 0, forced_i: 0, preempts: vec![], forced: vec![], choice_i: 0, choices: vec![],
            stats: Stats { log_hash: 0xcbf29ce484222325, ..Default::default() }, outcome: Outcome::Finished,
            clock_mono: 1_000_000_000_000 + env.clock_base, clock_skew: 0,
            oom: faults.oom.clone(), oom_rng: Rng::new(env.entropy ^ 0x00a1), oom_seen: 0,
            live: 0, peak: 0, in_flight: 0, callers: n_threads, effects: vec![], exits: vec![u64::MAX; n_threads],
        }));
        sim().draw_gap();
    }
}
/// First call of a simulated caller thread: waits until the scheduler lets it run.
pub fn enter(tid: usize) {
    unsafe {
        TID.with(|t| t.set(tid as i32));
        wait_baton(&sim().th[tid].word);
        sim().arm();
    }
}
/// Starts the simulation (main thread) and waits for its end.
pub fn run() {
    unsafe {
        let s = sim();
        let first = match &s.spec.replay {
            Some(r) => r.first as usize % s.th.len(),
            None => s.sched.below(s.th.len() as u64) as usize,
        };
        s.cur = first;
        s.first = first as u16;
        s.th[first].start = 0;
        s.th[first].word.store(1, SeqCst);
        fwake(&s.th[first].word);
        while DONE.load(SeqCst) == 0 {
            fwait(&DONE, 0);
        }
    }
}
/// Opens the window of an operation: from here on the seams are live.
pub fn enter_window(op: usize, limit: u64, oom: bool) {
    unsafe {
        let s = sim();
        let me = s.cur;
        let own = s.own(me);
        s.th[me].op_limit = own.saturating_add(limit);
        s.th[me].op = op;
        s.th[me].allocs = 0;
        s.th[me].oom_on = oom;
        s.in_flight += 1;
        s.peak = s.live;
        STEPS += 1;
        if STEPS >= s.next_preempt { s.preempt(); }
        s.arm();
        ACTIVE = true;
    }
}
/// What an operation cost, in allocations and bytes. With several callers the bytes are those of all of them.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Memory {
    pub allocs: u64,
    /// allocated at the highest point since the last operation began
    pub peak: i64,
    /// allocated by the library after the answer was dropped
    pub live: i64,
    /// nobody else was inside the library then
    pub quiet: bool,
}
/// The answer of the operation was dropped: what remains?
pub fn remains(m: &mut Memory) {
    let s = sim();
    m.live = s.live;
    m.quiet = s.in_flight == 0;
}
/// Closes the window.
pub fn close_window() -> Memory {
    unsafe {
        ACTIVE = false;
        let s = sim();
        let me = s.cur;
        s.th[me].op_limit = u64::MAX;
        s.th[me].oom_on = false;
        s.in_flight -= 1;
        Memory { allocs: s.th[me].allocs, peak: s.peak, live: s.live, quiet: false }
    }
}
/// Inside an operation's callback: leave the window temporarily to run harness code.
pub fn callback<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let was = ACTIVE;
        ACTIVE = false;
        let r = f();
        if was && TID.with(|t| t.get()) >= 0 {
            sim().stats.callback_yields += 1;
            seam(|_| ());
        }
        r
    }
}
/// Runs harness code inside an operation's callback, without a yield.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let was = ACTIVE;
        ACTIVE = false;
        let r = f();
        ACTIVE = was;
        r
    }
}
/// Like `callback`, but without a yield and for panicking out of the callback.
pub fn leave_for_panic() {
    unsafe { ACTIVE = false }
}
pub fn now_seq() -> u64 {
    unsafe { STEPS }
}
pub fn own_steps() -> u64 {
    let s = sim();
    s.own(s.cur)
}
pub fn note(k: u64, v: u64) {
    sim().note(k, v)
}
/// Steps the destructors of a thread's local data may take.
const EXIT_BUDGET: u64 = 10_000_000;
/// What happens at the end of a thread: the destructors that the library registered run, as part of the simulation.
unsafe fn destructors() {
    let s = sim();
    let me = s.cur;
    s.th[me].op_limit = s.own(me).saturating_add(EXIT_BUDGET);
    s.th[me].oom_on = false;
    s.in_flight += 1;
    for _ in 0..8 {
        while let Some((f, p)) = { sim().th[me].dtors.pop() } {
            sim().stats.thread_local_dtors += 1;
            run_dtor(f, p);
        }
        let keys = std::mem::take(&mut sim().th[me].keys);
        if keys.is_empty() { break; }
        for (k, v) in keys {
            let set: extern "C" fn(libc::pthread_key_t, *const libc::c_void) -> i32 = std::mem::transmute(real(c"pthread_setspecific"));
            set(k, std::ptr::null());
            let f = KEYS.get(k as usize).copied().unwrap_or(0);
            if f != 0 {
                sim().stats.thread_local_dtors += 1;
                run_dtor(std::mem::transmute::<usize, Dtor>(f), v);
            }
        }
    }
    let s = sim();
    s.th[me].op_limit = u64::MAX;
    s.in_flight -= 1;
}
unsafe fn run_dtor(f: Dtor, p: *mut libc::c_void) {
    sim().arm();
    ACTIVE = true;
    f(p);
    ACTIVE = false;
}
/// The current thread is over: who runs next?
unsafe fn depart() -> usize {
    let s = sim();
    let me = s.cur;
    if me < s.callers { s.exits[me] = STEPS; }
    s.th[me].st = St::Done;
    s.th[me].free = s.th[me].detached;
    for t in s.th.iter_mut() {
        if t.st == St::Joining(me) {
            t.st = St::Runnable;
        }
    }
    s.next()
}
/// The current caller is finished.
pub fn leave() -> ! {
    unsafe {
        ACTIVE = false;
        destructors();
        let to = depart();
        sim().hand_over(to);
        park_forever()
    }
}
pub fn exits() -> Vec<u64> {
    sim().exits.clone()
}
pub fn effects() -> Vec<Effect> {
    std::mem::take(&mut sim().effects)
}
pub fn effect(thread: usize, op: usize, what: &str) {
    sim().effects.push(Effect { thread, op, what: what.into() });
}
/// Threads the library started and that have not ended.
pub fn threads_left() -> usize {
    let s = sim();
    s.th[s.callers..].iter().filter(|t| t.st != St::Done).count()
}
pub fn results() -> (Stats, Outcome, Replay) {
    let s = sim();
    s.stats.steps = unsafe { STEPS };
    let n = s.now();
    s.stats.sim_ns = n - (1_000_000_000_000 + s.env.clock_base);
    let r = Replay { first: s.first, preempts: s.preempts.clone(), forced: s.forced.clone(), choices: s.choices.clone() };
    (s.stats.clone(), s.outcome.clone(), r)
}

// ---------------------------------------------------------------- allocator seam
pub struct SimAlloc;
const ARENA: usize = 0x2000_0000_0000;
const ARENA_LEN: usize = 3 << 30;
/// how much memory is handed out before freed memory is reused in worlds that avoid it
const FRESH_LEN: usize = 400 << 20;
static mut A_BASE: usize = 0;
static mut A_END: usize = 0;
static mut A_BUMP: usize = 0;
static mut A_FREE: [(usize, usize); 48] = [(0, 0); 48]; // head, tail per class
static mut A_JUNK: u64 = 0;
static mut A_REUSE: u8 = 0;

unsafe fn arena_init(env: &Env) {
    let base = ARENA + (env.arena_off as usize % 4096) * (16 << 20);
    let p = libc::mmap(base as *mut _, ARENA_LEN, libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
    if p as usize != base {
        eprintln!("arena mmap failed");
        libc::_exit(97);
    }
    A_BASE = base;
    A_END = base + ARENA_LEN;
    A_BUMP = base + 64 + (env.arena_off as usize % 61) * 16;
    A_FREE = [(0, 0); 48];
    A_JUNK = env.junk;
    A_REUSE = env.reuse;
}
#[inline(always)]
fn class_of(n: usize) -> (usize, usize) {
    if n <= 1024 {
        let c = (n + 15) / 16; // 1..=64 -> classes by 16 bytes up to 256, pow2 above
        if c <= 16 { return (c, c * 16); }
    }
    let p = n.next_power_of_two();
    (16 + p.trailing_zeros() as usize - 8, p)
}
/// What a caller finds in memory it has not written yet. World 0: whatever the last owner left, zero if there was none.
#[inline(always)]
unsafe fn junk(q: usize, size: usize) {
    if A_JUNK == 0 { return; }
    let mut j = A_JUNK ^ (q as u64).wrapping_mul(0x9E3779B97F4A7C15);
    for i in 0..size.min(1 << 18) / 8 {
        *(q as *mut u64).add(i) = match A_JUNK % 5 {
            0 | 1 => j,
            2 => j >> 58,                      // a small number
            3 => j & 0x0101_0101_0101_0101,    // flags
            _ => !0,
        };
        j = j.rotate_left(7).wrapping_mul(0x2545F4914F6CDD1D);
    }
}
unsafe fn arena_get(l: Layout) -> *mut u8 {
    let n = if l.align() > 16 { l.size() + l.align() } else { l.size().max(16) };
    let (c, sz) = class_of(n);
    if c >= 48 { return std::ptr::null_mut(); }
    let (h, t) = A_FREE[c];
    let p = if h != 0 && (A_REUSE != 2 || A_BUMP > A_BASE + FRESH_LEN) {
        let next = *(h as *const usize);
        A_FREE[c] = (next, if next == 0 { 0 } else { t });
        h
    } else {
        let al = if sz >= 4096 { 4096 } else { 16 };
        let p = (A_BUMP + al - 1) & !(al - 1);
        if p + sz > A_END { return std::ptr::null_mut(); }
        A_BUMP = p + sz;
        p
    };
    // over-aligned requests carry slack for aligning up and are never reused
    let q = (p + l.align() - 1) & !(l.align() - 1);
    junk(q, l.size());
    q as *mut u8
}
unsafe fn arena_put(p: *mut u8, l: Layout) {
    if l.align() > 16 { return; }
    let (c, sz) = class_of(l.size().max(16));
    let fill = if A_JUNK == 0 { 0 } else { sz.min(64) / 8 };
    for i in 0..fill {
        *(p as *mut u64).add(i) = 0xDDDD_DDDD_DDDD_DDDD;
    }
    let (h, t) = A_FREE[c];
    let p = p as usize;
    if A_REUSE == 0 || h == 0 {
        *(p as *mut usize) = h;
        A_FREE[c] = (p, if h == 0 { p } else { t });
    } else {
        *(p as *mut usize) = 0;
        *(t as *mut usize) = p;
        A_FREE[c] = (h, p);
    }
}
/// A buffer at a deterministic address (image buffers; address reuse is part of the scenario).
pub fn arena_buf(n: usize) -> &'static mut [u8] {
    unsafe {
        let p = arena_get(Layout::from_size_align_unchecked(n.max(1), 1));
        assert!(!p.is_null());
        std::slice::from_raw_parts_mut(p, n)
    }
}
unsafe fn sim_alloc(l: Layout, growth: bool) -> *mut u8 {
    point(1);
    ACTIVE = false;
    let s = sim();
    s.stats.allocs += 1;
    let me = s.cur;
    s.th[me].allocs += 1;
    let mut fail = false;
    if s.th[me].oom_on {
        if let Some(o) = &s.oom {
            let size = l.size() as u64;
            if size >= o.lo && (o.hi == 0 || size < o.hi) && (growth || !o.growth) {
                s.oom_seen += 1;
                let n = s.oom_seen;
                fail = match o.mode {
                    0 => n == o.at,
                    1 => n >= o.at,
                    2 => size >= o.at,
                    4 => n >= o.at && n < o.at + 8,
                    _ => s.oom_rng.below(o.at.max(1)) == 0,
                };
            }
            if fail {
                s.stats.oom_fired += 1;
                (*SH).oom_fired += 1;
            }
        }
    }
    let p = if fail { std::ptr::null_mut() } else { arena_get(l) };
    if !p.is_null() {
        s.live += l.size() as i64;
        s.peak = s.peak.max(s.live);
    }
    ACTIVE = true;
    p
}
#[inline(always)]
fn in_arena(p: *mut u8) -> bool {
    unsafe { (p as usize) >= A_BASE && (p as usize) < A_END }
}
unsafe impl GlobalAlloc for SimAlloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if in_sim() { sim_alloc(l, false) } else { System.alloc(l) }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if in_sim() {
            let p = sim_alloc(l, false);
            if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            sim().live -= l.size() as i64;
            arena_put(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_arena(p) || in_sim() {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = if in_sim() { sim_alloc(nl, true) } else { System.alloc(nl) };
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}

// ---------------------------------------------------------------- libc seams
unsafe fn entropy(buf: *mut u8, len: usize, flags: u32) -> i64 {
    if !in_sim() {
        return cvt(raw6(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0));
    }
    seam(|s| {
        s.stats.getrandom_calls += 1;
        s.note(20, len as u64);
        if s.env.entropy_faults > 0 && len > 0 {
            match s.env_rng.below(s.env.entropy_faults as u64 * 2) {
                0 => { s.stats.eintr_fired += 1; return err(libc::EINTR); }
                1 if len > 1 => {
                    s.stats.short_fired += 1;
                    let n = 1 + s.env_rng.below(len as u64 - 1) as usize;
                    fill(s, buf, n);
                    return n as i64;
                }
                _ => {}
            }
        }
        fill(s, buf, len);
        len as i64
    })
}
unsafe fn fill(s: &mut Sim, buf: *mut u8, n: usize) {
    for i in 0..n {
        *buf.add(i) = match s.env.key_mode {
            1 => 0,
            2 => 0xFF,
            3 => (i as u8).wrapping_mul(37) ^ (s.env.entropy as u8),
            _ => s.env_rng.next() as u8,
        };
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    entropy(buf, len, flags) as isize
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if in_sim() {
        if n == libc::SYS_futex {
            return sim_futex(a, b as i32, c as u32, d, e, f as u32);
        }
        if n == libc::SYS_getrandom {
            return entropy(a as *mut u8, b, c as u32);
        }
    }
    cvt(raw6(n, a, b, c, d, e, f))
}
unsafe fn sim_futex(addr: usize, op: i32, val: u32, ts: usize, _e: usize, _bits: u32) -> i64 {
    match op & 127 {
        0 | 9 => {
            ACTIVE = false;
            let s = sim();
            s.stats.futex_waits += 1;
            s.note(21, val as u64);
            STEPS += 1;
            if (*(addr as *const AtomicU32)).load(SeqCst) != val {
                s.arm();
                ACTIVE = true;
                return err(libc::EAGAIN);
            }
            if s.spec.spurious > 0 && s.choose(s.spec.spurious as u64) == 0 {
                s.stats.spurious_fired += 1;
                if STEPS >= s.next_preempt { s.preempt(); }
                s.arm();
                ACTIVE = true;
                return 0;
            }
            let me = s.cur;
            let deadline = if ts == 0 { u64::MAX } else {
                let t = &*(ts as *const libc::timespec);
                let d = t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64;
                if op & 127 == 0 { s.now() + d } else { d }
            };
            s.th[me].timed_out = false;
            s.th[me].st = St::Blocked { addr, deadline };
            s.block();
            s.th[me].st = St::Runnable;
            let to = s.th[me].timed_out;
            s.arm();
            ACTIVE = true;
            if to { err(libc::ETIMEDOUT) } else { 0 }
        }
        1 | 10 => seam(|s| {
            s.stats.futex_wakes += 1;
            s.note(22, val as u64);
            let mut n = 0i64;
            while (n as u32) < val {
                let w: Vec<usize> = (0..s.th.len()).filter(|&i| matches!(s.th[i].st, St::Blocked { addr: a, .. } if a == addr)).collect();
                if w.is_empty() { break; }
                let pick = w[s.choose(w.len() as u64) as usize];
                s.th[pick].st = St::Runnable;
                n += 1;
            }
            n
        }),
        _ => cvt(raw6(libc::SYS_futex, addr, op as usize, val as usize, ts, _e, _bits as usize)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if !in_sim() {
        return cvt(raw6(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as i32;
    }
    seam(|s| {
        s.stats.clock_reads += 1;
        if s.env.clock_jumps > 0 && s.env_rng.below(s.env.clock_jumps as u64) == 0 {
            s.stats.clock_jumps += 1;
            s.clock_mono += s.env_rng.below(7_200_000_000_000);
            s.clock_skew = s.env_rng.below(40_000_000_000_000) as i64 - 20_000_000_000_000;
        }
        let mut t = s.now() as i64;
        if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE { t += 1_700_000_000_000_000_000 + s.clock_skew; }
        (*ts).tv_sec = t / 1_000_000_000;
        (*ts).tv_nsec = t % 1_000_000_000;
        0
    })
}
unsafe fn sim_sleep(d: u64, abs: bool) {
    ACTIVE = false;
    let s = sim();
    s.stats.sleeps += 1;
    STEPS += 1;
    let deadline = if abs { d } else { s.now() + d };
    let me = s.cur;
    s.th[me].st = St::Sleeping { deadline };
    s.block();
    s.th[me].st = St::Runnable;
    s.arm();
    ACTIVE = true;
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const libc::timespec, m: *mut libc::timespec) -> i32 {
    if in_sim() {
        sim_sleep((*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64, false);
        return 0;
    }
    cvt(raw6(libc::SYS_nanosleep, r as usize, m as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, r: *const libc::timespec, m: *mut libc::timespec) -> i32 {
    if in_sim() {
        sim_sleep((*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64, fl & 1 != 0);
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep, c as usize, fl as usize, r as usize, m as usize, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_sim() {
        seam(|_| ());
        return 0;
    }
    raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    if in_sim() {
        return seam(|s| {
            s.stats.affinity_reads += 1;
            std::ptr::write_bytes(set, 0, n);
            for i in 0..(s.env.cpus as usize).clamp(1, n * 8) {
                *set.add(i / 8) |= 1 << (i % 8);
            }
            0
        });
    }
    let r = cvt(raw6(libc::SYS_sched_getaffinity, pid as usize, n, set as usize, 0, 0, 0));
    if r > 0 { std::ptr::write_bytes(set.add(r as usize), 0, n - r as usize); 0 } else { r as i32 }
}

// ---------------------------------------------------------------- the world outside
/// A call that changes the world outside: noted down, never performed.
/// The note is written outside the simulated world: its memory is not the library's.
unsafe fn outside_call(what: impl FnOnce() -> String) {
    ACTIVE = false;
    let what = what();
    let s = sim();
    let me = s.cur;
    s.stats.outside_calls += 1;
    if s.effects.len() < 50 {
        let op = s.th[me].op;
        s.effects.push(Effect { thread: me, op, what });
    }
    ACTIVE = true;
}
unsafe fn path(p: *const libc::c_char) -> String {
    if p.is_null() { return "?".into(); }
    std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned()
}
/// What the simulated device answers to a write of n bytes.
unsafe fn device(n: usize) -> isize {
    let s = sim();
    match s.env.device {
        1 => err(libc::EPIPE) as isize,
        2 => err(libc::EIO) as isize,
        3 => err(libc::ENOSPC) as isize,
        4 if n > 1 => (n / 2) as isize,
        _ => n as isize,
    }
}
static mut PROBING: bool = false;
/// Is there something left in the buffer of the standard output that the library put there?
pub fn buffered_output() {
    unsafe {
        PROBING = true;
        let _ = std::io::Write::flush(&mut std::io::stdout());
        PROBING = false;
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if in_sim() && fd <= 2 {
        outside_call(|| format!("close of descriptor {fd}"));
        return 0;
    }
    cvt(raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut libc::c_void, n: usize) -> isize {
    if in_sim() {
        if fd == 0 { outside_call(|| "read of the standard input".into()); }
        return 0;
    }
    cvt(raw6(libc::SYS_read, fd as usize, p as usize, n, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const libc::c_void, n: usize) -> isize {
    if PROBING {
        effect(0, 0, &format!("{n} bytes are left in the buffer of the standard output"));
        return n as isize;
    }
    if in_sim() {
        // the line of a panicking standard library is not cut
        outside_call(|| format!("write of {n} bytes to descriptor {fd}"));
        return device(n);
    }
    cvt(raw6(libc::SYS_write, fd as usize, p as usize, n, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if in_sim() {
        let len = (0..n as usize).map(|i| (*v.add(i)).iov_len).sum();
        outside_call(|| format!("write of {len} bytes to descriptor {fd}"));
        return device(len);
    }
    cvt(raw6(libc::SYS_writev, fd as usize, v as usize, n as usize, 0, 0, 0)) as isize
}
unsafe fn sim_open(p: *const libc::c_char, flags: i32) -> i32 {
    // the simulated world has no files
    if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0 {
        outside_call(|| format!("open of {} for writing", path(p)));
    } else {
        sim().stats.files_looked_for += 1;
    }
    err(libc::ENOENT) as i32
}
macro_rules! open {
    ($($name:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
            if in_sim() { return sim_open(p, flags); }
            cvt(raw6(libc::SYS_openat, libc::AT_FDCWD as usize, p as usize, flags as usize, mode as usize, 0, 0)) as i32
        }
    )* };
}
open!(open open64);
macro_rules! openat {
    ($($name:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(d: i32, p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
            if in_sim() { return sim_open(p, flags); }
            cvt(raw6(libc::SYS_openat, d as usize, p as usize, flags as usize, mode as usize, 0, 0)) as i32
        }
    )* };
}
openat!(openat openat64);
/// Calls that a palette extraction has no business making.
macro_rules! forbidden {
    ($($name:ident($($a:ident),*) = $fail:expr;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: usize),*) -> isize {
            if in_sim() {
                outside_call(|| stringify!($name).into());
                $( let _ = $a; )*
                return $fail;
            }
            let f: extern "C" fn($($a: usize),*) -> isize = std::mem::transmute(real(std::ffi::CStr::from_bytes_with_nul_unchecked(concat!(stringify!($name), "\0").as_bytes())));
            f($($a),*)
        }
    )* };
}
forbidden! {
    socket(a, b, c) = err(libc::EPERM) as isize;
    sendto(a, b, c, d, e, f) = err(libc::EPERM) as isize;
    pwrite64(a, b, c, d) = err(libc::EBADF) as isize;
    fork() = err(libc::EAGAIN) as isize;
    posix_spawn(a, b, c, d, e, f) = libc::EAGAIN as isize;
    posix_spawnp(a, b, c, d, e, f) = libc::EAGAIN as isize;
    execve(a, b, c) = err(libc::EACCES) as isize;
    execvp(a, b) = err(libc::EACCES) as isize;
    unlink(a) = err(libc::ENOENT) as isize;
    unlinkat(a, b, c) = err(libc::ENOENT) as isize;
    rename(a, b) = err(libc::ENOENT) as isize;
    mkdir(a, b) = err(libc::ENOENT) as isize;
    rmdir(a) = err(libc::ENOENT) as isize;
    chdir(a) = err(libc::ENOENT) as isize;
    setenv(a, b, c) = 0;
    unsetenv(a) = 0;
    sigaction(a, b, c) = 0;
    signal(a, b) = 0;
    kill(a, b) = err(libc::EPERM) as isize;
    setpriority(a, b, c) = 0;
    umask(a) = 0o22;
    setlocale(a, b) = 0;
    truncate(a, b) = err(libc::ENOENT) as isize;
    ftruncate(a, b) = err(libc::EBADF) as isize;
    ftruncate64(a, b) = err(libc::EBADF) as isize;
    link(a, b) = err(libc::ENOENT) as isize;
    symlink(a, b) = err(libc::ENOENT) as isize;
    chmod(a, b) = err(libc::ENOENT) as isize;
    pthread_sigmask(a, b, c) = 0;
    sigprocmask(a, b, c) = 0;
    sched_setaffinity(a, b, c) = 0;
    setrlimit(a, b) = 0;
    setrlimit64(a, b) = 0;
    alarm(a) = 0;
    setitimer(a, b, c) = 0;
    nice(a) = 0;
    raise(a) = 0;
    dup2(a, b) = err(libc::EBADF) as isize;
    memfd_create(a, b) = err(libc::EMFILE) as isize;
}
extern "C" {
    static environ: *const *const libc::c_char;
}
/// Environment variables: in some worlds every variable is set.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *const libc::c_char {
    let n = libc::strlen(name);
    if in_sim() {
        let s = sim();
        s.stats.env_reads += 1;
        // the standard library reads its own settings
        if libc::strncmp(name, c"RUST_".as_ptr(), 5) == 0 { return std::ptr::null(); }
        return match s.env.vars {
            1 => c"1".as_ptr(),
            2 => c"0".as_ptr(),
            3 => c"".as_ptr(),
            4 => c"true".as_ptr(),
            5 => c"64".as_ptr(),
            _ => std::ptr::null(),
        };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        if libc::strncmp(*e, name, n) == 0 && *(*e).add(n) == b'=' as libc::c_char { return (*e).add(n + 1); }
        e = e.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if in_sim() { return 2 + sim().env.arena_off as i32 * 7; }
    raw6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as i32
}

// threads created by the library itself become simulated threads
type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
struct Boot {
    tid: usize,
    word: *const AtomicU32,
    f: Start,
    arg: *mut libc::c_void,
}
extern "C" fn boot(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let b = Box::from_raw(p as *mut Boot);
        TID.with(|t| t.set(b.tid as i32));
        wait_baton(b.word);
        let (f, arg) = (b.f, b.arg);
        drop(b);
        sim().arm();
        ACTIVE = true;
        let r = f(arg);
        ACTIVE = false;
        destructors();
        TID.with(|t| t.set(-1));
        let to = depart();
        sim().hand_over(to);
        // the thread really ends; nothing that it does from here on is seen by the others
        r
    }
}
static mut KEYS: [usize; 1024] = [0; 1024];
/// Destructors of thread-local data that a simulated thread registers are run by the simulation.
#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(f: Dtor, p: *mut libc::c_void, dso: *mut libc::c_void) -> i32 {
    if in_sim() {
        ACTIVE = false;
        let s = sim();
        let me = s.cur;
        s.th[me].dtors.push((f, p));
        ACTIVE = true;
        return 0;
    }
    let rf: extern "C" fn(Dtor, *mut libc::c_void, *mut libc::c_void) -> i32 = std::mem::transmute(real(c"__cxa_thread_atexit_impl"));
    rf(f, p, dso)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_key_create(k: *mut libc::pthread_key_t, f: usize) -> i32 {
    let rf: extern "C" fn(*mut libc::pthread_key_t, usize) -> i32 = std::mem::transmute(real(c"pthread_key_create"));
    let r = rf(k, f);
    if r == 0 && (*k as usize) < 1024 { KEYS[*k as usize] = f; }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_setspecific(k: libc::pthread_key_t, v: *const libc::c_void) -> i32 {
    let rf: extern "C" fn(libc::pthread_key_t, *const libc::c_void) -> i32 = std::mem::transmute(real(c"pthread_setspecific"));
    if in_sim() {
        ACTIVE = false;
        let s = sim();
        let me = s.cur;
        s.th[me].keys.retain(|x| x.0 != k);
        if !v.is_null() { s.th[me].keys.push((k, v as *mut _)); }
        ACTIVE = true;
    }
    rf(k, v)
}
unsafe fn real(name: &std::ffi::CStr) -> usize {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: Start, arg: *mut libc::c_void) -> i32 {
    let rf: extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32 =
        std::mem::transmute(real(c"pthread_create"));
    if in_sim() {
        return seam(|s| {
            // entries of threads that are over and that nobody can name are used again
            let free = (s.callers..s.th.len()).find(|&i| s.th[i].st == St::Done && s.th[i].free);
            if free.is_none() && s.th.len() >= s.callers + MAX_LIB_THREADS { return libc::EAGAIN; }
            let tid = free.unwrap_or(s.th.len());
            if free.is_some() { *s.th[tid] = *Th::new(); } else { s.th.push(Th::new()); }
            // not before it exists
            s.th[tid].st = St::Done;
            let b = Box::into_raw(Box::new(Boot { tid, word: &s.th[tid].word, f, arg }));
            let r = rf(t, attr, boot, b as *mut _);
            if r != 0 {
                s.th[tid].free = true;
                drop(Box::from_raw(b));
            } else {
                s.th[tid].st = St::Runnable;
                s.th[tid].pthread = *t as usize;
                s.stats.lib_threads += 1;
            }
            r
        });
    }
    rf(t, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    let rf: extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32 = std::mem::transmute(real(c"pthread_join"));
    if in_sim() {
        ACTIVE = false;
        let s = sim();
        let mut r = libc::ESRCH;
        if let Some(i) = s.named(t) {
            let me = s.cur;
            if s.th[i].st != St::Done {
                s.th[me].st = St::Joining(i);
                s.block();
                s.th[me].st = St::Runnable;
            }
            // it has nothing left to do but to end
            r = rf(t, ret);
            s.th[i].free = true;
        }
        s.arm();
        ACTIVE = true;
        return r;
    }
    rf(t, ret)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: libc::pthread_t) -> i32 {
    let rf: extern "C" fn(libc::pthread_t) -> i32 = std::mem::transmute(real(c"pthread_detach"));
    if in_sim() {
        ACTIVE = false;
        let s = sim();
        let mut r = libc::ESRCH;
        if let Some(i) = s.named(t) {
            s.th[i].detached = true;
            s.th[i].free = s.th[i].st == St::Done;
            r = rf(t);
        }
        ACTIVE = true;
        return r;
    }
    rf(t)
}
impl Sim {
    /// The library's thread with this name.
    fn named(&self, t: libc::pthread_t) -> Option<usize> {
        (self.callers..self.th.len()).find(|&i| self.th[i].pthread == t as usize && !self.th[i].free && !self.th[i].detached)
    }
}
