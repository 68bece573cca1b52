//! Executes one universe in a forked child and returns its history.
use crate::rt::{self, Outcome, Stats};
use crate::spec::{Op, Replay, Spec, Universe};
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

/// Bits of an f64 (f32 values are widened, which is exact).
pub type Bits = u64;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sw {
    pub rgb: (u8, u8, u8),
    pub pos: (u32, u32),
    pub share: Bits,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Out {
    Palette(Vec<Sw>),
    Seeds(Vec<Vec<Vec<Bits>>>),
    Clusters(Vec<Vec<(Vec<Bits>, usize)>>),
    Density { clusters: Vec<(Vec<Bits>, usize)>, outliers: Vec<usize> },
    Tree { weight: Bits, edges: Vec<(usize, usize, Bits)>, bad_calls: u64 },
    Parts { labels: Vec<Vec<usize>>, bad_calls: u64 },
    Panic(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct OpRec {
    pub thread: usize,
    pub op: usize,
    pub inv: u64,
    pub ret: u64,
    pub steps: u64,
    pub mem: rt::Memory,
    pub out: Out,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    Done(Outcome),
    /// the process died: signal name
    Killed(String),
    /// no answer within the wall clock limit
    Hung,
    /// not the code under test: the harness itself failed
    Harness(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Res {
    pub end: End,
    pub ops: Vec<OpRec>,
    pub stats: Stats,
    pub trace: Replay,
    pub oom_fired: u64,
    pub effects: Vec<rt::Effect>,
    /// threads the library left running
    pub threads_left: usize,
    /// when each caller ended
    pub exits: Vec<u64>,
}

#[derive(Serialize, Deserialize)]
struct Wire {
    ops: Vec<OpRec>,
    stats: Stats,
    outcome: Outcome,
    trace: Replay,
    effects: Vec<rt::Effect>,
    threads_left: usize,
    exits: Vec<u64>,
}

const WALL: Duration = Duration::from_secs(150);

pub fn run(spec: &Spec, u: &Universe) -> Res {
    unsafe {
        let sh = rt::shared();
        sh.oom_fired = 0;
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            child(spec, u, fds[1]);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = vec![];
        let start = Instant::now();
        let mut hung = false;
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let left = WALL.saturating_sub(start.elapsed()).as_millis() as i32;
            let r = libc::poll(&mut p, 1, left.max(1));
            if r == 0 && start.elapsed() >= WALL {
                hung = true;
                break;
            }
            if r <= 0 { continue; }
            let mut chunk = [0u8; 65536];
            match f.read(&mut chunk) {
                Ok(0) => break,
                Ok(n) => buf.extend_from_slice(&chunk[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => panic!("pipe: {e}"),
            }
        }
        if hung { libc::kill(pid, libc::SIGKILL); }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let oom_fired = sh.oom_fired;
        let fail = |end| Res { end, ops: vec![], stats: Stats::default(), trace: Replay::default(), oom_fired, effects: vec![], threads_left: 0, exits: vec![] };
        if hung {
            return fail(End::Hung);
        }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            let name = match s {
                libc::SIGABRT => "SIGABRT".to_string(),
                libc::SIGSEGV => "SIGSEGV".to_string(),
                libc::SIGBUS => "SIGBUS".to_string(),
                libc::SIGILL => "SIGILL".to_string(),
                libc::SIGFPE => "SIGFPE".to_string(),
                // somebody else ended it (memory pressure on this machine): says nothing about the code
                libc::SIGKILL | libc::SIGTERM => return fail(End::Harness(format!("universe ended by signal {s}"))),
                n => format!("signal {n}"),
            };
            return fail(End::Killed(name));
        }
        if libc::WEXITSTATUS(st) != 0 {
            return match libc::WEXITSTATUS(st) {
                97 | 98 => fail(End::Harness(format!("universe exited with {}", libc::WEXITSTATUS(st)))),
                n => fail(End::Killed(format!("exit {n}"))),
            };
        }
        match serde_json::from_slice::<Wire>(&buf) {
            Ok(w) => Res { end: End::Done(w.outcome), ops: w.ops, stats: w.stats, trace: w.trace, oom_fired, effects: w.effects, threads_left: w.threads_left, exits: w.exits },
            Err(e) => fail(End::Harness(format!("bad result: {e}"))),
        }
    }
}

// ------------------------------------------------------------------------------------------ in the child
struct Ctx {
    spec: *const Spec,
    u: *const Universe,
    bufs: Vec<&'static [u8]>,
    imgs: Vec<usize>, // *const subject::Img<'static>
    private: Vec<usize>,
    private_len: usize,
    ops: Vec<OpRec>,
}
static mut CTX: *mut Ctx = std::ptr::null_mut();

unsafe fn child(spec: &Spec, u: &Universe, fd: i32) -> ! {
    let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
    if null >= 0 && std::env::var_os("APSIM_STDERR").is_none() { libc::dup2(null, 2); }
    static PANICS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    std::panic::set_hook(Box::new(|_| { PANICS.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }));
    let n = u.threads.len();
    let limit = u64::MAX / 4;
    rt::setup(&u.env, &u.sched, &u.faults, n, limit);
    let mut bufs: Vec<&'static [u8]> = vec![];
    let mut imgs = vec![];
    let mut longest = 0;
    // pixels may begin at any address
    let shift = |i: usize| ((u.env.arena_off >> 4) as usize + i * 3) % 4 * (u.env.arena_off % 2) as usize;
    for (i, im) in spec.images.iter().enumerate() {
        let b = &mut rt::arena_buf(im.px.len() * 4 + 3)[shift(i)..][..im.px.len() * 4];
        b.copy_from_slice(&im.bytes());
        let b: &'static [u8] = b;
        longest = longest.max(b.len());
        imgs.push(Box::leak(Box::new(subject::image(b, im.w, im.h))) as *const subject::Img<'static> as usize);
        bufs.push(b);
    }
    let private = (0..n).map(|i| rt::arena_buf(longest + 3)[shift(i + 1)..].as_mut_ptr() as usize).collect();
    CTX = Box::leak(Box::new(Ctx { spec, u, bufs, imgs, private, private_len: longest, ops: vec![] }));
    let stack = if u.stack == 0 { 2048 } else { u.stack } * 1024 + (u.env.arena_off as usize % 16) * 4096;
    for t in 0..n {
        let mut b = std::thread::Builder::new().stack_size(stack);
        match (u.env.arena_off >> 8) % 3 {
            0 => {}
            1 => b = b.name("worker".into()),
            _ => b = b.name(format!("caller-{t}")),
        }
        let r = b.spawn(move || caller(t));
        if r.is_err() { libc::_exit(98); }
    }
    rt::run();
    let (stats, outcome, trace) = rt::results();
    let threads_left = rt::threads_left();
    if outcome == Outcome::Finished {
        // is the program as it was before?
        let c = &*CTX;
        for (i, im) in spec.images.iter().enumerate() {
            if c.bufs[i] != &im.bytes()[..] { rt::effect(0, 0, &format!("the pixels of image {i} were modified")); }
        }
        rt::buffered_output();
        let n = PANICS.load(std::sync::atomic::Ordering::SeqCst);
        let _ = std::panic::catch_unwind(|| panic!("probe"));
        if PANICS.load(std::sync::atomic::Ordering::SeqCst) != n + 1 { rt::effect(0, 0, "the panic hook was replaced"); }
    }
    let w = Wire { ops: std::mem::take(&mut (*CTX).ops), stats, outcome, trace, effects: rt::effects(), threads_left, exits: rt::exits() };
    let bytes = serde_json::to_vec(&w).unwrap();
    let mut i = 0;
    while i < bytes.len() {
        let r = libc::write(fd, bytes[i..].as_ptr() as *const _, bytes.len() - i);
        if r <= 0 { libc::_exit(98); }
        i += r as usize;
    }
    libc::_exit(0)
}

unsafe fn ctx() -> &'static mut Ctx {
    &mut *CTX
}

/// A simulated caller: runs its operations one after the other, like a thread of the user's program.
fn caller(t: usize) {
    unsafe {
        rt::enter(t);
        let u: &Universe = &*ctx().u;
        let ops = &u.threads[t];
        for i in 0..ops.len() {
            one(t, i, &ops[i]);
        }
        rt::leave()
    }
}

fn text(e: Box<dyn std::any::Any + Send>) -> String {
    let s = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    };
    drop(e);
    s
}
fn fp_mode() -> u32 {
    let mut m = 0u32;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut m) };
    m & 0xFFC0
}

pub fn default_budget(op: &Op, spec: &Spec) -> u64 {
    let sq = |n: u64, c: u64| c * n * n + 10_000_000;
    match op {
        Op::Extract { img, .. } => sq(spec.images[*img].px.len() as u64, STEPS_PER_PAIR),
        Op::Seeds { data, k, rng, pp, times, .. } => {
            let n = spec.data[*data].pts.len() as u64;
            seeding(n, *k as u64, *pp) * *times as u64 + 1000 * (rng.stuck + rng.poor) as u64
        }
        Op::Kmeans { data, k, rng, pp, iters, times, .. } => {
            let n = spec.data[*data].pts.len() as u64;
            (seeding(n, *k as u64, *pp) + *iters as u64 * n * (*k as u64).min(n) * 1000) * *times as u64 + 1000 * (rng.stuck + rng.poor) as u64
        }
        Op::Tree { w, .. } => sq(w.n as u64, 1000),
        Op::Hier { w, ks, .. } => sq(w.n as u64, 1000 + 20 * ks.len() as u64),
        Op::Density { data, .. } => sq(spec.data[*data].pts.len() as u64, 600),
    }
}
/// Uniform draws find n distinct samples within n (ln n + 40) draws (but for a chance of e^-40).
fn seeding(n: u64, k: u64, pp: bool) -> u64 {
    let k = k.min(n);
    10_000_000 + if pp { 100 * n * k * k } else { 5000 * n }
}
/// An extraction of n pixels may take this many basic blocks and allocations per n*n, plus ten million.
pub const STEPS_PER_PAIR: u64 = 600;

unsafe fn one(t: usize, i: usize, op: &Op) {
    let c = ctx();
    let spec = &*c.spec;
    let u = &*c.u;
    let oom = u.faults.oom.as_ref().is_some_and(|o| o.thread == t && o.op == i);
    let budget = if u.budget > 0 { u.budget } else { default_budget(op, spec) };
    let inv = rt::now_seq();
    let own0 = rt::own_steps();
    rt::note(1, (t as u64) << 32 | i as u64);
    let mode = fp_mode();
    let (out, mut mem) = perform(c, spec, t, i, op, budget, oom);
    rt::remains(&mut mem);
    if fp_mode() != mode { rt::effect(t, i, "the floating-point mode was changed"); }
    rt::note(2, (t as u64) << 32 | i as u64);
    ctx().ops.push(OpRec { thread: t, op: i, inv, ret: rt::now_seq(), steps: rt::own_steps() - own0, mem, out });
}

/// Runs `f` inside the library window.
unsafe fn window<T>(i: usize, budget: u64, oom: bool, f: impl FnOnce() -> T) -> (Result<T, String>, rt::Memory) {
    rt::enter_window(i, budget, oom);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let mem = rt::close_window();
    (r.map_err(text), mem)
}

macro_rules! palette {
    ($v:expr) => {
        $v.iter().map(|s| Sw { rgb: s.color, pos: s.position, share: (s.percentage as f64).to_bits() }).collect()
    };
}

unsafe fn perform(c: &mut Ctx, spec: &Spec, t: usize, i: usize, op: &Op, budget: u64, oom: bool) -> (Out, rt::Memory) {
    match op {
        Op::Extract { img, f32, via, bad, cut } => {
            let im = &spec.images[*img];
            let mut buf: &'static [u8] = c.bufs[*img];
            if *via == 2 {
                let p = std::slice::from_raw_parts_mut(c.private[t] as *mut u8, c.private_len);
                p[..buf.len()].copy_from_slice(buf);
                if *bad == 0 && *cut > 0 {
                    // another image: one pixel, a few pixels or all of them have other colours
                    let (c, many) = (cut.to_le_bytes(), cut >> 24);
                    let n = match many { 0 => 4, 1 => buf.len(), m => m as usize * 4 }.min(buf.len());
                    for (i, b) in p[..n].iter_mut().enumerate() { if i % 4 < 3 { *b ^= c[i % 4]; } }
                }
                buf = std::slice::from_raw_parts(c.private[t] as *const u8, buf.len());
            }
            let mut w = im.w;
            match bad {
                1 => buf = &buf[..buf.len().saturating_sub(*cut as usize)],
                2 => w = 0,
                _ => {}
            }
            let shared = if *via == 1 && *bad == 0 { Some(&*(c.imgs[*img] as *const subject::Img<'static>)) } else { None };
            if *f32 {
                let (r, a) = window(i, budget, oom, || match shared {
                    Some(s) => subject::extract32(s),
                    None => subject::extract32(&subject::image(buf, w, im.h)),
                });
                (r.map_or_else(Out::Panic, |v| Out::Palette(palette!(v))), a)
            } else {
                let (r, a) = window(i, budget, oom, || match shared {
                    Some(s) => subject::extract64(s),
                    None => subject::extract64(&subject::image(buf, w, im.h)),
                });
                (r.map_or_else(Out::Panic, |v| Out::Palette(palette!(v))), a)
            }
        }
        #[cfg(feature = "internals")]
        _ => internals::perform(spec, i, op, budget, oom),
        #[cfg(not(feature = "internals"))]
        _ => panic!("built without internals"),
    }
}

#[cfg(feature = "internals")]
mod internals {
    use super::*;
    use crate::prng::Rng;
    use crate::spec::Stream;
    use subject::internals as s;

    struct St {
        spec: Stream,
        rng: Rng,
        draws: u32,
    }
    fn next(p: *mut ()) -> u64 {
        let st = unsafe { &mut *(p as *mut St) };
        rt::callback(|| ());
        st.draws += 1;
        let d = st.draws;
        let x = st.rng.next();
        if st.spec.fail_at > 0 && d == st.spec.fail_at {
            rt::leave_for_panic();
            panic!("random source failed");
        }
        if d <= st.spec.stuck {
            st.spec.stuck_value
        } else if d <= st.spec.stuck + st.spec.poor {
            if x & 1 == 0 { st.spec.stuck_value } else { !st.spec.stuck_value }
        } else {
            x
        }
    }
    fn fork(p: *mut ()) -> *mut () {
        let st = unsafe { &*(p as *mut St) };
        if st.spec.shared {
            return p;
        }
        rt::outside(|| Box::into_raw(Box::new(St { spec: st.spec.clone(), rng: st.rng.clone(), draws: st.draws })) as *mut ())
    }
    fn source(sp: &Stream) -> s::SimRng {
        let st = Box::into_raw(Box::new(St { spec: sp.clone(), rng: Rng::new(sp.seed), draws: 0 }));
        s::SimRng { state: st as *mut (), next, fork }
    }
    fn bits(v: &[f64]) -> Vec<Bits> {
        v.iter().map(|x| x.to_bits()).collect()
    }
    fn bits32(v: &[f32]) -> Vec<Bits> {
        v.iter().map(|x| (*x as f64).to_bits()).collect()
    }
    fn p32(v: &[Vec<f64>]) -> Vec<Vec<f32>> {
        v.iter().map(|p| p.iter().map(|x| *x as f32).collect()).collect()
    }
    macro_rules! clusters {
        ($r:expr, $b:ident) => {
            $r.iter().map(|f| f.iter().map(|(c, n)| ($b(c), *n)).collect()).collect()
        };
    }

    pub unsafe fn perform(spec: &Spec, i: usize, op: &Op, budget: u64, oom: bool) -> (Out, rt::Memory) {
        match op {
            Op::Seeds { data, pp, k, sq, f32, times, rng } => {
                let d = &spec.data[*data];
                let cfg = s::KmeansConfig { k: *k, plus_plus: *pp, squared: *sq, max_iterations: 0, tolerance: 0.0 };
                let src = source(rng);
                if *f32 {
                    let p = p32(&d.pts);
                    let (r, a) = window(i, budget, oom, || s::seeds32(d.dim, &p, &cfg, src, *times));
                    (r.map_or_else(Out::Panic, |v| Out::Seeds(v.iter().map(|x| x.iter().map(|y| bits32(y)).collect()).collect())), a)
                } else {
                    let (r, a) = window(i, budget, oom, || s::seeds64(d.dim, &d.pts, &cfg, src, *times));
                    (r.map_or_else(Out::Panic, |v| Out::Seeds(v.iter().map(|x| x.iter().map(|y| bits(y)).collect()).collect())), a)
                }
            }
            Op::Kmeans { data, pp, k, sq, f32, iters, tol, times, rng } => {
                let d = &spec.data[*data];
                let cfg = s::KmeansConfig { k: *k, plus_plus: *pp, squared: *sq, max_iterations: *iters, tolerance: *tol };
                let src = source(rng);
                if *f32 {
                    let p = p32(&d.pts);
                    let (r, a) = window(i, budget, oom, || s::kmeans32(d.dim, &p, &cfg, src, *times));
                    (r.map_or_else(Out::Panic, |v| Out::Clusters(clusters!(v, bits32))), a)
                } else {
                    let (r, a) = window(i, budget, oom, || s::kmeans64(d.dim, &d.pts, &cfg, src, *times));
                    (r.map_or_else(Out::Panic, |v| Out::Clusters(clusters!(v, bits))), a)
                }
            }
            Op::Density { data, min, eps, sq, f32 } => {
                let d = &spec.data[*data];
                if *f32 {
                    let p = p32(&d.pts);
                    let (r, a) = window(i, budget, oom, || s::density32(d.dim, &p, *min, *eps as f32, *sq));
                    (r.map_or_else(Out::Panic, |(c, o)| Out::Density {
                        clusters: c.iter().map(|(c, n)| (bits32(c), *n)).collect(),
                        outliers: o.to_vec(),
                    }), a)
                } else {
                    let (r, a) = window(i, budget, oom, || s::density64(d.dim, &d.pts, *min, *eps, *sq));
                    (r.map_or_else(Out::Panic, |(c, o)| Out::Density {
                        clusters: c.iter().map(|(c, n)| (bits(c), *n)).collect(),
                        outliers: o.to_vec(),
                    }), a)
                }
            }
            Op::Tree { w, f32, fail_at } => {
                let cb = Callback::new(w, *fail_at);
                let n = w.n;
                if *f32 {
                    let (r, a) = window(i, budget, oom, || s::tree32(n, &|u, v| cb.call(u, v) as f32));
                    (r.map_or_else(Out::Panic, |(t, e)| Out::Tree {
                        weight: (t as f64).to_bits(),
                        edges: e.iter().map(|x| (x.0, x.1, (x.2 as f64).to_bits())).collect(),
                        bad_calls: cb.bad.get(),
                    }), a)
                } else {
                    let (r, a) = window(i, budget, oom, || s::tree64(n, &|u, v| cb.call(u, v)));
                    (r.map_or_else(Out::Panic, |(t, e)| Out::Tree {
                        weight: t.to_bits(),
                        edges: e.iter().map(|x| (x.0, x.1, x.2.to_bits())).collect(),
                        bad_calls: cb.bad.get(),
                    }), a)
                }
            }
            Op::Hier { w, f32, ks, fail_at } => {
                let cb = Callback::new(w, *fail_at);
                let n = w.n;
                let (r, a) = if *f32 {
                    window(i, budget, oom, || s::parts32(n, ks, &|u, v| cb.call(u, v) as f32))
                } else {
                    window(i, budget, oom, || s::parts64(n, ks, &|u, v| cb.call(u, v)))
                };
                (r.map_or_else(Out::Panic, |l| Out::Parts { labels: l.iter().map(|x| x.to_vec()).collect(), bad_calls: cb.bad.get() }), a)
            }
            Op::Extract { .. } => unreachable!(),
        }
    }

    struct Callback {
        w: crate::spec::Weights,
        fail_at: u64,
        calls: std::cell::Cell<u64>,
        bad: std::cell::Cell<u64>,
    }
    impl Callback {
        fn new(w: &crate::spec::Weights, fail_at: u64) -> Self {
            Callback { w: w.clone(), fail_at, calls: Default::default(), bad: Default::default() }
        }
        fn call(&self, u: usize, v: usize) -> f64 {
            rt::callback(|| ());
            self.calls.set(self.calls.get() + 1);
            if u == v || u >= self.w.n || v >= self.w.n {
                self.bad.set(self.bad.get() + 1);
                return 0.0;
            }
            if self.calls.get() == self.fail_at {
                rt::leave_for_panic();
                panic!("weight callback failed");
            }
            rt::outside(|| self.w.weight(u, v))
        }
    }
}
