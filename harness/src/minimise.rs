//! Shrinks a failing run while the same class of violation persists.
use crate::oracle::{self, Tally, Violation};
use crate::runner::{execute, explicit};
use crate::spec::{Env, Image, Op, Spec};
use std::time::{Duration, Instant};

struct Min {
    best: Spec,
    v: Violation,
    until: Instant,
}
impl Min {
    fn over(&self) -> bool {
        Instant::now() >= self.until
    }
    fn attempt(&mut self, mut s: Spec) -> bool {
        if self.over() || s == self.best { return false; }
        let res = execute(&mut s);
        match oracle::judge(&s, &res, &mut Tally::default()) {
            Ok(Some(v)) if v.class == self.v.class => {
                self.best = s;
                self.v = v;
                true
            }
            _ => false,
        }
    }
    fn with(&mut self, f: impl FnOnce(&mut Spec)) -> bool {
        let mut s = self.best.clone();
        f(&mut s);
        self.attempt(s)
    }
}

fn remove_op(s: &mut Spec, u: usize, t: usize, i: usize) {
    s.universes[u].threads[t].remove(i);
    if let Some(o) = &mut s.universes[u].faults.oom {
        if o.thread == t && o.op > i { o.op -= 1; }
    }
}
fn used(s: &Spec) -> (Vec<bool>, Vec<bool>) {
    let mut im = vec![false; s.images.len()];
    let mut da = vec![false; s.data.len()];
    for op in s.universes.iter().flat_map(|u| u.threads.iter().flatten()) {
        match op {
            Op::Extract { img, .. } => im[*img] = true,
            Op::Seeds { data, .. } | Op::Kmeans { data, .. } | Op::Density { data, .. } => da[*data] = true,
            _ => {}
        }
    }
    (im, da)
}
/// All single removals of `len` items in chunks, largest first.
fn chunks(len: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut c = len / 2;
    while c >= 1 {
        let mut i = 0;
        while i < len {
            v.push((i, c.min(len - i)));
            i += c;
        }
        c /= 2;
        if v.len() > 400 { break; }
    }
    v
}
fn drop_cols(im: &Image, at: usize, n: usize) -> Image {
    let (w, h) = (im.w as usize, im.h as usize);
    if w >= h {
        let px = im.px.iter().enumerate().filter(|(i, _)| { let x = i % w; x < at || x >= at + n }).map(|x| *x.1).collect();
        Image { w: (w - n) as u32, h: im.h, px }
    } else {
        let px = im.px.iter().enumerate().filter(|(i, _)| { let y = i / w; y < at || y >= at + n }).map(|x| *x.1).collect();
        Image { w: im.w, h: (h - n) as u32, px }
    }
}

pub fn minimise(spec: Spec, v: Violation) -> (Spec, Violation) {
    let secs = std::env::var("APSIM_MIN_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
    let slow = matches!(v.class.as_str(), "hang");
    let mut m = Min { best: spec.clone(), v: v.clone(), until: Instant::now() + Duration::from_secs(if slow { 0 } else { secs }) };
    let lockstep = spec.property == "C07";
    loop {
        let before = m.best.clone();
        // universes
        let mut u = m.best.universes.len();
        while u > 0 {
            u -= 1;
            if m.best.universes.len() > 1 && !(lockstep && u == 0) { m.with(|s| { s.universes.remove(u); }); }
        }
        // callers
        for u in (0..m.best.universes.len()).rev() {
            for t in (0..m.best.universes[u].threads.len()).rev() {
                if lockstep || m.best.universes[u].threads.len() < 2 { continue; }
                m.with(|s| {
                    s.universes[u].threads.remove(t);
                    s.universes[u].sched.replay = None;
                    s.universes[u].faults.stalls.retain(|x| x.0 != t);
                    s.universes[u].faults.rare_stalls.retain(|x| x.0 != t);
                });
            }
        }
        // operations
        for u in (0..m.best.universes.len()).rev() {
            for t in (0..m.best.universes[u].threads.len()).rev() {
                let len = m.best.universes[u].threads[t].len();
                for (at, n) in chunks(len) {
                    let have = m.best.universes[u].threads[t].len();
                    if lockstep || at + n > have || (have == n && m.best.universes[u].threads.len() == 1) { continue; }
                    m.with(|s| { s.universes[u].threads[t].drain(at..at + n); });
                }
                if lockstep {
                    for i in (0..len).rev() {
                        if m.best.universes.iter().any(|x| x.faults.oom.as_ref().is_some_and(|o| o.thread == t && o.op == i)) { continue; }
                        m.with(|s| for u in 0..s.universes.len() { remove_op(s, u, t, i) });
                    }
                }
            }
        }
        // environment, schedule and faults
        for u in 0..m.best.universes.len() {
            m.with(|s| s.universes[u].faults.stalls.clear());
            m.with(|s| s.universes[u].faults.rare_stalls.clear());
            m.with(|s| s.universes[u].env = Env::default());
            m.with(|s| s.universes[u].env = Env { entropy: s.universes[u].env.entropy, key_mode: s.universes[u].env.key_mode, ..Env::default() });
            m.with(|s| s.universes[u].env.entropy_faults = 0);
            m.with(|s| s.universes[u].env.cpus = 1);
            m.with(|s| s.universes[u].stack = 0);
            m.with(|s| { s.universes[u].sched.replay = None; s.universes[u].sched.mean_gap = 0; s.universes[u].sched.rare = 0; s.universes[u].sched.spurious = 0; });
            if m.best.universes[u].sched.mean_gap > 0 {
                for n in [1, 2, 4, 16] { if m.with(|s| { s.universes[u].sched.replay = None; s.universes[u].sched.max_switches = n; }) { break; } }
            }
        }
        // inputs
        let (im, da) = used(&m.best);
        for i in 0..im.len() {
            if !im[i] { m.with(|s| s.images[i] = Image { w: 0, h: 0, px: vec![] }); }
        }
        for i in 0..da.len() {
            if !da[i] { m.with(|s| s.data[i].pts.clear()); }
        }
        for i in 0..m.best.images.len() {
            // merge colours of runs, drop columns
            let len = m.best.images[i].px.len();
            for (at, n) in chunks(len).into_iter().take(120) {
                if m.over() || at + n > m.best.images[i].px.len() { break; }
                m.with(|s| { let c = s.images[i].px[at]; for p in &mut s.images[i].px[at..at + n] { *p = c; } });
            }
            let side = m.best.images[i].w.max(m.best.images[i].h) as usize;
            for (at, n) in chunks(side).into_iter().take(120) {
                let now = m.best.images[i].w.max(m.best.images[i].h) as usize;
                if m.over() || at + n >= now { continue; }
                m.with(|s| s.images[i] = drop_cols(&s.images[i], at, n));
            }
        }
        for i in 0..m.best.data.len() {
            for (at, n) in chunks(m.best.data[i].pts.len()) {
                if at + n > m.best.data[i].pts.len() { continue; }
                m.with(|s| { s.data[i].pts.drain(at..at + n); });
            }
        }
        for u in 0..m.best.universes.len() {
            for t in 0..m.best.universes[u].threads.len() {
                for i in 0..m.best.universes[u].threads[t].len() {
                    let op = m.best.universes[u].threads[t][i].clone();
                    for o in simpler(&op) {
                        // the same question must stay the same question everywhere
                        m.with(|s| for x in s.universes.iter_mut().flat_map(|u| u.threads.iter_mut().flatten()) { if *x == op { *x = o.clone(); } });
                    }
                }
            }
        }
        if m.over() || m.best == before { break; }
    }
    // explicit schedule, as few preemptions as possible
    let mut s = m.best.clone();
    let res = execute(&mut s);
    let e = explicit(&s, &res);
    m.until = m.until.max(Instant::now() + Duration::from_secs(if slow { 0 } else { 15 }));
    if e == m.best || m.attempt(e) {
        for u in 0..m.best.universes.len() {
            let len = m.best.universes[u].sched.replay.as_ref().map_or(0, |r| r.preempts.len());
            for (at, n) in chunks(len) {
                let have = m.best.universes[u].sched.replay.as_ref().map_or(0, |r| r.preempts.len());
                if at + n > have { continue; }
                m.with(|s| { s.universes[u].sched.replay.as_mut().unwrap().preempts.drain(at..at + n); });
            }
        }
    }
    (m.best, m.v)
}

fn simpler(op: &Op) -> Vec<Op> {
    let mut v = vec![];
    match op {
        Op::Extract { img, f32, via, bad, cut } => {
            if *via > 0 { v.push(Op::Extract { img: *img, f32: *f32, via: 0, bad: *bad, cut: *cut }); }
        }
        Op::Seeds { rng, times, k, .. } | Op::Kmeans { rng, times, k, .. } => {
            for i in 0..6 {
                let mut o = op.clone();
                if let Op::Seeds { rng: r, times: t, k: kk, .. } | Op::Kmeans { rng: r, times: t, k: kk, .. } = &mut o {
                    match i {
                        0 if rng.stuck > 0 => r.stuck = 0,
                        1 if rng.poor > 0 => r.poor = 0,
                        2 if rng.shared => r.shared = false,
                        3 if *times > 1 => *t = 1,
                        4 if *k > 2 => *kk = k / 2,
                        5 if *k > 1 => *kk = k - 1,
                        _ => continue,
                    }
                }
                v.push(o);
            }
        }
        Op::Tree { w, .. } | Op::Hier { w, .. } => {
            for n in [w.n / 2, w.n.saturating_sub(1)] {
                if n < 1 { continue; }
                let mut o = op.clone();
                match &mut o {
                    Op::Tree { w, .. } => w.n = n,
                    Op::Hier { w, ks, .. } => {
                        w.n = n;
                        ks.retain(|k| *k <= n);
                    }
                    _ => {}
                }
                v.push(o);
            }
            if let Op::Hier { ks, .. } = op {
                for i in 0..ks.len() {
                    let mut o = op.clone();
                    if let Op::Hier { ks, .. } = &mut o { ks.remove(i); }
                    v.push(o);
                }
            }
        }
        Op::Density { .. } => {}
    }
    v
}
