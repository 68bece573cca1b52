//! Decides a property over the recorded histories of a run's universes.
use crate::exec::{End, Out, Res, Sw};
use crate::refmodel as rm;
use crate::rt::Outcome;
use crate::spec::{Op, Spec, Weights};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Violation {
    /// what kind of violation: minimisation keeps it
    pub class: String,
    pub detail: String,
}
pub type Verdict = Result<Option<Violation>, String>;

#[derive(Default, Clone, serde::Serialize, serde::Deserialize)]
pub struct Tally {
    pub n: BTreeMap<String, u64>,
    /// hashes of the non-trivial cases
    pub cases: BTreeSet<u64>,
    /// hashes of the executed interleavings (runs with at least one preemptive switch)
    pub inter: BTreeSet<u64>,
}
impl Tally {
    pub fn add(&mut self, k: &str, v: u64) {
        if v > 0 { *self.n.entry(k.into()).or_default() += v; }
    }
    pub fn merge(&mut self, o: &Tally) {
        for (k, v) in &o.n {
            if k.starts_with("max_") {
                self.max(k, *v);
            } else {
                self.add(k, *v);
            }
        }
        self.cases.extend(&o.cases);
        self.inter.extend(&o.inter);
    }
    pub fn max(&mut self, k: &str, v: u64) {
        let e = self.n.entry(k.into()).or_default();
        *e = (*e).max(v);
    }
}

fn v(class: &str, detail: String) -> Option<Violation> {
    Some(Violation { class: class.into(), detail })
}
pub fn hash<T: serde::Serialize>(x: &T) -> u64 {
    let s = serde_json::to_vec(x).unwrap();
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 31)
}
pub fn good(op: &Op) -> bool {
    match op {
        Op::Extract { bad, .. } => *bad == 0,
        Op::Seeds { rng, .. } | Op::Kmeans { rng, .. } => rng.fail_at == 0,
        Op::Tree { fail_at, .. } | Op::Hier { fail_at, .. } => *fail_at == 0,
        Op::Density { .. } => true,
    }
}
fn show(op: &Op, spec: &Spec) -> String {
    match op {
        Op::Extract { img, f32, via, bad, .. } => {
            let im = &spec.images[*img];
            format!("extract::<{}>(image {img}, {}x{}{}{})", if *f32 { "f32" } else { "f64" }, im.w, im.h,
                if *via == 1 { ", shared object" } else if *via == 2 { ", reused buffer" } else { "" },
                if *bad > 0 { ", malformed" } else { "" })
        }
        o => serde_json::to_string(o).unwrap().chars().take(400).collect(),
    }
}
fn pal(p: &[Sw]) -> String {
    let s: Vec<String> = p.iter().map(|s| format!("{:?}@{:?}={}", s.rgb, s.pos, f64::from_bits(s.share))).collect();
    format!("[{}]", s.join(", "))
}
fn sho(o: &Out) -> String {
    match o {
        Out::Palette(p) => pal(p),
        Out::Panic(m) => format!("panic: {m}"),
        Out::Seeds(s) => format!("seeds {:?}", s.iter().map(|r| r.iter().map(|p| fl(p)).collect::<Vec<_>>()).collect::<Vec<_>>()),
        Out::Clusters(c) => format!("clusters {:?}", c.iter().map(|r| r.iter().map(|p| (fl(&p.0), p.1)).collect::<Vec<_>>()).collect::<Vec<_>>()),
        Out::Density { clusters, outliers } => format!("clusters {:?} outliers {outliers:?}", clusters.iter().map(|p| (fl(&p.0), p.1)).collect::<Vec<_>>()),
        Out::Tree { weight, edges, .. } => format!("weight {} edges {:?}", f64::from_bits(*weight), edges.iter().map(|e| (e.0, e.1, f64::from_bits(e.2))).collect::<Vec<_>>()),
        Out::Parts { labels, .. } => format!("labels {labels:?}"),
    }
}
fn fl(b: &[u64]) -> Vec<f64> {
    b.iter().map(|x| f64::from_bits(*x)).collect()
}

/// How a universe ended: None if every operation answered.
fn ended(spec: &Spec, ui: usize, r: &Res) -> Result<Option<Violation>, String> {
    Ok(match &r.end {
        End::Done(Outcome::Finished) => None,
        End::Done(Outcome::Deadlock) => v("deadlock", format!("universe {ui}: all callers wait for each other")),
        End::Done(Outcome::StepBudget) => return Err("step limit of the whole run reached".into()),
        End::Done(Outcome::OpBudget { thread, op }) => v("no-progress", format!("universe {ui}: caller {thread} operation {op} ({}) exceeded its step bound",
            spec.universes[ui].threads.get(*thread).and_then(|t| t.get(*op)).map_or("end of a thread".into(), |o| show(o, spec)))),
        End::Killed(s) => v("crash", format!("universe {ui}: the process died with {s}")),
        End::Hung => v("hang", format!("universe {ui}: no answer within the wall-clock limit")),
        End::Harness(e) => return Err(format!("universe {ui}: {e}")),
    })
}

/// Every operation on valid input must have answered.
fn answered(spec: &Spec, res: &[Res], skip: &dyn Fn(usize) -> bool) -> Verdict {
    for (ui, r) in res.iter().enumerate() {
        if skip(ui) { continue; }
        if let Some(x) = ended(spec, ui, r)? { return Ok(Some(x)); }
        for o in &r.ops {
            let op = &spec.universes[ui].threads[o.thread][o.op];
            if let (true, Out::Panic(m)) = (good(op), &o.out) {
                return Ok(v("panic", format!("universe {ui} caller {} operation {}: {} panicked: {m}", o.thread, o.op, show(op, spec))));
            }
        }
    }
    Ok(None)
}

/// All answers to the same question must be identical, wherever and whenever asked.
fn repeatable(spec: &Spec, res: &[Res], t: &mut Tally, class: &str, key: &dyn Fn(&Op) -> Option<String>) -> Option<Violation> {
    let mut first: BTreeMap<String, (usize, usize, usize, &Out)> = BTreeMap::new();
    for (ui, r) in res.iter().enumerate() {
        for o in &r.ops {
            let op = &spec.universes[ui].threads[o.thread][o.op];
            let Some(k) = key(op) else { continue };
            match first.get(&k) {
                None => { first.insert(k, (ui, o.thread, o.op, &o.out)); }
                Some(f) => {
                    t.add("comparisons", 1);
                    if *f.3 != o.out {
                        return v(class, format!("{}: universe {} caller {} operation {} returned {}, but universe {ui} caller {} operation {} returned {}",
                            show(op, spec), f.0, f.1, f.2, sho(f.3), o.thread, o.op, sho(&o.out)));
                    }
                }
            }
        }
    }
    None
}
fn image_key(spec: &Spec, op: &Op) -> Option<String> {
    match op {
        // equal images are the same question
        Op::Extract { img, f32, bad: 0, .. } => {
            let i = spec.images.iter().position(|x| *x == spec.images[*img]).unwrap();
            Some(format!("{i} {f32}"))
        }
        _ => None,
    }
}

// ------------------------------------------------------------------------------------------ palettes
fn count_of(s: &Sw, n: usize, f32: bool) -> Option<usize> {
    let x = f64::from_bits(s.share);
    let c = (x * n as f64).round();
    let tol = if f32 { 3e-7 } else { 1e-14 };
    if c >= 1.0 && c <= n as f64 && (x - c / n as f64).abs() <= tol * x.abs() { Some(c as usize) } else { None }
}

fn palettes(prop: &str, spec: &Spec, res: &[Res], t: &mut Tally) -> Verdict {
    let mut refs: BTreeMap<(usize, bool), rm::ImageRef> = BTreeMap::new();
    let mut done: BTreeSet<(usize, bool, u64)> = BTreeSet::new();
    for (ui, r) in res.iter().enumerate() {
        for o in &r.ops {
            let op = &spec.universes[ui].threads[o.thread][o.op];
            let (Op::Extract { img, f32, bad: 0, .. }, Out::Palette(p)) = (op, &o.out) else { continue };
            t.add("palettes", 1);
            if !done.insert((*img, *f32, hash(&o.out))) { continue; }
            let im = &spec.images[*img];
            let n = im.px.len();
            let rf = refs.entry((*img, *f32)).or_insert_with(|| rm::image_ref(im, *f32));
            t.add("distinct_palettes_checked", 1);
            t.add("swatches", p.len() as u64);
            let at = |what: String| format!("universe {ui} caller {} operation {}, {}: {what}; palette {}", o.thread, o.op, show(op, spec), pal(p));
            if prop == "C03" {
                for (i, s) in p.iter().enumerate() {
                    if count_of(s, n, *f32).is_none() {
                        return Ok(v("share", at(format!("the share of swatch {i} is not a number of pixels out of {n}"))));
                    }
                    if s.pos.0 >= im.w || s.pos.1 >= im.h {
                        return Ok(v("position-outside", at(format!("swatch {i} lies outside of the image"))));
                    }
                    if i > 0 && !(f64::from_bits(p[i - 1].share) <= f64::from_bits(s.share)) {
                        return Ok(v("order", at(format!("swatch {i} has a smaller share than the one before"))));
                    }
                }
                let sum: usize = p.iter().map(|s| count_of(s, n, *f32).unwrap()).sum();
                if sum > n { return Ok(v("conservation", at(format!("the shares add up to {sum} of {n} pixels")))); }
            }
            let Some(g) = &rf.groups else {
                t.add("inexact_skipped", 1);
                continue;
            };
            t.add("groups", g.len() as u64);
            t.add("images_with_more_than_255_groups", (g.len() > 255) as u64);
            t.add("images_of_more_than_65535_pixels", (im.px.len() > 65535) as u64);
            t.add("images_with_a_group_of_more_than_65535_pixels", g.fixed.iter().any(|f| f.len() > 65535) as u64);
            t.add("images_with_ambiguous_border", g.ambiguous() as u64);
            t.add("images_with_noise", (!g.noise.is_empty()) as u64);
            t.add("images_with_two_or_more_groups", (g.len() > 1) as u64);
            if g.len() > 0 { t.cases.insert(hash(&(im, f32))); }
            let counts: Vec<Option<usize>> = p.iter().map(|s| count_of(s, n, *f32)).collect();
            match prop {
                "C02" => {
                    for (i, s) in p.iter().enumerate() {
                        let ok = counts[i].is_some_and(|c| (0..g.len()).any(|k| rf.fits(k, c, s.rgb, s.pos, *f32)));
                        if !ok {
                            return Ok(v("attribution", at(format!("swatch {i} describes no group; groups: {}", describe(rf)))));
                        }
                    }
                }
                "C03" => {
                    let sum: usize = counts.iter().map(|c| c.unwrap()).sum();
                    if sum < g.clustered.0 || sum > g.clustered.1 {
                        return Ok(v("conservation", at(format!("the shares account for {sum} pixels, but {:?} pixels are not noise", g.clustered))));
                    }
                }
                "C04" => {
                    if p.len() != g.len() {
                        return Ok(v("group-count", at(format!("{} swatches for {} groups: {}", p.len(), g.len(), describe(rf)))));
                    }
                    let fits = |i: usize, k: usize| counts[i].is_some_and(|c| rf.fits(k, c, p[i].rgb, p[i].pos, *f32));
                    let sizes = |i: usize, k: usize| counts[i].is_some_and(|c| g.count_fits(k, c));
                    if !rm::matching(p.len(), &sizes) || !rm::matching(p.len(), &fits) {
                        return Ok(v("group-match", at(format!("the swatches do not match the groups one to one: {}", describe(rf)))));
                    }
                }
                _ => {}
            }
        }
    }
    Ok(None)
}
fn describe(rf: &rm::ImageRef) -> String {
    let g = rf.groups.as_ref().unwrap();
    let s: Vec<String> = (0..g.len().min(20)).map(|k| {
        let c = g.fixed[k].len();
        let m: Vec<f64> = (0..5).map(|d| g.mean(k, c, |i| rf.pts[i][d]).0).collect();
        let rgb = rm::to_rgb([m[0], m[1], m[2]]).map(|x| x.round());
        format!("{c}{} pixels {rgb:?} at ({:.2}, {:.2})", if g.may[k].is_empty() { String::new() } else { format!("..{}", c + g.may[k].len()) },
            m[3] * rf.w as f64, m[4] * rf.h as f64)
    }).collect();
    format!("[{}], {} noise", s.join("; "), g.noise.len())
}

// ------------------------------------------------------------------------------------------ what remains
/// An extraction of n pixels may hold this many bytes at once.
pub fn memory_bound(n: u64) -> u64 {
    (1 << 20) + 1024 * n
}
fn given_back(spec: &Spec, res: &[Res], t: &mut Tally) -> Option<Violation> {
    for (ui, r) in res.iter().enumerate() {
        let u = &spec.universes[ui];
        for im in &spec.images { t.cases.insert(hash(im)); }
        let px = |op: &Op| if let Op::Extract { img, .. } = op { spec.images[*img].px.len() as u64 } else { 0 };
        if r.threads_left > 0 {
            return v("threads-left", format!("universe {ui}: {} threads that the library started are still running after all calls", r.threads_left));
        }
        // at once: every caller may be in its largest extraction
        let bound: u64 = u.threads.iter().map(|ops| memory_bound(ops.iter().map(px).max().unwrap_or(0))).sum();
        for o in &r.ops {
            let peak = o.mem.peak.max(0) as u64;
            t.add("calls_measured", 1);
            t.max("max_share_of_memory_bound_permille", peak * 1000 / bound);
            let n = px(&u.threads[o.thread][o.op]);
            if n >= 400 && u.threads.len() == 1 { t.max("max_bytes_per_pixel", peak / n); }
            if peak > bound {
                return v("memory", format!("universe {ui} caller {} operation {} ({}): {peak} bytes allocated at once, more than {bound}", o.thread, o.op, show(&u.threads[o.thread][o.op], spec)));
            }
        }
        // kept: does it still grow after half of the history?
        let q: Vec<&crate::exec::OpRec> = r.ops.iter().filter(|o| o.mem.quiet).collect();
        t.max("max_bytes_kept", q.iter().map(|o| o.mem.live.max(0) as u64).max().unwrap_or(0));
        if q.len() < 64 { continue; }
        t.add("histories_measured", 1);
        let (a, b) = (&q[q.len() / 4..q.len() / 2], &q[q.len() * 3 / 4..]);
        let before = a.iter().map(|o| o.mem.live).max().unwrap();
        let after = b.iter().map(|o| o.mem.live).min().unwrap();
        // callers that never met: each had ended before the next one began
        let apart = u.threads.len() > 100 && {
            let mut q: Vec<usize> = r.ops.iter().map(|o| o.thread).collect();
            q.dedup();
            let first = |x: usize| r.ops.iter().find(|o| o.thread == x).map_or(0, |o| o.inv);
            q.len() <= u.threads.len() && q.windows(2).all(|w| r.exits.get(w[0]).is_some_and(|e| *e <= first(w[1])))
        };
        if apart { t.add("histories_of_callers_that_never_met", 1); }
        // how many of several callers were inside at the same time may settle late
        let slack = if apart || u.threads.len() == 1 { 0 } else { u.threads.len() as i64 * r.ops.iter().map(|o| o.mem.peak - o.mem.live).max().unwrap().max(0) };
        if after > before + slack {
            return v("memory-kept", format!("universe {ui}: after {} of {} calls at most {before} bytes remained allocated, after three quarters of them at least {after}", q.len() / 2, q.len()));
        }
    }
    None
}

// ------------------------------------------------------------------------------------------ internals
fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}
fn dist(sq: bool, a: &[f64], b: &[f64]) -> f64 {
    let s: f64 = a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum();
    if sq { s } else { s.sqrt() }
}
fn scale(pts: &[Vec<f64>]) -> f64 {
    let m = pts.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    if m > 0.0 { m } else { 1.0 }
}
/// How far a computed distance d may be off: nothing on grid data.
fn slack_of(real: bool, f32: bool, sq: bool, sc: f64, d: f64) -> f64 {
    let r = sc * if f32 { 1e-6 } else { 1e-12 };
    if !real { 0.0 } else if sq { r * (d.sqrt() + r) * 4.0 } else { r }
}
fn multiset(pts: &[Vec<f64>]) -> BTreeMap<Vec<u64>, usize> {
    let mut m = BTreeMap::new();
    for p in pts {
        *m.entry(p.iter().map(|x| (x + 0.0).to_bits()).collect::<Vec<_>>()).or_default() += 1;
    }
    m
}

fn check_seeds(pts: &[Vec<f64>], k: usize, seeds: &[Vec<u64>]) -> Result<(), String> {
    let want = k.min(pts.len());
    if seeds.len() != want { return Err(format!("{} seeds instead of {want}", seeds.len())); }
    let mut have = multiset(pts);
    for (i, s) in seeds.iter().enumerate() {
        let key: Vec<u64> = fl(s).iter().map(|x| (x + 0.0).to_bits()).collect();
        match have.get_mut(&key) {
            None => return Err(format!("seed {i} {:?} is not a sample", fl(s))),
            Some(0) => return Err(format!("seed {i} {:?} uses a sample twice", fl(s))),
            Some(c) => *c -= 1,
        }
    }
    Ok(())
}
/// Furthest-first order.
fn check_spread(pts: &[Vec<f64>], real: bool, f32: bool, sq: bool, seeds: &[Vec<u64>]) -> Result<(), String> {
    let mut left: Vec<&Vec<f64>> = pts.iter().collect();
    let mut chosen: Vec<Vec<f64>> = vec![];
    for (i, s) in seeds.iter().enumerate() {
        let s = fl(s);
        let Some(at) = left.iter().position(|p| **p == s) else { return Err(format!("seed {i} {s:?} is not an unused sample")) };
        if i > 0 {
            let near = |p: &Vec<f64>| chosen.iter().map(|c| dist(sq, p, c)).fold(f64::INFINITY, f64::min);
            let mine = near(&s);
            let sc = scale(pts);
            if let Some(p) = left.iter().find(|p| near(p) > mine + 2.0 * slack_of(real, f32, sq, sc, near(p))) {
                return Err(format!("seed {i} {s:?} is {mine} away from its nearest seed, but sample {p:?} is {}", near(p)));
            }
        }
        left.remove(at);
        chosen.push(s);
    }
    Ok(())
}

type Cl = Vec<(Vec<u64>, usize)>;
fn check_accounts(pts: &[Vec<f64>], k: usize, f32: bool, c: &Cl) -> Result<(), String> {
    let n = pts.len();
    if c.len() != k.min(n) { return Err(format!("{} clusters instead of {}", c.len(), k.min(n))); }
    let total: usize = c.iter().map(|x| x.1).sum();
    if !c.is_empty() && total != n { return Err(format!("the sizes add up to {total} of {n} samples")); }
    let tol = scale(pts) * if f32 { 3e-7 * (n as f64 + 8.0) } else { 1e-13 * (n as f64 + 8.0) };
    let dim = pts.first().map_or(0, |p| p.len());
    for d in 0..dim {
        let (lo, hi) = pts.iter().fold((f64::MAX, f64::MIN), |(l, h), p| (l.min(p[d]), h.max(p[d])));
        for (i, x) in c.iter().enumerate() {
            let m = f64::from_bits(x.0[d]);
            if !(m >= lo - tol && m <= hi + tol) { return Err(format!("centroid {i} {:?} lies outside of the samples' bounding box in dimension {d}: {lo}..{hi}", fl(&x.0))); }
        }
        if c.is_empty() { continue; }
        let want: f64 = pts.iter().map(|p| p[d]).sum();
        let got: f64 = c.iter().map(|x| x.1 as f64 * f64::from_bits(x.0[d])).sum();
        if !close(want, got, tol * n as f64) { return Err(format!("the size-weighted centroids add up to {got} in dimension {d}, the samples to {want}")); }
    }
    Ok(())
}

/// One Lloyd round from `a` to `b`.
fn check_round(pts: &[Vec<f64>], f32: bool, a: &Cl, b: &Cl) -> Result<(), String> {
    if a.len() != b.len() { return Err(format!("{} clusters became {}", a.len(), b.len())); }
    let sc = scale(pts);
    let rel = if f32 { 4e-6 } else { 1e-11 };
    let ca: Vec<Vec<f64>> = a.iter().map(|x| fl(&x.0)).collect();
    let k = ca.len();
    let mut g = rm::Groups { fixed: vec![vec![]; k], may: vec![vec![]; k], ..Default::default() };
    for (i, p) in pts.iter().enumerate() {
        let d: Vec<f64> = ca.iter().map(|c| dist(true, p, c)).collect();
        let m = d.iter().cloned().fold(f64::INFINITY, f64::min);
        // a squared distance is off by at most about this much
        let slack = rel * sc * (m.sqrt() + rel * sc) * 4.0;
        let poss: Vec<usize> = (0..k).filter(|&j| d[j] <= m + slack).collect();
        if poss.len() == 1 { g.fixed[poss[0]].push(i) } else { for j in poss { g.may[j].push(i) } }
    }
    let tol = sc * if f32 { 3e-7 * (pts.len() as f64 + 8.0) } else { 1e-13 * (pts.len() as f64 + 8.0) };
    for j in 0..k {
        let c = b[j].1;
        if !g.count_fits(j, c) {
            return Err(format!("cluster {j} at {:?} got {c} samples, but {}..{} are nearest to it", ca[j], g.fixed[j].len(), g.fixed[j].len() + g.may[j].len()));
        }
        let got = fl(&b[j].0);
        for d in 0..got.len() {
            let (lo, hi) = if c == 0 { (ca[j][d], ca[j][d]) } else { g.mean(j, c, |i| pts[i][d]) };
            if !(got[d] >= lo - tol && got[d] <= hi + tol) {
                return Err(format!("cluster {j} moved to {got:?}, but the mean of its {c} samples is {lo}..{hi} in dimension {d}"));
            }
        }
    }
    Ok(())
}
/// Did every centroid move by less than the tolerance? None: too close to call.
/// The distance of two points if every way of calculating it is exact in the precision at hand.
fn exact_dist(sq: bool, f32: bool, a: &[f64], b: &[f64]) -> Option<f64> {
    let bits: f64 = if f32 { 1024.0 } else { 1048576.0 };
    // in units of the finest coordinate
    let unit = (0..30).map(|e| 2f64.powi(8 - e)).find(|u| a.iter().chain(b).all(|x| (x / u).fract() == 0.0))?;
    if a.iter().chain(b).any(|x| (x / unit).abs() > bits) { return None; }
    let d2: f64 = a.iter().zip(b).map(|(x, y)| ((x - y) / unit).powi(2)).sum();
    if d2 > bits * bits { return None; }
    if sq { return Some(d2 * unit * unit); }
    let d = d2.sqrt().round();
    if d * d == d2 { Some(d * unit) } else { None }
}
fn settled(pts: &[Vec<f64>], sq: bool, tol: f64, f32: bool, a: &Cl, b: &Cl) -> Option<bool> {
    let tol = if f32 { tol as f32 as f64 } else { tol };
    let sc = scale(pts);
    let mut all = true;
    for (x, y) in a.iter().zip(b) {
        let d = dist(sq, &fl(&x.0), &fl(&y.0));
        let r = if f32 { 1e-6 } else { 1e-12 };
        let slack = if sq { r * sc * (d.sqrt() + r * sc) * 4.0 } else { r * sc };
        if x.0 == y.0 {
            // did not move at all: exact
            if !(0.0 < tol) && y.1 > 0 { all = false; }
            continue;
        }
        if (d - tol).abs() <= slack {
            // still certain if nothing in the measurement rounds
            let Some(d) = exact_dist(sq, f32, &fl(&x.0), &fl(&y.0)) else { return None };
            if !(d < tol) { all = false; }
            continue;
        }
        if d > tol { all = false; }
    }
    Some(all)
}

fn f32_pts(pts: &[Vec<f64>]) -> Vec<Vec<f64>> {
    pts.iter().map(|p| p.iter().map(|x| *x as f32 as f64).collect()).collect()
}

fn internals(prop: &str, spec: &Spec, res: &[Res], t: &mut Tally) -> Verdict {
    let all = res.iter().enumerate().flat_map(|(ui, r)| r.ops.iter().map(move |o| (ui, o)));
    let mut lloyd: BTreeMap<String, BTreeMap<usize, (usize, &Cl)>> = BTreeMap::new();
    let mut firsts: BTreeMap<String, (BTreeSet<Vec<u64>>, usize, usize)> = BTreeMap::new();
    let mut done: BTreeSet<u64> = BTreeSet::new();
    for (ui, o) in all {
        let op = &spec.universes[ui].threads[o.thread][o.op];
        if !good(op) { continue; }
        let at = |what: String| format!("universe {ui} caller {} operation {}, {}: {what}; reported {}", o.thread, o.op, show(op, spec), sho(&o.out));
        t.add("answers", 1);
        if !done.insert(hash(&(op, &o.out))) && prop != "C09" { continue; }
        t.add("distinct_answers_checked", 1);
        match (op, &o.out) {
            (Op::Seeds { data, k, pp, sq, f32, rng, .. }, Out::Seeds(rounds)) => {
                let pts = if *f32 { f32_pts(&spec.data[*data].pts) } else { spec.data[*data].pts.clone() };
                if *k > 1 && *k < pts.len() { t.cases.insert(hash(&(op, &spec.data[*data]))); }
                t.add("seedings_with_faulty_source", (rng.stuck + rng.poor > 0) as u64);
                for s in rounds {
                    if prop == "C08" {
                        if let Err(e) = check_seeds(&pts, *k, s) { return Ok(v("seeds", at(e))); }
                    }
                    if prop == "C09" && *pp && *k < pts.len() && *k > 0 {
                        t.add("spreads_checked", 1);
                        if s.is_empty() { return Ok(v("spread", at("no seeds".into()))); }
                        if let Err(e) = check_spread(&pts, spec.data[*data].real, *f32, *sq, s) { return Ok(v("spread", at(e))); }
                        if rng.stuck + rng.poor == 0 {
                            let e = firsts.entry(format!("{data} {k} {sq} {f32}")).or_insert((BTreeSet::new(), 0, *data));
                            e.0.insert(s[0].clone());
                            e.1 += 1;
                        }
                    }
                }
            }
            (Op::Kmeans { data, k, sq, f32, iters, tol, pp, rng, .. }, Out::Clusters(fits)) => {
                let pts = if *f32 { f32_pts(&spec.data[*data].pts) } else { spec.data[*data].pts.clone() };
                if *k > 1 && *k < pts.len() { t.cases.insert(hash(&(op, &spec.data[*data]))); }
                for c in fits {
                    t.add("fits", 1);
                    t.add("fits_with_empty_cluster", c.iter().any(|x| x.1 == 0) as u64);
                    if prop == "C10" && *iters > 0 {
                        if let Err(e) = check_accounts(&pts, *k, *f32, c) { return Ok(v("accounting", at(e))); }
                    }
                    if prop == "C11" && !rng.shared {
                        let key = serde_json::to_string(&(data, k, sq, f32, tol.to_bits(), pp, rng)).unwrap();
                        lloyd.entry(key).or_default().entry(*iters).or_insert((ui, c));
                    }
                }
            }
            (Op::Density { data, min, eps, sq, f32 }, Out::Density { clusters, outliers }) => {
                if prop != "C15" { continue; }
                let d = &spec.data[*data];
                let pts = if *f32 { f32_pts(&d.pts) } else { d.pts.clone() };
                let near = near_of(&pts, d.real, *f32, if *f32 { *eps as f32 as f64 } else { *eps }, *sq);
                let Some(g) = rm::groups(*min, &near) else {
                    t.add("inexact_skipped", 1);
                    continue;
                };
                if g.len() > 0 { t.cases.insert(hash(&(op, d))); }
                t.add("clusters", g.len() as u64);
                t.add("datasets_with_ambiguous_border", g.ambiguous() as u64);
                t.add("datasets_with_noise", (!g.noise.is_empty()) as u64);
                let ordered = outliers.windows(2).all(|p| p[0] < p[1]);
                let (out, noise, maybe): (BTreeSet<_>, BTreeSet<_>, BTreeSet<_>) = (outliers.iter().collect(), g.noise.iter().collect(), g.maybe_noise.iter().collect());
                let complete = noise.iter().all(|i| out.contains(i)) && out.iter().all(|i| noise.contains(i) || maybe.contains(i));
                if !ordered || !complete { return Ok(v("outliers", at(format!("the outliers are {:?}", g.noise)))); }
                if clusters.len() != g.len() { return Ok(v("cluster-count", at(format!("there are {} clusters of sizes {:?}", g.len(), g.fixed.iter().map(|f| f.len()).collect::<Vec<_>>())))); }
                let total: usize = clusters.iter().map(|c| c.1).sum();
                if total + outliers.len() != d.pts.len() { return Ok(v("cluster-sizes", at(format!("{total} clustered points and {} outliers of {} points", outliers.len(), d.pts.len())))); }
                let tol = scale(&d.pts) * if *f32 { 3e-7 * (d.pts.len() as f64 + 8.0) } else { 1e-13 * (d.pts.len() as f64 + 8.0) };
                let fits = |i: usize, k: usize| {
                    let (c, n) = &clusters[i];
                    g.count_fits(k, *n) && *n > 0 && fl(c).iter().enumerate().all(|(dim, x)| {
                        let (lo, hi) = g.mean(k, *n, |i| pts[i][dim]);
                        *x >= lo - tol && *x <= hi + tol
                    })
                };
                if !rm::matching(clusters.len(), &fits) {
                    return Ok(v("cluster-match", at(format!("sizes and means do not match the clusters one to one; sizes {:?}", g.fixed.iter().map(|f| f.len()).collect::<Vec<_>>()))));
                }
            }
            (Op::Tree { w, f32, .. }, Out::Tree { weight, edges, bad_calls }) => {
                if prop != "C13" { continue; }
                if w.n > 2 { t.cases.insert(hash(op)); }
                if let Err(e) = check_tree(w, *f32, f64::from_bits(*weight), edges, *bad_calls) { return Ok(v("tree", at(e))); }
            }
            (Op::Hier { w, ks, f32, .. }, Out::Parts { labels, bad_calls }) => {
                if prop != "C14" { continue; }
                if w.n > 2 { t.cases.insert(hash(op)); }
                if *bad_calls > 0 { return Ok(v("callback", at("the callback was asked about a vertex and itself or one that does not exist".into()))); }
                let wf = |a: usize, b: usize| if *f32 { w.weight(a, b) as f32 as f64 } else { w.weight(a, b) };
                let mst = rm::mst_weights(w.n, &wf);
                if labels.len() != ks.len() { return Ok(v("partition", at("missing partitions".into()))); }
                for (k, l) in ks.iter().zip(labels) {
                    if *k == 0 || *k > w.n { continue; }
                    t.add("partitions", 1);
                    if let Err(e) = rm::linkage(w.n, *k, &mst, &wf, l) { return Ok(v("partition", at(e))); }
                }
                let mut order: Vec<usize> = (0..ks.len()).filter(|&i| ks[i] >= 1 && ks[i] <= w.n).collect();
                order.sort_by_key(|&i| ks[i]);
                for p in order.windows(2) {
                    let mut parent = vec![usize::MAX; w.n];
                    for s in 0..w.n {
                        let (coarse, fine) = (labels[p[0]][s], labels[p[1]][s]);
                        if parent[fine] == usize::MAX { parent[fine] = coarse; }
                        if parent[fine] != coarse { return Ok(v("nesting", at(format!("the groups for k={} are not nested in those for k={}", ks[p[1]], ks[p[0]])))); }
                    }
                }
            }
            (_, Out::Panic(_)) => {}
            _ => return Err("answer of the wrong kind".into()),
        }
    }
    for (key, (seen, n, data)) in &firsts {
        let pts = &spec.data[*data].pts;
        let distinct = multiset(pts).len();
        // a uniform choice misses one of m samples in n draws with probability below m (1 - 1/m)^n
        let m = pts.len() as f64;
        if *n as f64 >= 45.0 * m {
            t.add("first_seed_sweeps", 1);
            if seen.len() < distinct {
                return Ok(v("first-seed", format!("config {key}: in {n} seedings from independent uniform streams only {} of {distinct} samples ever came first: {:?}",
                    seen.len(), seen.iter().map(|s| fl(s)).collect::<Vec<_>>())));
            }
        }
    }
    for (key, by) in &lloyd {
        let Some(max) = by.keys().max() else { continue };
        let (data, k, sq, f32, tolb, ..): (usize, usize, bool, bool, u64, bool, crate::spec::Stream) = serde_json::from_str(key).map_err(|e| e.to_string())?;
        let tol = f64::from_bits(tolb);
        let pts = if f32 { f32_pts(&spec.data[data].pts) } else { spec.data[data].pts.clone() };
        let n = pts.len();
        let at = |i: usize, e: String| format!("k-means {key}, {e} (round {i} of chain with limits 0..{max})");
        if k >= n {
            for (i, (_, c)) in by {
                let cs: Vec<Vec<u64>> = c.iter().map(|x| x.0.clone()).collect();
                if let Err(e) = check_seeds(&pts, k, &cs) { return Ok(v("lloyd-seeds", at(*i, format!("one cluster per sample: {e}")))); }
            }
            continue;
        }
        let mut stop: Option<usize> = None;
        let mut unsure = false;
        if let Some((_, c)) = by.get(&0) {
            let cs: Vec<Vec<u64>> = c.iter().map(|x| x.0.clone()).collect();
            if let Err(e) = check_seeds(&pts, k, &cs) { return Ok(v("lloyd-seeds", at(0, format!("zero rounds do not report the seeds: {e}")))); }
        }
        for i in 1..=*max {
            let (Some((_, a)), Some((_, b))) = (by.get(&(i - 1)), by.get(&i)) else { unsure = true; continue };
            t.add("rounds_checked", 1);
            if let Some(s) = stop {
                if a != b { return Ok(v("lloyd-stop", at(i, format!("every centroid had settled in round {s}, but a limit of {i} reports {} instead of {}", sho(&Out::Clusters(vec![b.to_vec()])), sho(&Out::Clusters(vec![a.to_vec()])))))); }
                continue;
            }
            if unsure && a == b { continue; }
            if let Err(e) = check_round(&pts, f32, a, b) { return Ok(v("lloyd-round", at(i, e))); }
            match settled(&pts, sq, tol, f32, a, b) {
                None => { unsure = true; t.add("inexact_skipped", 1); }
                Some(true) => { stop = Some(i); unsure = false; t.add("chains_settled", 1); }
                Some(false) => unsure = false,
            }
        }
        t.add("chains", 1);
    }
    Ok(None)
}

pub fn near_of(pts: &[Vec<f64>], real: bool, f32: bool, eps: f64, sq: bool) -> Vec<Vec<(u32, rm::Near)>> {
    if !real {
        let lim = if eps < 0.0 { -1.0 } else if sq { eps } else { eps * eps };
        if pts.len() > 3000 && lim >= 0.0 {
            // look at neighbouring cells of the first two dimensions only
            let size = lim.sqrt().max(1e-3);
            let cell = |p: &Vec<f64>| ((p[0] / size).floor() as i64, (p[1] / size).floor() as i64);
            let mut cells: std::collections::HashMap<(i64, i64), Vec<u32>> = Default::default();
            for (i, p) in pts.iter().enumerate() { cells.entry(cell(p)).or_default().push(i as u32); }
            return pts.iter().map(|p| {
                let c = cell(p);
                let mut v: Vec<u32> = (-1..=1).flat_map(|x| (-1..=1).map(move |y| (c.0 + x, c.1 + y))).filter_map(|c| cells.get(&c)).flatten()
                    .copied().filter(|&j| dist(true, p, &pts[j as usize]) <= lim).collect();
                v.sort();
                v.into_iter().map(|j| (j, rm::Near::Yes)).collect()
            }).collect();
        }
        return (0..pts.len()).map(|i| (0..pts.len()).filter(|&j| dist(true, &pts[i], &pts[j]) <= lim).map(|j| (j as u32, rm::Near::Yes)).collect()).collect();
    }
    let sc = scale(pts);
    (0..pts.len()).map(|i| (0..pts.len()).filter_map(|j| {
        let d = dist(sq, &pts[i], &pts[j]);
        // equal points are at distance zero, whatever the precision
        let s = if d == 0.0 { 0.0 } else { slack_of(true, f32, sq, sc, d) };
        if eps < 0.0 || d > eps + s { None } else { Some((j as u32, if d <= eps - s { rm::Near::Yes } else { rm::Near::Maybe })) }
    }).collect()).collect()
}

fn check_tree(w: &Weights, f32: bool, total: f64, edges: &[(usize, usize, u64)], bad_calls: u64) -> Result<(), String> {
    if bad_calls > 0 { return Err("the callback was asked about a vertex and itself or one that does not exist".into()); }
    let n = w.n;
    if edges.len() != n.saturating_sub(1) { return Err(format!("{} edges for {n} vertices", edges.len())); }
    let mut uf = rm::Uf::new(n);
    let wf = |a: usize, b: usize| if f32 { w.weight(a, b) as f32 as f64 } else { w.weight(a, b) };
    let mut mine = vec![];
    for (u, x, b) in edges {
        let b = f64::from_bits(*b);
        if *u >= n || *x >= n || u == x { return Err(format!("edge {u}-{x}")); }
        if !uf.union(*u, *x) { return Err(format!("edge {u}-{x} closes a cycle")); }
        if b != wf(*u, *x) { return Err(format!("edge {u}-{x} carries {b}, the callback says {}", wf(*u, *x))); }
        mine.push(b);
    }
    // sums of the structured weights are exact, others round once per edge
    let sum: f64 = mine.iter().sum();
    let slack = if mine.iter().any(|x| (x * 8.0).fract() != 0.0 || x.abs() > 1e5) { mine.iter().map(|x| x.abs()).sum::<f64>() * n as f64 * if f32 { 1.2e-7 } else { 2.3e-16 } } else { 0.0 };
    if (total - sum).abs() > slack { return Err(format!("the total is {total}, the edges add up to {sum}")); }
    // all minimum spanning trees have the same weights
    mine.sort_by(f64::total_cmp);
    let best = rm::mst_weights(n, &wf);
    if mine != best { return Err(format!("the edges add up to {sum}, a lighter tree of {} exists", best.iter().sum::<f64>())); }
    Ok(())
}

// ------------------------------------------------------------------------------------------ entry
pub fn judge(spec: &Spec, res: &[Res], t: &mut Tally) -> Verdict {
    for (ui, r) in res.iter().enumerate() {
        if let End::Harness(e) = &r.end { return Err(format!("universe {ui}: {e}")); }
    }
    let prop = spec.property.as_str();
    let oom = |ui: usize| spec.universes[ui].faults.oom.is_some();
    let ans = answered(spec, res, &oom)?;
    if ans.is_some() { return Ok(ans); }
    match prop {
        "C01" | "C05" => {
            for im in &spec.images { t.cases.insert(hash(im)); }
            let class = if prop == "C01" { "not-reproducible" } else { "not-isolated" };
            Ok(repeatable(spec, res, t, class, &|op| image_key(spec, op)))
        }
        "C02" | "C03" | "C04" => palettes(prop, spec, res, t),
        "C06" => {
            for (ui, r) in res.iter().enumerate() {
                if r.stats.waited_on_stalled > 0 {
                    return Ok(v("waits-for-stalled", format!("universe {ui}: a caller could not go on before a stalled caller resumed")));
                }
                for o in &r.ops {
                    if let Op::Extract { img, bad: 0, .. } = &spec.universes[ui].threads[o.thread][o.op] {
                        let n = spec.images[*img].px.len() as u64;
                        t.cases.insert(hash(&spec.images[*img]));
                        if n >= 400 { t.max("max_steps_per_1000_pixel_pairs", o.steps * 1000 / (n * n)); }
                    }
                }
            }
            Ok(None)
        }
        "C19" => Ok(given_back(spec, res, t)),
        "C20" => {
            for (ui, r) in res.iter().enumerate() {
                for im in &spec.images { t.cases.insert(hash(im)); }
                for o in &r.ops { t.add("operations_watched", good(&spec.universes[ui].threads[o.thread][o.op]) as u64); }
                for e in &r.effects {
                    // the message of a call that panics may go to the standard error output
                    let loud = e.what.ends_with("to descriptor 2") && r.ops.iter().any(|o| o.thread == e.thread && o.op == e.op && matches!(o.out, Out::Panic(_)));
                    if loud { continue; }
                    let op = spec.universes[ui].threads.get(e.thread).and_then(|x| x.get(e.op));
                    return Ok(v("side-effect", format!("universe {ui} caller {} operation {}{}: {}", e.thread, e.op, op.map(|o| format!(" ({})", show(o, spec))).unwrap_or_default(), e.what)));
                }
            }
            Ok(None)
        }
        "C07" => {
            // universe 0 is the fault-free run
            let mut want: BTreeMap<(usize, usize), &Out> = BTreeMap::new();
            for o in &res[0].ops { want.insert((o.thread, o.op), &o.out); }
            for (ui, r) in res.iter().enumerate().skip(1) {
                t.add("oom_universes", 1);
                t.add("oom_universes_with_failure_injected", (r.oom_fired > 0) as u64);
                if r.oom_fired > 0 { t.cases.insert(hash(&(&spec.universes[ui].faults, &spec.images))); }
                match &r.end {
                    End::Killed(s) if s == "SIGABRT" => {
                        if r.oom_fired == 0 { return Ok(v("crash", format!("universe {ui}: died with {s} although no allocation failed"))); }
                        t.add("oom_aborts", 1);
                        continue;
                    }
                    _ => if let Some(x) = ended(spec, ui, r)? { return Ok(Some(x)); }
                }
                let om = spec.universes[ui].faults.oom.as_ref();
                for o in &r.ops {
                    let op = &spec.universes[ui].threads[o.thread][o.op];
                    let hit = om.is_some_and(|x| x.thread == o.thread && x.op == o.op);
                    let Op::Extract { bad: 0, .. } = op else { continue };
                    match &o.out {
                        Out::Panic(_) if hit => t.add("oom_panics", 1),
                        _ if !want.contains_key(&(o.thread, o.op)) => {}
                        out if *out == *want[&(o.thread, o.op)] => t.add("oom_survivors_identical", 1),
                        out => return Ok(v("wrong-after-oom", format!("universe {ui} caller {} operation {} ({}{}): {} instead of {}", o.thread, o.op, show(op, spec),
                            if hit { ", allocations fail in it" } else { ", without failing allocations" }, sho(out), sho(want[&(o.thread, o.op)])))),
                    }
                }
            }
            Ok(None)
        }
        _ => {
            let x = internals(prop, spec, res, t)?;
            if x.is_some() { return Ok(x); }
            let key = |op: &Op| -> Option<String> {
                if !good(op) { return None; }
                match op {
                    Op::Seeds { rng, .. } | Op::Kmeans { rng, .. } if rng.shared => None,
                    _ => Some(serde_json::to_string(op).unwrap()),
                }
            };
            if prop == "C12" {
                for r in res {
                    for o in &r.ops {
                        let ui = res.iter().position(|x| std::ptr::eq(x, r)).unwrap();
                        let op = &spec.universes[ui].threads[o.thread][o.op];
                        let same = match (op, &o.out) {
                            (Op::Seeds { rng, .. }, Out::Seeds(s)) => rng.shared || s.windows(2).all(|p| p[0] == p[1]),
                            (Op::Kmeans { rng, .. }, Out::Clusters(s)) => rng.shared || s.windows(2).all(|p| p[0] == p[1]),
                            _ => true,
                        };
                        t.add("fits_repeated_with_the_same_parameters", 1);
                        if !same { return Ok(v("not-repeatable", format!("universe {ui} {}: repeated calls differ: {}", show(op, spec), sho(&o.out)))); }
                    }
                }
                return Ok(repeatable(spec, res, t, "not-repeatable", &key));
            }
            if matches!(prop, "C13" | "C14" | "C15") {
                return Ok(repeatable(spec, res, t, "not-repeatable", &key));
            }
            Ok(None)
        }
    }
}
