//! Small executable reference models (f64, exhaustive search, no code shared with the library).

// ------------------------------------------------------------------------------------------ colours
const WX: f64 = 0.95046;
const WZ: f64 = 1.08906;
const MAX_X: f64 = 0.950456;
const MAX_Z: f64 = 1.088644;

/// sRGB -> CIELAB, each component divided by the length of its range.
pub fn lab_norm(p: [u8; 4]) -> [f64; 3] {
    let lin = |v: u8| {
        let v = v as f64 / 255.0;
        if v <= 0.04045 { v / 12.92 } else { ((v + 0.055) / 1.055).powf(2.4) }
    };
    let (r, g, b) = (lin(p[0]), lin(p[1]), lin(p[2]));
    let x = (0.412391 * r + 0.357584 * g + 0.180481 * b).clamp(0.0, MAX_X);
    let y = (0.212639 * r + 0.715169 * g + 0.072192 * b).clamp(0.0, 1.0);
    let z = (0.019331 * r + 0.119195 * g + 0.950532 * b).clamp(0.0, MAX_Z);
    let f = |t: f64| if t > (6.0f64 / 29.0).powi(3) { t.cbrt() } else { 841.0 / 108.0 * t + 4.0 / 29.0 };
    let (fx, fy, fz) = (f(x / WX), f(y), f(z / WZ));
    let l = (116.0 * fy - 16.0).clamp(0.0, 100.0);
    let a = (500.0 * (fx - fy)).clamp(-128.0, 127.0);
    let b = (200.0 * (fy - fz)).clamp(-128.0, 127.0);
    [l / 100.0, a / 255.0, b / 255.0]
}
/// Normalised CIELAB -> sRGB in 0..255, not rounded.
pub fn to_rgb(n: [f64; 3]) -> [f64; 3] {
    let (l, a, b) = ((n[0] * 100.0).clamp(0.0, 100.0), (n[1] * 255.0).clamp(-128.0, 127.0), (n[2] * 255.0).clamp(-128.0, 127.0));
    let f = |t: f64| if t > 6.0 / 29.0 { t * t * t } else { 108.0 / 841.0 * (t - 4.0 / 29.0) };
    let l2 = (l + 16.0) / 116.0;
    let x = (WX * f(l2 + a / 500.0)).clamp(0.0, MAX_X);
    let y = f(l2).clamp(0.0, 1.0);
    let z = (WZ * f(l2 - b / 200.0)).clamp(0.0, MAX_Z);
    let g = |v: f64| if v <= 0.0031308 { 12.92 * v } else { 1.055 * v.powf(1.0 / 2.4) - 0.055 };
    [
        g(3.24097 * x - 1.537383 * y - 0.498611 * z),
        g(-0.969244 * x + 1.875968 * y + 0.041555 * z),
        g(0.05563 * x - 0.203977 * y + 1.056972 * z),
    ]
    .map(|v| (v * 255.0).clamp(0.0, 255.0))
}

// ------------------------------------------------------------------------------------------ density
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Near {
    Yes,
    /// too close to the radius to tell
    Maybe,
    No,
}

/// The groups density clustering has to report.
#[derive(Debug, Clone, Default)]
pub struct Groups {
    /// members that can only be in this group / that may be in this group
    pub fixed: Vec<Vec<usize>>,
    pub may: Vec<Vec<usize>>,
    /// bounds on the number of clustered points
    pub clustered: (usize, usize),
    /// points that are certainly noise, points that may be
    pub noise: Vec<usize>,
    pub maybe_noise: Vec<usize>,
    /// dense points
    pub dense: usize,
}

fn components(n: usize, core: &[bool], near: &[Vec<(u32, Near)>], maybe: bool) -> Vec<usize> {
    let mut comp = vec![usize::MAX; n];
    let mut next = 0;
    for s in 0..n {
        if !core[s] || comp[s] != usize::MAX { continue; }
        comp[s] = next;
        let mut stack = vec![s];
        while let Some(i) = stack.pop() {
            for &(j, d) in &near[i] {
                let j = j as usize;
                if core[j] && comp[j] == usize::MAX && (d == Near::Yes || maybe) {
                    comp[j] = next;
                    stack.push(j);
                }
            }
        }
        next += 1;
    }
    comp
}

/// `near[i]`: all points (i included) that are or may be within the radius of point i.
/// None: the input lies on a rounding boundary that decides the answer.
pub fn groups(min: usize, near: &[Vec<(u32, Near)>]) -> Option<Groups> {
    let n = near.len();
    let mut core = vec![false; n];
    for i in 0..n {
        let yes = near[i].iter().filter(|x| x.1 == Near::Yes).count();
        let all = near[i].len();
        if (yes >= min) != (all >= min) { return None; }
        core[i] = yes >= min;
    }
    let comp = components(n, &core, near, false);
    let any_maybe = near.iter().any(|v| v.iter().any(|x| x.1 == Near::Maybe));
    if any_maybe && comp != components(n, &core, near, true) { return None; }
    let k = comp.iter().filter(|&&c| c != usize::MAX).max().map_or(0, |m| m + 1);
    let mut g = Groups { fixed: vec![vec![]; k], may: vec![vec![]; k], dense: core.iter().filter(|c| **c).count(), ..Default::default() };
    for i in 0..n {
        if core[i] {
            g.fixed[comp[i]].push(i);
            continue;
        }
        let (mut sure, mut poss) = (vec![], vec![]);
        for &(j, d) in &near[i] {
            let c = comp[j as usize];
            if core[j as usize] {
                poss.push(c);
                if d == Near::Yes { sure.push(c); }
            }
        }
        poss.sort();
        poss.dedup();
        if poss.is_empty() {
            g.noise.push(i);
        } else if poss.len() == 1 && !sure.is_empty() {
            g.fixed[poss[0]].push(i);
        } else {
            for &c in &poss { g.may[c].push(i); }
            if sure.is_empty() { g.maybe_noise.push(i); }
        }
    }
    g.clustered = (n - g.noise.len() - g.maybe_noise.len(), n - g.noise.len());
    Some(g)
}

impl Groups {
    pub fn len(&self) -> usize {
        self.fixed.len()
    }
    pub fn ambiguous(&self) -> bool {
        self.may.iter().any(|m| !m.is_empty())
    }
    pub fn count_fits(&self, g: usize, count: usize) -> bool {
        count >= self.fixed[g].len() && count <= self.fixed[g].len() + self.may[g].len()
    }
    /// Bounds of the mean of coordinate `c` if group g has `count` members.
    pub fn mean(&self, g: usize, count: usize, c: impl Fn(usize) -> f64) -> (f64, f64) {
        let fixed: f64 = self.fixed[g].iter().map(|&i| c(i)).sum();
        let s = count - self.fixed[g].len();
        if s == 0 {
            return (fixed / count as f64, fixed / count as f64);
        }
        let mut v: Vec<f64> = self.may[g].iter().map(|&i| c(i)).collect();
        v.sort_by(f64::total_cmp);
        let lo: f64 = v[..s].iter().sum();
        let hi: f64 = v[v.len() - s..].iter().sum();
        ((fixed + lo) / count as f64, (fixed + hi) / count as f64)
    }
}

/// A perfect matching between `n` reports and `n` groups under `fits`.
pub fn matching(n: usize, fits: &dyn Fn(usize, usize) -> bool) -> bool {
    let mut owner = vec![usize::MAX; n];
    fn aug(i: usize, n: usize, fits: &dyn Fn(usize, usize) -> bool, seen: &mut [bool], owner: &mut [usize]) -> bool {
        for g in 0..n {
            if !seen[g] && fits(i, g) {
                seen[g] = true;
                if owner[g] == usize::MAX || aug(owner[g], n, fits, seen, owner) {
                    owner[g] = i;
                    return true;
                }
            }
        }
        false
    }
    (0..n).all(|i| aug(i, n, fits, &mut vec![false; n], &mut owner))
}

// ------------------------------------------------------------------------------------------ images
pub struct ImageRef {
    pub pts: Vec<[f64; 5]>,
    pub w: u32,
    pub h: u32,
    pub groups: Option<Groups>,
}
pub fn image_ref(im: &crate::spec::Image, f32: bool) -> ImageRef {
    let (w, h) = (im.w as usize, im.h as usize);
    let mut cache = std::collections::BTreeMap::new();
    let pts: Vec<[f64; 5]> = im.px.iter().enumerate().map(|(i, p)| {
        let l = *cache.entry([p[0], p[1], p[2]]).or_insert_with(|| lab_norm(*p));
        [l[0], l[1], l[2], (i % w) as f64 / w as f64, (i / w) as f64 / h as f64]
    }).collect();
    let eps = 0.025;
    let tol = if f32 { 4e-6 } else { 1e-9 };
    let rx = ((eps + tol) * w as f64).ceil() as usize;
    let ry = ((eps + tol) * h as f64).ceil() as usize;
    let mut near = vec![vec![]; pts.len()];
    for i in 0..pts.len() {
        let (x, y) = (i % w, i / w);
        for yy in y.saturating_sub(ry)..=(y + ry).min(h - 1) {
            for xx in x.saturating_sub(rx)..=(x + rx).min(w - 1) {
                let j = yy * w + xx;
                let d = (0..5).map(|c| (pts[i][c] - pts[j][c]).powi(2)).sum::<f64>().sqrt();
                if d <= eps - tol {
                    near[i].push((j as u32, Near::Yes));
                } else if d <= eps + tol {
                    near[i].push((j as u32, Near::Maybe));
                }
            }
        }
    }
    let groups = groups(25, &near);
    ImageRef { pts, w: im.w, h: im.h, groups }
}

impl ImageRef {
    /// Do colour and position of a swatch fit group g with that many pixels?
    pub fn fits(&self, g: usize, count: usize, rgb: (u8, u8, u8), pos: (u32, u32), f32: bool) -> bool {
        let gr = self.groups.as_ref().unwrap();
        if !gr.count_fits(g, count) { return false; }
        let n = count as f64;
        let b: Vec<(f64, f64)> = (0..5).map(|c| gr.mean(g, count, |i| self.pts[i][c])).collect();
        let tp = if f32 { 1e-6 + n * 4e-8 } else { 1e-9 };
        for (c, size, got) in [(3, self.w, pos.0), (4, self.h, pos.1)] {
            let lo = ((b[c].0 - tp) * size as f64).floor().max(0.0);
            let hi = ((b[c].1 + tp) * size as f64).floor();
            if (got as f64) < lo || (got as f64) > hi { return false; }
        }
        let tc = if f32 { 2e-6 + n * 4e-8 } else { 1e-9 };
        let slack = if f32 { 0.02 } else { 1e-4 };
        let (mut lo, mut hi) = ([f64::MAX; 3], [f64::MIN; 3]);
        for corner in 0..8 {
            let v = [0, 1, 2].map(|c| if corner >> c & 1 == 0 { b[c].0 - tc } else { b[c].1 + tc });
            let r = to_rgb(v);
            for c in 0..3 {
                lo[c] = lo[c].min(r[c]);
                hi[c] = hi[c].max(r[c]);
            }
        }
        let amb = if b[..3].iter().any(|x| x.0 != x.1) { 0.5 } else { 0.0 };
        let got = [rgb.0, rgb.1, rgb.2];
        (0..3).all(|c| got[c] as f64 >= (lo[c] - slack - amb).round() && got[c] as f64 <= (hi[c] + slack + amb).round())
    }
}

// ------------------------------------------------------------------------------------------ graphs
/// The ascending edge weights of a minimum spanning tree (Kruskal).
pub fn mst_weights(n: usize, w: &dyn Fn(usize, usize) -> f64) -> Vec<f64> {
    let mut e: Vec<(f64, usize, usize)> = (0..n).flat_map(|v| (0..v).map(move |u| (u, v))).map(|(u, v)| (w(u, v), u, v)).collect();
    e.sort_by(|a, b| a.0.total_cmp(&b.0));
    let mut uf = Uf::new(n);
    e.into_iter().filter(|(_, u, v)| uf.union(*u, *v)).map(|x| x.0).collect()
}
pub struct Uf(Vec<usize>);
impl Uf {
    pub fn new(n: usize) -> Self {
        Uf((0..n).collect())
    }
    pub fn find(&mut self, x: usize) -> usize {
        let mut x = x;
        while self.0[x] != x {
            self.0[x] = self.0[self.0[x]];
            x = self.0[x];
        }
        x
    }
    pub fn union(&mut self, a: usize, b: usize) -> bool {
        let (a, b) = (self.find(a), self.find(b));
        self.0[a] = b;
        a != b
    }
}
/// Are the labels a partition left by removing the k-1 heaviest edges of some minimum spanning tree?
pub fn linkage(n: usize, k: usize, mst: &[f64], w: &dyn Fn(usize, usize) -> f64, labels: &[usize]) -> Result<(), String> {
    if labels.len() != n { return Err(format!("{} labels for {n} samples", labels.len())); }
    let mut used = vec![false; k];
    for &l in labels {
        if l >= k { return Err(format!("label {l} with k={k}")); }
        used[l] = true;
    }
    if used.iter().any(|u| !u) { return Err(format!("k={k} but only {} labels are used", used.iter().filter(|u| **u).count())); }
    // n-k edges are kept; the last of them decides the threshold
    if k == n { return Ok(()); }
    let t = mst[n - k - 1];
    let mut inner = Uf::new(n);
    for v in 0..n {
        for u in 0..v {
            let x = w(u, v);
            if x < t && labels[u] != labels[v] {
                return Err(format!("k={k}: samples {u} and {v} at distance {x} < {t} are split"));
            }
            if x <= t && labels[u] == labels[v] { inner.union(u, v); }
        }
    }
    let mut root = vec![usize::MAX; k];
    for i in 0..n {
        let r = inner.find(i);
        if root[labels[i]] == usize::MAX { root[labels[i]] = r; }
        if root[labels[i]] != r {
            return Err(format!("k={k}: label {} joins samples that are only linked by more than {t}", labels[i]));
        }
    }
    Ok(())
}
