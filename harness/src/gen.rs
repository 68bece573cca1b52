//! Swarm generators: every run draws its own mix of inputs, histories, schedules and faults.
use crate::prng::Rng;
use crate::spec::*;

// ------------------------------------------------------------------------------------------ images
fn color(r: &mut Rng) -> [u8; 4] {
    match r.below(8) {
        0 => *r.pick(&[[0, 0, 0, 255], [255, 255, 255, 255], [255, 0, 0, 255], [0, 255, 0, 255], [0, 0, 255, 255], [255, 255, 0, 255], [0, 255, 255, 255], [255, 0, 255, 255], [0, 0, 0, 0], [255, 255, 255, 0]]),
        1 => {
            let g = r.below(256) as u8;
            [g, g, g, 255]
        }
        _ => [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, 255],
    }
}
/// Alpha must not matter.
fn alphas(r: &mut Rng, px: &mut [[u8; 4]]) {
    let n = px.len();
    let a = r.us(0, n);
    let b = r.us(a, n);
    match r.below(6) {
        0 => for p in px.iter_mut() { p[3] = r.below(256) as u8; },
        1 => for p in px.iter_mut() { p[3] = 0; },
        2 => for p in px.iter_mut() { p[3] = *r.pick(&[0, 255]); },
        3 => for p in &mut px[a..b] { p[3] = *r.pick(&[0, 1, 127, 128]); },
        4 => for p in &mut px[a..b] { *p = [0, 0, 0, 0]; },
        _ => for p in px.iter_mut() { if r.chance(1, 5) { *p = [0, 0, 0, 0]; } },
    }
}
fn near_color(r: &mut Rng, c: [u8; 4], d: u64) -> [u8; 4] {
    let mut o = c;
    for x in o.iter_mut().take(3) {
        *x = (*x as i64 + r.below(2 * d + 1) as i64 - d as i64).clamp(0, 255) as u8;
    }
    o
}
fn lerp(a: [u8; 4], b: [u8; 4], t: f64) -> [u8; 4] {
    let mut o = [0, 0, 0, 255];
    for i in 0..3 {
        o[i] = (a[i] as f64 + (b[i] as f64 - a[i] as f64) * t).round().clamp(0.0, 255.0) as u8;
    }
    o
}
/// A strip of n pixels. f32 inputs avoid continuous colours: their distances come too close to the radius.
fn strip(r: &mut Rng, n: usize, discrete: bool) -> Vec<[u8; 4]> {
    let mut v = Vec::with_capacity(n);
    let palette: Vec<[u8; 4]> = (0..r.us(1, 6)).map(|_| color(r)).collect();
    let kind = if discrete { *r.pick(&[0, 0, 1, 1, 2, 3, 6]) } else { r.below(9) };
    match kind {
        0 => {
            // stripes of random lengths
            while v.len() < n {
                let c = *r.pick(&palette);
                let most = if r.chance(1, 3) { n } else { 120 };
                let l = r.us(1, most);
                for _ in 0..l { v.push(c); }
            }
        }
        1 => {
            // groups of exactly the same size, separated by their colour
            let k = r.us(2, 8);
            let cs: Vec<_> = (0..k).map(|_| color(r)).collect();
            for i in 0..n { v.push(cs[(i * k / n).min(k - 1)]); }
        }
        2 => {
            // patterns around the density threshold
            let p = r.us(2, 4);
            let cs: Vec<_> = (0..p).map(|_| color(r)).collect();
            for i in 0..n { v.push(cs[i % p]); }
            if r.chance(1, 2) {
                for _ in 0..r.us(1, 6) {
                    let s = r.us(0, n - 1);
                    let c = *r.pick(&cs);
                    for x in v.iter_mut().skip(s).take(r.us(1, 60)) { *x = c; }
                }
            }
        }
        3 => {
            // stripes with single odd pixels
            let mut c = *r.pick(&palette);
            for i in 0..n {
                if i % 97 == 0 { c = *r.pick(&palette); }
                v.push(if r.chance(1, 15) { color(r) } else { c });
            }
        }
        4 => {
            // gradient, often leaving the sRGB gamut in the mean
            let (a, b) = (color(r), color(r));
            for i in 0..n { v.push(lerp(a, b, i as f64 / n as f64)); }
        }
        5 => {
            // noisy flat areas
            let d = r.range(1, 12);
            let mut c = *r.pick(&palette);
            let seg = r.us(40, n.max(41));
            for i in 0..n {
                if i % seg == 0 { c = *r.pick(&palette); }
                v.push(near_color(r, c, d));
            }
        }
        6 => {
            // close colours side by side: chains and borders in reach of two groups
            let a = color(r);
            let step = r.range(2, 7) as i64;
            let mut cs = vec![a];
            for i in 1..r.us(2, 5) as i64 {
                cs.push([(a[0] as i64 + i * step).clamp(0, 255) as u8, (a[1] as i64 - i * step).clamp(0, 255) as u8, (a[2] as i64 + i * step).clamp(0, 255) as u8, 255]);
            }
            while v.len() < n {
                let c = *r.pick(&cs);
                for _ in 0..*r.pick(&[1, 2, 5, 11, 12, 13, 14, 24, 25, 26, 30, 60, 200]) { v.push(c); }
            }
        }
        7 => {
            // smooth random walk
            let mut c = color(r);
            let d = r.range(1, 4);
            for _ in 0..n {
                v.push(c);
                c = near_color(r, c, d);
            }
        }
        _ => for _ in 0..n { v.push(color(r)); },
    }
    v.truncate(n);
    if r.chance(1, 4) {
        alphas(r, &mut v);
    }
    v
}
/// Runs of exactly as many pixels as a dense neighbourhood needs, so that only the middle of each run is dense:
/// a single missing or additional neighbour changes the palette. Needs 481 to 519 pixels (radius 12).
fn fragile(r: &mut Rng, n: usize) -> Vec<[u8; 4]> {
    let mut v = vec![];
    while v.len() < n {
        for _ in 0..*r.pick(&[0, 0, 1, 3]) { v.push(color(r)); }
        let c = color(r);
        for _ in 0..*r.pick(&[25, 25, 25, 25, 24, 26, 27, 13]) { v.push(c); }
    }
    v.truncate(n);
    v
}
fn odd_size(r: &mut Rng, lo: usize, hi: usize) -> usize {
    loop {
        let n = r.us(lo, hi);
        // the radius 0.025 would fall exactly on a pixel distance
        if n % 40 != 0 { return n; }
    }
}
/// An image that can form groups: a few rows (or columns) of at least 480 pixels.
pub fn image(r: &mut Rng, discrete: bool, max: usize) -> Image {
    if r.chance(1, 8) {
        let n = r.us(481, 519);
        let row = fragile(r, n);
        return from_rows(r, vec![row]);
    }
    let rows = if r.chance(1, 4) { r.us(2, 4) } else { 1 };
    let n = odd_size(r, 481, (max / rows).max(520));
    let mut rowsv: Vec<Vec<[u8; 4]>> = vec![strip(r, n, discrete)];
    for _ in 1..rows {
        let s = if r.chance(1, 3) { rowsv[0].clone() } else { strip(r, n, discrete) };
        rowsv.push(s);
    }
    from_rows(r, rowsv)
}
fn from_rows(r: &mut Rng, rows: Vec<Vec<[u8; 4]>>) -> Image {
    let (h, w) = (rows.len(), rows[0].len());
    if r.chance(1, 2) {
        let px = (0..w).flat_map(|x| rows.iter().map(move |row| row[x])).collect();
        Image { w: h as u32, h: w as u32, px }
    } else {
        Image { w: w as u32, h: h as u32, px: rows.into_iter().flatten().collect() }
    }
}
/// A two-dimensional image (expensive: more than 12700 pixels are needed to form groups).
pub fn image_2d(r: &mut Rng, discrete: bool) -> Image {
    let (w, h) = if r.chance(1, 2) { (odd_size(r, 118, 150), odd_size(r, 118, 150)) } else {
        // long and narrow, yet every row has near neighbours
        let a = odd_size(r, 41, 110);
        let b = odd_size(r, 13_000 / a + 1, 18_000 / a);
        if r.chance(1, 2) { (a, b) } else { (b, a) }
    };
    let cs: Vec<_> = (0..r.us(1, 5)).map(|_| color(r)).collect();
    let kind = r.below(if discrete { 7 } else { 9 });
    let (fw, fh) = (w as f64, h as f64);
    let (cx, cy, rad) = (fw * (0.2 + 0.6 * r.f()), fh * (0.2 + 0.6 * r.f()), 0.08 + 0.3 * r.f());
    let bar = r.us(3, 40);
    let rects: Vec<_> = (0..r.us(2, 12)).map(|_| { let (x, y) = (r.us(0, w - 1), r.us(0, h - 1)); (x, y, x + r.us(5, w), y + r.us(5, h), r.us(0, 9)) }).collect();
    let corners = [color(r), color(r)];
    let spread = r.range(1, 5);
    let at = |i: usize| (i % w, i / w);
    let mut px: Vec<[u8; 4]> = (0..w * h).map(|i| {
        let (x, y) = at(i);
        let d = ((x as f64 - cx) / fw).hypot((y as f64 - cy) / fh);
        let c = match kind {
            0 => (d < rad) as usize,
            1 => x / bar,
            2 => (x / bar) + (y / bar),
            // rings around the same middle
            3 => (d / (rad * 0.5)) as usize,
            4 => rects.iter().rev().find(|q| x >= q.0 && y >= q.1 && x < q.2 && y < q.3).map_or(0, |q| q.4),
            5 => (x + y) / bar,
            6 => (x * 2 / w) + 2 * (y * 2 / h),
            7 => return lerp(corners[0], corners[1], (x as f64 / fw + y as f64 / fh) / 2.0),
            _ => return near_color(r, cs[(d < rad) as usize % cs.len()], spread),
        };
        cs[c % cs.len()]
    }).collect();
    if r.chance(1, 3) {
        // specks of noise
        for _ in 0..r.us(1, w * h / 20) { let i = r.us(0, w * h - 1); px[i] = color(r); }
    }
    if r.chance(1, 6) { alphas(r, &mut px); }
    Image { w: w as u32, h: h as u32, px }
}
/// Sizes beyond 8 and 16 bits: hundreds of groups, pixels and groups of more than 65535, wide and tall images.
pub fn image_huge(r: &mut Rng, kind: u64) -> Image {
    match kind {
        0 => {
            // more than 256 groups of a few pixels; 24 colours in turn keep them apart
            let cs: Vec<[u8; 4]> = (0..24u64).map(|i| [(i % 3 * 127) as u8, (i / 3 % 3 * 127) as u8, (i / 9 % 3 * 127) as u8, 255]).collect();
            let n = odd_size(r, 8000, 12000);
            let mut row = vec![];
            let mut i = 0;
            while row.len() < n {
                i += 1;
                for _ in 0..r.us(24, 30) { row.push(cs[i % cs.len()]); }
            }
            row.truncate(n);
            from_rows(r, vec![row])
        }
        1 => {
            // few groups in more than 65536 columns or rows of noise
            let n = odd_size(r, 65_600, 70_000);
            let mut row: Vec<[u8; 4]> = (0..n).map(|_| [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, 255]).collect();
            for _ in 0..r.us(1, 12) {
                let c = color(r);
                let (s, l) = (r.us(0, n - 1), r.us(20, 200));
                for x in row.iter_mut().skip(s).take(l) { *x = c; }
            }
            let c = color(r);
            for x in row.iter_mut().skip(n - r.us(30, 90)) { *x = c; }
            from_rows(r, vec![row])
        }
        3 => {
            // one colour: a single group of more than 65536 pixels
            let (w, h) = if r.chance(1, 2) { (odd_size(r, 257, 270), odd_size(r, 257, 270)) } else { (odd_size(r, 306, 325), odd_size(r, 306, 325)) };
            let c = color(r);
            let mut px = vec![c; w * h];
            for _ in 0..r.us(0, 40) { let i = r.us(0, w * h - 1); px[i] = color(r); }
            Image { w: w as u32, h: h as u32, px }
        }
        _ => {
            // a wide strip in two or three colours
            let n = odd_size(r, 2000, 4000);
            let row = strip(r, n, true);
            from_rows(r, vec![row])
        }
    }
}
/// Every batch has one very large group, one very wide image, one very tall one and one with hundreds of groups.
fn huge_for(r: &mut Rng, index: u64) -> Image {
    let mut im = match index {
        0 => image_huge(r, 3),
        1 | 2 => image_huge(r, 1),
        3 => image_huge(r, 0),
        _ => { let k = r.below(3); image_huge(r, k) }
    };
    if (index == 1 && im.h > im.w) || (index == 2 && im.w > im.h) { std::mem::swap(&mut im.w, &mut im.h); }
    im
}
fn small(r: &mut Rng) -> Image {
    match r.below(8) {
        0 => Image { w: 0, h: 0, px: vec![] },
        1 => Image { w: 1, h: 1, px: vec![color(r)] },
        2 => Image { w: 0, h: r.below(9) as u32, px: vec![] },
        3 => Image { w: r.below(9) as u32, h: 0, px: vec![] },
        _ => {
            let (w, h) = (r.us(1, 24), r.us(1, 12));
            Image { w: w as u32, h: h as u32, px: (0..w * h).map(|_| color(r)).collect() }
        }
    }
}
/// Images that differ from `base` only a little: what a wrong cache key would confuse.
fn sibling(r: &mut Rng, base: &Image) -> Image {
    let mut im = base.clone();
    if im.px.is_empty() { return im; }
    match r.below(6) {
        0 => std::mem::swap(&mut im.w, &mut im.h),
        1 => {
            let i = r.us(0, im.px.len() - 1);
            im.px[i] = color(r);
        }
        2 => im.px.reverse(),
        3 => {
            let c = color(r);
            let from = r.us(0, im.px.len() - 1);
            for p in im.px.iter_mut().skip(from) { *p = c; }
        }
        4 => for p in im.px.iter_mut() { p.swap(0, 2); },
        _ => {
            // same first and last pixels, other middle
            let n = im.px.len();
            let c = color(r);
            for p in im.px.iter_mut().skip(n / 4).take(n / 2) { *p = c; }
        }
    }
    im
}

// ------------------------------------------------------------------------------------------ environments
pub fn env(r: &mut Rng) -> Env {
    Env {
        entropy: r.next(),
        key_mode: *r.pick(&[0, 0, 0, 0, 1, 2, 3]),
        entropy_faults: *r.pick(&[0, 0, 1, 3]),
        clock_base: r.below(1 << 50),
        clock_jumps: *r.pick(&[0, 1, 4]),
        cpus: *r.pick(&[1, 1, 2, 3, 4, 8, 16, 64, 128]),
        arena_off: r.below(4096),
        junk: if r.chance(1, 3) { 0 } else { r.next() },
        reuse: r.below(3) as u8,
        vars: if r.chance(1, 2) { 0 } else { r.range(1, 5) as u8 },
        device: if r.chance(1, 2) { 0 } else { r.range(1, 4) as u8 },
    }
}
pub fn sched(r: &mut Rng, busy: bool) -> Sched {
    Sched {
        seed: r.next(),
        mean_gap: if busy { r.log(16, 1 << 20) } else { 0 },
        max_switches: *r.pick(&[4, 30, 300, 1500]),
        spurious: *r.pick(&[0, 0, 3]),
        rare: if busy { *r.pick(&[0, 1, 2, 5, 20, 100, 1000]) } else { 0 },
        rare_hits: *r.pick(&[1, 3, 10, 60, 250]),
        focus: if busy { *r.pick(&[0, 0, 10, 30, 100, 300]) } else { 0 },
        replay: None,
    }
}
fn stalls(r: &mut Rng, threads: usize, span: u64) -> (Vec<(usize, u64)>, Vec<(usize, u64)>) {
    if threads < 2 || r.chance(1, 3) { return (vec![], vec![]); }
    if r.chance(1, 2) { return (vec![], vec![(r.us(0, threads - 1), r.log(1, 4000))]); }
    ((0..r.us(1, 2)).map(|_| (r.us(0, threads - 1), r.log(1, span))).collect(), vec![])
}
fn extract(r: &mut Rng, img: usize, f32: bool) -> Op {
    Op::Extract { img, f32, via: r.below(3) as u8, bad: 0, cut: 0 }
}
fn broken(r: &mut Rng, img: usize) -> Op {
    Op::Extract { img, f32: r.chance(1, 3), via: if r.chance(1, 2) { 0 } else { 2 }, bad: r.range(1, 2) as u8, cut: r.range(1, 30) as u32 }
}

/// How many tiny calls make a long history: now and then more than 8 or 16 bits can count.
fn many(r: &mut Rng, deep: bool) -> usize {
    match r.below(if deep { 30 } else { 60 }) {
        0 => r.us(65_525, 65_535),
        1..=6 => r.us(300, 9000),
        7..=25 => r.us(246, 254),
        _ => r.us(20, 300),
    }
}
/// Numbers of calls around 256, in any order.
fn gaps(r: &mut Rng) -> Vec<usize> {
    let mut v: Vec<usize> = (252..=257).collect();
    for i in (1..v.len()).rev() { let j = r.us(0, i); v.swap(i, j); }
    v
}
fn tiny(r: &mut Rng) -> Image {
    let (w, h) = *r.pick(&[(1, 1), (1, 1), (2, 1), (1, 3), (0, 0)]);
    Image { w, h, px: (0..w * h).map(|_| color(r)).collect() }
}

/// Callers that make many short calls, failing ones among them, and are interrupted all the time.
fn storm(r: &mut Rng, s: &mut Spec) -> Universe {
    let at = s.images.len();
    for _ in 0..2 { let (w, h) = *r.pick(&[(1, 1), (2, 1), (1, 3), (3, 3), (0, 0)]); s.images.push(Image { w, h, px: (0..w * h).map(|_| color(r)).collect() }); }
    let nt = r.us(2, 4);
    let fails = *r.pick(&[1, 2, 2, 4]);
    let threads = (0..nt).map(|_| (0..r.us(5, 60)).map(|_| {
        let i = at + r.us(0, 1);
        let f = r.chance(1, 3);
        if r.chance(1, fails) { Op::Extract { img: i, f32: f, via: *r.pick(&[0, 2]), bad: if r.chance(1, 4) { 2 } else { 1 }, cut: r.range(1, 3) as u32 } } else { extract(r, i, f) }
    }).collect()).collect();
    let mut sc = sched(r, true);
    sc.mean_gap = r.log(4, 2000);
    sc.max_switches = 4000;
    sc.rare = *r.pick(&[1, 2, 4]);
    sc.focus = *r.pick(&[5, 20, 60, 200]);
    let st = stalls(r, nt, 3000);
    Universe { threads, env: env(r), sched: sc, faults: Faults { stalls: st.0, rare_stalls: st.1, oom: None }, ..Default::default() }
}
/// Many short-lived callers, one after the other or all at once, with few calls each. A few of them, whose numbers are
/// apart by a power of two or at random, extract from the given images.
fn crowd(r: &mut Rng, s: &mut Spec, big: &[(usize, bool)]) -> Universe {
    let at = s.images.len();
    for _ in 0..2 { let x = tiny(r); s.images.push(x); }
    let n = *r.pick(&[17, 33, 65, 130, 140, 260, 270, 300]);
    let fails = *r.pick(&[0, 0, 8, 3]);
    let mut threads: Vec<Vec<Op>> = (0..n).map(|_| (0..r.us(1, 2)).map(|_| {
        let i = at + r.us(0, 1);
        if fails > 0 && r.chance(1, fails) { broken(r, i) } else { let f = r.chance(1, 3); extract(r, i, f) }
    }).collect()).collect();
    let mut p = r.us(0, 15);
    let first = p;
    let last = big.len().min(r.us(1, 4));
    for k in 0..last {
        let b = big[if r.chance(1, 2) { 0 } else { k % big.len() }];
        threads[p] = vec![extract(r, b.0, b.1)];
        p = if r.chance(1, 2) { first + (1 << r.us(0, 8)) } else { r.us(0, n - 1) } % n;
    }
    let together = r.chance(1, 2);
    let mut sc = sched(r, together);
    if together {
        sc.mean_gap = r.log(16, 20_000);
        sc.max_switches = *r.pick(&[300, 1500, 4000]);
    }
    Universe { threads, env: env(r), sched: sc, stack: 256, ..Default::default() }
}
/// Callers that extract from the given images; some of the calls fail.
fn callers(r: &mut Rng, nt: usize, per: usize, good: &[(usize, bool)], noise: &[usize]) -> Vec<Vec<Op>> {
    (0..nt).map(|_| {
        let mut v = vec![];
        for _ in 0..r.us(1, per) {
            if r.chance(1, 6) {
                let i = *r.pick(noise);
                v.push(broken(r, i));
            }
            let g = *r.pick(good);
            v.push(extract(r, g.0, g.1));
            if r.chance(1, 8) { let l = v.last().unwrap().clone(); v.push(l); }
        }
        v
    }).collect()
}

// ------------------------------------------------------------------------------------------ specs
pub fn generate(prop: &str, r: &mut Rng, deep: bool, index: u64) -> Spec {
    let mut s = Spec { property: prop.into(), ..Default::default() };
    let max = if deep { 1600 } else { 1000 };
    match prop {
        "C01" => {
            let f32 = r.chance(1, 3);
            s.images.push(if r.chance(1, if deep { 25 } else { 120 }) { image_2d(r, false) } else if r.chance(1, 250) { let k = r.below(3); image_huge(r, k) } else { image(r, false, max) });
            let sib = sibling(r, &s.images[0]);
            s.images.push(sib);
            s.images.push(small(r));
            s.images.push(if r.chance(1, 2) { image(r, false, max) } else { small(r) });
            s.universes.push(Universe { threads: vec![vec![Op::Extract { img: 0, f32, via: 0, bad: 0, cut: 0 }]], ..Default::default() });
            // a history before the call
            let mut h = vec![];
            for _ in 0..r.us(1, 5) {
                let i = r.us(1, 3);
                if r.chance(1, 3) { h.push(broken(r, i)); } else { let g = r.chance(1, 3); h.push(extract(r, i, g)); }
            }
            if r.chance(1, 4) {
                let n = many(r, deep);
                if n > 200 && r.chance(3, 4) { h.push(extract(r, 0, f32)); }
                s.images.push(tiny(r));
                let bad = *r.pick(&[0, 0, 2, 10]);
                for _ in 0..n {
                    let g = r.chance(1, 3);
                    h.push(if bad > 0 && r.chance(1, bad) { broken(r, 4) } else { extract(r, 4, g) });
                }
            }
            if r.chance(1, 10) && s.images[0].px.len() < 5000 {
                // the same question again after every number of calls at which a byte may come round
                let i = s.images.len();
                s.images.push(tiny(r));
                let g = r.chance(1, 3);
                for n in gaps(r) {
                    h.push(extract(r, 0, f32));
                    for _ in 0..n { h.push(extract(r, i, g)); }
                }
            }
            if r.chance(1, 2) { h.push(extract(r, 0, !f32)); }
            // around the 256th (or 65536th) call, whatever was there before meets itself again
            let again = if h.len() > 200 && r.chance(3, 4) && s.images[0].px.len() < 5000 { 8 } else { 2 };
            for _ in 0..again { h.push(extract(r, 0, f32)); }
            s.universes.push(Universe { threads: vec![h], env: env(r), ..Default::default() });
            // other threads at the same time
            let nt = r.us(2, 3);
            let good = [(0, f32), (0, f32), (1, f32), (0, !f32), (3, f32)];
            let threads = callers(r, nt, if s.images[0].px.len() > 5000 { 1 } else { 2 }, &good, &[1, 2, 3]);
            let st = stalls(r, nt, 1 << 22);
            s.universes.push(Universe { threads, env: env(r), sched: sched(r, true), faults: Faults { stalls: st.0, rare_stalls: st.1, oom: None }, ..Default::default() });
            s.universes.push(Universe { threads: vec![vec![extract(r, 0, f32)]], env: env(r), ..Default::default() });
            if r.chance(1, 12) && s.images.iter().all(|i| i.px.len() < 5000) {
                let u = crowd(r, &mut s, &[(0, f32), (1, f32), (0, f32), (3, f32)]);
                s.universes.push(u);
            }
        }
        "C02" | "C03" | "C04" => {
            let f32 = r.chance(1, 3);
            let huge = index < 8 || r.chance(1, 250);
            let big = huge || r.chance(1, if deep { 25 } else { 60 });
            if big {
                s.images.push(if huge { huge_for(r, index) } else { image_2d(r, f32) });
            } else {
                for _ in 0..r.us(1, 3) { s.images.push(image(r, f32, max)); }
                if r.chance(1, 2) { let x = sibling(r, &s.images[0]); s.images.push(x); }
            }
            let n = s.images.len();
            s.images.push(small(r));
            let nt = if big { 1 } else { *r.pick(&[1, 1, 2, 3]) };
            let mut good: Vec<(usize, bool)> = (0..n).map(|i| (i, f32)).collect();
            if huge { good = vec![(n, f32)]; }
            if r.chance(1, 3) { good.push((n, f32)); }
            if !f32 && r.chance(1, 8) && !huge { good.push((0, true)); }
            let noise: Vec<usize> = (0..=n).collect();
            let mut threads = callers(r, nt, if big { 1 } else { 3 }, &good, &noise);
            // every image at least once
            for i in 0..n { let t = r.us(0, nt - 1); threads[t].push(extract(r, i, f32)); }
            let st = stalls(r, nt, 1 << 22);
            s.universes.push(Universe { threads, env: env(r), sched: sched(r, nt > 1), faults: Faults { stalls: st.0, rare_stalls: st.1, oom: None }, ..Default::default() });
        }
        "C05" => {
            for _ in 0..r.us(1, 2) { s.images.push(image(r, false, max.min(900))); }
            let x = sibling(r, &s.images[0]);
            s.images.push(x);
            s.images.push(small(r));
            let n = s.images.len();
            let mut good = vec![];
            for i in 0..n { for f in [false, true] { if good.is_empty() || r.chance(1, 2) { good.push((i, f)); } } }
            for g in &good {
                s.universes.push(Universe { threads: vec![vec![Op::Extract { img: g.0, f32: g.1, via: 0, bad: 0, cut: 0 }]], ..Default::default() });
            }
            let all: Vec<usize> = (0..n).collect();
            for _ in 0..2 {
                let nt = if r.chance(1, 10) { r.us(5, 8) } else { r.us(2, 4) };
                let per = if r.chance(1, 10) { 10 } else { 2 };
                let mut threads = callers(r, nt, per, &good, &all);
                if r.chance(1, 12) {
                    let i = s.images.len();
                    s.images.push(tiny(r));
                    let t = r.us(0, nt - 1);
                    let (f, n) = (r.chance(1, 2), many(r, deep).min(9000));
                    s.universes.push(Universe { threads: vec![vec![extract(r, i, f)]], ..Default::default() });
                    threads[t].splice(0..0, (0..n).map(|j| if j % 11 == 3 { broken(r, i) } else { extract(r, i, f) }).collect::<Vec<_>>());
                }
                // operations on the failing side, too
                if r.chance(1, 2) { let i = r.us(0, n - 1); threads[0].insert(0, broken(r, i)); }
                let st = stalls(r, nt, 1 << 22);
                s.universes.push(Universe { threads, env: env(r), sched: sched(r, true), faults: Faults { stalls: st.0, rare_stalls: st.1, oom: None }, ..Default::default() });
            }
            if r.chance(1, 4) { let u = storm(r, &mut s); s.universes.push(u); }
            if r.chance(1, 12) { let u = crowd(r, &mut s, &good); s.universes.push(u); }
        }
        "C06" => {
            let huge = index < 8 || r.chance(1, 120);
            let big = huge || r.chance(1, if deep { 15 } else { 60 });
            let n = r.us(1, 3);
            for _ in 0..n {
                let x = if huge { huge_for(r, index) } else if big { image_2d(r, false) } else if r.chance(1, 4) { small(r) } else if r.chance(1, 20) { image(r, false, 3 * max) } else { image(r, false, max) };
                s.images.push(x);
                if big { break; }
            }
            let n = s.images.len();
            let nt = if big { 1 } else { *r.pick(&[1, 2, 3, 4]) };
            let good: Vec<(usize, bool)> = (0..n).flat_map(|i| [(i, false), (i, true)]).take(if huge { 1 } else { 9 }).collect();
            let noise: Vec<usize> = (0..n).collect();
            let mut threads = callers(r, nt, if huge { 1 } else { 2 }, &good, &noise);
            if r.chance(1, 8) && !big {
                let i = s.images.len();
                s.images.push(tiny(r));
                for _ in 0..many(r, deep) { let f = r.chance(1, 2); let o = if r.chance(1, 9) { broken(r, i) } else { extract(r, i, f) }; threads[0].push(o); }
            }
            let st = stalls(r, nt, 1 << 22);
            s.universes.push(Universe { threads, env: env(r), sched: sched(r, nt > 1), faults: Faults { stalls: st.0, rare_stalls: st.1, oom: None },
                stack: if (index < 8 && index % 2 == 0) || r.chance(1, if big { 2 } else { 3 }) { 256 } else { 0 }, ..Default::default() });
            if r.chance(1, 4) { let u = storm(r, &mut s); s.universes.push(u); }
            if r.chance(1, 12) && !big { let u = crowd(r, &mut s, &good); s.universes.push(u); }
        }
        "C19" => {
            let st;
            let mut threads: Vec<Vec<Op>>;
            if index < 4 || r.chance(1, 60) {
                // how much at once?
                s.images.push(match index {
                    0 => image_huge(r, 3),
                    // every pixel has many near ones
                    1 => { let n = odd_size(r, 14_000, 18_000); let c = color(r); from_rows(r, vec![vec![c; n]]) }
                    2 => image_huge(r, 1),
                    _ => if r.chance(1, 2) { image_huge(r, 2) } else { image_2d(r, false) },
                });
                threads = vec![vec![Op::Extract { img: 0, f32: r.chance(1, 3), via: 0, bad: 0, cut: 0 }]];
                st = (vec![], vec![]);
            } else if r.chance(1, 6) {
                // short-lived callers, one after the other: what does each of them leave behind?
                for _ in 0..3 { let x = tiny(r); s.images.push(x); }
                if r.chance(1, 4) { let x = image(r, false, 600); s.images.push(x); }
                let n = s.images.len();
                let fails = *r.pick(&[0, 0, 3, 10]);
                threads = (0..r.us(400, 700)).map(|_| (0..r.us(1, 2)).map(|_| {
                    let i = r.us(0, n - 1);
                    let i = if i > 2 && r.chance(9, 10) { 0 } else { i };
                    if fails > 0 && r.chance(1, fails) { broken(r, i) } else { let f = r.chance(1, 3); extract(r, i, f) }
                }).collect()).collect();
                // the largest early
                for t in &mut threads[..20] { for i in 0..n { let f = r.chance(1, 2); t.push(extract(r, i, f)); } }
                st = (vec![], vec![]);
            } else {
                let nt = *r.pick(&[1, 1, 1, 2, 3]);
                let kind = r.below(3);
                match kind {
                    // the same few questions over and over
                    0 => {
                        for _ in 0..r.us(1, 3) { let m = r.us(482, 700); s.images.push(image(r, false, m)); }
                        s.images.push(small(r));
                    }
                    // another image every time
                    1 => {
                        let n = r.us(481, 519);
                        let row = strip(r, n, true);
                        s.images.push(from_rows(r, vec![row]));
                    }
                    _ => for _ in 0..3 { let (w, h) = *r.pick(&[(1, 1), (2, 1), (1, 3), (2, 2)]); let same = r.chance(1, 2); let c = color(r); s.images.push(Image { w, h, px: (0..w * h).map(|_| if same { c } else { color(r) }).collect() }); },
                }
                let n = s.images.len();
                let good: Vec<(usize, bool)> = (0..n).flat_map(|i| [(i, false), (i, true)]).collect();
                let fresh = |r: &mut Rng, i: usize| Op::Extract { img: i, f32: r.chance(1, 3), via: 2, bad: 0, cut: (*r.pick(&[0, 1, 1, 2, 30]) << 24 | (1 + r.below((1 << 24) - 1))) as u32 };
                let fails = *r.pick(&[0, 0, 3, 10]);
                threads = (0..nt).map(|_| {
                    if kind == 0 {
                        let mut b: Vec<Op> = vec![];
                        for g in &good { if b.is_empty() || r.chance(1, 2) { b.push(extract(r, g.0, g.1)); } }
                        if fails > 0 { for _ in 0..r.us(1, 3) { let i = r.us(0, n - 1); b.push(broken(r, i)); } }
                        let times = (80 / b.len()).max(16);
                        (0..times).flat_map(|_| b.clone()).collect()
                    } else {
                        // the largest first
                        let mut v: Vec<Op> = good.iter().map(|g| Op::Extract { img: g.0, f32: g.1, via: 2, bad: 0, cut: 0 }).collect();
                        let m = if kind == 1 { r.us(140, 220) } else { r.us(2400, 3200) };
                        for _ in 0..m / nt {
                            let i = r.us(0, n - 1);
                            v.push(if fails > 0 && r.chance(1, fails) { broken(r, i) } else { fresh(r, i) });
                        }
                        v
                    }
                }).collect();
                st = stalls(r, nt, 1 << 22);
            }
            let nt = threads.len();
            s.universes.push(Universe { threads: std::mem::take(&mut threads), env: env(r), sched: sched(r, nt > 1 && nt < 100), faults: Faults { stalls: st.0, rare_stalls: st.1, oom: None }, ..Default::default() });
        }
        "C20" => {
            for _ in 0..r.us(1, 3) {
                let x = match r.below(10) { 0 | 1 => small(r), 2 => tiny(r), _ => image(r, false, max) };
                s.images.push(x);
            }
            if index < 4 { s.images = vec![huge_for(r, index)]; } else if r.chance(1, 100) { s.images = vec![image_2d(r, false)]; }
            let big = s.images[0].px.len() > 5000;
            let n = s.images.len();
            let nt = if big { 1 } else { *r.pick(&[1, 1, 2, 3, 4]) };
            let good: Vec<(usize, bool)> = (0..n).flat_map(|i| [(i, false), (i, true)]).take(if big { 1 } else { 9 }).collect();
            let noise: Vec<usize> = (0..n).collect();
            let mut threads = callers(r, nt, if big { 1 } else { 3 }, &good, &noise);
            if r.chance(1, 8) && !big {
                let i = s.images.len();
                s.images.push(tiny(r));
                for _ in 0..many(r, deep) { let f = r.chance(1, 2); let o = if r.chance(1, 9) { broken(r, i) } else { extract(r, i, f) }; threads[0].push(o); }
            }
            let st = stalls(r, nt, 1 << 22);
            s.universes.push(Universe { threads, env: env(r), sched: sched(r, nt > 1), faults: Faults { stalls: st.0, rare_stalls: st.1, oom: None }, ..Default::default() });
            if r.chance(1, 2) { let u = storm(r, &mut s); s.universes.push(u); }
        }
        "C07" => {
            let f32 = r.chance(1, 3);
            s.images.push(match r.below(12) {
                0 => small(r),
                1..=4 => {
                    let n = r.us(481, 519);
                    let row = fragile(r, n);
                    from_rows(r, vec![row])
                }
                _ => image(r, false, 700),
            });
            s.images.push(small(r));
            let nt = *r.pick(&[1, 1, 2]);
            let mut threads: Vec<Vec<Op>> = vec![vec![extract(r, 0, f32)]];
            if r.chance(1, 2) { threads[0].push(extract(r, 0, f32)); }
            if r.chance(1, 3) { threads[0].push(extract(r, 1, f32)); }
            if nt == 2 { threads.push(vec![extract(r, 0, f32), extract(r, 1, f32)]); }
            let e = env(r);
            let sc = sched(r, nt > 1);
            s.universes.push(Universe { threads: threads.clone(), env: e.clone(), sched: sc.clone(), ..Default::default() });
            for _ in 0..r.us(4, 8) {
                let t = r.us(0, nt - 1);
                let o = r.us(0, threads[t].len() - 1);
                let mode = *r.pick(&[0, 0, 0, 1, 1, 2, 3]);
                let frac = match r.below(4) {
                    0 => 0,
                    1 => 1_000_000 - r.below(2000),
                    _ => r.below(1_000_000),
                };
                // late and early single allocations matter as much as the bulk in the middle
                let (mut lo, mut hi, mut growth) = (0, 0, false);
                let mut filtered = false;
                if mode != 2 && r.chance(1, 2) {
                    // only one kind of container fails: a size class, or memory that has to grow
                    filtered = true;
                    growth = r.chance(1, 2);
                    if !growth || r.chance(1, 2) {
                        lo = r.log(16, 1 << 14);
                        hi = if r.chance(1, 2) { lo * 2 } else { 0 };
                    }
                }
                let mode = if mode < 2 && r.chance(1, 5) { 4 } else { mode };
                let at = if filtered { if r.chance(1, 3) { 1 } else { r.log(1, 4000) } } else if mode == 2 { 1 << r.range(6, 16) } else if mode == 3 { 1 << r.range(2, 16) } else if r.chance(1, 4) { r.range(1, 40) } else { 0 };
                s.universes.push(Universe { threads: threads.clone(), env: e.clone(), sched: sc.clone(),
                    faults: Faults { stalls: vec![], rare_stalls: vec![], oom: Some(Oom { thread: t, op: o, frac, at, mode, lo, hi, growth }) }, ..Default::default() });
            }
        }
        _ => internal(prop, r, deep, &mut s, index),
    }
    s
}

// ------------------------------------------------------------------------------------------ internals
/// Points on a grid of multiples of a power of two: squared distances are exact in f32 and f64.
fn data(r: &mut Rng, n: usize, span: u64, real: bool) -> Data {
    let dim = *r.pick(&[2, 2, 3, 5]);
    let scale = *r.pick(&[1.0, 1.0, 0.125, 8.0, 1.0 / 1024.0]);
    let off = *r.pick(&[0i64, 0, -3, 40]) * span as i64;
    let kind = r.below(6);
    let centers: Vec<Vec<i64>> = (0..r.us(1, 5)).map(|_| (0..dim).map(|_| r.below(span) as i64).collect()).collect();
    let spread = r.log(1, span.max(2)) as i64;
    let step = r.range(1, 3) as i64;
    let pts: Vec<Vec<i64>> = (0..n).map(|i| match kind {
        0 | 1 => (0..dim).map(|_| r.below(span) as i64).collect(),
        2 | 3 => {
            let c = r.pick(&centers).clone();
            c.iter().map(|x| x + r.below(spread as u64 / 4 + 1) as i64).collect()
        }
        4 => r.pick(&centers).clone(), // duplicates only
        _ => {
            // a line: equal gaps everywhere
            let mut p = vec![0; dim];
            p[0] = i as i64 * step;
            p
        }
    }).collect();
    let mut pts: Vec<Vec<f64>> = pts.into_iter().map(|p| p.into_iter().map(|x| (x + off) as f64 * scale).collect()).collect();
    // in any order
    for i in (1..pts.len()).rev() { pts.swap(i, r.us(0, i)); }
    let real = real && r.chance(1, 3);
    if real {
        // equal coordinates stay equal, but nothing adds up exactly any more
        let (m, c) = (0.01 + r.f() * *r.pick(&[0.01, 1.0, 1000.0]), r.f());
        let noise = *r.pick(&[0.0, 0.0, 1e-9, 0.3]);
        for p in pts.iter_mut() { for x in p.iter_mut() { *x = *x * m + c + noise * r.f(); } }
    }
    Data { dim, pts, real }
}
fn stream(r: &mut Rng, faulty: bool) -> Stream {
    let mut s = Stream { seed: r.next(), stuck: 0, stuck_value: 0, poor: 0, fail_at: 0, shared: false };
    if faulty && r.chance(1, 2) {
        s.stuck = *r.pick(&[0, 1, 3, 20, 300]);
        s.stuck_value = *r.pick(&[0, u64::MAX, 1, 1 << 63, r.0]);
        s.poor = *r.pick(&[0, 5, 100]);
    }
    s
}
fn weights(r: &mut Rng, max: usize) -> Weights {
    let n = match r.below(24) { 0 | 1 | 2 => r.us(1, 3), 3 => if r.chance(1, 6) { r.us(257, 500) } else { r.us(2, 3 * max) }, _ => r.us(2, max) };
    Weights { n, seed: r.next(), levels: *r.pick(&[1, 2, 3, 8, 50, 300]), kind: *r.pick(&[0, 1, 2, 3, 4, 6, 7, 7, 8]), explicit: vec![] }
}
/// Weights that differ only a little: what a wrong cache key would confuse.
fn sibling_weights(r: &mut Rng, w: &Weights) -> Weights {
    let mut o = w.clone();
    match r.below(6) {
        0 => o.seed = r.next(),
        c if c > 1 && w.n >= 3 && w.n <= 60 => {
            o.kind = 5;
            let (x, y) = (r.us(0, w.n - 1), r.us(0, w.n - 1));
            let other = |v: usize| if c > 3 { v } else if v == x { y } else if v == y { x } else { v };
            o.explicit = (0..w.n).flat_map(|v| (0..v).map(move |u| (u, v))).map(|(u, v)| w.weight(other(u), other(v))).collect();
            if c > 3 {
                // not the heaviest ones, so that both look alike from above
                let limit = if c == 4 { f64::INFINITY } else { let mut v = o.explicit.clone(); v.sort_by(f64::total_cmp); v[v.len() / 2] };
                for _ in 0..r.us(1, 4) {
                    let (a, b) = (r.us(0, o.explicit.len() - 1), r.us(0, o.explicit.len() - 1));
                    if o.explicit[a].max(o.explicit[b]) <= limit { o.explicit.swap(a, b); }
                }
            }
        }
        _ => o.n += 1,
    }
    if o.kind == 5 && o.explicit.len() < o.n * (o.n - 1) / 2 { o.n -= 1; }
    o
}
fn sibling_data(r: &mut Rng, d: &Data) -> Data {
    let mut o = d.clone();
    if o.pts.is_empty() { return o; }
    match r.below(4) {
        0 => o.pts.reverse(),
        1 => { let (a, b) = (r.us(0, o.pts.len() - 1), r.us(0, o.pts.len() - 1)); o.pts[a] = o.pts[b].clone(); }
        2 => for p in o.pts.iter_mut() { p.swap(0, 1); },
        _ => { let n = o.pts.len(); let a = r.us(0, n - 1); o.pts.rotate_left(a); }
    }
    o
}
fn split(r: &mut Rng, ops: Vec<Op>, nt: usize) -> Vec<Vec<Op>> {
    let mut t = vec![vec![]; nt];
    for o in ops { let i = r.us(0, nt - 1); t[i].push(o); }
    t.retain(|x| !x.is_empty());
    t
}
fn gap_of(nt: usize, r: &mut Rng) -> Sched {
    let mut s = sched(r, nt > 1);
    if nt > 1 { s.mean_gap = r.log(4, 20_000); }
    s
}

fn many_samples(prop: &str, r: &mut Rng, s: &mut Spec) {
    let n = r.us(65_600, 70_000);
    let span = *r.pick(&[40, 300, 1000]);
    if prop == "C15" {
        // few neighbours for each
        let dim = r.us(2, 3);
        let side = if dim == 2 { r.range(260, 500) } else { r.range(42, 60) };
        s.data.push(Data { dim, pts: (0..n).map(|_| (0..dim).map(|_| r.below(side) as f64).collect()).collect(), real: false });
    } else {
        let d = data(r, n, span, false);
        s.data.push(d);
    }
    let (f32, sq, rng) = (r.chance(1, 2), r.chance(1, 2), stream(r, false));
    let k = r.us(2, 5);
    let ops: Vec<Op> = match prop {
        "C08" => [(false, n - 1), (false, k), (true, k)].iter().map(|x| Op::Seeds { data: 0, pp: x.0, k: x.1, sq, f32, times: 1, rng: rng.clone() }).collect(),
        "C09" => vec![Op::Seeds { data: 0, pp: true, k, sq, f32, times: 1, rng }],
        "C10" | "C12" => [1, 2].iter().map(|i| Op::Kmeans { data: 0, pp: r.chance(1, 2), k, sq, f32, iters: *i, tol: 0.025, times: 1 + (prop == "C12") as usize, rng: rng.clone() }).collect(),
        "C11" => (0..4).map(|i| Op::Kmeans { data: 0, pp: false, k, sq, f32, iters: i, tol: 0.025, times: 1, rng: rng.clone() }).collect(),
        _ => vec![Op::Density { data: 0, min: *r.pick(&[1, 3, 5]), eps: *r.pick(&[1.0, 1.0, 2.0]), sq: r.chance(1, 2), f32 }],
    };
    s.universes.push(Universe { threads: vec![ops], env: env(r), ..Default::default() });
}
/// Grid unit of exact data.
fn unit_of(d: &Data) -> Option<f64> {
    [8.0, 1.0, 0.125, 1.0 / 1024.0].into_iter().find(|u| d.pts.iter().flatten().all(|x| (x / u).fract() == 0.0))
}
fn internal(prop: &str, r: &mut Rng, deep: bool, s: &mut Spec, index: u64) {
    // more samples than 16 bits can number
    if index < 2 && !matches!(prop, "C13" | "C14") { return many_samples(prop, r, s); }
    let nt = *r.pick(&[1, 1, 2, 3]);
    let big = if deep { 160 } else { 70 };
    let mut twice = false;
    let mut ops = vec![];
    match prop {
        "C08" | "C10" => {
            let large = r.chance(1, 150);
            for _ in 0..r.us(1, 3) { let n = *r.pick(&[0, 1, 2, 3, 5, 8, 20, big]); let n = if large { r.us(257, 400) } else { r.us(0, n) }; let sp = r.log(1, 200); s.data.push(data(r, n, sp, true)); }
            for _ in 0..if large { 2 } else { r.us(3, 12) } {
                let d = r.us(0, s.data.len() - 1);
                let n = s.data[d].pts.len();
                let k = match r.below(6) { 0 => n, 1 => n + r.us(0, 3), 2 => n.saturating_sub(1), _ => r.us(0, n) };
                let mut rng = stream(r, true);
                rng.shared = r.chance(1, 4);
                let (pp, sq, f32) = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 3));
                if prop == "C08" {
                    ops.push(Op::Seeds { data: d, pp, k, sq, f32, times: r.us(1, 3), rng });
                } else {
                    if r.chance(1, 10) { rng.fail_at = r.range(1, 3) as u32; }
                    ops.push(Op::Kmeans { data: d, pp, k, sq, f32, iters: *r.pick(&[1, 1, 1, 2, 2, 3, 3, 10, 10, 30, 256]), tol: *r.pick(&[0.0, 1e-4, 0.025, 1.0, 50.0, 1e30]), times: r.us(1, 2), rng });
                }
            }
        }
        "C09" => {
            let sp = r.log(2, 300);
            if r.chance(1, 12) {
                // sweep the first seed over independent uniform streams; all samples differ
                let n = r.us(2, 7);
                let d = Data { dim: 2, pts: (0..n).map(|i| vec![(i * i) as f64, i as f64]).collect(), real: false };
                s.data.push(d);
                let (k, sq, f32) = (r.us(1, n - 1), r.chance(1, 2), r.chance(1, 3));
                for _ in 0..50 * n { ops.push(Op::Seeds { data: 0, pp: true, k, sq, f32, times: 1, rng: stream(r, false) }); }
            } else {
                for _ in 0..r.us(1, 2) { let n = if r.chance(1, 100) { r.us(257, 400) } else { r.us(2, big) }; s.data.push(data(r, n, sp, true)); }
                for _ in 0..r.us(3, 10) {
                    let d = r.us(0, s.data.len() - 1);
                    let n = s.data[d].pts.len();
                    let most = if r.chance(1, 8) { n - 1 } else { 40 };
                    let k = r.us(1, (n - 1).min(most));
                    let mut rng = stream(r, true);
                    rng.shared = r.chance(1, 6);
                    ops.push(Op::Seeds { data: d, pp: true, k, sq: r.chance(1, 2), f32: r.chance(1, 3), times: r.us(1, 2), rng });
                }
            }
        }
        "C11" => {
            let large = r.chance(1, 60);
            for _ in 0..r.us(1, 2) { let n = if large { r.us(257, 600) } else if r.chance(1, 3) { r.us(3, 16) } else { r.us(2, big) }; let sp = r.log(2, 300); s.data.push(data(r, n, sp, true)); }
            for _ in 0..if large { 1 } else { r.us(1, 3) } {
                let d = r.us(0, s.data.len() - 1);
                let n = s.data[d].pts.len();
                let k = if large { let m = *r.pick(&[12, 12, 80]); r.us(2, m) } else if r.chance(1, 12) { n } else if r.chance(1, 5) { r.us(1, (n - 1).max(1)) } else { r.us(1, (n - 1).max(1).min(12)) };
                let (pp, sq, f32, rng) = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 4), stream(r, true));
                // often exactly the distance that a centroid may move
                let unit = unit_of(&s.data[d]);
                let tol = if r.chance(1, 3) {
                    let m: f64 = *r.pick(&[0.125, 0.25, 0.5, 0.5, 1.0, 1.0, 1.5, 2.0, 3.0, 5.0]) * unit.unwrap_or(1.0);
                    if sq { m * m } else { m }
                } else { *r.pick(&[0.0, 1e-6, 1e-4, 0.025, 0.5, 2.0, 20.0, 1e30]) };
                let mut limits: Vec<usize> = (0..=if large { r.us(10, 40) } else { r.us(2, 12) }).collect();
                // limits that 8 or 16 bits cannot hold
                if r.chance(1, 8) { limits.extend(if tol > 0.0 && r.chance(1, 2) { [255, 65_535] } else { [254, 255] }.iter().flat_map(|l| [*l, l + 1, l + 2])); }
                let mut chain: Vec<Op> = limits.into_iter().map(|i| Op::Kmeans { data: d, pp, k, sq, f32, iters: i, tol, times: 1, rng: rng.clone() }).collect();
                if r.chance(1, 2) { chain.reverse(); }
                ops.extend(chain);
            }
        }
        "C12" => {
            twice = true;
            for _ in 0..r.us(1, 2) { let n = r.us(2, big); let sp = r.log(2, 300); s.data.push(data(r, n, sp, true)); }
            let mut base = vec![];
            for _ in 0..r.us(1, 4) {
                let d = r.us(0, s.data.len() - 1);
                let n = s.data[d].pts.len();
                let k = r.us(1, n.min(20));
                let (pp, sq, f32, rng) = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 3), stream(r, true));
                base.push(if r.chance(1, 3) {
                    Op::Seeds { data: d, pp, k, sq, f32, times: r.us(1, 3), rng }
                } else {
                    Op::Kmeans { data: d, pp, k, sq, f32, iters: *r.pick(&[1, 3, 10]), tol: *r.pick(&[0.0, 1e-4, 0.5]), times: r.us(1, 3), rng }
                });
            }
            for _ in 0..r.us(2, 10) {
                let mut o = r.pick(&base).clone();
                match &mut o {
                    Op::Seeds { rng, .. } | Op::Kmeans { rng, .. } => match r.below(4) {
                        0 => rng.fail_at = r.range(1, 4) as u32, // cut short
                        1 => rng.seed = r.next(),                // another stream in between
                        _ => {}
                    },
                    _ => {}
                }
                ops.push(o);
            }
            ops.extend(base);
        }
        "C13" | "C14" => {
            twice = r.chance(2, 3);
            for _ in 0..r.us(1, 5) {
                let w = weights(r, big);
                let f32 = r.chance(1, 3);
                let fail_at = |r: &mut Rng, w: &Weights| if r.chance(1, 5) && w.n > 1 { r.range(1, (w.n * w.n / 2) as u64) } else { 0 };
                for _ in 0..r.us(1, 2) {
                    let fail_at = fail_at(r, &w);
                    if prop == "C13" {
                        ops.push(Op::Tree { w: w.clone(), f32, fail_at });
                    } else {
                        let n = w.n;
                        let mut ks: Vec<usize> = match r.below(3) { 0 if n <= 256 => (1..=n).collect(), 1 => vec![1, n], _ => (0..r.us(1, 8)).map(|_| r.us(1, n)).collect() };
                        if r.chance(1, 4) { ks.reverse(); }
                        ops.push(Op::Hier { w: w.clone(), f32, ks, fail_at });
                    }
                }
            }
            if r.chance(1, 3) {
                let mut w = weights(r, 8);
                w.n = 0;
                if prop == "C13" { ops.push(Op::Tree { w, f32: false, fail_at: 0 }); }
            }
        }
        _ => {
            twice = r.chance(1, 2);
            for _ in 0..r.us(1, 3) { let n = *r.pick(&[0, 1, 4, 12, big, 2 * big]); let n = if r.chance(1, 200) { r.log(257, 1200) as usize } else { r.us(0, n) }; let sp = r.log(1, if n > 256 { 600 } else { 60 }); s.data.push(data(r, n, sp, true)); }
            for _ in 0..r.us(2, 8) {
                let d = r.us(0, s.data.len() - 1);
                let sq = r.chance(1, 2);
                // grid unit of the data, so that the radius often falls exactly on a distance
                let unit = if s.data[d].real {
                    // the distance of two points
                    let p = &s.data[d].pts;
                    if p.is_empty() { 1.0 } else {
                        let (a, b) = (r.us(0, p.len() - 1), r.us(0, p.len() - 1));
                        (0..s.data[d].dim).map(|i| (p[a][i] - p[b][i]).powi(2)).sum::<f64>().sqrt() * 0.4
                    }
                } else {
                    unit_of(&s.data[d]).unwrap()
                };
                let m = *r.pick(&[0.0, 1.0, 2.0, 3.0, 5.0, 1.5, 2.5, 10.0, 25.0, 300.0]);
                let eps = if r.chance(1, 20) { -1.0 } else if sq { m * m * unit * unit } else { m * unit };
                let eps = if r.chance(1, 60) { 1e30 } else { eps };
                let n = s.data[d].pts.len();
                let min = if n > 256 && r.chance(1, 2) { r.us(200, 320) } else if r.chance(1, 12) { r.us(9, 300) } else { *r.pick(&[1, 1, 2, 3, 4, 5, 8, 25]) };
                ops.push(Op::Density { data: d, min, eps, sq, f32: r.chance(1, 3) });
            }
        }
    }
    if ops.is_empty() { return; }
    if ops.len() < 60 && r.chance(1, if matches!(prop, "C13" | "C14") { 2 } else { 4 }) {
        // ask about something similar right afterwards
        let i = r.us(0, ops.len() - 1);
        let mut o = ops[i].clone();
        match &mut o {
            Op::Seeds { data, .. } | Op::Kmeans { data, .. } | Op::Density { data, .. } => {
                let d = sibling_data(r, &s.data[*data]);
                *data = s.data.len();
                s.data.push(d);
            }
            Op::Tree { w, fail_at, .. } | Op::Hier { w, fail_at, .. } => {
                *fail_at = 0;
                *w = sibling_weights(r, w);
            }
            Op::Extract { .. } => {}
        }
        if let Op::Hier { ks, .. } = &mut o {
            match r.below(3) { 0 => ks.truncate(1), 1 => *ks = ks.split_off(ks.len().saturating_sub(1)), _ => {} }
        }
        ops.insert(i + 1, o);
        if r.chance(1, 3) { let again = ops[i].clone(); ops.insert(i + 2, again); }
    }
    let mut threads = split(r, ops.clone(), nt);
    if r.chance(1, 100) {
        // a long history of tiny questions first
        let d = s.data.len();
        s.data.push(Data { dim: 2, pts: vec![vec![0.0, 0.0], vec![1.0, 0.0], vec![5.0, 3.0]], real: false });
        let w = Weights { n: 3, seed: 1, levels: 3, kind: 0, explicit: vec![] };
        let (f32, sq, pp) = (r.chance(1, 2), r.chance(1, 2), prop == "C09" || r.chance(1, 2));
        let one = |r: &mut Rng| match prop {
            "C08" | "C09" => Op::Seeds { data: d, pp, k: 2, sq, f32, times: 1, rng: stream(r, false) },
            "C10" | "C11" | "C12" => Op::Kmeans { data: d, pp, k: 2, sq, f32, iters: 1, tol: 0.025, times: 1, rng: stream(r, false) },
            "C13" => Op::Tree { w: w.clone(), f32, fail_at: 0 },
            "C14" => Op::Hier { w: w.clone(), f32, ks: vec![2], fail_at: 0 },
            _ => Op::Density { data: d, min: 2, eps: 2.0, sq, f32 },
        };
        let t = r.us(0, threads.len() - 1);
        let n = many(r, deep);
        // somewhere between the others, so that questions before and after it meet
        let at = r.us(0, threads[t].len());
        if at > 0 && n > 200 {
            let again = threads[t][..at].to_vec();
            threads[t].splice(at..at, again);
        }
        if at > 0 && r.chance(1, 3) {
            let big = threads[t][at - 1].clone();
            let mut v = vec![];
            for n in gaps(r) {
                v.extend((0..n).map(|_| one(r)));
                v.push(big.clone());
            }
            threads[t].splice(at..at, v);
        } else {
            threads[t].splice(at..at, (0..n).map(|_| one(r)).collect::<Vec<_>>());
        }
    }
    let st = stalls(r, threads.len(), 1 << 14);
    let sc = gap_of(threads.len(), r);
    s.universes.push(Universe { threads, env: env(r), sched: sc, faults: Faults { stalls: st.0, rare_stalls: st.1, oom: None }, ..Default::default() });
    if twice {
        // the same questions in another order, in another world
        for i in (1..ops.len()).rev() { let j = r.us(0, i); ops.swap(i, j); }
        let nt = *r.pick(&[1, 2, 3]);
        let threads = split(r, ops, nt);
        let sc = gap_of(threads.len(), r);
        s.universes.push(Universe { threads, env: env(r), sched: sc, ..Default::default() });
    }
}
