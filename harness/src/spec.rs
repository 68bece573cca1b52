//! A run, written out: everything a universe does is a function of this and the code under test.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Image {
    pub w: u32,
    pub h: u32,
    #[serde(serialize_with = "rle", deserialize_with = "unrle")]
    pub px: Vec<[u8; 4]>,
}
fn rle<S: Serializer>(v: &[[u8; 4]], s: S) -> Result<S::Ok, S::Error> {
    let mut out = String::new();
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && v[j] == v[i] {
            j += 1;
        }
        let p = v[i];
        out += &format!("{}{:02x}{:02x}{:02x}{:02x}", if i == 0 { "" } else { " " }, p[0], p[1], p[2], p[3]);
        if j - i > 1 {
            out += &format!("*{}", j - i);
        }
        i = j;
    }
    s.serialize_str(&out)
}
fn unrle<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<[u8; 4]>, D::Error> {
    let t = String::deserialize(d)?;
    let mut v = vec![];
    for tok in t.split_whitespace() {
        let (c, n) = tok.split_once('*').unwrap_or((tok, "1"));
        let x = u32::from_str_radix(c, 16).map_err(serde::de::Error::custom)?.to_be_bytes();
        for _ in 0..n.parse::<usize>().map_err(serde::de::Error::custom)? {
            v.push(x);
        }
    }
    Ok(v)
}
impl Image {
    pub fn bytes(&self) -> Vec<u8> {
        self.px.iter().flatten().copied().collect()
    }
}

/// Points for the crate-internal clustering components.
#[derive(Clone, Debug, PartialEq, Default, Serialize, Deserialize)]
pub struct Data {
    pub dim: usize,
    pub pts: Vec<Vec<f64>>,
    /// coordinates are arbitrary reals: sums and distances round. Otherwise they are small multiples of a power of
    /// two and all distances are exact, in f32 as well.
    #[serde(default)]
    pub real: bool,
}

/// A simulated random source: a seeded stream, preceded by a faulty phase.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Stream {
    pub seed: u64,
    /// the first `stuck` draws all return this value
    pub stuck: u32,
    pub stuck_value: u64,
    /// the next `poor` draws come from only two values
    pub poor: u32,
    /// the source panics at this draw (counted from 1), 0: never
    pub fail_at: u32,
    /// clones share one state (like a thread-local generator) instead of forking it
    pub shared: bool,
}

/// A symmetric weight callback over n vertices.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Weights {
    pub n: usize,
    pub seed: u64,
    /// number of different weights
    pub levels: u64,
    /// 0 unstructured, 1 squared distance of hidden points on a line, 2 squared distance of hidden points in the
    /// plane, 3 unstructured with negative weights, 4 zero within hidden groups, 5 explicit, 6 arbitrary reals,
    /// 7 a few vertices far from all others, 8 reals of very different magnitudes and signs
    pub kind: u8,
    #[serde(default)]
    pub explicit: Vec<f64>,
}
impl Weights {
    pub fn weight(&self, u: usize, v: usize) -> f64 {
        let (a, b) = (u.min(v) as u64, u.max(v) as u64);
        let h = |x: u64, y: u64| crate::prng::Rng::derive(self.seed, x, y).next();
        let l = self.levels.max(1);
        match self.kind {
            1 => {
                let d = (h(a, 0) % l) as f64 - (h(b, 0) % l) as f64;
                d * d
            }
            2 => {
                let d = (h(a, 0) % l) as f64 - (h(b, 0) % l) as f64;
                let e = (h(a, 1) % l) as f64 - (h(b, 1) % l) as f64;
                d * d + e * e
            }
            3 => (h(a, b) % l) as f64 / 8.0 - (l / 2) as f64 / 8.0,
            4 => if h(a, 7) % 4 == h(b, 7) % 4 { 0.0 } else { 1.0 + (h(a, b) % l) as f64 / 8.0 },
            5 => self.explicit[(b * (b - 1) / 2 + a) as usize],
            6 => (h(a, b) % l) as f64 / 0.7 + (h(a, b) >> 32) as f64 / 7e12,
            7 => (h(a, b) % l) as f64 / 8.0 + [a, b].map(|x| if h(x, 3) % 16 == 0 { (l / 2) as f64 } else { 0.0 }).iter().sum::<f64>(),
            8 => {
                let x = h(a, b);
                let m = 1.0 + (x % 1000) as f64 / 999.0;
                m * 2f64.powi(((x >> 20) % l.min(200)) as i32 - (l.min(200) / 2) as i32) * if x >> 62 == 0 { -1.0 } else { 1.0 }
            }
            _ => (h(a, b) % l) as f64 / 8.0,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// via: 0 fresh image object on the image's buffer, 1 the image object shared by all callers,
    /// 2 the caller's reused buffer (same address for every frame). bad: 0 well-formed, 1 buffer cut by `cut`
    /// bytes, 2 width 0. Well-formed with via 2: a cut other than 0 recolours one, some or
    /// all pixels.
    Extract { img: usize, f32: bool, via: u8, bad: u8, cut: u32 },
    Seeds { data: usize, pp: bool, k: usize, sq: bool, f32: bool, times: usize, rng: Stream },
    Kmeans { data: usize, pp: bool, k: usize, sq: bool, f32: bool, iters: usize, tol: f64, times: usize, rng: Stream },
    /// fail_at: the weight callback panics at this call (from 1), 0: never
    Tree { w: Weights, f32: bool, fail_at: u64 },
    Hier { w: Weights, f32: bool, ks: Vec<usize>, fail_at: u64 },
    Density { data: usize, min: usize, eps: f64, sq: bool, f32: bool },
}

#[derive(Clone, Debug, PartialEq, Default, Serialize, Deserialize)]
pub struct Env {
    pub entropy: u64,
    /// 0 random, 1 all zero, 2 all ones, 3 the same for every thread
    pub key_mode: u8,
    /// 0 none, otherwise about one in n entropy reads is interrupted or short
    pub entropy_faults: u32,
    pub clock_base: u64,
    pub clock_jumps: u32,
    pub cpus: u32,
    pub arena_off: u64,
    pub junk: u64,
    /// 0 LIFO, 1 FIFO, 2 addresses never reused
    pub reuse: u8,
    /// environment variables: 0 none is set, otherwise all are, to 1 "1", 2 "0", 3 "", 4 "true", 5 "64"
    #[serde(default)]
    pub vars: u8,
    /// what output devices do: 0 work, 1 EPIPE, 2 EIO, 3 ENOSPC, 4 short writes
    #[serde(default)]
    pub device: u8,
}

#[derive(Clone, Debug, PartialEq, Default, Serialize, Deserialize)]
pub struct Replay {
    pub first: u16,
    pub preempts: Vec<(u64, u16)>,
    pub forced: Vec<u16>,
    #[serde(default)]
    pub choices: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Default, Serialize, Deserialize)]
pub struct Sched {
    pub seed: u64,
    /// mean number of steps between preemptions, 0: never preempt
    pub mean_gap: u64,
    pub max_switches: u64,
    /// 0 none, otherwise one in n waits wakes up spuriously
    pub spurious: u32,
    /// 0 none, otherwise preempt at one in n rare points: the first executions of a block, and every access to
    /// static memory
    #[serde(default)]
    pub rare: u64,
    /// how many executions of a block are rare
    #[serde(default)]
    pub rare_hits: u8,
    /// 0 none, otherwise one in n blocks (chosen by the seed) is rare however often it runs
    #[serde(default)]
    pub focus: u32,
    /// explicit schedule: overrides the seed
    pub replay: Option<Replay>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Oom {
    /// caller and operation whose allocations fail
    pub thread: usize,
    pub op: usize,
    /// position as a fraction (in 1/1e6) of the fault-free run's allocations, resolved to `at`
    pub frac: u64,
    pub at: u64,
    /// 0 the at-th allocation only, 1 from the at-th on, 2 requests of at least `at` bytes, 3 one in `at`,
    /// 4 a burst of 8 from the at-th on
    pub mode: u8,
    /// only requests of at least `lo` and less than `hi` bytes (0: no limit) are counted and can fail
    #[serde(default)]
    pub lo: u64,
    #[serde(default)]
    pub hi: u64,
    /// only requests that grow existing memory are counted and can fail
    #[serde(default)]
    pub growth: bool,
}

#[derive(Clone, Debug, PartialEq, Default, Serialize, Deserialize)]
pub struct Faults {
    /// (caller, own step) at which the caller stalls until nobody else can run
    pub stalls: Vec<(usize, u64)>,
    /// (caller, rare point) at which the caller stalls
    #[serde(default)]
    pub rare_stalls: Vec<(usize, u64)>,
    pub oom: Option<Oom>,
}

#[derive(Clone, Debug, PartialEq, Default, Serialize, Deserialize)]
pub struct Universe {
    pub threads: Vec<Vec<Op>>,
    pub env: Env,
    pub sched: Sched,
    pub faults: Faults,
    /// stack of every caller in KiB
    pub stack: usize,
    /// own steps an operation may take, 0: the default bound
    pub budget: u64,
}

#[derive(Clone, Debug, PartialEq, Default, Serialize, Deserialize)]
pub struct Spec {
    pub property: String,
    pub origin: String,
    pub images: Vec<Image>,
    pub data: Vec<Data>,
    pub universes: Vec<Universe>,
}
