//! Instrumented instantiation of the crate-internal components, reached through `--cfg auto_palette_dst`.
use auto_palette::dst_hooks as h;
pub use h::KmeansConfig;
use rand::{Error, RngCore};

/// The simulated random source, as the library sees it.
pub struct SimRng {
    pub state: *mut (),
    pub next: fn(*mut ()) -> u64,
    pub fork: fn(*mut ()) -> *mut (),
}
impl Clone for SimRng {
    fn clone(&self) -> Self {
        SimRng { state: (self.fork)(self.state), next: self.next, fork: self.fork }
    }
}
impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        (self.next)(self.state) as u32
    }
    fn next_u64(&mut self) -> u64 {
        (self.next)(self.state)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = (self.next)(self.state).to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

macro_rules! of {
    ($F:ty, $seeds:ident, $kmeans:ident, $density:ident, $tree:ident, $parts:ident) => {
        #[inline(never)]
        pub fn $seeds(dim: usize, p: &[Vec<$F>], c: &KmeansConfig, rng: SimRng, times: usize) -> Vec<Vec<Vec<$F>>> {
            h::seeds(dim, p, c, rng, times)
        }
        #[inline(never)]
        pub fn $kmeans(dim: usize, p: &[Vec<$F>], c: &KmeansConfig, rng: SimRng, times: usize) -> Vec<Vec<(Vec<$F>, usize)>> {
            h::kmeans(dim, p, c, rng, times)
        }
        #[inline(never)]
        pub fn $density(dim: usize, p: &[Vec<$F>], min: usize, eps: $F, sq: bool) -> (Vec<(Vec<$F>, usize)>, Vec<usize>) {
            h::density(dim, p, min, eps, sq)
        }
        #[inline(never)]
        pub fn $tree(n: usize, w: &dyn Fn(usize, usize) -> $F) -> ($F, Vec<(usize, usize, $F)>) {
            h::spanning_tree(n, w)
        }
        #[inline(never)]
        pub fn $parts(n: usize, ks: &[usize], w: &dyn Fn(usize, usize) -> $F) -> Vec<Vec<usize>> {
            h::partitions(n, ks, w)
        }
    };
}
of!(f64, seeds64, kmeans64, density64, tree64, parts64);
of!(f32, seeds32, kmeans32, density32, tree32, parts32);
