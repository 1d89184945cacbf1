mod fft;
mod msm;
mod poly;
use rayon::ThreadPool;
use std::sync::OnceLock;

/// Runs `f` inside a thread pool of the given size.
pub fn in_pool<T: Send>(threads: usize, f: impl FnOnce() -> T + Send) -> T {
    static POOLS: [OnceLock<ThreadPool>; 8] = [const { OnceLock::new() }; 8];
    let i = SIZES.iter().position(|&s| s == threads).unwrap();
    POOLS[i].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap()).install(f)
}
pub const SIZES: [usize; 8] = [1, 2, 3, 4, 5, 8, 16, 40];

fn main() {
    let mut a02 = fft::parallel();
    a02.subs.extend(msm::parallel());
    vlib::main(vec![fft::prop(), msm::prop(), poly::prop(), poly::coeff_prop(), a02]);
}
