//! What runs in parallel elsewhere, built to run in order.
#[allow(dead_code)]
#[path = "/repo/crates/ragu_arithmetic/src/multicore.rs"]
mod multicore;
#[path = "../../h_part/src/c_multicore.rs"]
mod c_multicore;
#[allow(dead_code)]
#[path = "../../h_arith/src/fft.rs"]
mod fft;
#[allow(dead_code)]
#[path = "../../h_arith/src/msm.rs"]
mod msm;
use vlib::Sub;

/// There are no pools here: whatever their size, all is done in order.
pub fn in_pool<T: Send>(_: usize, f: impl FnOnce() -> T + Send) -> T {
    f()
}
pub const SIZES: [usize; 8] = [1, 2, 3, 4, 5, 8, 16, 40];

fn main() {
    assert!(cfg!(not(feature = "multicore")));
    const NAMES: [(&str, &str); 10] = [
        ("parallel_map", "serial_map"),
        ("join", "serial_join"),
        ("exactly_once", "serial_once"),
        ("pools", "serial_pools"),
        ("failing_piece", "serial_failing"),
        ("transform", "serial_transform"),
        ("modules", "serial_modules"),
        ("transforms_together", "serial_together"),
        ("sums", "serial_sums"),
        ("affine", "serial_affine"),
    ];
    let mut a02 = c_multicore::prop();
    let all: Vec<Sub> = [a02.subs, fft::prop().subs, fft::parallel().subs, msm::prop().subs].into_iter().flatten().collect();
    a02.subs = all
        .into_iter()
        .filter_map(|mut s| {
            s.name = NAMES.iter().find(|n| n.0 == s.name)?.1;
            s.quick /= 2;
            s.thorough /= 4;
            Some(s)
        })
        .collect();
    assert_eq!(a02.subs.len(), NAMES.len());
    vlib::main(vec![a02]);
}
