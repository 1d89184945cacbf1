//! Checks for the modules that the official build compiles on their own
//! (`maybe`, `errors`, `uendo`, `multicore`), included here the same way.
#![allow(clippy::type_complexity)]
extern crate alloc;

#[allow(dead_code)]
#[path = "/repo/crates/ragu_core/src/errors.rs"]
mod errors;
#[path = "/repo/crates/ragu_core/src/maybe/mod.rs"]
pub mod maybe;
#[allow(dead_code)]
#[path = "/repo/crates/ragu_arithmetic/src/multicore.rs"]
mod multicore;
#[allow(dead_code)]
#[path = "/repo/crates/ragu_arithmetic/src/uendo.rs"]
mod uendo;

mod c_cast;
mod c_errors;
mod c_maybe;
mod c_multicore;
mod c_uendo;
mod tracked;

/// Runs in a pool of its own size.
pub fn in_pool<T: Send>(threads: usize, f: impl FnOnce() -> T + Send) -> T {
    use std::collections::HashMap;
    use std::sync::{Arc, Mutex};
    static POOLS: Mutex<Option<HashMap<usize, Arc<rayon::ThreadPool>>>> = Mutex::new(None);
    let pool = POOLS
        .lock()
        .unwrap()
        .get_or_insert_default()
        .entry(threads)
        .or_insert_with(|| rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().into())
        .clone();
    pool.install(f)
}

fn main() {
    vlib::main(vec![c_maybe::prop(), c_cast::prop(), c_errors::prop(), c_uendo::prop(), c_multicore::prop()]);
}
