use crate::multicore;
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};
#[allow(unused_imports)]
use multicore::IntoParallelIterator;
#[cfg(feature = "multicore")]
use multicore::ParallelIterator;

use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

fn ordered(g: &mut Gen) -> R {
    let n = if g.chance(1, 50) { g.usize(3000, 80_000) } else { g.size(3000) };
    let a = g.u64();
    note!(g, "n={n} a={a}");
    g.nt(n > 1);
    let want: Vec<u64> = (0..n as u64).map(|i| i.wrapping_mul(a) ^ i).collect();
    let got: Vec<u64> = (0..n).into_par_iter().map(|i| (i as u64).wrapping_mul(a) ^ i as u64).collect();
    ensure_eq!(got, want, "parallel map keeps order");
    let got: Vec<u64> = want.clone().into_par_iter().map(|x| x ^ 1).collect();
    ensure_eq!(got, want.iter().map(|x| x ^ 1).collect::<Vec<_>>(), "parallel map of a vector keeps order");
    Ok(())
}
fn joined(g: &mut Gen) -> R {
    let (a, b) = (g.u64(), g.u64());
    let depth = g.usize(0, 6);
    note!(g, "a={a} b={b} depth={depth}");
    g.nt(depth > 0);
    let (x, y) = multicore::join(|| a, || (b, a));
    ensure_eq!((x, y), (a, (b, a)), "join returns both results in order");
    fn tree(lo: u64, hi: u64, d: usize) -> Vec<u64> {
        if d == 0 || hi - lo < 2 {
            return (lo..hi).collect();
        }
        let m = lo + (hi - lo) / 2;
        let (mut l, r) = multicore::join(|| tree(lo, m, d - 1), || tree(m, hi, d - 1));
        l.extend(r);
        l
    }
    let hi = g.range(0, 200);
    ensure_eq!(tree(0, hi, depth), (0..hi).collect::<Vec<_>>(), "nested joins");
    ensure!(multicore::current_num_threads() >= 1, "at least one thread");
    #[cfg(not(feature = "multicore"))]
    ensure!(multicore::current_num_threads() == 1, "{} threads where everything runs in order", multicore::current_num_threads());
    Ok(())
}

/// Every piece runs once, however deep and from wherever it is started.
fn once(g: &mut Gen) -> R {
    let (n, depth) = (g.size(300), g.usize(0, 12));
    let from_iter = g.bool();
    note!(g, "n={n} depth={depth} from_iter={from_iter}");
    g.nt(n > 1 && depth > 1);
    let hits: Vec<AtomicU32> = (0..n).map(|_| AtomicU32::new(0)).collect();
    fn split(hits: &[AtomicU32], lo: usize, hi: usize, d: usize, skew: usize) -> Result<u64, usize> {
        if d == 0 || hi - lo < 2 {
            for h in &hits[lo..hi] {
                h.fetch_add(1, SeqCst);
            }
            return Ok((lo..hi).map(|x| x as u64).sum());
        }
        let m = lo + ((hi - lo) / (skew + 1)).max(1);
        let (a, b) = multicore::join(|| split(hits, lo, m, d - 1, skew), || split(hits, m, hi, d - 1, skew));
        Ok(a? + b?)
    }
    let skew = g.usize(1, 4);
    let sum = (0..n as u64).sum::<u64>();
    if from_iter {
        let k = g.usize(1, 5);
        let got: Vec<_> = (0..k).into_par_iter().map(|_| split(&hits, 0, n, depth, skew)).collect();
        ensure_eq!(got, vec![Ok(sum); k], "joins within a parallel iteration");
        ensure!(hits.iter().all(|h| h.load(SeqCst) == k as u32), "pieces ran {hits:?} instead of {k} times");
    } else {
        ensure_eq!(split(&hits, 0, n, depth, skew), Ok(sum), "joined sums");
        ensure!(hits.iter().all(|h| h.load(SeqCst) == 1), "pieces ran {hits:?} times");
    }
    // each item is visited once, and each result is the item's own
    let seen: Vec<AtomicU32> = (0..n).map(|_| AtomicU32::new(0)).collect();
    let mut data: Vec<String> = (0..n).map(|i| i.to_string()).collect();
    let lens: Vec<(usize, usize)> = data.iter().map(|s| s.len()).enumerate().collect();
    let got: Vec<(usize, usize)> = data.clone().into_par_iter().map(|s| {
        let i: usize = s.parse().unwrap();
        seen[i].fetch_add(1, SeqCst);
        (i, s.len())
    }).collect();
    ensure_eq!(got, lens, "results in the order of the items");
    ensure!(seen.iter().all(|h| h.load(SeqCst) == 1), "an item was skipped or repeated");
    // folds agree with the serial ones
    ensure_eq!((0..n as u64).into_par_iter().map(|x| x ^ 5).sum::<u64>(), (0..n as u64).map(|x| x ^ 5).sum::<u64>(), "sum");
    ensure_eq!((0..n).into_par_iter().filter(|x| x % 3 == 1).collect::<Vec<_>>(), (0..n).filter(|x| x % 3 == 1).collect::<Vec<_>>(), "filter");
    // both sides may change what they own
    if n > 1 {
        let m = g.usize(1, n - 1);
        let (l, r) = data.split_at_mut(m);
        let (a, b) = multicore::join(|| { l.iter_mut().for_each(|s| s.push('l')); l.len() }, || { r.iter_mut().for_each(|s| s.push('r')); r.len() });
        ensure_eq!((a, b), (m, n - m), "lengths of the halves");
        for (i, s) in data.iter().enumerate() {
            ensure_eq!(*s, format!("{i}{}", if i < m { 'l' } else { 'r' }), "item {i}");
        }
    }
    Ok(())
}

/// The same within pools of every size.
fn pools(g: &mut Gen) -> R {
    let threads = *g.pick(&[1, 2, 3, 5, 8, 16, 40]);
    note!(g, "{threads} threads");
    let f = match g.below(8) {
        0 => ordered,
        1..4 => joined,
        _ => once,
    };
    crate::in_pool(threads, move || {
        #[cfg(feature = "multicore")]
        ensure_eq!(multicore::current_num_threads(), threads, "threads of the pool");
        f(g)
    })
}

/// A piece that fails fails the whole, like one run in its place.
fn failing(g: &mut Gen) -> R {
    let n = g.usize(1, 60);
    let bad = g.usize(0, n - 1);
    let (threads, how) = (*g.pick(&[1, 2, 8]), g.below(3));
    note!(g, "piece {bad} of {n} panics, {threads} threads, form {how}");
    g.nt(n > 1);
    fn split(lo: usize, hi: usize, bad: usize) -> usize {
        if hi - lo == 1 {
            if lo == bad {
                panic!("piece {lo}")
            }
            return 1;
        }
        let m = lo + (hi - lo) / 2;
        let (a, b) = multicore::join(|| split(lo, m, bad), || split(m, hi, bad));
        a + b
    }
    let got = crate::in_pool(threads, || {
        vlib::catches(|| match how {
            0 => split(0, n, bad),
            1 => (0..n).into_par_iter().map(|i| if i == bad { panic!("piece {i}") } else { 1usize }).sum(),
            _ => (0..n).collect::<Vec<_>>().into_par_iter().map(|i| if i == bad { panic!("piece {i}") } else { i }).collect::<Vec<_>>().len(),
        })
    });
    match got {
        Err(e) if e.contains(&format!("piece {bad}")) => Ok(()),
        other => Err(format!("{other:?} although piece {bad} panicked")),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "A02",
        subs: vec![
            Sub::new("parallel_map", ordered, 2_000, 40_000, "parallel maps of up to 3000 items vs. the sequential map; non-trivial: > 1 item"),
            Sub::new("join", joined, 2_000, 40_000, "nested joins; non-trivial: depth > 0"),
            Sub::new("exactly_once", once, 1_500, 30_000, "skewed nested joins to depth 12, joins within parallel iterations, sums, filters and disjoint mutation, with every piece and item counted; non-trivial: more than one piece and level"),
            Sub::new("pools", pools, 600, 20_000, "the same three within pools of 1 to 40 threads; non-trivial: as theirs"),
            Sub::new("failing_piece", failing, 300, 10_000, "joins and parallel iterations one piece of which panics: the panic reaches the caller; non-trivial: more than one piece"),
        ],
        assumptions: &[],
    }
}
