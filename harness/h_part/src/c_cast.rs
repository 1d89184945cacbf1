// tuple lists below were written out by a script
use crate::maybe::{Always, Empty, Maybe, MaybeKind, Perhaps};
use crate::tracked::{Ledger, Tr};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

type Case = fn(&[u64], &Arc<Ledger>) -> R;

macro_rules! tuple_case {
    ($name:ident, $hetero:ident, $n:expr; $($i:tt $v:ident),*) => {
        fn $name(ids: &[u64], l: &Arc<Ledger>) -> R {
            // every component of one type: an exchange of two compiles
            let t: Perhaps<Always<()>, ($(rep!($i Tr<0>),)*)> = Always::<()>::just(|| ($(Tr::<0>::new(l, ids[$i]),)*));
            let ($($v,)*) = t.cast::<($(rep!($i Tr<0>),)*)>();
            ensure_eq!(l.live(), $n, "live components");
            $( ensure_eq!($v.snag().id, ids[$i], "component {}", $i); )*
            let got = [$($v.take().id),*];
            ensure_eq!(got[..], ids[..$n], "taken components");
            ensure_eq!(l.live(), 0, "live at the end");
            ensure_eq!((l.made(), l.cloned()), ($n, 0), "components are moved, not copied");
            // absent
            let ran = AtomicU64::new(0);
            let e: Perhaps<Empty, ($(rep!($i Tr<0>),)*)> = Empty::maybe_just(|| {
                ran.fetch_add(1, SeqCst);
                ($(Tr::<0>::new(l, ids[$i]),)*)
            });
            let ($($v,)*): ($(rep!($i Empty),)*) = Maybe::<($(rep!($i Tr<0>),)*)>::cast::<($(rep!($i Tr<0>),)*)>(e);
            let _ = ($($v,)*);
            ensure_eq!(ran.load(SeqCst), 0, "absent tuples run nothing");
            ensure_eq!(l.made(), $n, "absent tuples create nothing");
            Ok(())
        }
        fn $hetero(ids: &[u64], l: &Arc<Ledger>) -> R {
            // every component of its own type
            let t = Always::<()>::just(|| ($(Tr::<$i>::new(l, ids[$i]),)*));
            let ($($v,)*): ($(Always<Tr<$i>>,)*) = t.cast();
            // consumed in a mixed order: even positions first
            let mut got = vec![0u64; $n];
            $( let $v = if $i % 2 == 0 { got[$i] = $v.take().id; None } else { Some($v) }; )*
            $( if let Some(x) = $v { got[$i] = x.map(|t| t.id).take(); } )*
            ensure_eq!(got[..], ids[..$n], "components");
            ensure_eq!(l.live(), 0, "live at the end");
            Ok(())
        }
    };
}
macro_rules! rep { ($i:tt $t:ty) => { $t }; }

tuple_case!(t2, h2, 2; 0 v0, 1 v1);
tuple_case!(t3, h3, 3; 0 v0, 1 v1, 2 v2);
tuple_case!(t4, h4, 4; 0 v0, 1 v1, 2 v2, 3 v3);
tuple_case!(t5, h5, 5; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4);
tuple_case!(t6, h6, 6; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5);
tuple_case!(t7, h7, 7; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6);
tuple_case!(t8, h8, 8; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7);
tuple_case!(t9, h9, 9; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8);
tuple_case!(t10, h10, 10; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9);
tuple_case!(t11, h11, 11; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10);
tuple_case!(t12, h12, 12; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11);
tuple_case!(t13, h13, 13; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12);
tuple_case!(t14, h14, 14; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13);
tuple_case!(t15, h15, 15; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14);
tuple_case!(t16, h16, 16; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15);
tuple_case!(t17, h17, 17; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16);
tuple_case!(t18, h18, 18; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17);
tuple_case!(t19, h19, 19; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17, 18 v18);
tuple_case!(t20, h20, 20; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17, 18 v18, 19 v19);
tuple_case!(t21, h21, 21; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17, 18 v18, 19 v19, 20 v20);
tuple_case!(t22, h22, 22; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17, 18 v18, 19 v19, 20 v20, 21 v21);
tuple_case!(t23, h23, 23; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17, 18 v18, 19 v19, 20 v20, 21 v21, 22 v22);
tuple_case!(t24, h24, 24; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17, 18 v18, 19 v19, 20 v20, 21 v21, 22 v22, 23 v23);
tuple_case!(t25, h25, 25; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17, 18 v18, 19 v19, 20 v20, 21 v21, 22 v22, 23 v23, 24 v24);
tuple_case!(t26, h26, 26; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17, 18 v18, 19 v19, 20 v20, 21 v21, 22 v22, 23 v23, 24 v24, 25 v25);
tuple_case!(t27, h27, 27; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17, 18 v18, 19 v19, 20 v20, 21 v21, 22 v22, 23 v23, 24 v24, 25 v25, 26 v26);
tuple_case!(t28, h28, 28; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17, 18 v18, 19 v19, 20 v20, 21 v21, 22 v22, 23 v23, 24 v24, 25 v25, 26 v26, 27 v27);
tuple_case!(t29, h29, 29; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17, 18 v18, 19 v19, 20 v20, 21 v21, 22 v22, 23 v23, 24 v24, 25 v25, 26 v26, 27 v27, 28 v28);
tuple_case!(t30, h30, 30; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17, 18 v18, 19 v19, 20 v20, 21 v21, 22 v22, 23 v23, 24 v24, 25 v25, 26 v26, 27 v27, 28 v28, 29 v29);
tuple_case!(t31, h31, 31; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17, 18 v18, 19 v19, 20 v20, 21 v21, 22 v22, 23 v23, 24 v24, 25 v25, 26 v26, 27 v27, 28 v28, 29 v29, 30 v30);
tuple_case!(t32, h32, 32; 0 v0, 1 v1, 2 v2, 3 v3, 4 v4, 5 v5, 6 v6, 7 v7, 8 v8, 9 v9, 10 v10, 11 v11, 12 v12, 13 v13, 14 v14, 15 v15, 16 v16, 17 v17, 18 v18, 19 v19, 20 v20, 21 v21, 22 v22, 23 v23, 24 v24, 25 v25, 26 v26, 27 v27, 28 v28, 29 v29, 30 v30, 31 v31);
static UNIFORM: [Case; 31] = [t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15, t16, t17, t18, t19, t20, t21, t22, t23, t24, t25, t26, t27, t28, t29, t30, t31, t32];
static HETERO: [Case; 31] = [h2, h3, h4, h5, h6, h7, h8, h9, h10, h11, h12, h13, h14, h15, h16, h17, h18, h19, h20, h21, h22, h23, h24, h25, h26, h27, h28, h29, h30, h31, h32];

fn array_case<const N: usize>(ids: &[u64], l: &Arc<Ledger>) -> R {
    let v: Perhaps<Always<()>, [Tr; N]> = Always::<()>::just(|| std::array::from_fn(|i| Tr::new(l, ids[i])));
    let a: [Always<Tr>; N] = v.cast();
    ensure_eq!(l.live(), N as i64, "live elements");
    let got: Vec<u64> = a.into_iter().map(|x| x.take().id).collect();
    ensure_eq!(got[..], ids[..N], "elements in order");
    ensure_eq!(l.live(), 0, "live at the end");
    ensure_eq!((l.made(), l.cloned()), (N as i64, 0), "elements are moved, not copied");
    // dropped without being taken
    let v: Perhaps<Always<()>, [Tr; N]> = Always::<()>::just(|| std::array::from_fn(|i| Tr::new(l, ids[i])));
    let a: [Always<Tr>; N] = v.cast();
    drop(a);
    ensure_eq!(l.live(), 0, "dropped elements");
    let e: Perhaps<Empty, [Tr; N]> = Empty::maybe_just(|| -> [Tr; N] { std::array::from_fn(|i| Tr::new(l, ids[i])) });
    let a: [Empty; N] = Maybe::<[Tr; N]>::cast::<[Tr; N]>(e);
    ensure_eq!(a.len(), N, "absent elements");
    ensure_eq!(l.made(), 2 * N as i64, "absent arrays create nothing");
    Ok(())
}
static ARRAYS: [(usize, Case); 21] = [
    (0, array_case::<0>), (1, array_case::<1>), (2, array_case::<2>), (3, array_case::<3>), (4, array_case::<4>),
    (5, array_case::<5>), (7, array_case::<7>), (8, array_case::<8>), (15, array_case::<15>), (16, array_case::<16>),
    (17, array_case::<17>), (31, array_case::<31>), (33, array_case::<33>), (64, array_case::<64>), (65, array_case::<65>),
    (100, array_case::<100>), (128, array_case::<128>), (129, array_case::<129>), (255, array_case::<255>),
    (257, array_case::<257>), (600, array_case::<600>),
];

fn ids(g: &mut Gen, n: usize) -> Vec<u64> {
    // distinct values, so that any exchange shows
    let base = g.u64() % 1_000_000;
    let mut v: Vec<u64> = (0..n as u64).map(|i| base + i).collect();
    g.shuffle(&mut v);
    v
}
fn tuples(g: &mut Gen) -> R {
    let k = (g.index % 31) as usize;
    let ids = ids(g, k + 2);
    note!(g, "uniform {}-tuple {ids:?}", k + 2);
    g.nt(true);
    UNIFORM[k](&ids, &Ledger::new())
}
fn hetero(g: &mut Gen) -> R {
    let k = (g.index % 31) as usize;
    let ids = ids(g, k + 2);
    note!(g, "heterogeneous {}-tuple {ids:?}", k + 2);
    g.nt(true);
    HETERO[k](&ids, &Ledger::new())
}
fn arrays(g: &mut Gen) -> R {
    let k = (g.index as usize) % ARRAYS.len();
    let ids = ids(g, ARRAYS[k].0);
    note!(g, "array of {} {ids:?}", ARRAYS[k].0);
    g.nt(ARRAYS[k].0 > 1);
    ARRAYS[k].1(&ids, &Ledger::new())
}
/// Casts of casts: arrays of tuples of arrays, as circuits split their witnesses.
fn nested(g: &mut Gen) -> R {
    fn go<K: MaybeKind>(ids: &[u64], l: &Arc<Ledger>, sink: &std::sync::Mutex<Vec<(u64, u64)>>) {
        let v: Perhaps<K, [(Tr, [Tr; 3]); 2]> = K::maybe_just(|| {
            let mut it = ids.iter();
            let mut nx = || Tr::new(l, *it.next().unwrap());
            let a = (nx(), [nx(), nx(), nx()]);
            let b = (nx(), [nx(), nx(), nx()]);
            [a, b]
        });
        let mut pos = 0u64;
        let [a, b] = nest_cast::<K>(v);
        for (x, ys) in [a, b] {
            let p = pos;
            x.map(|t| sink.lock().unwrap().push((p, t.id)));
            pos += 1;
            for y in ys {
                let p = pos;
                y.map(|t| sink.lock().unwrap().push((p, t.id)));
                pos += 1;
            }
        }
    }
    fn nest_cast<K: MaybeKind>(v: Perhaps<K, [(Tr, [Tr; 3]); 2]>) -> [(Perhaps<K, Tr>, [Perhaps<K, Tr>; 3]); 2] {
        let arr = v.cast::<[(Tr, [Tr; 3]); 2]>();
        arr.map(|p| {
            let (x, ys) = p.cast::<(Tr, [Tr; 3])>();
            (x, ys.cast::<[Tr; 3]>())
        })
    }
    let ids = ids(g, 8);
    note!(g, "{ids:?}");
    g.nt(true);
    let l = Ledger::new();
    let sink = std::sync::Mutex::new(vec![]);
    go::<Always<()>>(&ids, &l, &sink);
    let want: Vec<(u64, u64)> = ids.iter().enumerate().map(|(i, v)| (i as u64, *v)).collect();
    ensure_eq!(*sink.lock().unwrap(), want, "leaves of the nested cast");
    ensure_eq!(l.live(), 0, "live");
    let l = Ledger::new();
    sink.lock().unwrap().clear();
    go::<Empty>(&ids, &l, &sink);
    ensure!(sink.lock().unwrap().is_empty() && l.made() == 0, "absent nested casts run nothing");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        subs: vec![
            Sub::new("uniform_tuples", tuples, 31 * 100, 31 * 3000, "every arity 2-32 with distinct shuffled components of one type; all non-trivial"),
            Sub::new("heterogeneous_tuples", hetero, 31 * 100, 31 * 3000, "every arity 2-32 with a distinct type per position, consumed out of order; all non-trivial"),
            Sub::new("arrays", arrays, 21 * 100, 21 * 3000, "21 array lengths from 0 to 600; non-trivial: length > 1"),
            Sub::new("nested", nested, 2_000, 50_000, "casts of casts; all non-trivial"),
        ],
        assumptions: &[],
    }
}

