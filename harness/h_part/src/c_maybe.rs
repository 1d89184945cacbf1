use crate::maybe::{Always, Empty, Maybe, MaybeKind, Perhaps};
use crate::tracked::{Conv, Ledger, Tr};
use std::mem::{align_of, size_of};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use vlib::{Gen, Prop, R, Sub, catches, ensure, ensure_eq, note};

#[derive(Clone, Debug)]
enum Op {
    Map(u64),
    AndThen(u64),
    AndThenCombine(u64),
    CloneKeepNew,
    CloneKeepOld,
    AsRef,
    AsMut(u64),
    NestedMut(u64),
    Snag,
    TryJustOk(u64),
    TryJustErr(u64),
    MapPair(u64),
    Into,
    MapResult(u64),
}

fn ops(g: &mut Gen) -> Vec<Op> {
    let n = g.size(24);
    (0..n)
        .map(|_| {
            let k = g.u64() % 1000;
            match g.below(14) {
                0 => Op::Map(k),
                1 => Op::AndThen(k),
                2 => Op::AndThenCombine(k),
                3 => Op::CloneKeepNew,
                4 => Op::CloneKeepOld,
                5 => Op::AsRef,
                6 => Op::AsMut(k),
                7 => Op::NestedMut(k),
                8 => Op::Snag,
                9 => Op::TryJustOk(k),
                10 => Op::TryJustErr(k),
                11 => Op::MapPair(k),
                12 => Op::Into,
                _ => Op::MapResult(k),
            }
        })
        .collect()
}

/// What the closures observed.
#[derive(Default)]
struct Trace(std::sync::Mutex<Vec<(usize, u64)>>);
impl Trace {
    fn hit(&self, step: usize, v: u64) {
        self.0.lock().unwrap().push((step, v));
    }
}

/// Runs a program generically, as circuit code does. Closures touch the trace
/// when they execute. Returns the final Maybe and whether the program hit the
/// error of a fallible closure.
fn run<K: MaybeKind>(
    prog: &[Op],
    init: u64,
    l: &Arc<Ledger>,
    tr: &Trace,
) -> Result<(Perhaps<K, Tr>, Vec<usize>), String> {
    let mut errs = vec![];
    let mut cur: Perhaps<K, Tr> = K::maybe_just(|| {
        tr.hit(0, init);
        Tr::new(l, init)
    });
    for (i, op) in prog.iter().enumerate() {
        let s = i + 1;
        cur = match op {
            Op::Map(k) => cur.map(|mut t| {
                tr.hit(s, t.id);
                t.hist.push(*k);
                t.id = t.id.wrapping_mul(31).wrapping_add(*k);
                t
            }),
            Op::AndThen(k) => cur.and_then(|t| {
                tr.hit(s, t.id);
                let id = t.id ^ *k;
                K::maybe_just(move || {
                    let mut n = Tr::new(t.ledger(), id);
                    n.hist = t.hist.clone();
                    n.hist.push(id);
                    n
                })
            }),
            Op::AndThenCombine(k) => {
                let other: Perhaps<K, u64> = K::maybe_just(|| {
                    tr.hit(s, *k);
                    *k + 1
                });
                cur.and_then(|mut t| {
                    other.map(move |o| {
                        t.id = t.id.wrapping_add(o);
                        t
                    })
                })
            }
            Op::CloneKeepNew => {
                let c = Maybe::clone(&cur);
                drop(cur);
                c
            }
            Op::CloneKeepOld => {
                let c = Maybe::clone(&cur);
                // a clone must be independent of its source
                let c = c.map(|mut t| {
                    t.id = !t.id;
                    t.hist.clear();
                    t
                });
                drop(c);
                cur
            }
            Op::AsRef => {
                let r = cur.as_ref().map(|t| {
                    tr.hit(s, t.id);
                    t.id
                });
                r.map(|v| tr.hit(s, v));
                cur
            }
            Op::AsMut(k) => {
                cur.as_mut().map(|t| {
                    tr.hit(s, t.id);
                    t.id = t.id.rotate_left(5) ^ *k;
                });
                cur
            }
            Op::NestedMut(k) => {
                let mut inner = cur.as_mut().map(|t| {
                    t.hist.push(*k);
                    t.hist.iter_mut()
                });
                inner.as_mut().map(|it| {
                    for v in it.by_ref() {
                        *v = v.wrapping_add(1);
                    }
                });
                drop(inner);
                cur
            }
            Op::Snag => {
                K::maybe_just(|| tr.hit(s, cur.snag().id));
                cur
            }
            Op::TryJustOk(k) => {
                let r: Result<Perhaps<K, u64>, String> = K::maybe_try_just(|| {
                    tr.hit(s, *k);
                    Ok(*k)
                });
                let v = r.map_err(|e| format!("a closure that returns Ok gave Err({e})"))?;
                cur.and_then(|mut t| {
                    v.map(move |v| {
                        t.hist.push(v);
                        t
                    })
                })
            }
            Op::TryJustErr(k) => {
                let r: Result<Perhaps<K, u64>, u64> = K::maybe_try_just(|| {
                    tr.hit(s, *k);
                    Err(*k)
                });
                match r {
                    Ok(v) => {
                        v.map(|_| tr.hit(s, u64::MAX));
                    }
                    Err(e) => {
                        ensure_eq!(e, *k, "error of a fallible closure");
                        errs.push(s);
                    }
                }
                cur
            }
            Op::MapPair(k) => {
                let p = cur.map(|t| (t, *k));
                let q = p.map(|(mut t, k)| {
                    t.id = t.id.wrapping_sub(k);
                    t
                });
                q
            }
            Op::Into => {
                let c: Perhaps<K, Conv> = Maybe::into(cur);
                c.map(|Conv(t, x)| {
                    tr.hit(s, x);
                    t
                })
            }
            Op::MapResult(k) => {
                // Maybe<Result<_>> consumed by a later map
                let r = cur.map(|t| if *k % 2 == 0 { Ok::<Tr, Tr>(t) } else { Err(t) });
                r.map(|r| match r {
                    Ok(mut t) => {
                        t.hist.push(2);
                        t
                    }
                    Err(mut t) => {
                        t.hist.push(3);
                        t
                    }
                })
            }
        };
    }
    Ok((cur, errs))
}

/// The same program over a plain value (the `Some` side of `Option`).
struct Model {
    id: u64,
    hist: Vec<u64>,
    trace: Vec<(usize, u64)>,
    errs: Vec<usize>,
    clones: i64,
    made: i64,
}
fn model(prog: &[Op], init: u64) -> Model {
    let mut m = Model { id: init, hist: vec![], trace: vec![(0, init)], errs: vec![], clones: 0, made: 1 };
    for (i, op) in prog.iter().enumerate() {
        let s = i + 1;
        match op {
            Op::Map(k) => {
                m.trace.push((s, m.id));
                m.hist.push(*k);
                m.id = m.id.wrapping_mul(31).wrapping_add(*k);
            }
            Op::AndThen(k) => {
                m.trace.push((s, m.id));
                m.id ^= *k;
                m.hist.push(m.id);
                m.made += 1;
            }
            Op::AndThenCombine(k) => {
                m.trace.push((s, *k));
                m.id = m.id.wrapping_add(*k + 1);
            }
            Op::CloneKeepNew | Op::CloneKeepOld => m.clones += 1,
            Op::AsRef => {
                m.trace.push((s, m.id));
                m.trace.push((s, m.id));
            }
            Op::AsMut(k) => {
                m.trace.push((s, m.id));
                m.id = m.id.rotate_left(5) ^ *k;
            }
            Op::NestedMut(k) => {
                m.hist.push(*k);
                for v in &mut m.hist {
                    *v = v.wrapping_add(1);
                }
            }
            Op::Snag => m.trace.push((s, m.id)),
            Op::TryJustOk(k) => {
                m.trace.push((s, *k));
                m.hist.push(*k);
            }
            Op::TryJustErr(k) => {
                m.trace.push((s, *k));
                m.errs.push(s);
            }
            Op::MapPair(k) => m.id = m.id.wrapping_sub(*k),
            Op::Into => {
                m.hist.push(u64::MAX);
                m.trace.push((s, 7));
            }
            Op::MapResult(k) => m.hist.push(if *k % 2 == 0 { 2 } else { 3 }),
        }
    }
    m
}

fn existing(g: &mut Gen) -> R {
    let init = g.u64() % 1000;
    let prog = ops(g);
    note!(g, "init={init} ops={prog:?}");
    g.nt(prog.len() >= 3);
    let l = Ledger::new();
    let tr = Trace::default();
    let (v, errs) = run::<Always<()>>(&prog, init, &l, &tr)?;
    let m = model(&prog, init);
    ensure_eq!(errs, m.errs, "failing fallible closures");
    ensure_eq!(*tr.0.lock().unwrap(), m.trace, "closures executed with arguments, in order, once each");
    ensure_eq!(l.live(), 1, "live values before take");
    {
        let t = v.snag();
        ensure_eq!(t.id, m.id, "snag");
    }
    let t = v.take();
    ensure_eq!(t.id, m.id, "value");
    ensure_eq!(t.hist, m.hist, "history");
    ensure_eq!(l.live(), 1, "live values after take");
    drop(t);
    ensure_eq!(l.live(), 0, "live values at the end (leak or double drop)");
    ensure_eq!(l.cloned(), m.clones, "clones made");
    ensure_eq!(l.made(), m.made, "values made");
    Ok(())
}

fn absent(g: &mut Gen) -> R {
    let init = g.u64() % 1000;
    let prog = ops(g);
    note!(g, "ops={prog:?}");
    g.nt(prog.len() >= 3);
    let l = Ledger::new();
    let tr = Trace::default();
    let (_v, errs) = run::<Empty>(&prog, init, &l, &tr)?;
    ensure_eq!(errs, Vec::<usize>::new(), "an absent value never runs a fallible closure");
    ensure_eq!(*tr.0.lock().unwrap(), vec![], "no closure may run for an absent value");
    ensure_eq!(l.made() + l.cloned(), 0, "no value may come into being");
    Ok(())
}

/// A closure that panics: the panic reaches the caller, nothing leaks.
fn panics(g: &mut Gen) -> R {
    let which = g.below(6);
    let id = g.u64() % 100;
    note!(g, "panic in closure {which} id={id}");
    g.nt(true);
    fn go<K: MaybeKind>(which: u64, l: &Arc<Ledger>, id: u64, ran: &AtomicU64) -> Result<(), String> {
        catches(|| {
            let boom = || -> u64 {
                ran.fetch_add(1, SeqCst);
                panic!("boom")
            };
            if which == 0 {
                K::maybe_just(|| {
                    boom();
                    Tr::<0>::new(l, id)
                });
                return;
            }
            if which == 1 {
                let r: Result<_, ()> = K::maybe_try_just(|| {
                    boom();
                    Ok(Tr::<0>::new(l, id))
                });
                drop(r.unwrap());
                return;
            }
            let mut v: Perhaps<K, Tr> = K::maybe_just(|| Tr::new(l, id));
            match which {
                2 => drop(v.map(|t| {
                    boom();
                    t
                })),
                3 => drop(v.and_then(|t| {
                    boom();
                    K::maybe_just(|| t)
                })),
                4 => drop(v.as_ref().map(|_| boom())),
                _ => drop(v.as_mut().map(|_| boom())),
            }
        })
    }
    let l = Ledger::new();
    let ran = AtomicU64::new(0);
    ensure_eq!(go::<Always<()>>(which, &l, id, &ran), Err("boom".to_string()), "panic must propagate");
    ensure_eq!(ran.load(SeqCst), 1, "closure runs");
    ensure_eq!(l.live(), 0, "live values after the panic");
    let l = Ledger::new();
    let ran = AtomicU64::new(0);
    ensure_eq!(go::<Empty>(which, &l, id, &ran), Ok(()), "absent values never panic");
    ensure_eq!(ran.load(SeqCst) as i64 + l.made(), 0, "absent values never run closures");
    Ok(())
}

/// `try_just`: Ok and Err payloads reach the caller unchanged.
fn fallible(g: &mut Gen) -> R {
    let ok = g.bool();
    let id = g.u64();
    note!(g, "ok={ok} id={id}");
    g.nt(true);
    let l = Ledger::new();
    let r = <Always<()> as MaybeKind>::maybe_try_just(|| if ok { Ok(Tr::<1>::new(&l, id)) } else { Err(Tr::<2>::new(&l, id)) });
    match r {
        Ok(v) => {
            ensure!(ok, "Err closure gave Ok");
            ensure_eq!(v.take().id, id, "Ok payload");
        }
        Err(e) => {
            ensure!(!ok, "Ok closure gave Err");
            ensure_eq!(e.id, id, "Err payload");
        }
    }
    ensure_eq!(l.live(), 0, "live");
    let r = Always::<u8>::try_just(|| if ok { Ok::<u64, u64>(id) } else { Err(id) });
    ensure_eq!(r.map(|x| x.take()), if ok { Ok(id) } else { Err(id) }, "try_just");
    let r: Result<Empty, u64> = <Empty as Maybe<u8>>::try_just(|| if ok { Ok::<u64, u64>(id) } else { Err(id) });
    ensure!(r.is_ok(), "an absent value cannot fail");
    Ok(())
}

/// Layout promised by the documentation.
fn layout(g: &mut Gen) -> R {
    fn chk<T: Send>(n: &str) -> R {
        ensure_eq!((size_of::<Always<T>>(), align_of::<Always<T>>()), (size_of::<T>(), align_of::<T>()), "layout of an existing {n}");
        ensure_eq!(size_of::<Perhaps<Empty, T>>(), 0, "an absent {n} is zero-sized");
        Ok(())
    }
    g.nt(true);
    let i = g.index;
    note!(g, "layout case {i}");
    match g.index {
        0 => chk::<()>("unit"),
        1 => chk::<u8>("u8"),
        2 => chk::<u64>("u64"),
        3 => chk::<(u8, u64, u16)>("tuple"),
        4 => chk::<[u16; 7]>("array"),
        5 => chk::<Vec<u8>>("Vec"),
        6 => chk::<Option<Box<u8>>>("Option<Box>"),
        7 => chk::<&'static str>("&str"),
        8 => chk::<[u8; 0]>("empty array"),
        9 => chk::<Always<u32>>("Always"),
        10 => chk::<Tr<3>>("tracked"),
        _ => chk::<u128>("u128"),
    }
}

static ZST: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
static ZST_LOCK: std::sync::Mutex<()> = std::sync::Mutex::new(());
/// Has no size, but a life that can be counted.
struct Zst;
impl Clone for Zst {
    fn clone(&self) -> Zst {
        ZST.fetch_add(1, SeqCst);
        Zst
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZST.fetch_sub(1, SeqCst);
    }
}

/// An absent value drops what its closures hold, as a skipped closure does.
fn captured(g: &mut Gen) -> R {
    fn go<K: MaybeKind>(prog: &[u64], l: &Arc<Ledger>) -> R {
        let mut v: Perhaps<K, u64> = K::maybe_just(|| 1);
        for (i, op) in prog.iter().enumerate() {
            let t = Tr::<0>::new(l, i as u64);
            v = match op {
                0 => v.map(move |x| x + t.get()),
                1 => v.and_then(move |x| K::maybe_just(move || x + t.get())),
                2 => {
                    let w = K::maybe_just(move || t.get());
                    v.and_then(|x| w.map(|y| x + y))
                }
                3 => {
                    let w: Result<Perhaps<K, u64>, u64> = K::maybe_try_just(move || Err(t.get()));
                    drop(w);
                    v
                }
                _ => {
                    v.as_ref().map(move |x| x + t.get());
                    v
                }
            };
            ensure_eq!(l.live(), 0, "values held by the closure of operation {i} ({op}) are still alive");
        }
        Ok(())
    }
    let prog: Vec<u64> = (0..g.usize(1, 12)).map(|_| g.below(5)).collect();
    note!(g, "operations {prog:?}");
    g.nt(prog.len() > 1);
    go::<Always<()>>(&prog, &Ledger::new())?;
    go::<Empty>(&prog, &Ledger::new())
}

/// Zero-sized and nested values.
fn nested(g: &mut Gen) -> R {
    let _one = ZST_LOCK.lock().unwrap_or_else(|e| e.into_inner());
    let a = g.u64();
    let depth = g.usize(0, 5);
    note!(g, "nested a={a} depth={depth}");
    g.nt(depth > 0);
    let l = Ledger::new();
    // Maybe of Maybe of T
    let v: Always<Always<Tr>> = Always::<()>::just(|| Always::<()>::just(|| Tr::new(&l, a)));
    let v = v.and_then(|x| x);
    let mut v = v;
    for i in 0..depth {
        let c = Maybe::clone(&v);
        v = v.and_then(|t| {
            c.map(move |mut u| {
                assert_eq!(t.id, u.id);
                u.id = u.id.wrapping_add(i as u64);
                u
            })
        });
    }
    let want = (0..depth as u64).fold(a, |s, i| s.wrapping_add(i));
    ensure_eq!(v.as_ref().take().id, want, "as_ref");
    ensure_eq!(v.as_mut().take().id, want, "as_mut");
    v.as_mut().take().id = 5;
    ensure_eq!(v.snag().id, 5, "write through as_mut");
    let p: *const Tr = v.snag();
    let q: *const Tr = v.as_ref().take();
    ensure_eq!(p, q, "as_ref and snag borrow the enclosed value itself");
    drop(v);
    ensure_eq!(l.live(), 0, "live");
    let hits = AtomicU64::new(0);
    let u = Always::<()>::just(|| {
        hits.fetch_add(1, SeqCst);
    });
    u.map(|()| hits.fetch_add(1, SeqCst));
    ensure_eq!(hits.load(SeqCst), 2, "unit closures run once each");
    // zero-sized contents go through every operation like any other
    ZST.store(0, SeqCst);
    let mk = || {
        ZST.fetch_add(1, SeqCst);
        Zst
    };
    let z = Always::<()>::just(mk);
    let z = z.map(|z| z);
    let z = z.and_then(|z| Always::<()>::just(|| (z, Tr::<0>::new(&l, a))));
    ensure_eq!((z.snag().1.id, l.live()), (a, 1), "made from a zero-sized value");
    let z = z.and_then(|(z, t)| {
        drop(t);
        Always::<()>::just(|| z)
    });
    let z = Maybe::into::<Zst>(z);
    let y = Maybe::clone(&z);
    ensure_eq!((ZST.load(SeqCst), l.live()), (2, 0), "zero-sized values alive");
    let s = z.map(|z| {
        drop(z);
        format!("{a}")
    });
    ensure_eq!(s.take(), format!("{a}"), "mapped from a zero-sized value");
    ensure_eq!(ZST.load(SeqCst), 1, "zero-sized values alive after one is consumed");
    let w = y.and_then(|y| {
        drop(y);
        Always::<()>::just(|| a)
    });
    ensure_eq!(w.take(), a, "bound from a zero-sized value");
    let [p, q] = Always::<()>::just(|| [mk(), mk()]).cast::<[Zst; 2]>();
    drop((p, q.take()));
    ensure_eq!(ZST.load(SeqCst), 0, "zero-sized values alive at the end");
    let _: Perhaps<Empty, Empty> = Empty::maybe_just(|| {
        hits.fetch_add(1, SeqCst);
        Empty
    });
    let _: Perhaps<Empty, u8> = <Empty as MaybeKind>::empty::<u8>();
    ensure_eq!(hits.load(SeqCst), 2, "absent unit closures do not run");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        subs: vec![
            Sub::new("existing_programs", existing, 40_000, 2_000_000, "random programs of up to 24 Maybe operations on an existing value vs. the plain-value model (value, closure trace, clones, drops); non-trivial: >= 3 operations"),
            Sub::new("absent_programs", absent, 20_000, 1_000_000, "the same programs on an absent value: no closure runs, nothing is created; non-trivial: >= 3 operations"),
            Sub::new("panicking_closures", panics, 600, 6_000, "a closure that panics in each operation; all non-trivial"),
            Sub::new("fallible", fallible, 4_000, 100_000, "try_just payloads; all non-trivial"),
            Sub::new("nested", nested, 4_000, 100_000, "nested and zero-sized values; non-trivial: depth > 0"),
            Sub::new("captured_values", captured, 4_000, 100_000, "programs whose closures own values, present and absent: nothing they hold outlives the operation; non-trivial: several operations"),
            Sub::enumerated("layout", layout, 12, "layout of 12 types"),
        ],
        assumptions: &["the compile-time rejection of take() on an absent value is decided by the generated compile tests of this property's second program"],
    }
}
