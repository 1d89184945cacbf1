//! Proofs made again: on other threads, in another order, by another build.
use crate::app::*;
use ff::Field as _;
use pasta_curves::{Fp, Fq};
use ragu_pasta::Pasta;
use ragu_pcd::verif;
use std::fmt::Write as _;
use vcs::VRng;
use vlib::{Gen, Prop, R, Sub, ensure, note};

/// All there is in a proof, shortened.
fn prints(v: &Val) -> Vec<(String, String)> {
    let mut p = v.proof();
    let q = verif::parts(&mut p);
    let mut o: Vec<(String, String)> = vec![];
    o.push(("data".into(), format!("{:?}", v.model())));
    o.push(("circuit".into(), format!("{:?}", q.circuit_id)));
    o.push(("headers".into(), format!("{:?}", q.headers)));
    let (at, bt) = (Fp::from(0x1234_5678_9abc).square(), Fq::from(0x1234_5678_9abc).square());
    o.extend(q.native.iter().map(|x| (x.0.to_string(), format!("{:?}", x.1.eval(at)))));
    o.extend(q.nested.iter().map(|x| (x.0.to_string(), format!("{:?}", x.1.eval(bt)))));
    o.extend(q.scalars.iter().map(|x| (x.0.to_string(), format!("{:?}", x.1))));
    o.extend(q.host.iter().map(|x| (format!("commitment to {}", x.0), format!("{:?}", x.1))));
    o.extend(q.bridges.iter().map(|x| (format!("commitment to {}", x.0), format!("{:?}", x.1))));
    o
}
type Prints = Vec<(String, Vec<(String, String)>)>;
/// Runs the steps that the seed says; `between` has other things proved, too.
fn tree<const HS: usize, const B: usize>(app: &App<HS>, seed: u64, n: usize, again: bool, between: Option<u64>) -> Result<Prints, String> {
    let (mut pool, mut o, mut aside) = (vec![], vec![], vec![]);
    for i in 0..n {
        if let Some(s) = between {
            let mut g = Gen::from_seed(s, i as u64);
            if aside.is_empty() || g.chance(1, 3) {
                let e = apply::<HS, B>(&mut g, app, &aside, false).unwrap();
                aside.push(e.val.map_err(|e| format!("{e:?}"))?);
            }
            if g.chance(1, 6) && !aside.is_empty() {
                let v = aside.last().unwrap().clone();
                let _ = v.verify(app, &mut g);
            }
            if g.chance(1, 3) && !aside.is_empty() {
                let v = aside.last().unwrap().clone().rerandomize(app, &mut g).map_err(|e| format!("{e:?}"))?;
                aside.push(v);
            }
        }
        let mut g = Gen::from_seed(seed, i as u64);
        let e = apply::<HS, B>(&mut g, app, &pool, false).unwrap();
        let v = e.val.map_err(|x| format!("{} of {:?}: {x:?}", e.step, e.inputs))?;
        o.push((format!("{} of {:?}", e.step, e.inputs), prints(&v)));
        pool.push(v);
    }
    let mut g = Gen::from_seed(seed, 1000);
    if again {
        let v = pool.last().unwrap().clone().rerandomize(app, &mut g).map_err(|x| format!("rerandomize: {x:?}"))?;
        o.push(("rerandomized".into(), prints(&v)));
        pool.push(v);
    }
    let v = pool.last().unwrap().verify(app, &mut g);
    o.push(("verified".into(), vec![("result".into(), format!("{v:?}"))]));
    Ok(o)
}
fn compare(a: &Prints, b: &Prints, what: &str) -> R {
    ensure!(a.len() == b.len(), "{} proofs, and {} {what}", a.len(), b.len());
    for ((n, x), (m, y)) in a.iter().zip(b) {
        ensure!(n == m, "{n}, but {m} {what}");
        for (p, q) in x.iter().zip(y) {
            ensure!(p == q, "{n}: {} is {}, but {} {what}", p.0, p.1, q.1);
        }
        ensure!(x.len() == y.len(), "{n}: not the same number of parts {what}");
    }
    Ok(())
}
fn anew<const HS: usize, const B: usize>(threads: usize, build: impl Fn() -> App<HS> + Send + Sync, seed: u64, n: usize) -> Result<Prints, String> {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).stack_size(64 << 20).build().unwrap();
    pool.install(|| tree::<HS, B>(&build(), seed, n, true, None))
}
fn again(g: &mut Gen) -> R {
    let (seed, n, threads) = (g.u64(), g.usize(2, 5), g.usize(2, 9));
    let other = g.u64();
    note!(g, "{n} steps on one thread, on {threads}, and among other steps, seed {seed}");
    g.nt(n > 2);
    let build = || {
        let r = steps::<4, 0>(Build::new()).and_then(|b| b.finalize(Pasta::baked()));
        r.expect("an application")
    };
    let one = anew::<4, 0>(1, build, seed, n)?;
    ensure!(one.last().unwrap().1[0].1 == "Ok(true)", "an honest proof verifies as {}", one.last().unwrap().1[0].1);
    let many = anew::<4, 0>(threads, build, seed, n)?;
    compare(&one, &many, &format!("on {threads} threads, by an application built anew"))?;
    let mut among = tree::<4, 0>(plain(), seed, n, false, Some(other))?;
    among.pop();
    compare(&one[..n].to_vec(), &among, "by an application that proved other things")?;
    // a build with threads against one without
    if let Ok(dir) = std::env::var("V_PEER") {
        let mut body = String::new();
        for (n, x) in &one {
            for p in x {
                let _ = writeln!(body, "{n}: {} is {}", p.0, p.1);
            }
        }
        let f = format!("{dir}/{seed:016x}-{n}");
        if cfg!(feature = "threads") {
            if let Ok(old) = std::fs::read_to_string(&f) {
                g.label("both builds");
                for (x, y) in old.lines().zip(body.lines()) {
                    ensure!(x == y, "in the build without threads, {x}; with threads, {y}");
                }
            }
        } else {
            std::fs::create_dir_all(&dir).and_then(|()| std::fs::write(&f, body)).map_err(|e| e.to_string())?;
        }
    }
    let _ = (VRng::of(g), Pasta::baked());
    Ok(())
}
pub fn reproducible() -> Prop {
    Prop {
        id: "T12",
        subs: vec![Sub::new(
            "again",
            again,
            8,
            300,
            "2 to 5 steps and a rerandomization, each with randomness of its own, by a new application on one thread and by another on 2 to 9, and the steps alone among others on an application that was used before: every part of every proof is the same; also in the builds with and without threads; non-trivial when more than two steps",
        )],
        assumptions: &["polynomials are compared by their value at a point; a rerandomization depends on the application's first one, whose filler it keeps"],
    }
}
