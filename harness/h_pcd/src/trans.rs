//! Transcripts against a plain sponge.
use crate::app::poseidon;
use crate::plain::Plain;
use pasta_curves::Fp;
use ragu_core::maybe::{Always, Maybe, MaybeKind};
use ragu_pasta::PoseidonFp;
use ragu_pcd::verif::transcript::{ResumedTranscript, Transcript};
use ragu_primitives::{Element, io::Buffer};
use std::collections::BTreeMap;
use vcs::{Present, Rec, W, rand_fe, fe};
use vlib::{Gen, R, Sub, catches, ensure, ensure_eq, note};

type D = Rec<Fp, Present>;
enum T<'dr> {
    Open(Transcript<'dr, D, PoseidonFp>),
    Resumed(ResumedTranscript<'dr, D, PoseidonFp>, bool),
}
fn tag(g: &mut Gen) -> Vec<u8> {
    let n = match g.below(5) {
        0 => 0,
        1 => 16,
        2 => 17,
        3 => g.usize(1, 8),
        _ => g.usize(1, 70),
    };
    let mut t: Vec<u8> = (0..n).map(|_| if g.chance(1, 4) { 0 } else { g.below(256) as u8 }).collect();
    if g.chance(1, 4) {
        t.push(0);
    }
    t
}
fn history(g: &mut Gen) -> R {
    let t = tag(g);
    let mut dr = D::new();
    let mut plain = Plain::<Fp, PoseidonFp>::tagged(poseidon(), &t);
    let mut tr = T::Open(Transcript::new(&mut dr, poseidon(), &t).map_err(|e| format!("{e:?}"))?);
    note!(g, "tag {t:?}");
    let (mut ins, mut outs): (Vec<W>, Vec<W>) = (vec![], vec![]);
    // absorbed since the last challenge, as saving asks
    let mut pending = true;
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let mut kept = None;
    let (mut squeezes, mut saves) = (0, 0);
    for _ in 0..g.size(30) {
        let op = g.below(10);
        tr = match (tr, op) {
            (T::Open(mut t), 0..=3) => {
                let x: Fp = fe(g);
                let e = Element::alloc(&mut dr, Always::<()>::maybe_just(|| x)).unwrap();
                ins.push(*e.wire());
                t.write(&mut dr, &e).map_err(|e| format!("{e:?}"))?;
                plain.absorb(x);
                pending = true;
                note!(g, "write");
                T::Open(t)
            }
            (T::Open(mut t), 4..=6) => {
                let c = t.challenge(&mut dr).map_err(|e| format!("{e:?}"))?;
                ensure_eq!(*c.value().take(), plain.squeeze(), "a challenge");
                squeezes += 1;
                outs.push(*c.wire());
                *seen.entry(format!("{:?}", c.value().take())).or_default() += 1;
                pending = false;
                note!(g, "challenge");
                T::Open(t)
            }
            (T::Open(t), 7 | 8) => {
                let again = t.clone();
                match t.save_state(&mut dr) {
                    Ok(s) => {
                        ensure!(pending, "a transcript is saved with nothing written since the last challenge");
                        saves += 1;
                        note!(g, "save, resume");
                        T::Resumed(Transcript::resume_from_state(s, poseidon()), false)
                    }
                    Err(e) => {
                        ensure!(!pending, "a transcript is not saved: {e:?}");
                        T::Open(again)
                    }
                }
            }
            (T::Open(t), _) => {
                // a copy goes its own way
                let old = kept.replace((t.clone(), plain.clone(), pending));
                note!(g, "copy");
                match old {
                    Some((o, p, w)) => {
                        (plain, pending) = (p, w);
                        T::Open(o)
                    }
                    None => T::Open(t),
                }
            }
            (T::Resumed(mut r, _), 0..=6) => {
                let c = r.challenge(&mut dr).map_err(|e| format!("{e:?}"))?;
                ensure_eq!(*c.value().take(), plain.squeeze(), "a challenge after resuming");
                squeezes += 1;
                outs.push(*c.wire());
                pending = false;
                note!(g, "challenge");
                T::Resumed(r, true)
            }
            (T::Resumed(r, squeezed), _) => {
                if !squeezed {
                    ensure!(catches(|| r.into_transcript()).is_err(), "a resumed transcript takes writes before it gave a challenge");
                    break;
                }
                note!(g, "go on");
                T::Open(r.into_transcript())
            }
        };
    }
    g.nt(squeezes > 1);
    if saves > 0 {
        g.label("saved");
    }
    dr.satisfied()?;
    if outs.len() < 12 {
        ensure!(dr.free_output(&ins, &outs).is_none(), "a challenge is not determined by what was written");
    }
    Ok(())
}
/// Two tags, or two writes, tell apart.
fn separation(g: &mut Gen) -> R {
    let a = tag(g);
    let mut b = a.clone();
    let what = match g.below(5) {
        0 => {
            b.push(0);
            "a zero more"
        }
        1 if !b.is_empty() => {
            let k = g.usize(0, b.len() - 1);
            b[k] ^= 1 << g.below(8);
            "a bit"
        }
        2 if !b.is_empty() => {
            b.pop();
            "one byte less"
        }
        3 if b.len() > 1 && b[0] != b[1] => {
            b.swap(0, 1);
            "two bytes swapped"
        }
        _ => {
            b.resize((b.len() / 16 + 1) * 16, 0);
            if b == a {
                b.push(0);
            }
            "zeros to the next block"
        }
    };
    note!(g, "{a:?} and with {what}");
    g.nt(true);
    let vals: Vec<Fp> = (0..g.usize(0, 5)).map(|_| rand_fe(g)).collect();
    let run = |tag: &[u8]| -> Result<Fp, String> {
        let mut dr = D::new();
        let mut t = Transcript::new(&mut dr, poseidon(), tag).map_err(|e| format!("{e:?}"))?;
        for v in &vals {
            let e = Element::constant(&mut dr, *v);
            t.write(&mut dr, &e).map_err(|e| format!("{e:?}"))?;
        }
        let c = t.challenge(&mut dr).map_err(|e| format!("{e:?}"))?;
        Ok(*c.value().take())
    };
    ensure!(run(&a)? != run(&b)?, "transcripts of {a:?} and {b:?} give the same challenge");
    Ok(())
}
pub fn transcripts() -> Vec<Sub> {
    vec![
        Sub::new("transcripts", history, 200, 6000, "up to 30 writes, challenges, saves, resumptions and copies on a recording driver, after a tag of 0 to 71 bytes, against a plain sponge; challenges determined by writes in the circuit; a resumed transcript gives a challenge before it takes writes; non-trivial with more than one challenge"),
        Sub::new("tags", separation, 200, 6000, "pairs of tags differing in a bit, a byte, trailing zeros or order give different challenges"),
    ]
}
