//! All satisfying assignments of a recorded circuit over a tiny field, seen
//! through chosen output wires.
use crate::{Gf, Rec, W};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// Every value the wires `outs` can take when the wires `fixed` have the given
/// values. Works gate by gate and forgets what nothing refers to any more.
/// `None` if more than `cap` partial assignments are alive at some point.
pub fn solutions<const P: u64, K>(rec: &Rec<Gf<P>, K>, fixed: &[(W, Gf<P>)], outs: &[W], cap: usize) -> Option<BTreeSet<Vec<Gf<P>>>> {
    type C<const P: u64> = BTreeMap<usize, Gf<P>>;
    let mut cons: Vec<C<P>> = rec.constraints.clone();
    for (w, v) in fixed {
        let mut m = rec.comb(*w).clone();
        let e = m.entry(0).or_default();
        *e -= *v;
        m.retain(|_, x| x.0 != 0);
        cons.push(m);
    }
    let gate_of = |v: usize| if v == 0 { None } else { Some((v - 1) / 4) };
    let mut by_gate: HashMap<usize, Vec<C<P>>> = HashMap::new();
    let mut last_use: HashMap<usize, usize> = HashMap::new();
    for m in cons {
        match m.keys().next_back().and_then(|v| gate_of(*v)) {
            None => {
                if m.values().any(|x| x.0 != 0) {
                    return Some(BTreeSet::new());
                }
            }
            Some(g) => {
                for v in m.keys() {
                    let e = last_use.entry(*v).or_insert(g);
                    *e = (*e).max(g);
                }
                by_gate.entry(g).or_default().push(m);
            }
        }
    }
    for w in outs {
        for v in rec.comb(*w).keys() {
            last_use.insert(*v, usize::MAX);
        }
    }
    // a state is the values of the live variables
    let mut live: Vec<usize> = vec![];
    let mut states: HashSet<Vec<Gf<P>>> = HashSet::from([vec![]]);
    let none = vec![];
    for g in 0..rec.gates {
        let base = 1 + 4 * g;
        let used = |i: usize| last_use.contains_key(&(base + i));
        let checks = by_gate.get(&g).unwrap_or(&none);
        let pos: HashMap<usize, usize> = live.iter().copied().chain(base..base + 4).enumerate().map(|(i, v)| (v, i)).collect();
        // constraints split into the part known before the gate and the part in it
        let split: Vec<(Vec<(usize, u64)>, [u64; 4], u64)> = checks
            .iter()
            .map(|m| {
                let mut old = vec![];
                let mut here = [0; 4];
                let mut k = 0;
                for (v, x) in m {
                    if *v == 0 {
                        k = x.0;
                    } else if *v >= base {
                        here[*v - base] = x.0;
                    } else {
                        old.push((pos[v], x.0));
                    }
                }
                (old, here, k)
            })
            .collect();
        let next_live: Vec<usize> = live.iter().copied().chain(base..base + 4).filter(|v| last_use.get(v).is_some_and(|l| *l > g)).collect();
        let keep: Vec<usize> = next_live.iter().map(|v| pos[v]).collect();
        let any_ab = used(0) || used(2) || used(3);
        let mut next = HashSet::new();
        for s in &states {
            let pre: Vec<u64> = split.iter().map(|(old, _, k)| (old.iter().map(|(i, x)| s[*i].0 * x).sum::<u64>() + k) % P).collect();
            for a in 0..if any_ab { P } else { 1 } {
                for b in 0..P {
                    let c = a * b % P;
                    for d in 0..if used(3) && c == 0 { P } else { 1 } {
                        let v = [a, b, c, d];
                        if split.iter().zip(&pre).all(|((_, h, _), p)| (h.iter().zip(&v).map(|(x, y)| x * y).sum::<u64>() + p) % P == 0) {
                            let n = s.len();
                            next.insert(keep.iter().map(|i| if *i < n { s[*i] } else { Gf(v[*i - n]) }).collect::<Vec<_>>());
                        }
                    }
                }
            }
            if next.len() > cap {
                return None;
            }
        }
        states = next;
        live = next_live;
        if states.is_empty() {
            break;
        }
    }
    if states.is_empty() {
        return Some(BTreeSet::new());
    }
    let pos: HashMap<usize, usize> = live.iter().copied().enumerate().map(|(i, v)| (v, i)).collect();
    Some(
        states
            .iter()
            .map(|s| {
                outs.iter()
                    .map(|w| rec.comb(*w).iter().map(|(v, x)| if *v == 0 { *x } else { s[pos[v]] * *x }).sum())
                    .collect()
            })
            .collect(),
    )
}

/// Looks for values of all variables that satisfy a recorded circuit, given
/// some of them, as a prover would who does not follow the program that
/// computes the witness: whatever follows from what is known is filled in, and
/// where nothing follows the first unknown value is taken from `pick`, those of
/// the first `late` gates after all others. What is
/// returned satisfies everything; nothing is returned if the search gets stuck.
pub fn forge<F: ff::Field, K: crate::Presence>(rec: &Rec<F, K>, fixed: &[(usize, F)], late: usize, mut pick: impl FnMut(usize) -> F) -> Option<Vec<F>> {
    let n = 1 + 4 * rec.gates;
    let mut vals: Vec<Option<F>> = vec![None; n];
    let mut uses: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, m) in rec.constraints.iter().enumerate() {
        for v in m.keys() {
            uses[*v].push(i);
        }
    }
    let mut todo: Vec<usize> = vec![];
    let set = |vals: &mut Vec<Option<F>>, todo: &mut Vec<usize>, v: usize, x: F| -> bool {
        match vals[v] {
            Some(y) => x == y,
            None => {
                vals[v] = Some(x);
                todo.push(v);
                true
            }
        }
    };
    if !set(&mut vals, &mut todo, 0, F::ONE) {
        return None;
    }
    for (v, x) in fixed {
        if !set(&mut vals, &mut todo, *v, *x) {
            return None;
        }
    }
    let mut next = 0;
    let order: Vec<usize> = (1 + 4 * late..n).chain(1..1 + 4 * late).collect();
    // rules without the constant are all looked at once to begin with
    uses[0] = (0..rec.constraints.len()).collect();
    loop {
        while let Some(v) = todo.pop() {
            for i in &uses[v] {
                let m = &rec.constraints[*i];
                let mut unknown = m.iter().filter(|(u, _)| vals[**u].is_none());
                let (first, second) = (unknown.next(), unknown.next());
                if second.is_some() {
                    continue;
                }
                let rest: F = m.iter().filter_map(|(u, c)| vals[*u].map(|x| x * *c)).sum();
                match first {
                    None if !bool::from(rest.is_zero()) => return None,
                    None => {}
                    Some((u, c)) => {
                        let x = -rest * Option::<F>::from(c.invert()).unwrap();
                        if !set(&mut vals, &mut todo, *u, x) {
                            return None;
                        }
                    }
                }
            }
            if v == 0 {
                continue;
            }
            let i = (v - 1) / 4 * 4 + 1;
            let zero = |x: F| bool::from(x.is_zero());
            let (a, b, c, d) = (vals[i], vals[i + 1], vals[i + 2], vals[i + 3]);
            let found = match (a, b, c) {
                (Some(a), Some(b), _) => Some((i + 2, a * b)),
                (Some(a), None, _) | (None, Some(a), _) if zero(a) => Some((i + 2, F::ZERO)),
                (Some(a), None, Some(c)) => Some((i + 1, c * Option::<F>::from(a.invert()).unwrap())),
                (None, Some(b), Some(c)) => Some((i, c * Option::<F>::from(b.invert()).unwrap())),
                _ => None,
            };
            if let Some((u, x)) = found {
                if !set(&mut vals, &mut todo, u, x) {
                    return None;
                }
            }
            match (vals[i + 2], d) {
                (Some(c), _) if !zero(c) && !set(&mut vals, &mut todo, i + 3, F::ZERO) => return None,
                (_, Some(d)) if !zero(d) && !set(&mut vals, &mut todo, i + 2, F::ZERO) => return None,
                _ => {}
            }
        }
        match (next..order.len()).find(|i| vals[order[*i]].is_none()) {
            None => break,
            Some(i) => {
                next = i;
                let v = order[i];
                let x = pick(v);
                set(&mut vals, &mut todo, v, x);
            }
        }
    }
    let vals: Vec<F> = vals.into_iter().map(|x| x.unwrap()).collect();
    rec.check_with(&vals).ok().map(|_| vals)
}
