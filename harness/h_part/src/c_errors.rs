use crate::errors::Error;
use std::error::Error as _;
use std::fmt;
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

fn text(g: &mut Gen) -> String {
    // mostly short; now and then long enough to meet a buffer or a cut-off
    let n = if g.chance(1, 12) { {
        let top = *g.pick(&[130, 300, 1100, 4200]);
        g.usize(41, top)
    } } else { g.size(40) };
    (0..n)
        .map(|_| match g.below(6) {
            0 => '{',
            1 => '}',
            2 => '%',
            3 => char::from_u32(g.range(0x20, 0x7e) as u32).unwrap(),
            4 => char::from_u32(g.range(0xa1, 0x2fff) as u32).unwrap_or('x'),
            _ => *g.pick(&['a', ':', ' ', '\n', '0', '"', '\\']),
        })
        .collect()
}
fn number(g: &mut Gen) -> usize {
    match g.below(4) {
        0 => g.below(12) as usize,
        1 => 1usize << g.below(64),
        2 => usize::MAX - g.below(3) as usize,
        _ => g.u64() as usize,
    }
}

#[derive(Debug)]
struct Chained {
    msg: String,
    tag: u64,
    inner: Option<Box<Chained>>,
}
impl fmt::Display for Chained {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.msg)
    }
}
impl std::error::Error for Chained {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.inner.as_deref().map(|e| e as _)
    }
}

fn wrap(k: u64, b: Box<dyn std::error::Error + Send + Sync>) -> (Error, &'static str) {
    match k {
        0 => (Error::InvalidWitness(b), "invalid witness: "),
        1 => (Error::MalformedEncoding(b), "malformed encoding: "),
        _ => (Error::Initialization(b), "initialization failed: "),
    }
}

fn wrapping(g: &mut Gen) -> R {
    let k = g.below(3);
    let depth = g.usize(1, 4);
    let mut chain: Option<Box<Chained>> = None;
    let mut tags = vec![];
    for _ in 0..depth {
        let tag = g.u64();
        let msg = text(g);
        tags.insert(0, (tag, msg.clone()));
        chain = Some(Box::new(Chained { msg, tag, inner: chain }));
    }
    note!(g, "variant {k}, chain {tags:?}");
    g.nt(depth > 1 || !tags[0].1.is_empty());
    let (e, prefix) = wrap(k, chain.unwrap());
    ensure_eq!(e.to_string(), format!("{prefix}{}", tags[0].1), "display");
    // the whole cause chain stays reachable and typed
    let mut cur: Option<&(dyn std::error::Error + 'static)> = e.source();
    for (i, (tag, msg)) in tags.iter().enumerate() {
        let c = cur.ok_or(format!("cause {i} is missing"))?;
        ensure_eq!(c.to_string(), *msg, "cause {i} text");
        let d = c.downcast_ref::<Chained>().ok_or(format!("cause {i} lost its type"))?;
        ensure_eq!(d.tag, *tag, "cause {i} identity");
        cur = c.source();
    }
    ensure!(cur.is_none(), "extra cause at the end of the chain");
    ensure_eq!(format!("{e:#}"), e.to_string(), "alternate display");
    // the error nests in itself
    let inner_text = e.to_string();
    let (outer, p2) = wrap(g.below(3), Box::new(e));
    ensure_eq!(outer.to_string(), format!("{p2}{inner_text}"), "nested display");
    let s = outer.source().ok_or("nested source is missing")?;
    let s = s.downcast_ref::<Error>().ok_or("nested error lost its type")?;
    ensure_eq!(s.to_string(), inner_text, "nested source");
    ensure_eq!(s.source().map(|x| x.to_string()), Some(tags[0].1.clone()), "source of the nested source");
    Ok(())
}

fn strings(g: &mut Gen) -> R {
    let k = g.below(3);
    let t = text(g);
    note!(g, "variant {k} text {t:?}");
    g.nt(!t.is_empty());
    let (e, p) = wrap(k, t.clone().into());
    ensure_eq!(e.to_string(), format!("{p}{t}"), "display");
    ensure_eq!(e.source().map(|s| s.to_string()), Some(t.clone()), "source");
    let dbg = format!("{e:?}");
    ensure!(dbg.contains(&format!("{t:?}")), "debug shows the cause: {dbg}");
    ensure!(dbg.contains(["InvalidWitness", "MalformedEncoding", "Initialization"][k as usize]), "debug names the variant: {dbg}");
    Ok(())
}

fn bounds(g: &mut Gen) -> R {
    let k = g.below(5);
    let (a, b) = (number(g), number(g));
    note!(g, "variant {k} a={a} b={b}");
    g.nt(a > 9 || b > 9);
    let (e, want) = match k {
        0 => (Error::GateBoundExceeded { limit: a }, format!("exceeded the maximum number of gates ({a})")),
        1 => (Error::ConstraintBoundExceeded { limit: a }, format!("exceeded the maximum number of constraints ({a})")),
        2 => (Error::CircuitBoundExceeded { limit: a }, format!("exceeded the maximum number of circuits ({a})")),
        3 => (Error::DegreeBoundExceeded { limit: a }, format!("exceeded the maximum degree of a polynomial ({a})")),
        _ => (
            Error::VectorLengthMismatch { expected: a, actual: b },
            format!("vector does not have the expected length: (expected {a}, actual {b})"),
        ),
    };
    ensure_eq!(e.to_string(), want, "display");
    ensure!(e.source().is_none(), "no cause expected");
    ensure_eq!(format!("{e:5}"), want, "width does not truncate");
    fn portable<T: Send + Sync + 'static>(_: &T) {}
    portable(&e);
    let r: crate::errors::Result<u8> = Err(e);
    ensure_eq!(r.map_err(|e| e.to_string()), Err(want), "Result alias");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        subs: vec![
            Sub::new("wrapping_chain", wrapping, 20_000, 500_000, "wrapping variants around generated cause chains of depth 1-4 with arbitrary text; non-trivial: depth > 1 or non-empty text"),
            Sub::new("wrapping_strings", strings, 10_000, 200_000, "wrapping variants around arbitrary strings; non-trivial: non-empty"),
            Sub::new("limits", bounds, 10_000, 200_000, "limit and length variants with numbers up to usize::MAX; non-trivial: two-digit numbers"),
        ],
        assumptions: &[],
    }
}
