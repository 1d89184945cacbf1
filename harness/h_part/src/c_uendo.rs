use crate::uendo::Uendo;
use rand::distr::{Distribution, StandardUniform};
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

const BITS: usize = Uendo::BITS as usize;
/// Bit vector model, least significant first.
type Bits = Vec<bool>;

fn gen_bits(g: &mut Gen) -> Bits {
    let mut v = vec![false; BITS];
    match g.below(7) {
        0 => {}
        1 => v.iter_mut().for_each(|b| *b = true),
        2 => {
            let i = g.usize(0, BITS - 1);
            v[i] = true;
        }
        3 => {
            let n = *g.pick(&[1, 63, 64, 65, 127, 128, 129, BITS - 1]);
            v.iter_mut().take(n).for_each(|b| *b = true);
        }
        4 => {
            for i in [0, 63, 64, 127, 128, BITS - 1] {
                v[i] = g.bool();
            }
        }
        _ => {
            for c in v.chunks_mut(64) {
                let x = g.u64();
                for (i, b) in c.iter_mut().enumerate() {
                    *b = x >> i & 1 == 1;
                }
            }
        }
    }
    v
}
/// Builds the integer from 128-bit and 64-bit constructors.
fn build(b: &Bits) -> Uendo {
    let word = |lo: usize, n: usize| (0..n).fold(0u128, |s, i| s | (b.get(lo + i).copied().unwrap_or(false) as u128) << i);
    let mut x = Uendo::from(word(0, 128));
    x |= Uendo::from(word(128, BITS - 128) as u64) << 128;
    x
}
fn by_debug(x: &Uendo) -> Result<Bits, String> {
    let s = format!("{x:?}");
    let hex = s.split("0x").nth(1).ok_or(format!("no hex in {s}"))?;
    let digits: Vec<u32> = hex.chars().map_while(|c| c.to_digit(16)).collect();
    let mut out = vec![];
    for d in digits.iter().rev() {
        for i in 0..4 {
            out.push(d >> i & 1 == 1);
        }
    }
    if out.iter().skip(BITS).any(|b| *b) {
        return Err(format!("bits above the width in {s}"));
    }
    out.resize(BITS, false);
    Ok(out)
}
fn by_shift(x: Uendo) -> Bits {
    (0..BITS).map(|i| (x >> i) & Uendo::ONE == Uendo::ONE).collect()
}
fn expect(x: Uendo, want: &Bits, what: &str) -> R {
    ensure_eq!(by_debug(&x)?, *want, "{what} (printed)");
    ensure_eq!(by_shift(x), *want, "{what} (bit by bit)");
    ensure!(x == build(want), "{what}: not equal to the same value built from words");
    Ok(())
}
fn hex(b: &Bits) -> String {
    b.chunks(4).rev().map(|c| format!("{:x}", c.iter().enumerate().fold(0, |s, (i, b)| s | (*b as u32) << i))).collect()
}
fn shifted(b: &Bits, left: bool, k: usize) -> Bits {
    (0..BITS)
        .map(|i| if left { i.checked_sub(k).is_some_and(|j| b[j]) } else { i.checked_add(k).is_some_and(|j| j < BITS && b[j]) })
        .collect()
}
fn amount(g: &mut Gen) -> usize {
    match g.below(6) {
        // far beyond the width, and small again once cut to fewer bits
        5 => {
            let p = g.range(8, 63);
            let small = g.usize(0, BITS + 8);
            match g.below(3) {
                0 => (1usize << p) + small,
                1 => (g.u64() as usize & !0xff) | small & 0xff,
                _ => usize::MAX - small,
            }
        }
        0 => *g.pick(&[0, 1, 63, 64, 65, 127, 128, 129, BITS - 1, BITS, BITS + 1, 191, 192, 193, 256, usize::MAX]),
        _ => g.usize(0, BITS + 8),
    }
}

fn shifts(g: &mut Gen) -> R {
    let b = gen_bits(g);
    let k = amount(g);
    note!(g, "x=0x{} shift {k}", hex(&b));
    g.nt(k > 0 && k < BITS && b.iter().any(|x| *x));
    let x = build(&b);
    expect(x, &b, "construction")?;
    expect(x << k, &shifted(&b, true, k), "left shift")?;
    expect(x >> k, &shifted(&b, false, k), "right shift")?;
    let mut y = x;
    y <<= k;
    expect(y, &shifted(&b, true, k), "in-place left shift")?;
    // splitting a shift
    let i = g.usize(0, k.min(BITS));
    ensure!((x << i) << (k - i) == x << k, "left shifts compose ({i} + {})", k - i);
    ensure!((x >> i) >> (k - i) == x >> k, "right shifts compose ({i} + {})", k - i);
    Ok(())
}
fn logic(g: &mut Gen) -> R {
    let (a, b, c) = (gen_bits(g), gen_bits(g), gen_bits(g));
    note!(g, "a=0x{} b=0x{}", hex(&a), hex(&b));
    g.nt(a != b);
    let (x, y, z) = (build(&a), build(&b), build(&c));
    let and: Bits = a.iter().zip(&b).map(|(p, q)| *p & *q).collect();
    let or: Bits = a.iter().zip(&b).map(|(p, q)| *p | *q).collect();
    expect(x & y, &and, "and")?;
    expect(x | y, &or, "or")?;
    let mut w = x;
    w |= y;
    expect(w, &or, "or-assign")?;
    ensure_eq!(x == y, a == b, "equality agrees with the bits");
    ensure_eq!(x != y, a != b, "inequality agrees with the bits");
    ensure!((x & (y | z)) == ((x & y) | (x & z)), "distributivity");
    ensure!((x | Uendo::ZERO) == x && (x & Uendo::ZERO) == Uendo::ZERO, "zero");
    expect(Uendo::default(), &vec![false; BITS], "default")?;
    Ok(())
}
fn conversions(g: &mut Gen) -> R {
    let s = g.usize(0, 127);
    let v = match g.below(5) {
        0 => u128::MAX - g.below(2) as u128,
        1 => 1u128 << s,
        2 => (1u128 << s).wrapping_sub(1),
        _ => g.u128() >> s,
    };
    note!(g, "v={v:#x}");
    g.nt(v > 1);
    let bits = |v: u128, n: usize| -> Bits { (0..BITS).map(|i| i < n && v >> i & 1 == 1).collect() };
    expect(Uendo::from(v), &bits(v, 128), "from u128")?;
    expect(Uendo::from(v as u64), &bits(v as u64 as u128, 64), "from u64")?;
    ensure!(Uendo::from(1u64) == Uendo::ONE && Uendo::from(0u128) == Uendo::ZERO, "constants");
    Ok(())
}
struct Words(Vec<u64>, usize);
impl rand::rand_core::TryRng for Words {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        Ok(self.try_next_u64()? as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        let v = self.0[self.1 % self.0.len()];
        self.1 += 1;
        Ok(v)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Self::Error> {
        for b in d {
            *b = self.try_next_u64()? as u8;
        }
        Ok(())
    }
}
/// Sampled values are normalised: nothing above the width, and every bit can be either value.
fn sampling(g: &mut Gen) -> R {
    let n = g.usize(1, 6);
    let words: Vec<u64> = (0..n).map(|_| if g.chance(1, 3) { u64::MAX } else { g.u64() }).collect();
    note!(g, "rng words {words:x?}");
    g.nt(true);
    let x: Uendo = StandardUniform.sample(&mut Words(words, 0));
    let b = by_debug(&x)?;
    expect(x, &b, "sampled value")?;
    ensure!((x << 1) >> 1 == build(&shifted(&shifted(&b, true, 1), false, 1)), "no hidden bits after sampling");
    ensure!(x >> BITS == Uendo::ZERO, "nothing above the width");
    if g.chance(1, 20) {
        let mut or = Uendo::ZERO;
        let mut and = build(&vec![true; BITS]);
        let mut r = Words((0..4096).map(|_| g.u64()).collect(), 0);
        for _ in 0..128 {
            let y: Uendo = StandardUniform.sample(&mut r);
            or |= y;
            and = and & y;
        }
        // no bit is a fixed combination of others: the samples span everything
        let mut basis: Vec<Bits> = vec![];
        let base: Uendo = StandardUniform.sample(&mut r);
        let base = by_shift(base);
        let mut tries = 0;
        while basis.len() < BITS && tries < BITS + 200 {
            tries += 1;
            let y: Uendo = StandardUniform.sample(&mut r);
            let mut v: Bits = by_shift(y).iter().zip(&base).map(|(p, q)| p ^ q).collect();
            for b in &basis {
                let lead = b.iter().position(|x| *x).unwrap();
                if v[lead] {
                    v.iter_mut().zip(b).for_each(|(p, q)| *p ^= q);
                }
            }
            if v.iter().any(|x| *x) {
                basis.push(v);
            }
        }
        ensure_eq!(basis.len(), BITS, "dimension of the span of {tries} samples");
        ensure_eq!(by_shift(or), vec![true; BITS], "every bit is set in some of 128 samples");
        ensure_eq!(by_shift(and), vec![false; BITS], "every bit is clear in some of 128 samples");
    }
    Ok(())
}
/// Random programs over several registers.
fn programs(g: &mut Gen) -> R {
    let mut m: Vec<Bits> = (0..4).map(|_| gen_bits(g)).collect();
    let mut x: Vec<Uendo> = m.iter().map(build).collect();
    let n = g.size(30);
    let mut desc = vec![];
    for _ in 0..n {
        let (i, j, k) = (g.usize(0, 3), g.usize(0, 3), g.usize(0, 3));
        let s = amount(g);
        let op = g.below(6);
        desc.push((op, i, j, k, s));
        match op {
            0 => (x[i], m[i]) = (x[j] & x[k], m[j].iter().zip(&m[k]).map(|(p, q)| *p & *q).collect()),
            1 => (x[i], m[i]) = (x[j] | x[k], m[j].iter().zip(&m[k]).map(|(p, q)| *p | *q).collect()),
            2 => (x[i], m[i]) = (x[j] << s, shifted(&m[j], true, s)),
            3 => (x[i], m[i]) = (x[j] >> s, shifted(&m[j], false, s)),
            4 => {
                x[i] <<= s;
                m[i] = shifted(&m[i], true, s);
            }
            _ => {
                let o = x[j];
                x[i] |= o;
                m[i] = m[i].clone().iter().zip(&m[j]).map(|(p, q)| *p | *q).collect();
            }
        }
    }
    note!(g, "program {desc:?}");
    g.nt(n > 3);
    for i in 0..4 {
        expect(x[i], &m[i], "register after the program")?;
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "A01",
        subs: vec![
            Sub::new("shifts", shifts, 30_000, 1_000_000, "boundary-biased values and shift amounts vs. a bit-vector model; non-trivial: 0 < shift < width on a non-zero value"),
            Sub::new("logic", logic, 20_000, 500_000, "and/or/equality vs. a bit-vector model; non-trivial: different operands"),
            Sub::new("conversions", conversions, 20_000, 500_000, "from u64/u128; non-trivial: value > 1"),
            Sub::new("sampling", sampling, 10_000, 200_000, "sampling from scripted generators; all non-trivial"),
            Sub::new("programs", programs, 10_000, 300_000, "register programs of up to 30 operations; non-trivial: > 3 operations"),
        ],
        assumptions: &["the printed hexadecimal form is used as one of two independent readings of the value"],
    }
}
