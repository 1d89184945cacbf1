//! Generated programs that have to compile and behave.
use crate::gen_struct::{Struct, generate};
use crate::rc::{Deps, compile};
use num_bigint::BigUint;
use std::fmt::Write as _;
use vlib::{Gen, Prop, R, Sub, ensure, note};

pub fn prelude(core: &str, prim: &str) -> String {
    format!(
        "#![allow(warnings)]\npub use core::marker::PhantomData;\npub use ::{core} as ragu_core_;\npub use ::{prim} as ragu_primitives_;\npub use ragu_core_::{{drivers::{{Driver, DriverValue}}, gadgets::{{Bound, Gadget, GadgetKind, Kind}}, maybe::Maybe}};\npub use ragu_primitives_::{{Element, io::Write, consistent::Consistent, GadgetExt}};\npub use msup::*;\n"
    )
}
/// The ways a package can refer to the libraries.
pub fn deps(g: &mut Gen) -> (Deps, &'static str, &'static str) {
    let e = |v: &[(&str, &str)]| v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    match g.below(12) {
        0 | 1 => (Deps::plain(), "ragu_core", "ragu_primitives"),
        2 => (
            Deps {
                package: "generated".into(),
                manifest: "[dependencies]\nrc_x = { package = \"ragu_core\", version = \"0\" }\nrp_y = { package = \"ragu_primitives\", version = \"0\" }\n".into(),
                externs: e(&[("rc_x", "ragu_core"), ("rp_y", "ragu_primitives")]),
            },
            "rc_x",
            "rp_y",
        ),
        3 => (
            Deps {
                package: "generated".into(),
                manifest: "[dev-dependencies]\nragu_core = \"0\"\n[dependencies]\nrp-y = { package = \"ragu_primitives\", path = \"../x\" }\n".into(),
                externs: e(&[("ragu_core", "ragu_core"), ("rp_y", "ragu_primitives")]),
            },
            "ragu_core",
            "rp_y",
        ),
        4 => (
            Deps { package: "generated".into(), manifest: "[dependencies]\nragu = \"0\"\n".into(), externs: e(&[("ragu", "msup_ragu")]) },
            "ragu",
            "ragu::primitives",
        ),
        5 => (
            Deps {
                package: "generated".into(),
                manifest: "[dependencies]\nzk = { package = \"ragu\", version = \"0\" }\n".into(),
                externs: e(&[("zk", "msup_ragu")]),
            },
            "zk",
            "zk::primitives",
        ),
        7 => (
            Deps {
                package: "generated".into(),
                manifest: "[dependencies]\nrc_x = { package = \"ragu_core\", version = \"0\" }\nzk = { package = \"ragu\", version = \"0\" }\n".into(),
                externs: e(&[("rc_x", "ragu_core"), ("zk", "msup_ragu")]),
            },
            "rc_x",
            "zk::primitives",
        ),
        8 => (
            Deps {
                package: "generated".into(),
                manifest: "[dependencies]\nragu = \"0\"\nrp_y = { package = \"ragu_primitives\", version = \"0\" }\n".into(),
                externs: e(&[("ragu", "msup_ragu"), ("rp_y", "ragu_primitives")]),
            },
            "ragu",
            "rp_y",
        ),
        9 => (
            Deps {
                package: "generated".into(),
                manifest: "[target.'cfg(unix)'.dependencies]\nragu_core = \"0\"\n[dependencies]\nragu_primitives = \"0\"\n[dev-dependencies]\nragu = \"0\"\n".into(),
                externs: e(&[("ragu_core", "ragu_core"), ("ragu_primitives", "ragu_primitives"), ("ragu", "msup_ragu")]),
            },
            "ragu_core",
            "ragu_primitives",
        ),
        10 => (
            Deps {
                package: "ragu".into(),
                manifest: "[dependencies]\nragu_core = \"0\"\nragu_primitives = \"0\"\n".into(),
                externs: e(&[("ragu", "msup_ragu"), ("ragu_core", "ragu_core"), ("ragu_primitives", "ragu_primitives")]),
            },
            "ragu",
            "ragu::primitives",
        ),
        6 => (
            Deps {
                package: "ragu".into(),
                manifest: "[dependencies]\nserde = \"1\"\n".into(),
                externs: e(&[("ragu", "msup_ragu")]),
            },
            "ragu",
            "ragu::primitives",
        ),
        _ => (
            Deps {
                package: (*g.pick(&["ragu_core", "ragu_primitives"])).into(),
                manifest: "[dependencies]\nragu_core = \"0\"\nragu_primitives = \"0\"\n".into(),
                externs: e(&[("ragu_core", "ragu_core"), ("ragu_primitives", "ragu_primitives")]),
            },
            "ragu_core",
            "ragu_primitives",
        ),
    }
}

pub fn run(src: &str, d: &Deps) -> R {
    let o = compile(src, d, true);
    if !o.compiled {
        let mut m = String::new();
        let lines: Vec<&str> = src.lines().collect();
        for (n, e) in o.errors.iter().take(4) {
            let _ = write!(m, "line {n}: {e} | {} || ", lines.get(n.wrapping_sub(1)).unwrap_or(&""));
        }
        return Err(format!("valid program does not compile: {m}{}\n--- program (package {}, {})\n{src}", if o.errors.is_empty() { o.raw.chars().take(1500).collect::<String>() } else { String::new() }, d.package, d.manifest));
    }
    let (rc, out) = o.out.unwrap();
    ensure!(rc == 0 && out.trim().is_empty(), "generated program reports (status {rc}): {}\n--- program\n{src}", out.chars().take(3000).collect::<String>());
    Ok(())
}

fn order(g: &mut Gen, s: &Struct) -> Vec<&'static str> {
    let mut v = s.derives();
    g.shuffle(&mut v);
    v
}
pub fn module(g: &mut Gen, s: &Struct) -> String {
    let o = order(g, s);
    let mut m = format!("mod {} {{\n    use super::*;\n{}{}", s.module, s.decl(&o), s.support());
    let kind = match g.below(3) {
        0 => format!("Kind![Fp; @{}{}]", s.name, s.args("'_", "_")),
        1 => format!("Kind![Fp; {}{}]", s.name, s.args("'_", "_")),
        _ => format!("<{}{} as Gadget<'static, PhantomData<Fp>>>::Kind", s.name, s.args("'static", "PhantomData<Fp>")),
    };
    let _ = write!(m, "    pub type K = {kind};\n    pub fn run(o: &mut Fails) {{\n        check_gadget::<K>(o);\n        need_send::<{}{}>();\n", s.name, s.args("'static", "Td<1, Present>"));
    if s.write {
        m.push_str("        check_write::<K>(o);\n");
    }
    if s.consistent {
        m.push_str("        check_consistent::<K>(o);\n");
    }
    m.push_str("    }\n}\n");
    m
}
pub fn main_fn(mods: &[String]) -> String {
    let mut s = String::from("fn main() {\n    let mut bad = false;\n");
    for m in mods {
        let _ = write!(s, "    {{ let mut o: Fails = vec![]; {m}::run(&mut o); for x in o {{ bad = true; println!(\"{m}: {{x}}\"); }} }}\n");
    }
    s.push_str("    if bad { std::process::exit(3) }\n}\n");
    s
}

fn structs(g: &mut Gen, n: usize) -> (Vec<Struct>, bool) {
    let mut all: Vec<Struct> = vec![];
    let mut nontrivial = false;
    for i in 0..n {
        let usable: Vec<Struct> = all.iter().filter(|s| s.write && s.consistent).cloned().collect();
        let s = generate(g, i, &usable);
        nontrivial |= s.complexity() > 5;
        all.push(s);
    }
    (all, nontrivial)
}

fn derives(g: &mut Gen) -> R {
    let (d, core, prim) = deps(g);
    let n = g.usize(1, 14);
    let (all, nt) = structs(g, n);
    g.nt(nt);
    let mut src = prelude(core, prim);
    for s in &all {
        src.push_str(&module(g, s));
    }
    src.push_str(&main_fn(&all.iter().map(|s| s.module.clone()).collect::<Vec<_>>()));
    let last = all.last().unwrap();
    note!(g, "{n} structs, package {}, e.g. {}", d.package, last.decl(&last.derives()).split_whitespace().collect::<Vec<_>>().join(" "));
    run(&src, &d)
}
pub fn derive_prop() -> Prop {
    Prop {
        id: "M01",
        subs: vec![Sub::new(
            "derived_gadgets",
            derives,
            128,
            3000,
            "programs of 1-14 generated structs (random parameters, field kinds, annotations, nesting, dependency names) compiled and run against listings computed without the macros; non-trivial: some struct has more than five fields and parameters",
        )],
        assumptions: &["the derives are used on types the documentation allows: named fields, no where clause, driver parameter named D/'dr or annotated"],
    }
}

fn kinds(g: &mut Gen) -> R {
    let (d, core, prim) = deps(g);
    let n = g.usize(1, 6);
    let (all, nt) = structs(g, n);
    g.nt(nt);
    let mut src = prelude(core, prim);
    for s in &all {
        let _ = write!(src, "mod {} {{\n    use super::*;\n{}}}\n", s.module, s.decl(&s.derives()));
    }
    src.push_str("#[derive(Gadget)]\npub struct Tagged<'dr, T: Send + 'static, D: Driver<'dr>> { #[ragu(phantom)] t: PhantomData<(T, &'dr (), fn() -> D)> }\n");
    src.push_str("pub mod deep { pub type Id<T> = T; pub mod er { pub use msup::Aux; pub mod still { pub use msup::Fp; } } }\n");
    src.push_str("pub trait Pick<T> { type Out: Send + 'static; } impl<T: Send + 'static> Pick<T> for u8 { type Out = (T, u16); }\n");
    src.push_str("mod k { use super::*; pub fn run(o: &mut Fails) {\n");
    let field = *g.pick(&["Fp", "msup::Fp", "::msup::Fp", "crate::deep::er::still::Fp", "<AuxFp as Aux<Fp>>::Base", "<AuxFp as crate::deep::er::Aux<Fp>>::Base", "crate::deep::Id<Fp>"]);
    for s in &all {
        let path = *g.pick(&["super", "crate", "self::super"]);
        let t = format!("{path}::{}::{}", s.module, s.name);
        let inf = format!("{t}{}", s.args("'_", "_"));
        let sta = format!("{t}{}", s.args("'static", "PhantomData<Fp>"));
        let _ = write!(src, "check_same::<Kind![{field}; @{inf}], {sta}>(o, \"named kind\");\n");
        let _ = write!(src, "check_same::<Kind![{field}; {inf}], <{sta} as Gadget<'static, PhantomData<Fp>>>::Kind>(o, \"kind\");\n");
        let _ = write!(src, "check_same::<Bound<'static, Td<1, Present>, Kind![{field}; {inf}]>, {t}{}>(o, \"bound gadget\");\n", s.args("'static", "Td<1, Present>"));
        let _ = write!(src, "fn same_bound{}<'x, Q: TD<'x>>(g: {t}{}) -> Bound<'x, Q, Kind![{field}; @{inf}]> {{ g }}\n", s.module, s.args("'x", "Q"));
        // of types that are no gadgets, only @ makes sense
        let t = tag(g, 3);
        let _ = write!(src, "check_same::<Kind![{field}; @{}], {}>(o, \"type\");\n", t.0, t.1);
        // composite types
        for _ in 0..g.usize(0, 4) {
            let (comp, want) = composite(g, 2, &inf, &sta);
            let _ = write!(src, "check_same::<Kind![{field}; {comp}], <{want} as Gadget<'static, PhantomData<Fp>>>::Kind>(o, \"composite kind\");\n");
        }
    }
    src.push_str("} }\n");
    src.push_str(&main_fn(&["k".to_string()]));
    note!(g, "{n} structs, package {}, e.g. {}{}", d.package, all[0].name, all[0].args("'_", "_"));
    run(&src, &d)
}
/// A type with placeholders in it, and the same type spelled out.
fn tag(g: &mut Gen, depth: usize) -> (String, String) {
    match if depth == 0 { g.below(3) } else { g.below(12) } {
        0 => ("_".to_string(), "PhantomData<Fp>".to_string()),
        1 => ("u8".to_string(), "u8".to_string()),
        2 => ("Lt<'_, u8>".to_string(), "Lt<'static, u8>".to_string()),
        3 => {
            let a = tag(g, depth - 1);
            (format!("Lt<'_, {}>", a.0), format!("Lt<'static, {}>", a.1))
        }
        4 => {
            let (a, b) = (tag(g, depth - 1), tag(g, depth - 1));
            (format!("core::result::Result<{}, {}>", a.0, b.0), format!("core::result::Result<{}, {}>", a.1, b.1))
        }
        5 => {
            let a = tag(g, depth - 1);
            let o = *g.pick(&["Option", "::core::option::Option", "std::option::Option"]);
            (format!("{o}<{}>", a.0), format!("Option<{}>", a.1))
        }
        6 => {
            // arguments of a segment that is not the last one
            let a = tag(g, depth - 1);
            let t = *g.pick(&["Pick", "crate::Pick"]);
            (format!("<u8 as {t}<{}>>::Out", a.0), format!("({}, u16)", a.1))
        }
        7 => {
            let a = tag(g, depth - 1);
            (format!("::msup::Lt<'_, {}>", a.0), format!("Lt<'static, {}>", a.1))
        }
        _ => {
            let v: Vec<_> = (0..g.usize(0, 9)).map(|_| tag(g, depth - 1)).collect();
            let f = |w: Vec<String>| format!("({})", w.into_iter().map(|x| x + ", ").collect::<String>());
            (f(v.iter().map(|x| x.0.clone()).collect()), f(v.iter().map(|x| x.1.clone()).collect()))
        }
    }
}
fn composite(g: &mut Gen, depth: usize, inf: &str, sta: &str) -> (String, String) {
    match if depth == 0 { g.below(3) } else { g.below(7) } {
        6 => {
            let a = composite(g, depth - 1, inf, sta);
            (format!("::std::boxed::Box<{}>", a.0), format!("Box<{}>", a.1))
        }
        0 => (inf.to_string(), sta.to_string()),
        1 => ("Leaf<'_, _>".to_string(), "Leaf<'static, PhantomData<Fp>>".to_string()),
        2 => {
            let t = tag(g, 3);
            let at = *g.pick(&["crate::Tagged", "super::Tagged", "Tagged"]);
            (format!("{at}<'_, {}, _>", t.0), format!("{at}<'static, {}, PhantomData<Fp>>", t.1))
        }
        3 => {
            let a = composite(g, depth - 1, inf, sta);
            let b = composite(g, depth - 1, inf, sta);
            (format!("({}, {})", a.0, b.0), format!("({}, {})", a.1, b.1))
        }
        4 => {
            let a = composite(g, depth - 1, inf, sta);
            (format!("Box<{}>", a.0), format!("Box<{}>", a.1))
        }
        _ => {
            let a = composite(g, depth - 1, inf, sta);
            (format!("Fv<{}, 3>", a.0), format!("Fv<{}, 3>", a.1))
        }
    }
}
pub fn kind_prop() -> Prop {
    Prop {
        id: "M02",
        subs: vec![Sub::new(
            "kinds",
            kinds,
            144,
            800,
            "programs naming the kinds of generated structs and of composites of them, compared by type identity with the spelled-out type; non-trivial: some struct has more than five fields and parameters",
        )],
        assumptions: &["placeholders are written where the documentation allows them: generic arguments and tuple components"],
    }
}

/// A literal and its value.
fn literal(g: &mut Gen) -> (String, BigUint) {
    let bits = match g.below(5) {
        0 => g.below(4),
        1 => 256,
        2 => *g.pick(&[63, 64, 65, 127, 128, 129, 191, 192, 193, 255]),
        3 => g.range(0, 256),
        _ => g.range(240, 256),
    };
    let mut n = BigUint::from(0u8);
    for _ in 0..4 {
        n = (n << 64) + BigUint::from(if g.chance(1, 4) { *g.pick(&[0, 1, u64::MAX, 1 << 63]) } else { g.u64() });
    }
    if g.chance(1, 12) {
        // hexadecimal digits that look like a suffix or an exponent
        let tail = *g.pick(&["f32", "f64", "1e5", "b1", "0b1", "e", "2f16", "f128", "0f32"]);
        n = BigUint::parse_bytes(format!("{:x}{tail}", &n >> 64).as_bytes(), 16).unwrap();
        return (if g.bool() { format!("0x{n:x}") } else { spell(g, &n) }, n);
    }
    if g.chance(1, 5) {
        n = (BigUint::from(1u8) << bits) - BigUint::from(1u8);
    } else if g.chance(1, 8) && bits < 256 {
        n = BigUint::from(1u8) << bits;
    } else {
        n %= BigUint::from(1u8) << bits;
    }
    (spell(g, &n), n)
}
pub fn spell(g: &mut Gen, n: &BigUint) -> String {
    let (pre, mut digits) = match g.below(5) {
        0 => ("0b", n.to_str_radix(2)),
        1 => ("0o", n.to_str_radix(8)),
        2 => ("", n.to_str_radix(10)),
        3 => ("0x", n.to_str_radix(16).to_uppercase()),
        _ => ("0x", n.to_str_radix(16)),
    };
    if g.chance(1, 4) {
        digits = "0".repeat(g.usize(1, 70)) + &digits;
    }
    if g.chance(1, 3) {
        let mut out = String::new();
        let step = g.usize(1, 5);
        let most = *g.pick(&[1, 1, 2, 4]);
        if !pre.is_empty() && g.chance(1, 3) {
            out.push('_');
        }
        for (i, c) in digits.chars().enumerate() {
            out.push(c);
            if i % step == step - 1 {
                out.push_str(&"_".repeat(g.usize(1, most)));
            }
        }
        digits = out;
    }
    if g.chance(1, 10) {
        // a type suffix says nothing about the value
        digits += *g.pick(&["u8", "u64", "_u64", "usize", "i32", "u128", "_i128", "isize"]);
    }
    format!("{pre}{digits}")
}
fn literals(g: &mut Gen) -> R {
    let n = g.usize(1, 120);
    let mut src = String::from("#![allow(warnings)]\nuse ragu_arithmetic::repr256;\nfn main() {\n    let cases: Vec<([u64; 4], [u64; 4], &str)> = vec![\n");
    for i in 0..n {
        let (l, v) = literal(g);
        let mask = BigUint::from(u64::MAX);
        let w: Vec<String> = (0..4).map(|i| format!("{}u64", (&v >> (64 * i)) & &mask)).collect();
        if i == 0 {
            note!(g, "{n} literals, e.g. {l}");
        }
        g.nt(v.bits() > 64);
        let _ = write!(src, "        (repr256!({l}), [{}], \"{l}\"),\n", w.join(", "));
    }
    src.push_str("    ];\n    const C: [u64; 4] = repr256!(7);\n    assert_eq!(C, [7, 0, 0, 0]);\n    let mut bad = false;\n    for (a, b, l) in cases { if a != b { bad = true; println!(\"{l}: got {a:?}, want {b:?}\"); } }\n    if bad { std::process::exit(3) }\n}\n");
    run(&src, &Deps::plain())
}
pub fn literal_prop() -> Prop {
    Prop {
        id: "M03",
        subs: vec![
            Sub::new(
                "literals",
                literals,
                48,
                1200,
                "programs of up to 120 integer literals (all bases, underscores, leading zeros, boundary sizes) against big-integer limbs; non-trivial: a literal above 64 bits",
            ),
            crate::neg::bad_literals(),
        ],
        assumptions: &[],
    }
}

fn cast_impls(g: &mut Gen) -> R {
    let n = if g.chance(1, 6) { g.usize(25, 48) } else { g.usize(2, 24) };
    note!(g, "implementations for tuples up to {n}");
    g.nt(n > 2);
    let mut src = String::from("#![allow(warnings)]\nuse ragu_core::maybe::{Always, Empty, Maybe, MaybeKind, Perhaps};\npub trait MaybeCast<R, K: MaybeKind> { type Output; fn empty() -> Self::Output; fn cast(self) -> Self::Output; }\n");
    let spelled = match g.below(3) {
        0 => format!("{n}"),
        1 => format!("0x{n:x}"),
        _ => format!("0{n}"),
    };
    let _ = write!(src, "ragu_macros::impl_maybe_cast_tuple!({spelled});\nfn main() {{\n    let mut bad = false;\n");
    for k in 2..=n {
        let uniform = g.bool();
        let tys: Vec<&str> = (0..k).map(|i| if uniform { "u64" } else { ["u64", "String", "u8", "Box<u64>", "(u64,)"][i % 5] }).collect();
        let vals: Vec<String> = (0..k)
            .map(|i| {
                let v = (i * 7 + k) % 256;
                match tys[i] {
                    "u64" => format!("{v}u64"),
                    "String" => format!("\"{v}\".to_string()"),
                    "u8" => format!("{v}u8"),
                    "Box<u64>" => format!("Box::new({v}u64)"),
                    _ => format!("({v}u64,)"),
                }
            })
            .collect();
        let t = format!("({},)", tys.join(", "));
        let _ = write!(src, "    {{ let x: {t} = ({},);\n      let y = <{t} as MaybeCast<{t}, Always<()>>>::cast(x.clone());\n", vals.join(", "));
        for i in 0..k {
            let _ = write!(src, "      if y.{i}.take() != x.{i} {{ bad = true; println!(\"component {i} of {k}\"); }}\n");
        }
        let empties = vec!["Perhaps<Empty, _>"; 0];
        let _ = empties;
        let want: Vec<String> = tys.iter().map(|t| format!("Perhaps<Empty, {t}>")).collect();
        let _ = write!(src, "      let e: ({},) = <{t} as MaybeCast<{t}, Empty>>::cast(x.clone());\n      let e: ({},) = <{t} as MaybeCast<{t}, Empty>>::empty();\n    }}\n", want.join(", "), want.join(", "));
    }
    src.push_str("    if bad { std::process::exit(3) }\n}\n");
    run(&src, &Deps::plain())?;
    // one more component is not covered
    let k = n + 1;
    let t = format!("({})", vec!["u64"; k].join(", "));
    let head = src.split("fn main()").next().unwrap();
    let probe = |t: &str| format!("{head}\nfn need<T: MaybeCast<T, Empty>>() {{}}\nfn main() {{ need::<{t}>(); }}\n");
    run(&probe(&format!("({})", vec!["u64"; n].join(", "))), &Deps::plain())?;
    let o = compile(&probe(&t), &Deps::plain(), false);
    ensure!(!o.compiled, "sizes above {n} are implemented too");
    Ok(())
}
pub fn cast_prop() -> Prop {
    Prop {
        id: "C02",
        subs: vec![Sub::new(
            "cast_implementations",
            cast_impls,
            16,
            200,
            "programs asking for implementations up to a generated size and casting uniform and mixed tuples of every size up to it; non-trivial: size > 2",
        )],
        assumptions: &[],
    }
}
