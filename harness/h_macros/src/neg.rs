//! Programs that have to be rejected, each next to an accepted twin.
use crate::gen_struct::{FK, Field, Struct, generate};
use crate::pos::{deps, prelude, spell};
use crate::rc::{Deps, compile};
use num_bigint::BigUint;
use std::fmt::Write as _;
use vlib::{Gen, Prop, R, Sub, ensure, note};

/// (what, items)
type Item = (String, String);

fn judge(g: &mut Gen, pre: &str, items: &[Item], d: &Deps) -> R {
    let mut src = pre.to_string();
    let mut ranges = vec![];
    for (i, (_, it)) in items.iter().enumerate() {
        let a = src.lines().count() + 1;
        let _ = write!(src, "mod n{i} {{\n    use super::*;\n{it}\n}}\n");
        ranges.push((a, src.lines().count()));
    }
    src.push_str("fn main() {}\n");
    let _ = g;
    let o = compile(&src, d, false);
    for (i, (what, it)) in items.iter().enumerate() {
        let (a, b) = ranges[i];
        let hit = !o.compiled && o.errors.iter().any(|(n, _)| (a..=b).contains(n));
        ensure!(hit, "accepted although it must be rejected ({what}):\n{it}\n[errors elsewhere: {:?}]", o.errors.iter().take(3).collect::<Vec<_>>());
    }
    Ok(())
}
fn twins_compile(pre: &str, items: &[Item], d: &Deps) -> R {
    let mut src = pre.to_string();
    for (i, (_, it)) in items.iter().enumerate() {
        let _ = write!(src, "mod n{i} {{\n    use super::*;\n{it}\n}}\n");
    }
    src.push_str("fn main() {}\n");
    crate::pos::run(&src, d)
}

/// A one-element gadget with hand-written implementations, so that only `derive` is under test.
fn manual(name: &str, head: &str, derive: &str, wc: &str, lt: &str, drv: &str) -> String {
    format!(
        "    #[derive({derive})]
    pub struct {name}{head} {wc} {{ pub e: Element<{lt}, {drv}> }}
    impl<'q, Q: Driver<'q>> Clone for {name}<'q, Q> {{ fn clone(&self) -> Self {{ {name} {{ e: self.e.clone() }} }} }}
    impl<'q, Q: Driver<'q>> Gadget<'q, Q> for {name}<'q, Q> {{ type Kind = {name}<'static, PhantomData<Q::F>>; }}
    unsafe impl<Fi: ff::Field> GadgetKind<Fi> for {name}<'static, PhantomData<Fi>> {{
        type Rebind<'q, Q: Driver<'q, F = Fi>> = {name}<'q, Q>;
        fn map_gadget<'s, 'd, WM: ragu_core_::convert::WireMap<Fi, Src: Driver<'s, F = Fi>, Dst: Driver<'d, F = Fi>>>(this: &Bound<'s, WM::Src, Self>, wm: &mut WM) -> ragu_core_::Result<Bound<'d, WM::Dst, Self>> {{ Ok({name} {{ e: this.e.map(wm)? }}) }}
        fn enforce_equal_gadget<'q, D1: Driver<'q, F = Fi>, D2: Driver<'q, F = Fi, Wire = <D1 as Driver<'q>>::Wire>>(dr: &mut D1, a: &Bound<'q, D2, Self>, b: &Bound<'q, D2, Self>) -> ragu_core_::Result<()> {{ a.e.enforce_equal(dr, &b.e) }}
    }}
"
    )
}

/// Two to four different annotations, most often the fitting one among them,
/// in one attribute, in one each, or spread over some.
fn two_annotations(g: &mut Gen, own: &'static str) -> Vec<String> {
    let mut rest: Vec<&str> = ["wire", "value", "gadget", "phantom"].into_iter().filter(|x| *x != own).collect();
    g.shuffle(&mut rest);
    let mut k = if g.chance(5, 6) { vec![own] } else { vec![] };
    let n = if k.is_empty() { g.usize(2, 3) } else if g.chance(2, 3) { 1 } else { g.usize(2, 3) };
    k.extend(&rest[..n]);
    g.shuffle(&mut k);
    match g.below(4) {
        0 => vec![format!("#[ragu({})]", k.join(", "))],
        1 | 2 => k.iter().map(|x| format!("#[ragu({x})]")).collect(),
        _ => vec![format!("#[ragu({})]", k[0]), "/// note".into(), format!("#[ragu({}, skip)]", k[1..].join(", "))],
    }
}
fn simple(g: &mut Gen, idx: usize) -> Struct {
    let mut s = generate(g, idx, &[]);
    if s.fields.is_empty() {
        s.fields.push(Field { name: "a".into(), ty: format!("Element<{}, {}>", s.lt, s.drv), kind: FK::Gad, skip: false, attrs: vec![], vis: "" });
    }
    s
}
fn params(s: &Struct) -> String {
    format!("<{}>", s.params.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(", "))
}

/// Shapes the derives refuse while expanding.
fn shape(g: &mut Gen, idx: usize) -> (Item, Option<Item>) {
    let derive = *g.pick(&["Gadget", "Write", "Consistent"]);
    let lt = *g.pick(&["'dr", "'a"]);
    let drv = *g.pick(&["D", "MyD"]);
    let head_ok = format!("<{lt}, #[ragu(driver)] {drv}: Driver<{lt}>>");
    let s = simple(g, idx);
    let ds = s.derives().join(", ");
    match g.below(10) {
        9 => {
            // no parameters that could be wrong as well
            let it = *g.pick(&["struct U;", "struct U();", "struct U(u8);", "enum U {}", "enum U { A, B }", "struct U where;", "struct U<const N: usize>;", "union U { a: u8 }"]);
            ((format!("{derive} on {it}"), format!("    #[derive({derive})]\n    pub {it}")), None)
        }
        0 => {
            // the annotated driver parameter stays usable: only the shape is wrong
            let it = format!("    #[derive({derive})]\n    pub enum E{head_ok} {{ A({drv}::Wire), B({drv}::Wire) }}");
            ((format!("{derive} on an enum"), it), None)
        }
        1 => ((format!("{derive} on a tuple struct"), format!("    #[derive({derive})]\n    pub struct T{head_ok}(#[ragu(gadget)] Element<{lt}, {drv}>);")), None),
        2 => ((format!("{derive} on a union"), format!("    #[derive({derive})]\n    pub union U{head_ok} {{ a: u8, b: PhantomData<&{lt} {drv}> }}")), None),
        3 => {
            // generated struct with a where clause
            let wc = (*g.pick(&["where u8: Copy", "where {D}: Sized", "where {D}::F: Copy", "where for<'q> &'q (): Copy", "where 'static: 'static", "where {L}: {L}", "where 'static: {L}", "where"])).replace("{D}", &s.drv).replace("{L}", &s.lt);
            let good = s.decl(&s.derives());
            let bad = good.replacen("> {\n", &format!("> {wc} {{\n"), 1);
            ((format!("where clause, {ds}"), bad), Some(("".into(), good)))
        }
        4 => {
            // hand-written gadget, so that only Write or Consistent can object
            let derive = *g.pick(&["Write", "Consistent"]);
            let wc = (*g.pick(&["where u8: Copy", "where (): Sized", "where for<'q> &'q (): Copy", "where 'static: 'static", "where {L}: {L}", "where 'static: {L}", "where"])).replace("{L}", lt);
            let good = manual("M", &head_ok, derive, "", lt, drv);
            let bad = manual("M", &head_ok, derive, &wc, lt, drv);
            ((format!("where clause, only {derive} derived"), bad), Some(("".into(), good)))
        }
        5 | 6 => {
            let mut b = s.clone();
            let i = g.usize(0, b.fields.len() - 1);
            let own = ["wire", "value", "phantom"].into_iter().find(|k| b.fields[i].attrs.iter().any(|a| a.starts_with("#[ragu(") && a.contains(k))).unwrap_or("gadget");
            b.fields[i].attrs = two_annotations(g, own);
            ((format!("two annotations on field {}", b.fields[i].name), b.decl(&["Gadget"])), Some(("".into(), s.decl(&["Gadget"]))))
        }
        7 => {
            // driver annotation on a parameter that is not a driver; another one could serve by name
            let extra = *g.pick(&["#[ragu(driver)] X: Clone + 'static", "#[ragu(driver)] X", "#[ragu(driver)] X: 'static"]);
            let head = format!("<'dr, D: Driver<'dr>, {extra}>");
            let good_head = head.replace("#[ragu(driver)] ", "").replace("X>", "X: 'static>");
            let body = "{ pub e: Element<'dr, D>, #[ragu(phantom)] pub p: PhantomData<X> }";
            let (bad, good) = (format!("    #[derive({derive})]\n    pub struct P{head} {body}"), format!("    #[derive(Gadget)]\n    pub struct P{good_head} {body}"));
            ((format!("driver annotation on a non-driver, {derive}"), bad), Some(("".into(), good)))
        }
        _ => {
            let derive = *g.pick(&["Gadget", "Write", "Consistent"]);
            // bound without, or with more than one, lifetime
            let bound = *g.pick(&["Driver", "Driver<'dr, 'dr>", "Driver<'dr, 'b>", "ragu_core_::drivers::Driver"]);
            let it = format!("    #[derive({derive})]\n    pub struct P<'dr, 'b, #[ragu(driver)] D: {bound}> {{ pub e: Element<'dr, D>, #[ragu(phantom)] pub p: PhantomData<&'b ()> }}");
            let _ = params(&s);
            ((format!("driver bound {bound}, {derive}"), it), None)
        }
    }
}
fn shapes(g: &mut Gen) -> R {
    let (d, core, prim) = deps(g);
    let pre = prelude(core, prim);
    let n = g.usize(1, 10);
    let (mut bad, mut good) = (vec![], vec![]);
    for i in 0..n {
        let (b, t) = shape(g, i);
        bad.push(b);
        good.extend(t);
    }
    g.nt(!good.is_empty());
    note!(g, "{}", bad.iter().map(|b| b.0.clone()).collect::<Vec<_>>().join(", "));
    judge(g, &pre, &bad, &d)?;
    if !good.is_empty() {
        twins_compile(&pre, &good, &d)?;
    }
    Ok(())
}

/// Fields whose type does not fit their annotation.
fn mistyped(g: &mut Gen, idx: usize) -> (Item, Item) {
    loop {
        let mut s = simple(g, idx);
        s.write = false;
        s.consistent = false;
        let (lt, d) = (s.lt.clone(), s.drv.clone());
        let mut b = s.clone();
        let (what, attrs, ty, good_ty): (&str, Vec<String>, String, String) = match g.below(9) {
            0 => ("value that cannot be sent", vec!["#[ragu(value)]".into()], format!("DriverValue<{d}, std::rc::Rc<u8>>"), format!("DriverValue<{d}, std::sync::Arc<u8>>")),
            1 => ("gadget field that is a vector", vec![], format!("Vec<Leaf<{lt}, {d}>>"), format!("Fv<Leaf<{lt}, {d}>, 2>")),
            2 => ("gadget field that is optional", vec!["#[ragu(gadget)]".into()], format!("Option<Leaf<{lt}, {d}>>"), format!("Box<Leaf<{lt}, {d}>>")),
            3 => ("plain data as a gadget", vec![], "u64".into(), format!("Leaf<{lt}, {d}>")),
            4 => ("phantom annotation on data", vec!["#[ragu(phantom)]".into()], "u64".into(), "PhantomData<u64>".into()),
            5 => ("wire annotation on a gadget", vec!["#[ragu(wire)]".into()], format!("Leaf<{lt}, {d}>"), format!("{d}::Wire")),
            6 => ("gadget annotation on a wire", vec!["#[ragu(gadget)]".into()], format!("{d}::Wire"), format!("Leaf<{lt}, {d}>")),
            7 => ("value annotation on a wire", vec!["#[ragu(value)]".into()], format!("{d}::Wire"), format!("DriverValue<{d}, u8>")),
            _ => ("unannotated value", vec![], format!("DriverValue<{d}, u8>"), format!("Pairy<{lt}, {d}>")),
        };
        let f = Field { name: "zz".into(), ty, kind: FK::Gad, skip: false, attrs, vis: "" };
        let at = g.usize(0, s.fields.len());
        b.fields.insert(at, f.clone());
        s.fields.insert(at, Field { ty: good_ty, ..f });
        return ((what.to_string(), b.decl(&["Gadget"])), ("".into(), s.decl(&["Gadget"])));
    }
}
fn unskipped(g: &mut Gen, idx: usize) -> (Item, Item) {
    let _ = idx;
    let (ann, ty) = *g.pick(&[("wire", "D::Wire"), ("value", "DriverValue<D, u64>")]);
    let good = format!("    #[derive(Gadget, Write)]\n    pub struct S<'dr, D: Driver<'dr>> {{ pub e: Element<'dr, D>, #[ragu({ann})] #[ragu(skip)] pub w: {ty} }}");
    (("unskipped ".to_string() + ann + " in a written gadget", good.replace("#[ragu(skip)] ", "")), ("".into(), good))
}
fn typed(g: &mut Gen) -> R {
    let (d, core, prim) = deps(g);
    let pre = prelude(core, prim);
    let n = g.usize(1, 10);
    let (mut bad, mut good) = (vec![], vec![]);
    for i in 0..n {
        let (b, t) = if g.chance(1, 5) { unskipped(g, i) } else { mistyped(g, i) };
        bad.push(b);
        good.push(t);
    }
    g.nt(n > 1);
    note!(g, "{}", bad.iter().map(|b| b.0.clone()).collect::<Vec<_>>().join(", "));
    judge(g, &pre, &bad, &d)?;
    twins_compile(&pre, &good, &d)
}
pub fn prop() -> Prop {
    Prop {
        id: "M04",
        subs: vec![
            Sub::new("shapes", shapes, 200, 1200, "batches of declarations the derives must refuse (enums, unions, tuple and unit structs, with and without parameters, where clauses of types and lifetimes or of nothing, conflicting annotations, bad driver parameters), each with its accepted twin where one exists; non-trivial: a twin exists"),
            Sub::new("typed", typed, 48, 600, "batches of structs whose field type does not fit its annotation, each with its accepted twin; non-trivial: more than one"),
        ],
        assumptions: &["rejection means that the compiler reports an error inside the offending item"],
    }
}

fn bad_lit(g: &mut Gen) -> R {
    let n = g.usize(1, 40);
    let mut items = vec![];
    for _ in 0..n {
        let (what, l) = match g.below(6) {
            0 | 1 | 2 => {
                let extra = match g.below(4) {
                    0 => BigUint::from(0u8),
                    1 => BigUint::from(1u8),
                    2 => BigUint::from(g.u64()),
                    _ => BigUint::from(g.u64()) << g.range(0, 400),
                };
                let v = (BigUint::from(1u8) << if g.bool() { 256 } else { g.range(256, 600) }) + extra;
                ("too large", spell(g, &v))
            }
            3 => ("negative", format!("-{}", g.u64())),
            4 => ("not an integer", (*g.pick(&["1.5", "\"12\"", "true", "x", "'1'", "b'1'"])).to_string()),
            _ => ("not one literal", (*g.pick(&["", "1 2", "1, 2", "1 + 1", "(1)"])).to_string()),
        };
        items.push((format!("{what}: {l}"), format!("    pub const C: &[u64] = &repr256!({l});")));
    }
    g.nt(true);
    note!(g, "{n} literals, e.g. {}", items[0].0);
    judge(g, "#![allow(warnings)]\nuse ragu_arithmetic::repr256;\n", &items, &Deps::plain())
}
pub fn bad_literals() -> Sub {
    Sub::new("rejected_literals", bad_lit, 32, 400, "batches of up to 40 literals that are too large (from 2^256 on) or not integers; all non-trivial")
}

/// Absent values have no content: asking for it must not compile.
fn maybe_neg(g: &mut Gen) -> R {
    let (val, ty) = *g.pick(&[("5u64", "u64"), ("String::from(\"x\")", "String"), ("(1u8, vec![2u16])", "(u8, Vec<u16>)")]);
    let chain = *g.pick(&["", "let v = v.map(|x| x);", "let v = v.map(|x| (x, 1u8)).map(|y| y.0);", "let v = Maybe::clone(&v);", "let v = v.and_then(|x| K::maybe_just(move || x));", "let v = Maybe::into::<T>(v);", "let v = Perhaps::<K, T>::try_just(|| Ok::<T, ()>(v.take())).unwrap();"]);
    // in generic code the two kinds are held to the same types, so that only
    // the kind can make the difference
    let via = g.below(5);
    let ask = *g.pick(&["take", "snag"]);
    let call = match (ask, via) {
        ("take", 0) => "let r = v.take(); core::hint::black_box(&r);",
        ("take", 1) => "fn h<M: Maybe<T>, T: Send>(m: M) -> T { m.take() } let r = h::<Perhaps<K, T>, T>(v); core::hint::black_box(&r);",
        ("take", 2) => "fn h<M: Maybe<T>, T: Send + Sync>(m: &M) { core::hint::black_box(m.as_ref().take()); } h::<Perhaps<K, T>, T>(&v);",
        ("take", 3) => "let mut v = v; core::hint::black_box(v.as_mut().take());",
        ("take", _) => "struct Gate; impl Drop for Gate { fn drop(&mut self) {} } let _g = Gate; if core::hint::black_box(false) { core::hint::black_box(v.take()); }",
        (_, 0) => "core::hint::black_box(v.snag());",
        (_, 1) => "fn h<M: Maybe<T>, T: Send + Sync>(m: &M) { core::hint::black_box(m.snag()); } h::<Perhaps<K, T>, T>(&v);",
        (_, 2) => "let w = v.as_ref(); core::hint::black_box(w.snag());",
        (_, 3) => "let f = move || { core::hint::black_box(v.snag()); }; f();",
        (_, _) => "if core::hint::black_box(false) { core::hint::black_box(v.snag()); }",
    };
    let prog = |kind: &str| format!("#![allow(warnings)]\nuse ragu_core::maybe::*;\ntype T = {ty};\nfn work<K: MaybeKind>() {{\n    let v: Perhaps<K, T> = K::maybe_just(|| {val});\n    {chain}\n    {call}\n}}\nfn main() {{ work::<{kind}>(); }}\n");
    note!(g, "{ask} of an absent {val}{chain} (form {via})");
    g.nt(via > 0);
    crate::pos::run(&prog("Always<()>"), &Deps::plain())?;
    let o = compile(&prog("Empty"), &Deps::plain(), false);
    ensure!(!o.compiled, "content of an absent value can be asked for:\n{}", prog("Empty"));
    // and the present form cannot be conjured out of nothing
    let prog = |kind: &str| format!("#![allow(warnings)]\nuse ragu_core::maybe::*;\nfn make<K: MaybeKind>() {{ let x = K::empty::<u64>(); core::hint::black_box(&x); }}\nfn main() {{ make::<{kind}>(); }}\n");
    crate::pos::run(&prog("Empty"), &Deps::plain())?;
    let o = compile(&prog("Always<()>"), &Deps::plain(), false);
    ensure!(!o.compiled, "a present value can be made out of nothing:\n{}", prog("Always<()>"));
    Ok(())
}
/// Every combinator on every kind of content, including content whose size,
/// alignment or capabilities are out of the ordinary.
fn any_type(g: &mut Gen, depth: u64) -> (String, String, bool, bool) {
    // (type, expression, Clone, Sync)
    const T: &[(&str, &str, bool, bool)] = &[
        ("()", "()", true, true),
        ("u8", "7", true, true),
        ("u128", "7u128 << 100", true, true),
        ("f64", "0.5", true, true),
        ("String", "String::from(\"abc\")", true, true),
        ("&'static str", "\"abc\"", true, true),
        ("Al64", "Al64([3; 5])", true, true),
        ("Al16", "Al16(9)", true, true),
        ("Big", "Big([1; 700])", true, true),
        ("NoClone", "NoClone(4)", false, true),
        ("Tok", "Tok::new()", true, true),
        ("FatTok", "FatTok(Tok::new(), [1; 100])", true, true),
        ("AlTok", "AlTok(Tok::new())", true, true),
        ("[Tok; 3]", "[Tok::new(), Tok::new(), Tok::new()]", true, true),
        ("Cell<u32>", "Cell::new(4)", true, false),
        ("Box<dyn Fn(u8) -> u8 + Send>", "Box::new(|x: u8| x + 1)", false, false),
        ("fn(u8) -> u8", "id8", true, true),
        ("PhantomData<u64>", "PhantomData", true, true),
        ("Never", "loop { panic!() }", true, true),
        ("[u16; 0]", "[]", true, true),
        ("Arc<Mutex<Vec<u8>>>", "Arc::new(Mutex::new(vec![1]))", true, true),
        ("core::num::NonZeroU32", "core::num::NonZeroU32::new(3).unwrap()", true, true),
    ];
    if depth > 0 && g.chance(1, 3) {
        let (t, e, c, s) = any_type(g, depth - 1);
        if t == "Never" {
            return (t, e, c, s);
        }
        return match g.below(4) {
            0 => (format!("Option<{t}>"), format!("Some({{let x: {t} = {e}; x}})"), c, s),
            1 => (format!("({t}, u8)"), format!("({e}, 1u8)"), c, s),
            2 => (format!("Vec<{t}>"), format!("vec![{e}]"), c, s),
            _ => (format!("Box<{t}>"), format!("Box::new({e})"), c, s),
        };
    }
    let t = *g.pick(T);
    (t.0.into(), t.1.into(), t.2, t.3)
}
fn maybe_types(g: &mut Gen) -> R {
    let n = g.usize(3, 14);
    let mut body = String::new();
    let mut main = String::new();
    let mut names = vec![];
    for i in 0..n {
        let (t, e, clone, sync) = any_type(g, 2);
        let mut ops = String::new();
        let mut hits = 0;
        for _ in 0..g.usize(1, 8) {
            hits += 1;
            ops += &match g.below(9) {
                0 => "let v: Perhaps<K, T> = v.map(|x| { hit(); x });\n".to_string(),
                1 => "let v: Perhaps<K, T> = v.and_then(|x| { hit(); K::maybe_just(|| x) });\n".to_string(),
                2 => "let mut v = v; v.as_mut().map(|_x| hit());\n".to_string(),
                3 if sync => "v.as_ref().map(|_x| hit());\n".to_string(),
                4 if clone => { hits -= 1; "let v = { let w = Maybe::clone(&v); drop(v); w };\n".to_string() }
                5 => "let v: Perhaps<K, T> = { let (a, b) = v.map(|x| { hit(); (x, 3u64) }).cast(); drop(b); a };\n".to_string(),
                6 => "let v: Perhaps<K, T> = { let [a] = v.map(|x| { hit(); [x] }).cast(); a };\n".to_string(),
                7 => { hits -= 1; "let v: Perhaps<K, T> = <Perhaps<K, T> as Maybe<T>>::into::<T>(v);\n".to_string() }
                _ => "let v: Perhaps<K, T> = match K::maybe_try_just(|| { hit(); Err::<T, u8>(3) }) { Ok(w) => { drop(w); v } Err(_) => v };\n".to_string(),
            };
        }
        let never = t == "Never";
        body += &format!("mod c{i} {{ use super::*; type T = {t};\n pub fn run<K: MaybeKind>() {{ let v: Perhaps<K, T> = K::maybe_just(|| {{ hit(); let x: T = {e}; x }});\n{ops}drop(v); let e: Perhaps<Empty, T> = <Empty as MaybeKind>::empty::<T>(); assert_eq!(size_of_val(&e), 0); assert_eq!(size_of::<Perhaps<Always<()>, T>>(), size_of::<T>()); }} }}\n");
        main += &format!("count(0, \"absent {i}\", c{i}::run::<Empty>);\n");
        if !never {
            main += &format!("count({}, \"present {i}\", c{i}::run::<Always<()>>);\n", hits + 1);
        }
        names.push(t);
    }
    let src = format!("#![allow(warnings)]\nuse ragu_core::maybe::*; use std::cell::Cell; use std::sync::*; use std::marker::PhantomData;\n#[derive(Clone)] #[repr(align(64))] struct Al64([u8; 5]); #[derive(Clone)] #[repr(align(16))] struct Al16(u8); #[derive(Clone)] struct Big([u64; 700]); struct NoClone(u8); #[derive(Clone)] enum Never {{}}\nfn id8(x: u8) -> u8 {{ x }}\nuse std::sync::atomic::{{AtomicI64, Ordering::SeqCst}};\nstatic ALIVE: AtomicI64 = AtomicI64::new(0);\nstruct Tok(Box<u64>); impl Tok {{ fn new() -> Tok {{ ALIVE.fetch_add(1, SeqCst); Tok(Box::new(77)) }} }}\nimpl Clone for Tok {{ fn clone(&self) -> Tok {{ assert_eq!(*self.0, 77); Tok::new() }} }}\nimpl Drop for Tok {{ fn drop(&mut self) {{ assert_eq!(*self.0, 77); *self.0 = 5; ALIVE.fetch_sub(1, SeqCst); }} }}\n#[derive(Clone)] struct FatTok(Tok, [u64; 100]); #[derive(Clone)] #[repr(align(64))] struct AlTok(Tok);\nthread_local!(static HITS: Cell<u32> = Cell::new(0));\nfn hit() {{ HITS.with(|h| h.set(h.get() + 1)); }}\nfn count(want: u32, what: &str, f: fn()) {{ HITS.with(|h| h.set(0)); f(); let n = HITS.with(|h| h.get()); assert_eq!(n, want, \"closures run: {{what}}\"); assert_eq!(ALIVE.load(SeqCst), 0, \"contents left alive: {{what}}\"); }}\n{body}fn main() {{\n{main}}}\n");
    note!(g, "content types {}", names.join(", "));
    g.nt(names.len() > 3);
    crate::pos::run(&src, &Deps::plain())
}

pub fn maybe_prop() -> Prop {
    Prop {
        id: "C01",
        subs: vec![Sub::new("absent_content", maybe_neg, 10, 60, "programs asking an absent value for its content, and the same with a present value as the accepted twin; non-trivial: asked through a generic helper"),
            Sub::new("content_types", maybe_types, 16, 400, "programs applying random combinators to contents of many types (zero-sized, over-aligned, uninhabited, large, not Clone, not Sync, boxed closures, contents that count themselves, nested), present and absent, compiled and run with a count of executed closures and of contents left alive; non-trivial: more than three types")],
        assumptions: &[],
    }
}
