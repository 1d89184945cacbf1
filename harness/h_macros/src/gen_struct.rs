//! Generates structs that use the derive macros.
use std::fmt::Write as _;
use vlib::Gen;

#[derive(Clone, PartialEq)]
pub enum FK {
    Wire,
    Val(String),
    Gad,
    Phantom,
}
#[derive(Clone)]
pub struct Field {
    pub name: String,
    pub ty: String,
    pub kind: FK,
    pub skip: bool,
    pub attrs: Vec<String>,
    pub vis: &'static str,
}
#[derive(Clone)]
pub struct Struct {
    pub name: String,
    pub module: String,
    pub vis: &'static str,
    pub lt: String,
    pub drv: String,
    /// (declaration, argument in an instance; "@L" and "@D" stand for lifetime and driver)
    pub params: Vec<(String, String)>,
    pub fields: Vec<Field>,
    pub write: bool,
    pub consistent: bool,
}
impl Struct {
    pub fn args(&self, lt: &str, d: &str) -> String {
        let v: Vec<String> = self
            .params
            .iter()
            .map(|p| match p.1.as_str() {
                "@L" => lt.to_string(),
                "@D" => d.to_string(),
                // a lifetime of its own, which a placeholder can stand for too
                "@E" => if lt == "'_" { "'_" } else { "'static" }.to_string(),
                x => x.to_string(),
            })
            .collect();
        format!("<{}>", v.join(", "))
    }
    pub fn derives(&self) -> Vec<&'static str> {
        let mut v = vec!["Gadget"];
        if self.write {
            v.push("Write");
        }
        if self.consistent {
            v.push("Consistent");
        }
        v
    }
    pub fn decl(&self, order: &[&str]) -> String {
        let mut s = format!("    #[derive({})]\n    {}struct {}<{}> {{\n", order.join(", "), self.vis, self.name,
            self.params.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(", "));
        for f in &self.fields {
            for a in &f.attrs {
                let _ = writeln!(s, "        {a}");
            }
            let _ = writeln!(s, "        {}{}: {},", f.vis, f.name, f.ty);
        }
        s.push_str("    }\n");
        s
    }
    /// `impl Mk` for the instance.
    pub fn support(&self) -> String {
        let inst = format!("{}{}", self.name, self.args("'x", "Q"));
        let mut mk = String::new();
        let (mut all, mut wr, mut co) = (String::new(), String::new(), String::new());
        for f in &self.fields {
            let n = &f.name;
            match &f.kind {
                FK::Wire => {
                    let _ = write!(mk, "{n}: c.w::<Q>(), ");
                    let _ = write!(all, "o.w::<Q>(&self.{n}); ");
                }
                FK::Val(t) => {
                    let _ = write!(mk, "{n}: c.v::<Q, {t}>(), ");
                    let _ = write!(all, "o.v::<Q, {t}>(&self.{n}); ");
                }
                FK::Gad => {
                    let _ = write!(mk, "{n}: <_ as Mk<'x, Q>>::mk(c), ");
                    let _ = write!(all, "Mk::<'x, Q>::all(&self.{n}, o); ");
                    if !f.skip {
                        let _ = write!(wr, "Mk::<'x, Q>::written(&self.{n}, o); ");
                    }
                    let _ = write!(co, "Mk::<'x, Q>::consist(&self.{n}, o); ");
                }
                FK::Phantom => {
                    let _ = write!(mk, "{n}: PhantomData, ");
                }
            }
        }
        format!(
            "    impl<'x, Q: TD<'x>> Mk<'x, Q> for {inst} {{\n        fn mk(c: &mut Cx) -> Self {{ {name} {{ {mk}}} }}\n        fn all(&self, o: &mut L) {{ {all}}}\n        fn written(&self, o: &mut L) {{ {wr}}}\n        fn consist(&self, o: &mut L) {{ {co}}}\n    }}\n",
            name = self.name
        )
    }
    pub fn complexity(&self) -> usize {
        self.fields.len() + self.params.len()
    }
}

const NAMES: &[&str] = &[
    "a", "b", "this", "dr", "wm", "buf", "tmp", "r#type", "x0", "value", "wire", "gadget", "skip", "phantom", "driver", "other", "src", "dst", "f", "items", "result", "o", "c",
    "kind", "map_gadget", "just", "is_send", "map", "r#fn", "_x", "X",
];
const VALS: &[&str] = &["u64", "&'static str", "bool", "Fp", "String", "Vec<u16>", "[u8; 3]", "(u32, Option<char>)", "()"];

/// A gadget type over `lt`, `d`; `nested` may be used inside.
fn gty(g: &mut Gen, depth: usize, lt: &str, d: &str, consts: &[String], nested: &[Struct]) -> String {
    let k = if depth == 0 { g.below(3) } else { g.below(8) };
    match k {
        0 => format!("Leaf<{lt}, {d}>"),
        1 => format!("Pairy<{lt}, {d}>"),
        2 => format!("Element<{lt}, {d}>"),
        3 => format!("({}, {})", gty(g, depth - 1, lt, d, consts, nested), gty(g, depth - 1, lt, d, consts, nested)),
        4 => {
            let n = if !consts.is_empty() && g.bool() { g.pick(consts).clone() } else { g.below(4).to_string() };
            format!("[{}; {n}]", gty(g, depth - 1, lt, d, consts, nested))
        }
        5 => format!("Box<{}>", gty(g, depth - 1, lt, d, consts, nested)),
        6 => {
            let n = if !consts.is_empty() && g.bool() { g.pick(consts).clone() } else { g.below(4).to_string() };
            format!("Fv<{}, {n}>", gty(g, depth - 1, lt, d, consts, nested))
        }
        _ => {
            if nested.is_empty() {
                format!("Leaf<{lt}, {d}>")
            } else {
                let s = g.pick(nested);
                format!("super::{}::{}{}", s.module, s.name, s.args(lt, d))
            }
        }
    }
}

fn annotate(g: &mut Gen, kind: &FK, explicit: bool, skip: bool) -> Vec<String> {
    let base = match kind {
        FK::Wire => "wire",
        FK::Val(_) => "value",
        FK::Gad => "gadget",
        FK::Phantom => "phantom",
    };
    let mut v = vec![];
    match (explicit, skip) {
        (false, false) => {}
        (false, true) => v.push("#[ragu(skip)]".to_string()),
        (true, false) => v.push(format!("#[ragu({base})]")),
        (true, true) => match g.below(4) {
            0 => v.push(format!("#[ragu({base}, skip)]")),
            1 => v.push(format!("#[ragu(skip, {base})]")),
            2 => {
                v.push(format!("#[ragu({base})]"));
                v.push("#[ragu(skip)]".to_string());
            }
            _ => {
                v.push("#[ragu(skip)]".to_string());
                v.push(format!("#[ragu({base})]"));
            }
        },
    }
    if g.chance(1, 5) {
        let doc = *g.pick(&["/// value wire gadget skip phantom", "#[allow(dead_code)]", "#[allow(unknown_lints, value, wire, gadget, skip, phantom, driver)]"]);
        let at = g.usize(0, v.len());
        v.insert(at, doc.to_string());
    }
    v
}

/// A type with `f` somewhere in it.
fn around(g: &mut Gen, depth: usize, f: &str) -> String {
    if depth == 0 {
        return f.to_string();
    }
    match g.below(8) {
        6 => format!("::core::option::Option<{}>", around(g, depth - 1, f)),
        7 => format!("<u8 as PickT<{}>>::Out", around(g, depth - 1, f)),
        0 => f.to_string(),
        1 => format!("Option<{}>", around(g, depth - 1, f)),
        2 => format!("Result<u8, {}>", around(g, depth - 1, f)),
        3 => format!("Lt<'static, {}>", around(g, depth - 1, f)),
        _ => {
            let n = g.usize(1, 8);
            let at = g.usize(0, n - 1);
            let v: Vec<String> = (0..n).map(|i| if i == at || g.chance(1, 4) { around(g, depth - 1, f) } else { "u8".to_string() }).collect();
            format!("({},)", v.join(", "))
        }
    }
}
/// A name made from another one.
fn related(g: &mut Gen, n: &str) -> String {
    let n = n.trim_start_matches("r#");
    match g.below(8) {
        0 => format!("{n}_2"),
        1 => format!("{n}2"),
        2 => format!("_{n}"),
        3 => format!("{n}_"),
        4 => format!("{n}_{n}"),
        5 => format!("my_{n}"),
        6 => format!("{n}s"),
        _ => n.to_uppercase() + "_",
    }
}
/// The name of a parameter that is not the driver: at times one the driver usually has.
fn other(g: &mut Gen, types: &[(String, String)], drv: &str, n: String) -> String {
    let taken = |x: &str| drv == x || types.iter().any(|t| t.0.starts_with(&format!("{x}:")));
    match *g.pick(&["", "", "", "D", "Driver_", "F"]) {
        "" => n,
        x if taken(x) => n,
        x => x.to_string(),
    }
}
pub fn generate(g: &mut Gen, idx: usize, nested: &[Struct]) -> Struct {
    let write = g.chance(3, 4);
    let mut consistent = g.chance(3, 4);
    let custom = g.bool();
    let (lt, drv) = if custom {
        (
            g.pick(&["'my_dr", "'a", "'dr", "'d", "'src", "'static_"]).to_string(),
            g.pick(&["MyD", "Dr", "D", "T0", "Driv", "F"]).to_string(),
        )
    } else {
        ("'dr".to_string(), "D".to_string())
    };
    let bound = *g.pick(&["Driver", "Driver", "ragu_core_::drivers::Driver"]);
    // further bounds, that every driver meets
    let (pre, post) = match g.below(13) {
        8 => ("AnyDriver + ", " + Drivers<u8>"),
        9 => ("Drivers<u8> + AnyDriver + ", ""),
        10 => ("AnyDriver + ragu_core_::drivers::DriverTypes + ", " + Sized"),
        11 => ("DriverOver<'static> + ", " + AnyDriver"),
        12 => ("", " + DriverOver<'static>"),
        0 => ("Sized + ", ""),
        1 => ("", " + Sized"),
        2 => ("ragu_core_::drivers::DriverTypes + ", ""),
        3 => ("ragu_core_::drivers::DriverTypes + Sized + ", ""),
        4 => ("", " + ragu_core_::drivers::DriverTypes"),
        _ => ("", ""),
    };
    let mut types: Vec<(String, String)> = vec![];
    let mut consts = vec![];
    let mut plain = vec![];
    let mut phant = vec![];
    let mut kinds = vec![];
    let nx = match g.below(4) {
        0 | 1 => 0,
        2 => 1,
        _ => g.usize(1, 3),
    };
    for i in 0..nx {
        match g.below(5) {
            0 => {
                let n = format!("N{i}");
                match g.below(4) {
                    0 => types.push((format!("const B{i}: bool"), g.bool().to_string())),
                    1 => types.push((format!("const Z{i}: char"), "'k'".to_string())),
                    _ => {
                        types.push((format!("const {n}: usize"), g.below(4).to_string()));
                        consts.push(n);
                    }
                }
            }
            4 => {
                // a parameter with an associated type named as the driver's field
                let e = g.pick(&["E", "DD", "Drv", "X"]).to_string() + &i.to_string();
                let n = format!("Q{i}");
                types.push((format!("{e}: HasF"), "AuxFp".to_string()));
                let b = match g.below(4) {
                    0 => format!("Aux<{e}::F>"),
                    1 => format!("Aux<Wrap<{e}::F>, Base = (Wrap<{e}::F>, {e}::F)> + Aux<{drv}::F, Base = {drv}::F>"),
                    2 => format!("Aux3<{}>", around(g, 2, &format!("{e}::F"))),
                    _ => format!("Aux<{e}::F, Base = {e}::F> + Clone"),
                };
                types.push((format!("{n}: {b}"), "AuxFp".to_string()));
                phant.push(e);
                phant.push(n);
            }
            1 => {
                let n = other(g, &types, &drv, format!("T{}", i + 1));
                types.push((format!("{n}: Vt{}", if g.bool() { "" } else { " + Clone" }), g.pick(VALS).to_string()));
                plain.push(n);
            }
            2 => {
                let n = g.pick(&["C", "Curve", "Cyc"]).to_string() + &i.to_string();
                let n = other(g, &types, &drv, n);
                let f = format!("{drv}::F");
                let b = match g.below(10) {
                    0 => format!("Aux<{f}>"),
                    7 => format!("Aux<{f}, Base: Same<{f}>>"),
                    8 => format!("Aux<Wrap<{f}>, Base: Same<(Wrap<{f}>, {f})>> + Clone"),
                    9 => format!("Aux<{f}, Base: Clone + Same<{f}> + Send>"),
                    1 => format!("Aux<{f}, Base = {f}>"),
                    2 => format!("Aux<Wrap<{f}>>"),
                    3 => format!("Aux3<{}>", around(g, 3, &f)),
                    4 => format!("Aux<{f}> + Aux<Wrap<{f}>>"),
                    5 => format!("Aux<Wrap<{f}>, Base = (Wrap<{f}>, {f})>"),
                    _ => format!("Clone + Aux<{f}, Base = {f}> + 'static"),
                };
                types.push((format!("{n}: {b}"), "AuxFp".to_string()));
                phant.push(n);
            }
            _ => {
                let n = other(g, &types, &drv, format!("K{i}"));
                types.push((format!("{n}: GadgetKind<{drv}::F>{}", if write { format!(" + ragu_primitives_::io::Write<{drv}::F>") } else { String::new() }), g.pick(&["LeafK", "PairyK"]).to_string()));
                kinds.push(n);
                consistent = false;
            }
        }
    }
    types.push((format!("{}{drv}: {pre}{bound}<{lt}>{post}", if custom { *g.pick(&["#[ragu(driver)] ", "#[ragu(driver)] ", "#[allow(dead_code)] #[ragu(driver)] ", "#[ragu(driver)] #[allow(unused, ragu)] ", "#[ragu(driver,)] "]) } else { "" }), "@D".to_string()));
    g.shuffle(&mut types);
    // the last parameters may have defaults
    if g.chance(1, 4) {
        let after = types.iter().position(|t| t.1 == "@D").unwrap() + 1;
        let from = g.usize(after, types.len());
        for t in &mut types[from..] {
            t.0 = format!("{} = {}", t.0, t.1);
        }
    }
    let mut params = vec![(lt.clone(), "@L".to_string())];
    let mut extra = vec![];
    if g.chance(1, 3) {
        for _ in 0..g.usize(1, 2) {
            let l = g.pick(&["'b", "'a", "'dr", "'d", "'ex", "'dr_", "'my", "'static_x"]).to_string();
            if l != lt && l != "'x" && !extra.contains(&l) {
                let arg = *g.pick(&["@E", "@E", "'static"]);
                params.push((format!("{l}: 'static"), arg.to_string()));
                extra.push(l);
            }
        }
        g.shuffle(&mut params);
    }
    params.extend(types);

    let mut names: Vec<String> = NAMES.iter().map(|n| n.to_string()).collect();
    g.shuffle(&mut names);
    for i in 1..10 {
        if g.chance(1, 3) {
            let from = g.usize(0, i - 1);
            let n = related(g, &names[from]);
            if !names.contains(&n) && n != "as" && !n.starts_with("kf") && !n.starts_with("ph") {
                names[i] = n;
            }
        }
    }
    let nf = match g.below(5) {
        0 => g.usize(0, 1),
        4 => g.usize(4, 9),
        _ => g.usize(2, 4),
    };
    let nf = if g.chance(1, 25) { g.usize(10, 70) } else { nf };
    while names.len() < nf {
        let k = names.len();
        names.push(format!("{}{k}", *g.pick(&["q", "field_", "Z", "_"])));
    }
    let mut fields = vec![];
    let push = |g: &mut Gen, kind: FK, ty: String, fields: &mut Vec<Field>, name: &str| {
        let must = write && matches!(kind, FK::Wire | FK::Val(_));
        let skip = must || g.chance(1, 5);
        let explicit = kind != FK::Gad || g.bool();
        let attrs = annotate(g, &kind, explicit, skip);
        let vis = *g.pick(&["", "pub ", "pub(crate) "]);
        fields.push(Field { name: name.to_string(), ty, kind, skip, attrs, vis });
    };
    let mut ni = 0;
    for _ in 0..nf {
        let name = names[ni].as_str();
        ni += 1;
        match g.below(8) {
            0 | 1 => {
                let t = if g.bool() { format!("{drv}::Wire") } else { format!("<{drv} as Driver<{lt}>>::Wire") };
                push(g, FK::Wire, t, &mut fields, name)
            }
            2 | 3 => {
                let t = if !plain.is_empty() && g.bool() { g.pick(&plain).clone() } else { g.pick(VALS).to_string() };
                let conc = params.iter().find(|p| p.0.starts_with(&format!("{t}:"))).map(|p| p.1.clone()).unwrap_or(t.clone());
                push(g, FK::Val(conc), format!("DriverValue<{drv}, {t}>"), &mut fields, name)
            }
            4 => push(g, FK::Phantom, "PhantomData<(u8, &'static str)>".to_string(), &mut fields, name),
            _ => {
                let depth = *g.pick(&[0, 0, 1, 2]);
                let t = gty(g, depth, &lt, &drv, &consts, nested);
                push(g, FK::Gad, t, &mut fields, name)
            }
        }
    }
    // every type parameter has to be used somewhere
    for (i, k) in kinds.iter().enumerate() {
        push(g, FK::Gad, format!("Bound<{lt}, {drv}, {k}>"), &mut fields, &format!("kf{i}"));
    }
    let mut rest: Vec<String> = phant.clone();
    rest.extend(plain.clone());
    for (i, p) in rest.iter().enumerate() {
        let t = if g.bool() { format!("PhantomData<{p}>") } else { format!("core::marker::PhantomData<{p}>") };
        push(g, FK::Phantom, t, &mut fields, &format!("ph{i}"));
    }
    for (i, l) in extra.iter().enumerate() {
        push(g, FK::Phantom, format!("PhantomData<&{l} u8>"), &mut fields, &format!("phl{i}"));
        if g.bool() {
            push(g, FK::Val("&'static str".to_string()), format!("DriverValue<{drv}, &{l} str>"), &mut fields, &format!("vl{i}"));
        }
    }
    push(g, FK::Phantom, format!("PhantomData<(&{lt} (), fn() -> {drv})>"), &mut fields, "phd");
    g.shuffle(&mut fields);
    Struct {
        name: g.pick(&["S", "MyGadget", "Output", "Kind_", "r#struct_"]).trim_start_matches("r#").to_string() + &idx.to_string(),
        module: format!("c{idx}"),
        vis: "pub ",
        lt,
        drv,
        params,
        fields,
        write,
        consistent,
    }
}
