//! Runs rustc on a generated program.
use std::path::PathBuf;
use std::process::Command;
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering};

fn externs() -> &'static Vec<(String, String)> {
    static E: OnceLock<Vec<(String, String)>> = OnceLock::new();
    E.get_or_init(|| {
        let p = std::env::var("V_EXTERNS").unwrap_or_else(|_| "/verif/target/externs.txt".into());
        std::fs::read_to_string(&p)
            .unwrap_or_else(|e| panic!("{p}: {e}"))
            .lines()
            .filter_map(|l| l.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string())))
            .collect()
    })
}
fn path_of(name: &str) -> &'static str {
    &externs().iter().find(|e| e.0 == name).unwrap_or_else(|| panic!("no artifact for {name}")).1
}

/// How the generated program's package refers to the libraries.
#[derive(Clone, Debug)]
pub struct Deps {
    /// name of the package itself
    pub package: String,
    /// lines of the manifest after [package]
    pub manifest: String,
    /// (name in the program, library)
    pub externs: Vec<(String, String)>,
}
impl Deps {
    pub fn plain() -> Self {
        Deps {
            package: "generated".into(),
            manifest: "[dependencies]\nragu_core = \"0\"\nragu_primitives = \"0\"\n".into(),
            externs: [("ragu_core", "ragu_core"), ("ragu_primitives", "ragu_primitives")].map(|(a, b)| (a.to_string(), b.to_string())).to_vec(),
        }
    }
}

pub struct Outcome {
    pub compiled: bool,
    /// errors: (line of the primary span or 0, message)
    pub errors: Vec<(usize, String)>,
    pub raw: String,
    /// output of the program, when it was run
    pub out: Option<(i32, String)>,
}

static N: AtomicU64 = AtomicU64::new(0);
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn json_field<'a>(s: &'a str, key: &str, from: usize) -> Option<(&'a str, usize)> {
    let pat = format!("\"{key}\":");
    let i = s[from..].find(&pat)? + from + pat.len();
    Some((&s[i..], i))
}

pub fn compile(src: &str, deps: &Deps, run: bool) -> Outcome {
    let base = std::env::var("V_SCRATCH").unwrap_or_else(|_| "/verif/target/macro-scratch".into());
    let d = Dir(PathBuf::from(base).join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed))));
    let dir = &d.0;
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(dir.join("Cargo.toml"), format!("[package]\nname = \"{}\"\nversion = \"0.0.0\"\nedition = \"2024\"\n{}", deps.package, deps.manifest)).unwrap();
    let main = dir.join("main.rs");
    std::fs::write(&main, src).unwrap();
    let bin = dir.join("prog");
    let mut c = Command::new("timeout");
    c.args(["-k", "5", "200", "rustc"]).current_dir(dir)
        .env("CARGO_MANIFEST_DIR", dir)
        .env("CARGO_PKG_NAME", &deps.package)
        .env_remove("CARGO")
        .env_remove("CARGO_TARGET_TMPDIR")
        .env_remove("CARGO_CRATE_NAME")
        .args(["--edition", "2024", "--crate-type", "bin", "--crate-name", "generated", "--error-format=json", "--cap-lints=allow"])
        .args(["-C", "debuginfo=0", "-C", "opt-level=0", "-C", "codegen-units=4", "-C", "linker-flavor=gcc"])
        .arg("-o")
        .arg(&bin)
        .arg("-L")
        .arg(format!("dependency={}", std::path::Path::new(path_of("ragu_core")).parent().unwrap().display()));
    for (n, l) in deps.externs.iter().chain(
        ["msup", "ff", "ragu_arithmetic", "ragu_macros"].map(|x| (x.to_string(), x.to_string())).iter(),
    ) {
        c.arg("--extern").arg(format!("{n}={}", path_of(l)));
    }
    c.arg("main.rs");
    let o = c.output().expect("rustc did not start");
    let raw = String::from_utf8_lossy(&o.stderr).into_owned();
    let mut errors = vec![];
    for l in raw.lines().filter(|l| l.starts_with('{')) {
        if !l.contains("\"level\":\"error\"") || !l.starts_with("{\"$message_type\":\"diagnostic\"") {
            continue;
        }
        let (m, _) = json_field(l, "message", 0).unwrap();
        let msg: String = m.split("\",\"").next().unwrap_or(m).chars().take(300).collect();
        // every primary span's line, including those of the expansion sites
        let mut lines = vec![];
        let mut at = 0;
        while let Some((s, i)) = json_field(l, "line_start", at) {
            let n: usize = s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
            lines.push(n);
            at = i;
        }
        if lines.is_empty() {
            lines.push(0);
        }
        for n in lines {
            errors.push((n, msg.clone()));
        }
    }
    let compiled = o.status.success();
    let out = if compiled && run {
        let r = Command::new("timeout").args(["-k", "5", "100"]).arg(&bin).env("RUST_BACKTRACE", "0").output().expect("generated program did not start");
        Some((r.status.code().unwrap_or(-1), String::from_utf8_lossy(&r.stdout).into_owned() + &String::from_utf8_lossy(&r.stderr)))
    } else {
        None
    };
    Outcome { compiled, errors, raw, out }
}
