//! A small property-based testing engine.
//!
//! Every generated case is a function of a *choice sequence* (a list of bounded
//! integers drawn through [`Gen`]). Fresh cases draw the sequence from a PRNG
//! seeded by (run seed, sub-check name, case index); a failing sequence is
//! shrunk (chunks deleted, values lowered) and saved as the replay file.
use std::cell::RefCell;
use std::collections::HashSet;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom, Write as _};
use std::panic::{self, AssertUnwindSafe};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

/// Verdict of one case: `Err` describes the violated relation.
pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b { return Err(format!("{}: got {:?}, want {:?}", format!($($t)*), a, b)); }
    }};
}

#[derive(Clone)]
pub struct SplitMix(pub u64);
impl SplitMix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

enum Source {
    Rng(SplitMix),
    Replay(Vec<u64>, usize),
}

/// Generator state for one case.
pub struct Gen {
    src: Source,
    pub log: Vec<u64>,
    nontrivial: bool,
    sample: String,
    labels: Vec<&'static str>,
    /// index of the case in its sub-check: sub-checks that enumerate a finite
    /// space use it as the position in the enumeration
    pub index: u64,
}

/// The draw at position `p` of a recorded log: past its end the simplest choice for a
/// while, then pseudo-random values, so that a loop that draws until a value differs ends.
fn beyond(l: &[u64], p: usize) -> u64 {
    match l.get(p) {
        Some(v) => *v,
        None if p - l.len() < 200 => 0,
        None => SplitMix(0x5eed ^ p as u64).next(),
    }
}

impl Gen {
    fn new(src: Source, index: u64) -> Self {
        Gen { src, log: vec![], nontrivial: false, sample: String::new(), labels: vec![], index }
    }
    pub fn from_seed(seed: u64, index: u64) -> Self {
        Gen::new(Source::Rng(SplitMix(seed)), index)
    }
    pub fn replay(log: Vec<u64>, index: u64) -> Self {
        Gen::new(Source::Replay(log, 0), index)
    }
    /// Uniform in `0..n` (n >= 1). Value 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n >= 1);
        let v = match &mut self.src {
            Source::Rng(r) => {
                let x = r.next();
                ((x as u128 * n as u128) >> 64) as u64
            }
            Source::Replay(l, p) => {
                let v = beyond(l, *p) % n;
                *p += 1;
                v
            }
        };
        self.log.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = match &mut self.src {
            Source::Rng(r) => r.next(),
            Source::Replay(l, p) => {
                let v = beyond(l, *p);
                *p += 1;
                v
            }
        };
        self.log.push(v);
        v
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        assert!(lo <= hi);
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Sizes: mostly small, sometimes up to `max`.
    pub fn size(&mut self, max: usize) -> usize {
        match self.below(4) {
            0 => self.usize(0, max.min(3)),
            1 | 2 => self.usize(0, max.min(12)),
            _ => self.usize(0, max),
        }
    }
    pub fn vec<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Gen) -> T) -> Vec<T> {
        let n = self.usize(lo, hi);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.usize(0, i);
            xs.swap(i, j);
        }
    }
    /// Marks the case as non-trivial under the sub-check's stated rule.
    pub fn nt(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    /// Describes the case (kept for evidence samples and replay files).
    pub fn note(&mut self, s: std::fmt::Arguments<'_>) {
        if self.sample.len() < 1500 {
            if !self.sample.is_empty() {
                self.sample.push_str("; ");
            }
            let _ = self.sample.write_fmt(s);
        }
    }
}
#[macro_export]
macro_rules! note {
    ($g:expr, $($t:tt)*) => { $g.note(format_args!($($t)*)) };
}

pub struct Sub {
    pub name: &'static str,
    pub f: fn(&mut Gen) -> R,
    /// cases in the quick / thorough tier
    pub quick: u64,
    pub thorough: u64,
    /// what is generated and what counts as non-trivial
    pub rule: &'static str,
    /// `index` enumerates a finite space of exactly `quick` cases
    pub exhaustive: bool,
}
impl Sub {
    pub const fn new(name: &'static str, f: fn(&mut Gen) -> R, quick: u64, thorough: u64, rule: &'static str) -> Self {
        Sub { name, f, quick, thorough, rule, exhaustive: false }
    }
    pub const fn enumerated(name: &'static str, f: fn(&mut Gen) -> R, n: u64, rule: &'static str) -> Self {
        Sub { name, f, quick: n, thorough: n, rule, exhaustive: true }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub subs: Vec<Sub>,
    pub assumptions: &'static [&'static str],
}

fn hash_of(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn case_seed(seed: u64, sub: &str, idx: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in sub.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    SplitMix(h ^ idx.wrapping_mul(0xD1342543DE82EF95)).next()
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

/// Runs one case, turning a panic in the code under test into a failure.
fn run_case(f: fn(&mut Gen) -> R, g: &mut Gen) -> R {
    match panic::catch_unwind(AssertUnwindSafe(|| f(g))) {
        Ok(r) => r,
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let at = LAST_PANIC.with(|l| l.borrow().clone());
            Err(format!("panic: {msg} ({at})"))
        }
    }
}

/// Runs `f`, returning Err(message) when it panics.
pub fn catches<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default()
    })
}

fn shrink(f: fn(&mut Gen) -> R, log: Vec<u64>, index: u64, msg: String) -> (Vec<u64>, String, u64) {
    let t0 = Instant::now();
    let mut best = log;
    let mut best_msg = msg;
    let mut tries = 0u64;
    let attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String, tries: &mut u64| -> bool {
        *tries += 1;
        let mut g = Gen::replay(cand, index);
        match run_case(f, &mut g) {
            Err(m) => {
                let l = g.log.clone();
                // shortlex order guarantees progress
                if (l.len(), &l) < (best.len(), &*best) {
                    *best = l;
                    *best_msg = m;
                    return true;
                }
                false
            }
            Ok(()) => false,
        }
    };
    let budget = Duration::from_secs(15);
    loop {
        let before = (best.len(), best.clone());
        let mut w = best.len() / 2;
        while w >= 1 {
            let mut i = 0;
            while i + w <= best.len() {
                if t0.elapsed() > budget || tries > 3000 {
                    return (best, best_msg, tries);
                }
                let mut c = best.clone();
                c.drain(i..i + w);
                if !attempt(c, &mut best, &mut best_msg, &mut tries) {
                    i += w;
                }
            }
            w /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for cand in [0, 1, v / 2, v.wrapping_sub(1)] {
                if t0.elapsed() > budget || tries > 3000 {
                    return (best, best_msg, tries);
                }
                if i < best.len() && cand < best[i] {
                    let mut c = best.clone();
                    c[i] = cand;
                    attempt(c, &mut best, &mut best_msg, &mut tries);
                }
            }
            i += 1;
        }
        if before == (best.len(), best.clone()) {
            return (best, best_msg, tries);
        }
    }
}

fn program() -> String {
    std::env::current_exe().ok().and_then(|p| p.file_name().map(|x| x.to_string_lossy().into_owned())).unwrap_or_default()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Stat {
    evals: u64,
    nontrivial: HashSet<u64>,
    distinct: HashSet<u64>,
    labels: std::collections::BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    failed: Option<(u64, Vec<u64>, String, String)>,
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}...", &s[..k])
}

struct Args {
    prop: String,
    seed: u64,
    thorough: bool,
    out: String,
    replay_dir: String,
    replay: Option<String>,
    max_secs: u64,
    only: Option<String>,
    scale: f64,
}

fn parse_args() -> Args {
    let mut a = Args {
        prop: String::new(),
        seed: 1,
        thorough: false,
        out: String::new(),
        replay_dir: ".".into(),
        replay: None,
        max_secs: 0,
        only: None,
        scale: 1.0,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("value");
        match x.as_str() {
            "--seed" => a.seed = v().parse().unwrap(),
            "--tier" => a.thorough = v() == "thorough",
            "--out" => a.out = v(),
            "--replay-dir" => a.replay_dir = v(),
            "--replay" => a.replay = Some(v()),
            "--max-secs" => a.max_secs = v().parse().unwrap(),
            "--only" => a.only = Some(v()),
            "--scale" => a.scale = v().parse().unwrap(),
            _ => a.prop = x,
        }
    }
    a
}

fn json_field<'a>(s: &'a str, key: &str) -> Option<&'a str> {
    let k = format!("\"{key}\":");
    let i = s.find(&k)? + k.len();
    Some(s[i..].trim_start())
}

fn do_replay(p: &Prop, path: &str) -> ! {
    let s = fs::read_to_string(path).expect("replay file");
    let sub = json_field(&s, "sub").and_then(|x| x[1..].split('"').next()).expect("sub");
    let index: u64 = json_field(&s, "index")
        .and_then(|x| x.split(|c: char| !c.is_ascii_digit()).next())
        .and_then(|x| x.parse().ok())
        .unwrap_or(0);
    let f = p.subs.iter().find(|x| x.name == sub).expect("known sub-check");
    let mut g = if let Some(x) = json_field(&s, "choices") {
        let body = x[1..].split(']').next().unwrap();
        let log: Vec<u64> = body.split(',').filter_map(|x| x.trim().parse().ok()).collect();
        Gen::replay(log, index)
    } else {
        let seed: u64 = json_field(&s, "seed")
            .and_then(|x| x.split(|c: char| !c.is_ascii_digit()).next())
            .and_then(|x| x.parse().ok())
            .unwrap();
        Gen::from_seed(case_seed(seed, sub, index), index)
    };
    match run_case(f.f, &mut g) {
        Ok(()) => {
            println!("replay: property={} sub={} holds\n{}", p.id, sub, g.sample);
            std::process::exit(0)
        }
        Err(m) => {
            println!("replay: property={} sub={} FAILS: {m}\n{}", p.id, sub, g.sample);
            println!("VIOLATION property={} replay={path}", p.id);
            std::process::exit(1)
        }
    }
}

pub fn main(props: Vec<Prop>) {
    let a = parse_args();
    if a.prop == "list" {
        for p in &props {
            println!("{} {}", p.id, p.subs.len());
        }
        return;
    }
    let p = props.iter().find(|p| p.id == a.prop).unwrap_or_else(|| panic!("unknown property {}", a.prop));
    panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = loc.clone());
        if let Ok(mut x) = ANY_PANIC.lock() {
            *x = loc;
        }
        if std::env::var_os("V_TRACE").is_some() {
            eprintln!("{i}");
        }
    }));
    if let Some(r) = &a.replay {
        do_replay(p, r);
    }
    let t0 = Instant::now();
    let subs: Vec<&Sub> = p.subs.iter().filter(|s| a.only.as_deref().is_none_or(|o| s.name.contains(o))).collect();
    let counts: Vec<u64> = subs
        .iter()
        .map(|s| {
            let n = if a.thorough { s.thorough } else { s.quick };
            if s.exhaustive { n } else { ((n as f64 * a.scale) as u64).max(1) }
        })
        .collect();
    // Interleave: blocks of each sub in proportion, so that a time cap hits all alike.
    let mut work: Vec<(usize, u64, u64)> = vec![];
    for (i, &n) in counts.iter().enumerate() {
        let blocks = n.min(64);
        for b in 0..blocks {
            work.push((i, n * b / blocks, n * (b + 1) / blocks));
        }
    }
    work.sort_by_key(|&(i, lo, _)| (lo * 1000 / counts[i].max(1), i));
    let next = AtomicUsize::new(0);
    let stats: Vec<Mutex<Stat>> = subs.iter().map(|_| Mutex::new(Stat::default())).collect();
    let dead: Vec<AtomicBool> = subs.iter().map(|_| AtomicBool::new(false)).collect();
    let threads: usize = std::env::var("V_THREADS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |x| x.get()));
    // (start ms + 1, sub, index) of the case each thread is in
    let current: Vec<[AtomicU64; 3]> =
        (0..threads).map(|_| [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)]).collect();
    let done = AtomicBool::new(false);
    let truncated = AtomicBool::new(false);
    let max_secs = if a.max_secs > 0 { a.max_secs } else if a.thorough { 3600 } else { 420 };
    let _ = fs::create_dir_all(&a.replay_dir);
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..threads {
            let (work, next, stats, dead, current, subs, truncated, a) =
                (&work, &next, &stats, &dead, &current, &subs, &truncated, &a);
            let b = std::thread::Builder::new().stack_size(64 << 20);
            hs.push(
                b.spawn_scoped(sc, move || {
                    let mut journal = fs::File::create(format!("{}/{}.journal.{t}", a.replay_dir, p.id)).ok();
                    loop {
                        let w = next.fetch_add(1, Ordering::Relaxed);
                        let Some(&(si, lo, hi)) = work.get(w) else { break };
                        let s = subs[si];
                        for idx in lo..hi {
                            if dead[si].load(Ordering::Relaxed) {
                                break;
                            }
                            if t0.elapsed().as_secs() > max_secs {
                                truncated.store(true, Ordering::Relaxed);
                                break;
                            }
                            current[t][1].store(si as u64, Ordering::Relaxed);
                            current[t][2].store(idx, Ordering::Relaxed);
                            current[t][0].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Release);
                            if let Some(j) = &mut journal {
                                let line = format!("{:<60} {:020}\n", s.name, idx);
                                let _ = j.seek(SeekFrom::Start(0)).and_then(|_| j.write_all(line.as_bytes()));
                            }
                            let mut g = Gen::from_seed(case_seed(a.seed, s.name, idx), idx);
                            let r = run_case(s.f, &mut g);
                            current[t][0].store(0, Ordering::Release);
                            let mut st = stats[si].lock().unwrap();
                            st.evals += 1;
                            let h = if s.exhaustive { idx } else { hash_of(&g.log) };
                            st.distinct.insert(h);
                            if g.nontrivial {
                                st.nontrivial.insert(h);
                            }
                            for l in &g.labels {
                                *st.labels.entry(l).or_default() += 1;
                            }
                            if g.nontrivial && st.samples.len() < 2 && !g.sample.is_empty() {
                                let x = clip(&g.sample, 400);
                                st.samples.push(x);
                            }
                            if let Err(m) = r {
                                if st.failed.is_none() {
                                    st.failed = Some((idx, g.log.clone(), m, g.sample.clone()));
                                }
                                dead[si].store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    drop(journal);
                    let _ = fs::remove_file(format!("{}/{}.journal.{t}", a.replay_dir, p.id));
                })
                .unwrap(),
            );
        }
        // Watchdog: a case that never ends is itself a finding (a hang).
        let (current, done, subs, a) = (&current, &done, &subs, &a);
        sc.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                let now = t0.elapsed().as_millis() as u64;
                for c in current {
                    let s = c[0].load(Ordering::Acquire);
                    if s != 0 && now.saturating_sub(s) > 300_000 {
                        let si = c[1].load(Ordering::Relaxed) as usize;
                        let idx = c[2].load(Ordering::Relaxed);
                        let path = format!("{}/{}.{}.hang.json", a.replay_dir, p.id, subs[si].name);
                        let _ = fs::write(
                            &path,
                            format!(
                                "{{\"property\": {}, \"program\": \"{}\", \"sub\": {}, \"index\": {idx}, \"seed\": {}, \"message\": \"no result after 300 s\"}}\n",
                                json_str(p.id), program(), json_str(subs[si].name), a.seed
                            ),
                        );
                        println!("VIOLATION property={} replay={path}", p.id);
                        println!("  sub={} index={idx}: no result after 300 s", subs[si].name);
                        std::process::exit(1);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });

    // Report.
    let mut violations = 0;
    let (mut evals, mut nontrivial, mut distinct) = (0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut subj = vec![];
    let mut rules = vec![];
    for (i, s) in subs.iter().enumerate() {
        let st = stats[i].lock().unwrap();
        evals += st.evals;
        nontrivial += st.nontrivial.len() as u64;
        distinct += st.distinct.len() as u64;
        for x in &st.samples {
            samples.push(json_str(&format!("[{}] {}", s.name, x)));
        }
        rules.push(format!("{}: {}", s.name, s.rule));
        let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
        subj.push(format!(
            "{}: {{\"evaluations\": {}, \"distinct\": {}, \"nontrivial\": {}, \"exhaustive\": {}, \"labels\": {{{}}}}}",
            json_str(s.name), st.evals, st.distinct.len(), st.nontrivial.len(), s.exhaustive, labels.join(", ")
        ));
        if let Some((idx, log, msg, sample)) = &st.failed {
            violations += 1;
            let path = format!("{}/{}.{}.json", a.replay_dir, p.id, s.name);
            let over = std::sync::Arc::new(AtomicBool::new(false));
            {
                // Should a smaller case never end, the case as found is reported.
                let choices: Vec<String> = log.iter().map(|x| x.to_string()).collect();
                let body = format!(
                    "{{\"property\": {}, \"program\": \"{}\", \"sub\": {}, \"index\": {idx}, \"seed\": {}, \"choices\": [{}],\n \"message\": {}, \"case\": {}}}\n",
                    json_str(p.id), program(), json_str(s.name), a.seed, choices.join(", "), json_str(msg), json_str(sample)
                );
                let (over, path, id, name, msg, idx) = (over.clone(), path.clone(), p.id, s.name, msg.clone(), *idx);
                std::thread::spawn(move || {
                    let t = Instant::now();
                    while t.elapsed() < Duration::from_secs(200) {
                        std::thread::sleep(Duration::from_millis(100));
                        if over.load(Ordering::Acquire) {
                            return;
                        }
                    }
                    let _ = fs::write(&path, body);
                    println!("VIOLATION property={id} replay={path}");
                    println!("  sub={name} case={idx}: {}", clip(&msg, 600));
                    std::process::exit(1);
                });
            }
            let (log2, msg2, tries) = shrink(s.f, log.clone(), *idx, msg.clone());
            let mut g = Gen::replay(log2.clone(), *idx);
            let _ = run_case(s.f, &mut g);
            over.store(true, Ordering::Release);
            let choices: Vec<String> = log2.iter().map(|x| x.to_string()).collect();
            let body = format!(
                "{{\"property\": {}, \"program\": \"{}\", \"sub\": {}, \"index\": {idx}, \"seed\": {}, \"choices\": [{}],\n \"message\": {}, \"case\": {},\n \"original_message\": {}, \"original_case\": {}, \"shrink_tries\": {tries}}}\n",
                json_str(p.id), program(), json_str(s.name), a.seed, choices.join(", "), json_str(&msg2), json_str(&g.sample), json_str(msg), json_str(sample)
            );
            let _ = fs::write(&path, body);
            println!("VIOLATION property={} replay={path}", p.id);
            println!("  sub={} case={idx}: {}", s.name, clip(&msg2, 600));
            println!("  minimal: {}", clip(&g.sample, 600));
        }
    }
    let exhaustive = subs.iter().all(|s| s.exhaustive) && !truncated.load(Ordering::Relaxed);
    let assumptions: Vec<String> = p.assumptions.iter().map(|x| json_str(x)).collect();
    let body = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": {evals}, \"distinct_nontrivial\": {nontrivial}, \"distinct_cases\": {distinct}, \"exhaustive\": {exhaustive}, \"stopped_by_time_cap\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"sub_checks\": {{{}}}}},\n \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {violations}}}\n",
        json_str(p.id),
        json_str(if a.thorough { "thorough" } else { "quick" }),
        a.seed,
        truncated.load(Ordering::Relaxed),
        json_str(&format!(
            "A case is one seeded choice sequence; distinct = distinct choice sequences; non-trivial per sub-check. {}",
            rules.join(" | ")
        )),
        samples.join(",\n   "),
        subj.join(",\n   "),
        assumptions.join(", "),
        t0.elapsed().as_secs_f64()
    );
    if !a.out.is_empty() {
        if let Some(d) = std::path::Path::new(&a.out).parent() {
            let _ = fs::create_dir_all(d);
        }
        fs::write(&a.out, body).expect("evidence file");
    }
    println!(
        "{}: {evals} cases, {nontrivial} distinct non-trivial, {violations} failing sub-checks, {:.1} s",
        p.id,
        t0.elapsed().as_secs_f64()
    );
    std::process::exit(if violations > 0 { 1 } else { 0 });
}
