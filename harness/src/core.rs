//! Runner shared by every monitor: deterministic case generation, process
//! isolation, panic/crash/non-termination detection, evidence and replays.

use std::backtrace::Backtrace;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- verdicts

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
}

impl Violation {
    pub fn new<S: Into<String>>(msg: S) -> Self {
        Violation { msg: msg.into() }
    }
}

pub type Res = Result<(), Violation>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond {
            return Err($crate::core::Violation::new(format!($($arg)+)));
        }
    };
}

#[macro_export]
macro_rules! fail {
    ($($arg:tt)+) => {
        return Err($crate::core::Violation::new(format!($($arg)+)))
    };
}

// ------------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(u64);

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, id: &str, case: u64) -> Self {
        let mut h = mix(seed.wrapping_add(0x9e3779b97f4a7c15));
        for b in id.bytes() {
            h = mix(h ^ (b as u64).wrapping_mul(0x100000001b3));
        }
        Rng(mix(h ^ mix(case.wrapping_add(0x51ed270b))))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive on both ends
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        assert!(a <= b);
        let w = (b as i128 - a as i128 + 1) as u128;
        if w > u64::MAX as u128 {
            return self.next() as i64;
        }
        (a as i128 + self.below(w as u64) as i128) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.usize(i + 1);
            xs.swap(i, j);
        }
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

// ---------------------------------------------------------------- context

pub struct Ctx {
    pub rng: Rng,
    pub case: u64,
    pub thorough: bool,
    pub desc: String,
    pub verbose: bool,
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
}

impl Ctx {
    /// Record, in words, the input of the running case (replay + evidence).
    pub fn describe<S: Into<String>>(&mut self, s: S) {
        self.desc = s.into();
        if self.verbose {
            eprintln!("case {}: {}", self.case, self.desc);
        }
    }
    /// Count an observed event.
    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    /// The running case is non-trivial by the check's rule; its identity is
    /// the description of its input.
    pub fn nontrivial(&mut self) {
        let h = hash_str(&self.desc);
        if self.distinct.insert(h) && self.samples.len() < 3 {
            let mut s = self.desc.clone();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> Res,
    /// counters that must have been observed at least so often (quick tier)
    pub need: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

// ----------------------------------------------------------- panic capture

thread_local! {
    static EXPECTED: Cell<u32> = Cell::new(0);
    static LAST: RefCell<Option<(String, bool)>> = RefCell::new(None);
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        if EXPECTED.with(|e| e.get()) > 0 {
            return;
        }
        let payload = info.payload();
        let msg = if let Some(s) = payload.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = payload.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let bt = Backtrace::force_capture().to_string();
        let mut frames: Vec<String> = bt.lines()
            .map(|l| l.trim())
            .filter_map(|l| l.strip_prefix("at "))
            .filter(|l| l.contains("/repo/src/"))
            .take(5)
            .map(|l| l.to_string())
            .collect();
        frames.dedup();
        let in_lib = !frames.is_empty() || loc.starts_with("/repo/");
        let text = format!("panic at {}: {} [{}]", loc, msg, frames.join(" <- "));
        LAST.with(|l| *l.borrow_mut() = Some((text, in_lib)));
    }));
}

/// Run a library call that is allowed to refuse (panic); None if it did.
pub fn refused<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    EXPECTED.with(|e| e.set(e.get() + 1));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    EXPECTED.with(|e| e.set(e.get() - 1));
    r.ok()
}

enum CaseEnd {
    Fine,
    Violated(String),
    Harness(String),
}

fn run_case(p: &Prop, cx: &mut Ctx, seed: u64, case: u64) -> CaseEnd {
    cx.rng = Rng::new(seed, p.id, case);
    cx.case = case;
    cx.desc.clear();
    LAST.with(|l| *l.borrow_mut() = None);
    let r = panic::catch_unwind(AssertUnwindSafe(|| (p.run)(cx)));
    EXPECTED.with(|e| e.set(0));
    match r {
        Ok(Ok(())) => CaseEnd::Fine,
        Ok(Err(v)) => CaseEnd::Violated(v.msg),
        Err(_) => {
            let (text, in_lib) = LAST.with(|l| l.borrow_mut().take())
                .unwrap_or(("panic without record".into(), false));
            if in_lib {
                CaseEnd::Violated(format!("the call does not return: {}", text))
            } else if text.contains("inconclusive:") {
                CaseEnd::Harness(text)
            } else {
                // the monitor's reading of a result failed (a value that should
                // be there is not); deliberate give-ups say "inconclusive:"
                CaseEnd::Violated(format!("the result cannot be read as what it should be: {}", text))
            }
        }
    }
}

// ------------------------------------------------------------------ worker

fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}

fn worker(p: &Prop, tier: &str, seed: u64, start: u64, step: u64, count: u64,
    cap: f64, out: &Path)
{
    let t0 = Instant::now();
    let mut prog = fs::File::create(out.with_extension("prog")).unwrap();
    let mut cx = new_ctx(tier);
    let mut i = start;
    let mut done = 0u64;
    let mut slowest = (0u64, 0u64);
    let mut verdict = String::new();
    while i < count && t0.elapsed().as_secs_f64() < cap {
        prog.seek(SeekFrom::Start(0)).unwrap();
        prog.write_all(&i.to_le_bytes()).unwrap();
        let t1 = Instant::now();
        let end = run_case(p, &mut cx, seed, i);
        slowest = slowest.max((t1.elapsed().as_millis() as u64, i));
        match end {
            CaseEnd::Fine => {}
            CaseEnd::Violated(m) => {
                verdict = format!("V\t{}\t{}\t{}", i, one_line(&m), one_line(&cx.desc));
                break;
            }
            CaseEnd::Harness(m) => {
                verdict = format!("H\t{}\t{}\t{}", i, one_line(&m), one_line(&cx.desc));
                break;
            }
        }
        done += 1;
        i += step;
    }
    let mut s = String::new();
    s.push_str(&format!("N\t{}\nT\t{}\t{}\n", done, slowest.0, slowest.1));
    for (k, v) in &cx.counters {
        s.push_str(&format!("C\t{}\t{}\n", k, v));
    }
    for x in &cx.samples {
        s.push_str(&format!("S\t{}\n", one_line(x)));
    }
    for h in &cx.distinct {
        s.push_str(&format!("D\t{}\n", h));
    }
    s.push_str(&verdict);
    s.push_str("\nEND\n");
    let tmp = out.with_extension("tmp");
    fs::write(&tmp, s).unwrap();
    fs::rename(&tmp, out).unwrap();
}

fn inline(p: &Prop, tier: &str, seed: u64, start: u64, step: u64, count: u64, cap: f64) {
    let t0 = Instant::now();
    let mut cx = new_ctx(tier);
    let mut i = start;
    while i < count && t0.elapsed().as_secs_f64() < cap {
        println!("B\t{}", i);
        let end = run_case(p, &mut cx, seed, i);
        let word = match end {
            CaseEnd::Fine => "fine",
            CaseEnd::Violated(_) => "other",
            CaseEnd::Harness(_) => "none",
        };
        println!("I\t{}\t{}\t{}", i, word, hash_str(&cx.desc));
        i += step;
    }
    println!("END\t{:.1}", t0.elapsed().as_secs_f64());
}

fn new_ctx(tier: &str) -> Ctx {
    Ctx {
        rng: Rng(0),
        case: 0,
        thorough: tier == "thorough",
        desc: String::new(),
        verbose: false,
        counters: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
    }
}

// ------------------------------------------------------------------ parent

const CASE_CPU_LIMIT: f64 = 60.0;

fn cpu_secs(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

fn read_prog(p: &Path) -> Option<u64> {
    let b = fs::read(p).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

struct Job {
    child: Child,
    out: PathBuf,
    last_case: Option<u64>,
    cpu_at_change: f64,
    done: bool,
}

enum Suspect {
    Crash(u64, String),
    Hang(u64),
}

/// Re-run one suspicious case alone. Returns Some(text) if it fails again.
fn confirm(id: &str, tier: &str, seed: u64, case: u64, limit: f64) -> Result<Option<String>, String> {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .args(["one", id, tier, &seed.to_string(), &case.to_string()])
        .stdout(Stdio::piped()).stderr(Stdio::null())
        .spawn().map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                let mut o = String::new();
                use std::io::Read;
                if let Some(mut so) = child.stdout.take() {
                    let _ = so.read_to_string(&mut o);
                }
                if st.success() {
                    return Ok(None);
                }
                if let Some(c) = st.code() {
                    if c == 1 {
                        return Ok(Some(o.trim().to_string()));
                    }
                    if c == 2 {
                        return Err(o);
                    }
                }
                return Ok(Some(format!("the process dies: {}", st)));
            }
            Ok(None) => {}
            Err(e) => return Err(e.to_string()),
        }
        if let Some(c) = cpu_secs(child.id()) {
            if c > limit {
                let _ = child.kill();
                let _ = child.wait();
                return Ok(Some(format!(
                    "no answer within {} s of processor time (a usual case takes milliseconds)",
                    limit
                )));
            }
        }
        if t0.elapsed().as_secs() > 300 {
            let _ = child.kill();
            let _ = child.wait();
            return Err("wall-clock watchdog".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known_findings(root: &Path, id: &str) -> Vec<String> {
    let text = fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let tag = format!("finding: property={} ", id);
    text.lines()
        .filter_map(|l| l.strip_prefix(&tag))
        .map(|l| l.to_string())
        .collect()
}

pub fn main_with(props: &[Prop]) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id)
        .unwrap_or_else(|| panic!("unknown property {}", id));
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let p = find(&args[2]);
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            worker(p, &args[3], n(4), n(5), n(6), n(7), args[8].parse().unwrap(),
                Path::new(&args[9]));
            std::process::exit(0);
        }
        Some("one") => {
            let p = find(&args[2]);
            let mut cx = new_ctx(&args[3]);
            cx.verbose = true;
            let end = run_case(p, &mut cx, args[4].parse().unwrap(), args[5].parse().unwrap());
            match end {
                CaseEnd::Fine => {
                    eprintln!("held");
                    std::process::exit(0);
                }
                CaseEnd::Violated(m) => {
                    println!("{}", one_line(&m));
                    std::process::exit(1);
                }
                CaseEnd::Harness(m) => {
                    println!("{}", one_line(&m));
                    std::process::exit(2);
                }
            }
        }
        // inline ID TIER SEED START STEP COUNT CAP: run cases in this process
        // (under an interpreter or a sanitizer); only memory errors matter.
        Some("inline") => {
            let p = find(&args[2]);
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            inline(p, &args[3], n(4), n(5), n(6), n(7), args[8].parse().unwrap());
            std::process::exit(0);
        }
        Some("run") => {
            let p = find(&args[2]);
            let code = parent(p, &args[3]);
            std::process::exit(code);
        }
        Some("idle") => std::process::exit(0),
        _ => {
            eprintln!("usage: run ID TIER | one ID TIER SEED CASE");
            std::process::exit(2);
        }
    }
}

fn parent(p: &Prop, tier: &str) -> i32 {
    let t0 = Instant::now();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
    let seed: u64 = std::env::var("VERIF_SEED").ok()
        .and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let count: u64 = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap: f64 = if thorough { 600.0 } else { 150.0 };
    let nw = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)
        .min(8).max(1);
    let scratch = std::env::temp_dir()
        .join(format!("systre-mon-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let exe = std::env::current_exe().unwrap();

    let mut jobs: Vec<Job> = vec![];
    for w in 0..nw {
        let out = scratch.join(format!("w{}.res", w));
        let child = Command::new(&exe)
            .args(["worker", p.id, tier, &seed.to_string(), &w.to_string(),
                &nw.to_string(), &count.to_string(), &cap.to_string()])
            .arg(&out)
            .env("TMPDIR", &scratch)
            .stdout(Stdio::null()).stderr(Stdio::null())
            .spawn().unwrap();
        jobs.push(Job { child, out, last_case: None, cpu_at_change: 0.0, done: false });
    }

    let mut suspects: Vec<Suspect> = vec![];
    let mut stop = false;
    let mut trouble: Vec<String> = vec![];
    while jobs.iter().any(|j| !j.done) && !stop {
        std::thread::sleep(Duration::from_millis(25));
        for j in jobs.iter_mut().filter(|j| !j.done) {
            let prog = j.out.with_extension("prog");
            match j.child.try_wait() {
                Ok(Some(st)) => {
                    j.done = true;
                    if !j.out.exists() {
                        let case = read_prog(&prog).unwrap_or(0);
                        suspects.push(Suspect::Crash(case, st.to_string()));
                        stop = true;
                    } else if fs::read_to_string(&j.out).unwrap_or_default()
                        .contains("\nV\t")
                    {
                        stop = true;
                    }
                }
                Ok(None) => {
                    let c = read_prog(&prog);
                    let cpu = cpu_secs(j.child.id()).unwrap_or(0.0);
                    if c != j.last_case {
                        j.last_case = c;
                        j.cpu_at_change = cpu;
                    } else if cpu - j.cpu_at_change > CASE_CPU_LIMIT {
                        suspects.push(Suspect::Hang(c.unwrap_or(0)));
                        let _ = j.child.kill();
                        let _ = j.child.wait();
                        j.done = true;
                        stop = true;
                    }
                }
                Err(_) => j.done = true,
            }
        }
        if t0.elapsed().as_secs_f64() > cap + 400.0 {
            trouble.push("wall-clock watchdog".into());
            stop = true;
        }
    }
    for j in jobs.iter_mut() {
        let _ = j.child.kill();
        let _ = j.child.wait();
    }

    // ---- collect
    let mut evals = 0u64;
    let mut slowest = (0u64, 0u64);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut violation: Option<(u64, String, String)> = None;
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let listed = known_findings(&root, p.id);
    for j in &jobs {
        let text = fs::read_to_string(&j.out).unwrap_or_default();
        for line in text.lines() {
            let f: Vec<&str> = line.splitn(4, '\t').collect();
            match f[0] {
                "T" => slowest = slowest.max((f[1].parse().unwrap_or(0), f[2].parse().unwrap_or(0))),
                "N" => evals += f[1].parse::<u64>().unwrap_or(0),
                "C" => *counters.entry(f[1].to_string()).or_insert(0)
                    += f[2].parse::<u64>().unwrap_or(0),
                "S" => if samples.len() < 6 { samples.push(line[2..].to_string()) },
                "D" => { if let Ok(h) = f[1].parse() { distinct.insert(h); } }
                "V" => {
                    let c: u64 = f[1].parse().unwrap_or(0);
                    let d = f.get(3).unwrap_or(&"").to_string();
                    if let Some(k) = listed.iter()
                        .find(|k| d.contains(k.split(" :: ").next().unwrap()))
                    {
                        *known.entry(k.clone()).or_insert(0) += 1;
                    } else if violation.as_ref().map_or(true, |v| c < v.0) {
                        violation = Some((c, f[2].to_string(), d));
                    }
                }
                "H" => trouble.push(format!("case {}: {} ({})", f[1], f[2],
                    f.get(3).unwrap_or(&""))),
                _ => {}
            }
        }
    }
    if violation.is_none() {
        for s in &suspects {
            let (case, what) = match s {
                Suspect::Crash(c, st) => (*c, format!("worker ended with {}", st)),
                Suspect::Hang(c) => (*c, "processor-time limit".to_string()),
            };
            let mut seen = None;
            for _ in 0..3 {
                match confirm(p.id, tier, seed, case, CASE_CPU_LIMIT) {
                    Ok(Some(t)) => { seen = Some(t); break; }
                    Ok(None) => {}
                    Err(e) => trouble.push(e),
                }
                if matches!(s, Suspect::Hang(_)) { break; }
            }
            match seen {
                Some(t) => violation = Some((case, format!("{} ({})", t, what), String::new())),
                None => trouble.push(format!("case {} not reproduced alone: {}", case, what)),
            }
        }
    }
    let _ = fs::remove_dir_all(&scratch);

    for k in known.keys() {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    let mut lacking = vec![];
    if violation.is_none() && trouble.is_empty() {
        if std::env::var("VERIF_CASES").is_err() {
            for (k, n) in p.need {
                let have = counters.get(*k).copied().unwrap_or(0);
                if have < *n {
                    lacking.push(format!("{}: {} < {}", k, have, n));
                }
            }
        }
        if evals == 0 || distinct.is_empty() {
            lacking.push("no non-trivial case was observed".into());
        }
    }

    // ---- evidence
    let mut ev = String::new();
    ev.push_str("{\n");
    ev.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n",
        json_str(p.id), json_str(if thorough { "thorough" } else { "quick" }), seed));
    ev.push_str(" \"coverage\": {\n");
    ev.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        evals, distinct.len(), json_str(p.rule)));
    ev.push_str("  \"observed\": {");
    ev.push_str(&counters.iter().map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect::<Vec<_>>().join(", "));
    ev.push_str("},\n");
    ev.push_str(&format!("  \"workers\": {},\n  \"slowest_case_ms\": {},\n", nw, slowest.0));
    ev.push_str("  \"samples\": [");
    ev.push_str(&samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    ev.push_str("]\n },\n");
    ev.push_str(" \"assumptions\": [");
    ev.push_str(&p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    ev.push_str("],\n");
    ev.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        t0.elapsed().as_secs_f64(), violation.is_some() as u32));
    let _ = fs::create_dir_all(root.join("evidence"));
    if std::env::var("VERIF_CASES").is_err() {
        fs::write(root.join("evidence").join(format!("{}.json", p.id)), ev).unwrap();
    }

    if let Some((case, msg, desc)) = violation {
        let dir = root.join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.txt", p.id, seed, case));
        let text = format!(
            "property: {}\nseed: {}\ntier: {}\ncase: {}\ninput: {}\nobserved: {}\nre-run: /verif/check.sh {} replay {} {} {}\n",
            p.id, seed, tier, case, desc, msg, p.id, tier, seed, case);
        let _ = fs::write(&path, text);
        println!("{}: {}", p.id, msg.chars().take(1500).collect::<String>());
        if !desc.is_empty() {
            println!("input: {}", desc.chars().take(1500).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if !trouble.is_empty() || !lacking.is_empty() {
        for t in trouble.iter().chain(lacking.iter()) {
            println!("INCONCLUSIVE property={} {}", p.id, t.chars().take(2000).collect::<String>());
        }
        return 2;
    }
    println!("{}: held on {} cases ({} distinct non-trivial) in {:.1} s",
        p.id, evals, distinct.len(), t0.elapsed().as_secs_f64());
    println!("  slowest case {}: {} ms", slowest.1, slowest.0);
    for (k, v) in &counters {
        println!("  {} = {}", k, v);
    }
    0
}
