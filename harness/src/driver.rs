//! Worker driver: runs cases, attributes panics, keeps the journal, writes the report.
//!
//! Usage: <bin> --seed N --cases N --out FILE [--journal FILE] [--time SECS] [--shard I/N]
//!              [--only SEED@INDEX] [--tier quick|thorough]
//!
//! A case is fully determined by its case seed. Verdicts are three-valued: a violation is recorded
//! in the report; harness trouble makes the worker exit with a code the driver script maps to
//! "inconclusive"; otherwise the property held on what was observed.
use crate::rng::{hash_u64, splitmix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct PanicInfo { pub file: String, pub line: u32, pub msg: String }

thread_local! { static LAST_PANIC: RefCell<Option<PanicInfo>> = RefCell::new(None); }
static ANY_PANIC: std::sync::Mutex<Option<PanicInfo>> = std::sync::Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "<non-string panic>".to_string() };
        let (file, line) = info.location().map_or(("?".to_string(), 0), |l| (l.file().to_string(), l.line()));
        let p = PanicInfo { file, line, msg };
        if std::env::var_os("BBMON_VERBOSE").is_some() { eprintln!("panic: {:?}", p); }
        LAST_PANIC.with(|c| *c.borrow_mut() = Some(p.clone()));
        *ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(p);
    }));
}

/// Is this panic the harness's own (an assertion in its own sources) rather than the target's?
pub fn is_harness_panic(p: &PanicInfo) -> bool {
    p.msg.starts_with("HARNESS") || p.file.starts_with("src/bin/") || p.file.contains("/verif/")
        || ["src/rng.rs", "src/driver.rs", "src/gen.rs", "src/probe.rs", "src/exact.rs", "src/session.rs", "src/bits.rs", "src/mon.rs"].contains(&p.file.as_str())
}

fn strip_digits(s: &str) -> String {
    let mut out = String::new();
    let mut last_digit = false;
    for c in s.chars().take(160) {
        if c.is_ascii_digit() { if !last_digit { out.push('#'); } last_digit = true; }
        else { out.push(if c == '\n' { ' ' } else { c }); last_digit = false; }
    }
    out
}

#[derive(Clone, Debug)]
pub struct Violation { pub sig: String, pub detail: String, pub case_id: String }

pub struct Ctx {
    pub rng: Rng,
    pub case_seed: u64,
    pub case_index: u64,
    pub thorough: bool,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub harness_errors: Vec<String>,
    max_samples: usize,
}

impl Ctx {
    pub fn count(&mut self, key: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(key) { *v += n; }
        else { self.counters.insert(key.to_string(), n); }
    }
    pub fn maximum(&mut self, key: &str, n: u64) {
        let e = self.maxima.entry(key.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// One evaluation of the oracle on a distinct, non-trivial case with this fingerprint.
    pub fn observe(&mut self, fingerprint: u64) {
        self.evaluations += 1;
        self.distinct.insert(fingerprint);
    }
    /// An evaluation of the oracle on a trivial case.
    pub fn observe_trivial(&mut self) { self.evaluations += 1; }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < self.max_samples { let s = f(); self.samples.push(s); }
    }
    pub fn violation(&mut self, sig: &str, detail: String) {
        if self.violations.iter().filter(|v| v.sig == sig).count() < 3 && self.violations.len() < 40 {
            self.violations.push(Violation { sig: sig.to_string(), detail, case_id: format!("{}@{}", self.case_seed, self.case_index) });
        }
    }
    /// Record a violation unless `ok`. Returns ok.
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok { let d = detail(); self.violation(sig, d); }
        ok
    }
    pub fn panic_violation(&mut self, what: &str, p: &PanicInfo, detail: &str) {
        if is_harness_panic(p) {
            self.harness_errors.push(format!("{} case {}@{}: {:?}", what, self.case_seed, self.case_index, p));
        } else {
            let base = p.file.rsplit('/').next().unwrap_or("?");
            let sig = format!("panic:{}:{}:{}", what, base, strip_digits(&p.msg));
            let d = format!("{} panicked at {}:{}: {} [{}]", what, p.file, p.line, p.msg, detail);
            self.violation(&sig, d);
        }
    }
    /// Run target code; a panic in it is a violation (valid input must not panic).
    pub fn run<T>(&mut self, what: &str, detail: &str, f: impl FnOnce() -> T) -> Option<T> {
        match guarded(f) {
            Ok(v) => Some(v),
            Err(p) => { self.panic_violation(what, &p, detail); None }
        }
    }
}

/// Run target code, returning the panic (if any) instead of unwinding.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    LAST_PANIC.with(|c| *c.borrow_mut() = None);
    *ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let p = LAST_PANIC.with(|c| c.borrow_mut().take())
                .or_else(|| ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take())
                .unwrap_or(PanicInfo { file: "?".into(), line: 0, msg: "?".into() });
            Err(p)
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_report(path: &str, ctx: &Ctx, cases: u64, wall: f64, done: bool) {
    let mut o = String::from("{");
    o += &format!("\"done\":{},\"cases\":{},\"evaluations\":{},\"wall_s\":{:.3},", done, cases, ctx.evaluations, wall);
    o += "\"distinct\":[";
    let mut v: Vec<_> = ctx.distinct.iter().collect();
    v.sort();
    o += &v.iter().take(400_000).map(|h| format!("\"{:x}\"", h)).collect::<Vec<_>>().join(",");
    o += "],\"counters\":{";
    o += &ctx.counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
    o += "},\"maxima\":{";
    o += &ctx.maxima.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
    o += "},\"samples\":[";
    o += &ctx.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    o += "],\"violations\":[";
    o += &ctx.violations.iter().map(|v| format!("{{\"sig\":{},\"detail\":{},\"case_seed\":\"{}\"}}",
        json_str(&v.sig), json_str(&v.detail), v.case_id)).collect::<Vec<_>>().join(",");
    o += "],\"harness_errors\":[";
    o += &ctx.harness_errors.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    o += "]}";
    std::fs::write(path, o).expect("HARNESS cannot write report");
}

pub struct Args {
    pub seed: u64, pub cases: u64, pub time: f64, pub out: String, pub journal: Option<String>,
    pub shard: (u64, u64), pub only: Option<(u64, u64)>, pub thorough: bool, pub case_cpu: f64,
}

pub fn parse_args() -> Args {
    let mut a = Args { seed: 1, cases: 100, time: 1e9, out: String::new(), journal: None, shard: (0, 1),
                       only: None, thorough: false, case_cpu: 0.0 };
    let argv: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i + 1 < argv.len() {
        let v = &argv[i + 1];
        match argv[i].as_str() {
            "--seed" => a.seed = v.parse().unwrap(),
            "--cases" => a.cases = v.parse().unwrap(),
            "--time" => a.time = v.parse().unwrap(),
            "--out" => a.out = v.clone(),
            "--journal" => a.journal = Some(v.clone()),
            "--case-cpu" => a.case_cpu = v.parse().unwrap(),
            "--tier" => a.thorough = v == "thorough",
            "--only" => {
                let mut it = v.split('@');
                a.only = Some((it.next().unwrap().parse().unwrap(), it.next().map_or(0, |x| x.parse().unwrap())));
            }
            "--shard" => {
                let mut it = v.split('/');
                a.shard = (it.next().unwrap().parse().unwrap(), it.next().unwrap().parse().unwrap());
            }
            x => panic!("HARNESS unknown argument {}", x),
        }
        i += 2;
    }
    a
}

#[cfg(miri)]
fn cpu_seconds() -> f64 { 0.0 }

#[cfg(not(miri))]
fn cpu_seconds() -> f64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        let f = |t: libc::timeval| t.tv_sec as f64 + t.tv_usec as f64 * 1e-6;
        f(u.ru_utime) + f(u.ru_stime)
    }
}

static CURRENT_CASE: std::sync::Mutex<(u64, u64, f64)> = std::sync::Mutex::new((0, 0, -1.0));

/// Bounded progress: a single case that burns more CPU time than `limit` (orders of magnitude more
/// than any case needs) never returns. CPU time, not wall-clock time, so that load does not matter.
fn watchdog(limit: f64, out: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let (seed, index, start) = *CURRENT_CASE.lock().unwrap();
        let seed = format!("{}@{}", seed, index);
        if start >= 0.0 && cpu_seconds() - start > limit {
            let d = format!("the case used more than {} s of CPU time without returning", limit);
            eprintln!("VIOL no-termination :: {} :: case_seed={}", d, seed);
            if !out.is_empty() {
                let r = format!("{{\"done\":false,\"cases\":0,\"evaluations\":0,\"wall_s\":0,\"distinct\":[],\"counters\":{{}},\
                    \"maxima\":{{}},\"samples\":[],\"violations\":[{{\"sig\":\"no-termination\",\"detail\":{},\"case_seed\":\"{}\"}}],\
                    \"harness_errors\":[]}}", json_str(&d), seed);
                std::fs::write(&out, r).ok();
            }
            std::process::exit(1);
        }
    });
}

/// Run `case` over the cases of this shard and write the report.
pub fn main(prop: &str, case: impl Fn(&mut Ctx)) {
    let args = parse_args();
    install_hook();
    let start = Instant::now();
    if args.case_cpu > 0.0 { watchdog(args.case_cpu, args.out.clone()); }
    let mut ctx = Ctx {
        rng: Rng::new(0), case_seed: 0, case_index: 0, thorough: args.thorough, evaluations: 0,
        distinct: HashSet::new(), counters: BTreeMap::new(), maxima: BTreeMap::new(), samples: Vec::new(),
        violations: Vec::new(), harness_errors: Vec::new(), max_samples: 3,
    };
    let mut base = hash_u64(crate::rng::hash_bytes(prop.as_bytes()), args.seed);
    let base = splitmix(&mut base);
    let mut done_cases = 0u64;
    let mut journal = args.journal.as_ref().map(|p| std::fs::File::create(p).expect("HARNESS journal"));
    let mut index = args.shard.0;
    loop {
        let case_seed = match args.only {
            Some((s, i)) => { index = i; s }
            None => {
                if index >= args.cases || start.elapsed().as_secs_f64() > args.time { break; }
                hash_u64(base, index)
            }
        };
        ctx.case_seed = case_seed;
        ctx.case_index = index;
        ctx.rng = Rng::new(case_seed);
        if let Some(j) = journal.as_mut() {
            // the last line tells which case was running should the process die
            use std::io::Seek;
            j.seek(std::io::SeekFrom::Start(0)).ok();
            writeln!(j, "{:<60}", format!("{}@{}", case_seed, index)).ok();
        }
        *CURRENT_CASE.lock().unwrap() = (case_seed, index, cpu_seconds());
        let r = guarded(|| case(&mut ctx));
        CURRENT_CASE.lock().unwrap().2 = -1.0;
        if let Err(p) = r { ctx.panic_violation("case", &p, ""); }
        done_cases += 1;
        index += args.shard.1;
        if args.only.is_some() { break; }
        if ctx.violations.len() >= 12 || ctx.harness_errors.len() >= 3 { break; }
    }
    ctx.count("cases", done_cases);
    if !args.out.is_empty() {
        write_report(&args.out, &ctx, done_cases, start.elapsed().as_secs_f64(), true);
    }
    for v in ctx.violations.iter().take(8) { eprintln!("VIOL {} :: {} :: case_seed={}", v.sig, v.detail, v.case_id); }
    for v in ctx.harness_errors.iter().take(8) { eprintln!("HARNESS-ERROR {}", v); }
    if args.out.is_empty() {
        eprintln!("cases={} evaluations={} distinct={} wall={:.1}s counters={:?} maxima={:?}", done_cases, ctx.evaluations,
                  ctx.distinct.len(), start.elapsed().as_secs_f64(), ctx.counters, ctx.maxima);
    }
    let code = if !ctx.harness_errors.is_empty() { 3 } else if !ctx.violations.is_empty() { 1 } else { 0 };
    std::process::exit(code);
}
