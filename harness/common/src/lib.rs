//! The explorer that all checks share.
//!
//! A check is a list of *suites*; a suite is a finite, totally ordered space of *cases*
//! (operation sequences, input shapes, grammars × words, …) numbered `0..len`, together with a
//! function that runs one case against the real code and a reference model.  The explorer runs
//! every case of every suite; it never samples.  Whatever is not determined by the case number
//! is owned by the explorer: the seeds of `std`'s hash maps are set per case (see `getrandom`
//! below), so a case behaves in the same way whenever it is run.
//!
//! A case that panics, that does not come back within the time limit, that eats all memory or
//! that kills the process is a violation, found by a watchdog in the process or by the parent
//! process; cases are then re-run by themselves to make sure.

use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod enumerate;
pub mod gram;

// ---------------------------------------------------------------------------------------------
// Hash seeds

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
}

/// `std` seeds its hash maps from this function (weakly linked); here it is a function of the
/// case only.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = HASH_SEED
        .try_with(|s| s.get())
        .unwrap_or(0)
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add(0x1234_5678_9ABC_DEF1);
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        unsafe { *buf.add(i) = (x >> 24) as u8 };
    }
    len as isize
}

/// Runs `f` in a new thread whose hash maps are seeded from `seed`.
pub fn with_hash_seed<R: Send>(seed: u64, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                HASH_SEED.with(|c| c.set(seed));
                f()
            })
            .expect("spawn")
            .join()
    })
    .unwrap_or_else(|e| panic::resume_unwind(e))
}

// ---------------------------------------------------------------------------------------------
// Observations

/// What one case reports besides its verdict.
pub struct Obs {
    pub transitions: u64,
    pub traces: u64,
    pub evaluations: u64,
    nontrivial: bool,
    note: Option<String>,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    counters: BTreeMap<&'static str, u64>,
    capped: bool,
}

const SET_CAP: usize = 3_000_000;

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Obs {
    fn new() -> Obs {
        Obs {
            transitions: 0,
            traces: 0,
            evaluations: 0,
            nontrivial: false,
            note: None,
            states: HashSet::new(),
            outcomes: HashSet::new(),
            counters: BTreeMap::new(),
            capped: false,
        }
    }
    /// A state (of the reference model, in canonical form) was visited.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.states.len() < SET_CAP {
            self.states.insert(hash_of(t));
        } else {
            self.capped = true;
        }
    }
    /// One step of the model was compared with the implementation.
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: usize) {
        self.transitions += n as u64;
    }
    /// A complete execution/answer of the implementation agreed with the model.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    /// The observable outcome of the case (to see that cases do differ).
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.outcomes.len() < SET_CAP {
            self.outcomes.insert(hash_of(t));
        }
    }
    /// The case is not trivial by the rule of its suite.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.note.is_none() {
            self.note = Some(f());
        }
    }
    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counters.entry(what).or_insert(0) += n;
    }
}

pub type Verdict = Result<(), String>;

type Run = dyn Fn(u64, &mut Obs) -> Verdict + Send + Sync;
type Show = dyn Fn(u64) -> String + Send + Sync;

pub struct Suite {
    pub name: &'static str,
    /// how the cases are made and what makes one non-trivial
    pub rule: String,
    pub len: u64,
    pub run: Box<Run>,
    pub show: Box<Show>,
    /// seconds one case may take
    pub limit: u64,
    /// run every case in its own thread with this many different hash seeds (0: in the worker)
    pub seeds: u64,
    /// a panic in the code under test is a violation (always the case unless set to false, in
    /// which case the suite handles panics itself)
    pub serial: bool,
}

impl Suite {
    pub fn new(
        name: &'static str,
        rule: impl Into<String>,
        len: u64,
        run: impl Fn(u64, &mut Obs) -> Verdict + Send + Sync + 'static,
        show: impl Fn(u64) -> String + Send + Sync + 'static,
    ) -> Suite {
        Suite {
            name,
            rule: rule.into(),
            len,
            run: Box::new(run),
            show: Box::new(show),
            limit: 60,
            seeds: 0,
            serial: false,
        }
    }
    /// A suite over an explicit list of cases.
    pub fn over<C: Send + Sync + 'static>(
        name: &'static str,
        rule: impl Into<String>,
        cases: Vec<C>,
        run: impl Fn(&C, &mut Obs) -> Verdict + Send + Sync + 'static,
        show: impl Fn(&C) -> String + Send + Sync + 'static,
    ) -> Suite {
        let cases = Arc::new(cases);
        let cases2 = cases.clone();
        Suite::new(
            name,
            rule,
            cases.len() as u64,
            move |i, o| run(&cases[i as usize], o),
            move |i| show(&cases2[i as usize]),
        )
    }
    pub fn seeds(mut self, n: u64) -> Suite {
        self.seeds = n;
        self
    }
    pub fn limit(mut self, s: u64) -> Suite {
        self.limit = s;
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    /// `q` in the quick tier, `t` in the thorough tier.
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub assumptions: Vec<&'static str>,
    pub build: fn(Tier) -> Vec<Suite>,
}

// ---------------------------------------------------------------------------------------------
// Panics

thread_local! {
    static PANIC_MESSAGE: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

fn install_panic_hook() {
    let default = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        let place = info
            .location()
            .map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        LAST_PANIC.lock().map(|mut g| *g = format!("{}{}", message, place)).ok();
        let _ = PANIC_MESSAGE.try_with(|m| *m.borrow_mut() = Some(format!("{}{}", message, place)));
        if std::env::var_os("MC_LOUD").is_some() {
            default(info)
        }
    }));
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

/// Calls `f`; a panic becomes `Err(message)`.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let _ = PANIC_MESSAGE.try_with(|m| *m.borrow_mut() = None);
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC_MESSAGE
            .try_with(|m| m.borrow_mut().take())
            .ok()
            .flatten()
            .unwrap_or_else(|| LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default())
    })
}

// ---------------------------------------------------------------------------------------------
// Running

struct Slots {
    ptr: *mut AtomicU64,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

const SLOTS: usize = 64;

impl Slots {
    /// Per worker: (suite + 1, case), in a file that survives the process.
    fn open(path: &Path) -> Slots {
        use std::os::unix::io::AsRawFd;
        let f = fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("progress file");
        f.set_len((SLOTS * 16) as u64).expect("progress file");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOTS * 16,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slots { ptr: p as *mut AtomicU64 }
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.ptr.add(i) }
    }
    fn set(&self, worker: usize, suite: usize, case: u64) {
        self.at(worker * 2 + 1).store(case, Ordering::Relaxed);
        self.at(worker * 2).store(suite as u64 + 1, Ordering::Release);
    }
    fn clear(&self, worker: usize) {
        self.at(worker * 2).store(0, Ordering::Release);
    }
    fn busy(&self) -> Vec<(usize, u64)> {
        (0..SLOTS)
            .filter_map(|w| {
                let s = self.at(w * 2).load(Ordering::Acquire);
                if s == 0 {
                    None
                } else {
                    Some((s as usize - 1, self.at(w * 2 + 1).load(Ordering::Relaxed)))
                }
            })
            .collect()
    }
}

struct Violation {
    suite: usize,
    case: u64,
    message: String,
}

fn run_case(suite: &Suite, case: u64, obs: &mut Obs) -> Verdict {
    if suite.seeds == 0 {
        match catch(|| (suite.run)(case, obs)) {
            Ok(v) => v,
            Err(p) => Err(format!("panic: {}", p)),
        }
    } else {
        for seed in 0..suite.seeds {
            let r = with_hash_seed(seed + 1, || {
                catch(|| (suite.run)(case, &mut *obs))
            });
            match r {
                Ok(Ok(())) => (),
                Ok(Err(m)) => return Err(format!("[hash seed {}] {}", seed + 1, m)),
                Err(p) => return Err(format!("[hash seed {}] panic: {}", seed + 1, p)),
            }
        }
        Ok(())
    }
}

fn rss_mb() -> u64 {
    fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map_or(0, |p| p * 4096 / (1 << 20))
}

const RSS_LIMIT_MB: u64 = 14_000;

struct Known {
    line: String,
    property: String,
    suite: String,
    case: String,
}

fn known_findings(verif: &Path) -> Vec<Known> {
    let mut result = Vec::new();
    if let Ok(text) = fs::read_to_string(verif.join("KNOWN_FINDINGS")) {
        for line in text.lines() {
            // known: property=C00 suite=<name> case=<text of the case> # description
            if let Some(rest) = line.strip_prefix("known: ") {
                let property = field(rest, "property=", " ");
                let suite = field(rest, "suite=", " ");
                let case = field(rest, "case=«", "»");
                if let (Some(property), Some(suite), Some(case)) = (property, suite, case) {
                    result.push(Known {
                        line: rest.to_string(),
                        property,
                        suite,
                        case,
                    });
                }
            }
        }
    }
    result
}

fn field(s: &str, start: &str, end: &str) -> Option<String> {
    let i = s.find(start)? + start.len();
    let j = s[i..].find(end)? + i;
    Some(s[i..j].to_string())
}

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

struct Options {
    id: String,
    tier: Tier,
    only: Option<(String, u64)>,
    verif: PathBuf,
    child: bool,
}

impl Options {
    fn copy(&self) -> Options {
        Options { id: self.id.clone(), tier: self.tier, only: self.only.clone(), verif: self.verif.clone(), child: self.child }
    }
}

/// `main` of a harness: `<bin> <ID> [quick|thorough] [--only SUITE CASE]`.
pub fn main(checks: Vec<Check>) -> ! {
    let mut args = std::env::args().skip(1);
    let id = args.next().unwrap_or_default();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    let mut child = false;
    while let Some(a) = args.next() {
        match a.as_str() {
            "quick" => tier = Tier::Quick,
            "thorough" => tier = Tier::Thorough,
            "--only" => {
                only = Some((args.next().unwrap(), args.next().unwrap().parse().unwrap()))
            }
            "--child" => child = true,
            _ => {
                eprintln!("unknown argument {}", a);
                std::process::exit(2)
            }
        }
    }
    let verif = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()));
    let options = Options { id, tier, only, verif, child };
    if options.id == "list" {
        for c in &checks {
            println!("{}", c.id);
        }
        std::process::exit(0)
    }
    let check = match checks.into_iter().find(|c| c.id == options.id) {
        Some(c) => c,
        None => {
            eprintln!("no check {}", options.id);
            std::process::exit(2)
        }
    };
    if options.child {
        child_main(check, options)
    } else {
        parent_main(check, options)
    }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

/// Checks that are so cheap that the quick tier explores up to the bounds of the thorough one.
const ALWAYS_THOROUGH: [&str; 20] = [
    "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C18", "C20", "C21", "C35", "C37", "C39",
];

/// All suites; for development, only the one named in MC_SUITE.
fn suites_of(check: &Check, o: &Options) -> Vec<Suite> {
    let tier = if ALWAYS_THOROUGH.contains(&check.id) { Tier::Thorough } else { o.tier };
    let mut suites = (check.build)(tier);
    if let Ok(name) = std::env::var("MC_SUITE") {
        suites.retain(|s| s.name == name);
    }
    suites
}

fn progress_path(o: &Options) -> PathBuf {
    o.verif
        .join("build")
        .join(format!("progress-{}-{}", o.id, std::process::id()))
}

/// What may take as long as this is hung; on the unchanged tree all suites are there in seconds.
const PREPARATION_S: u64 = 300;

/// Some suites start from objects that the code under test makes. If it cannot make them any more,
/// that is a violation, too.
fn prepare(check: &Check, o: &Options) -> Vec<Suite> {
    let ready = Arc::new(AtomicBool::new(false));
    let (seen, o2, begin) = (ready.clone(), Options { only: None, ..o.copy() }, Instant::now());
    std::thread::spawn(move || {
        while !seen.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_millis(50));
            if begin.elapsed().as_secs() > PREPARATION_S {
                unsafe { libc::_exit(conclude_preparation(&o2, &format!("no answer within {} s", PREPARATION_S))) }
            }
            if rss_mb() > RSS_LIMIT_MB {
                unsafe { libc::_exit(conclude_preparation(&o2, &format!("uses more than {} MB", RSS_LIMIT_MB))) }
            }
        }
    });
    let suites = catch(|| suites_of(check, o));
    ready.store(true, Ordering::Relaxed);
    match suites {
        Ok(s) => s,
        Err(e) => std::process::exit(conclude_preparation(o, &e)),
    }
}

/// Prints the violation that there is when the suites cannot be made.
fn conclude_preparation(o: &Options, message: &str) -> i32 {
    let dir = o.verif.join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-preparation.txt", o.id));
    let text = format!(
        "property: {}\nwhat failed: making the objects the exploration starts from: {}\n\nreplay with: bash /verif/check.sh {} {}\n",
        o.id,
        message,
        o.id,
        tier_name(o.tier)
    );
    let _ = fs::write(&path, &text);
    println!("{}", text);
    println!("VIOLATION property={} replay={}", o.id, path.display());
    let _ = std::io::stdout().flush();
    1
}

/// Runs the exploration in a child process, so that a crash of the code under test is a verdict
/// about a case and not the end of the check.
fn parent_main(check: Check, o: Options) -> ! {
    let path = progress_path(&o);
    let _ = fs::create_dir_all(path.parent().unwrap());
    let slots = Slots::open(&path);
    let spawn = |only: Option<(&str, u64)>| {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.arg(&o.id)
            .arg(tier_name(o.tier))
            .arg("--child")
            .env("MC_PROGRESS", &path)
            .env("MC_VERIF", &o.verif);
        if let Some((s, n)) = only {
            c.arg("--only").arg(s).arg(n.to_string());
        }
        c.spawn().expect("child").wait().expect("child")
    };
    let status = spawn(o.only.as_ref().map(|(s, n)| (s.as_str(), *n)));
    let code = match status.code() {
        Some(c @ 0) | Some(c @ 1) | Some(c @ 2) => c,
        _ => {
            // the process died: which case was it?
            let busy = slots.busy();
            let mut verdict = 2;
            if busy.is_empty() && matches!(status.signal(), Some(libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE)) {
                verdict = conclude_preparation(&o, &format!("the process died: {}", status));
            }
            let suites = if busy.is_empty() { vec![] } else { suites_of(&check, &o) };
            for (s, case) in busy {
                let suite = &suites[s];
                let mut dead = None;
                if o.only.is_some() {
                    dead = Some(status)
                } else {
                    for w in 0..SLOTS {
                        slots.clear(w);
                    }
                    let again = spawn(Some((suite.name, case)));
                    match again.code() {
                        Some(0) => (),
                        Some(1) => {
                            verdict = 1;
                            break;
                        }
                        _ => dead = Some(again),
                    }
                }
                if let Some(st) = dead {
                    let v = Violation {
                        suite: s,
                        case,
                        message: format!("the process died: {}", st),
                    };
                    verdict = conclude_violation(&o, &suites, &v);
                    break;
                }
            }
            if verdict == 2 {
                eprintln!("the explorer died ({}) and no case explains it", status);
            }
            verdict
        }
    };
    let _ = fs::remove_file(&path);
    std::process::exit(code)
}

/// Prints the violation (or the known finding) and writes the replay file; the exit code.
fn conclude_violation(o: &Options, suites: &[Suite], v: &Violation) -> i32 {
    let suite = &suites[v.suite];
    let case = catch(|| (suite.show)(v.case)).unwrap_or_else(|e| format!("(not shown: {})", e));
    let dir = o.verif.join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.txt", o.id, suite.name, v.case));
    let text = format!(
        "property: {}\nsuite: {}\ncase number: {}\ncase: {}\nwhat failed: {}\n\nreplay with: bash /verif/check.sh {} {} --only {} {}\n",
        o.id,
        suite.name,
        v.case,
        case,
        v.message,
        o.id,
        tier_name(o.tier),
        suite.name,
        v.case
    );
    let _ = fs::write(&path, &text);
    println!("{}", text);
    println!("VIOLATION property={} replay={}", o.id, path.display());
    let _ = std::io::stdout().flush();
    1
}

struct SuiteResult {
    ran: u64,
    nontrivial: u64,
    obs: Obs,
    samples: Vec<String>,
    wall: f64,
}

fn child_main(check: Check, o: Options) -> ! {
    install_panic_hook();
    let begin = Instant::now();
    let slots = Arc::new(Slots::open(Path::new(
        &std::env::var("MC_PROGRESS").expect("MC_PROGRESS"),
    )));
    let suites = Arc::new(prepare(&check, &o));
    let known = known_findings(&o.verif);
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(SLOTS);

    if let Some((name, case)) = &o.only {
        let s = suites
            .iter()
            .position(|s| s.name == *name)
            .expect("no such suite");
        slots.set(0, s, *case);
        start_watchdog(&o, &suites, &slots, 1);
        println!("case: {}", (suites[s].show)(*case));
        let mut obs = Obs::new();
        let suites2 = suites.clone();
        let case2 = *case;
        let r = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || run_case(&suites2[s], case2, &mut obs))
            .unwrap()
            .join()
            .unwrap();
        match r {
            Ok(()) => {
                println!("held");
                std::process::exit(0)
            }
            Err(message) => {
                let v = Violation { suite: s, case: *case, message };
                std::process::exit(conclude_violation(&o, &suites, &v))
            }
        }
    }

    start_watchdog(&o, &suites, &slots, threads);
    let mut results = Vec::new();
    let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
    for si in 0..suites.len() {
        let suite = &suites[si];
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let worst = AtomicU64::new(u64::MAX);
        let found: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
        let nontrivial = AtomicU64::new(0);
        let hits: Mutex<BTreeMap<usize, u64>> = Mutex::new(BTreeMap::new());
        let merged: Mutex<Vec<(Obs, Vec<(u64, String)>)>> = Mutex::new(Vec::new());
        let chunk = (suite.len / (threads as u64 * 64)).clamp(1, 4096);
        let ran = AtomicU64::new(0);
        std::thread::scope(|scope| {
            for w in 0..threads {
                let (next, worst, found, nontrivial, merged, ran, slots, hits, known, o) = (
                    &next, &worst, &found, &nontrivial, &merged, &ran, &slots, &hits, &known, &o,
                );
                std::thread::Builder::new()
                    .stack_size(128 << 20)
                    .spawn_scoped(scope, move || {
                        let mut obs = Obs::new();
                        let mut samples: Vec<(u64, String)> = Vec::new();
                        loop {
                            let from = next.fetch_add(chunk, Ordering::Relaxed);
                            if from >= suite.len || from > worst.load(Ordering::Relaxed) {
                                break;
                            }
                            let to = (from + chunk).min(suite.len);
                            for case in from..to {
                                if case > worst.load(Ordering::Relaxed) {
                                    break;
                                }
                                slots.set(w, si, case);
                                obs.nontrivial = false;
                                obs.note = None;
                                let verdict = run_case(suite, case, &mut obs);
                                obs.evaluations += 1;
                                ran.fetch_add(1, Ordering::Relaxed);
                                if let Err(message) = verdict {
                                    let shown = catch(|| (suite.show)(case)).unwrap_or_default();
                                    let k = known.iter().position(|k| {
                                        k.property == o.id
                                            && k.suite == suite.name
                                            && k.case == shown
                                    });
                                    if let Some(k) = k {
                                        *hits.lock().unwrap().entry(k).or_insert(0) += 1;
                                        continue;
                                    }
                                    worst.fetch_min(case, Ordering::Relaxed);
                                    found.lock().unwrap().push(Violation {
                                        suite: si,
                                        case,
                                        message,
                                    });
                                    break;
                                }
                                if obs.nontrivial {
                                    nontrivial.fetch_add(1, Ordering::Relaxed);
                                    if samples.len() < 2 {
                                        let shown =
                                            catch(|| (suite.show)(case)).unwrap_or_default();
                                        let note = obs.note.take().unwrap_or_default();
                                        samples.push((
                                            case,
                                            format!(
                                                "{} #{}: {}{}{}",
                                                suite.name,
                                                case,
                                                shown,
                                                if note.is_empty() { "" } else { " ⇒ " },
                                                note
                                            ),
                                        ));
                                    }
                                }
                            }
                        }
                        slots.clear(w);
                        merged.lock().unwrap().push((obs, samples));
                    })
                    .expect("spawn");
            }
        });
        let mut found = found.into_inner().unwrap();
        found.sort_by_key(|v| v.case);
        if let Some(v) = found.first() {
            let code = conclude_violation(&o, &suites, v);
            write_evidence(&check, &o, &suites, &results, begin, 1);
            std::process::exit(code)
        }
        for (k, n) in hits.into_inner().unwrap() {
            *known_hits.entry(k).or_insert(0) += n;
        }
        let mut total = Obs::new();
        let mut samples = Vec::new();
        for (obs, s) in merged.into_inner().unwrap() {
            total.transitions += obs.transitions;
            total.traces += obs.traces;
            total.evaluations += obs.evaluations;
            total.capped |= obs.capped;
            total.states.extend(obs.states);
            total.outcomes.extend(obs.outcomes);
            for (k, n) in obs.counters {
                *total.counters.entry(k).or_insert(0) += n;
            }
            samples.extend(s);
        }
        samples.sort();
        let pick = samples.len();
        let samples: Vec<String> = samples
            .into_iter()
            .enumerate()
            .filter(|(i, _)| *i < 1 || *i + 1 == pick)
            .map(|(_, (_, s))| s)
            .collect();
        let r = SuiteResult {
            ran: ran.load(Ordering::Relaxed),
            nontrivial: nontrivial.load(Ordering::Relaxed),
            obs: total,
            samples,
            wall: t0.elapsed().as_secs_f64(),
        };
        println!(
            "{} {}: {} cases ({} non-trivial), {} states, {} transitions, {} traces, {} distinct outcomes, {:.1} s",
            o.id,
            suite.name,
            r.ran,
            r.nontrivial,
            r.obs.states.len(),
            r.obs.transitions,
            r.obs.traces,
            r.obs.outcomes.len(),
            r.wall
        );
        results.push(r);
    }
    for (k, n) in &known_hits {
        println!("KNOWN-FINDING: {} ({} case(s))", known[*k].line, n);
    }
    write_evidence(&check, &o, &suites, &results, begin, 0);
    std::process::exit(0)
}

fn start_watchdog(o: &Options, suites: &Arc<Vec<Suite>>, slots: &Arc<Slots>, threads: usize) {
    let o = Options {
        id: o.id.clone(),
        tier: o.tier,
        only: o.only.clone(),
        verif: o.verif.clone(),
        child: true,
    };
    let suites = suites.clone();
    let slots = slots.clone();
    let done = AtomicBool::new(false);
    let _ = AtomicUsize::new(threads);
    std::thread::spawn(move || {
        let mut seen: Vec<((usize, u64), Instant)> = vec![((usize::MAX, 0), Instant::now()); SLOTS];
        while !done.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_millis(50));
            let rss = rss_mb();
            for w in 0..SLOTS {
                let s = slots.at(w * 2).load(Ordering::Acquire);
                if s == 0 {
                    seen[w].0 = (usize::MAX, 0);
                    continue;
                }
                let now = (s as usize - 1, slots.at(w * 2 + 1).load(Ordering::Relaxed));
                if seen[w].0 != now {
                    seen[w] = (now, Instant::now());
                    continue;
                }
                let age = seen[w].1.elapsed();
                let limit = Duration::from_secs(suites[now.0].limit);
                let hung = age > limit;
                // the oldest case is what eats the memory
                let fat = rss > RSS_LIMIT_MB
                    && (0..SLOTS).all(|x| {
                        x == w || slots.at(x * 2).load(Ordering::Relaxed) == 0 || seen[x].1 >= seen[w].1
                    });
                if hung || fat {
                    let v = Violation {
                        suite: now.0,
                        case: now.1,
                        message: if hung {
                            format!("no answer within {} s", limit.as_secs())
                        } else {
                            format!("uses more than {} MB", RSS_LIMIT_MB)
                        },
                    };
                    let code = conclude_violation(&o, &suites, &v);
                    unsafe { libc::_exit(code) }
                }
            }
        }
    });
}

fn write_evidence(
    check: &Check,
    o: &Options,
    suites: &[Suite],
    results: &[SuiteResult],
    begin: Instant,
    violations: u64,
) {
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut states = 0;
    let mut transitions = 0;
    let mut traces = 0;
    let mut evaluations = 0;
    let mut nontrivial = 0;
    let mut capped = false;
    let mut samples = Vec::new();
    let mut rules = Vec::new();
    let mut parts = Vec::new();
    for (s, r) in suites.iter().zip(results) {
        states += r.obs.states.len();
        transitions += r.obs.transitions;
        traces += r.obs.traces;
        evaluations += r.obs.evaluations;
        nontrivial += r.nontrivial;
        capped |= r.obs.capped;
        samples.extend(r.samples.iter().cloned());
        rules.push(format!("{}: {}", s.name, s.rule));
        let counters: Vec<String> = r
            .obs
            .counters
            .iter()
            .map(|(k, n)| format!("{}: {}", json_str(k), n))
            .collect();
        parts.push(format!(
            "{{\"suite\": {}, \"cases\": {}, \"nontrivial\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"distinct_outcomes\": {}, \"hash_seeds\": {}, \"counters\": {{{}}}, \"wall_s\": {:.3}}}",
            json_str(s.name),
            r.ran,
            r.nontrivial,
            r.obs.states.len(),
            r.obs.transitions,
            r.obs.traces,
            r.obs.outcomes.len(),
            s.seeds,
            counters.join(", "),
            r.wall
        ));
    }
    if samples.is_empty() {
        samples.push("(the exploration stopped before a non-trivial case was completed)".into());
    }
    samples.iter_mut().for_each(|s| {
        if s.chars().count() > 1500 {
            *s = s.chars().take(1500).collect::<String>() + " …";
        }
    });
    let samples: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
    let assumptions: Vec<String> = check.assumptions.iter().map(|s| json_str(s)).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"exhaustive\": {},\n  \"state_count_capped\": {},\n  \"rule\": {},\n  \"suites\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(check.id),
        tier_name(o.tier),
        seed,
        states,
        transitions,
        traces,
        evaluations,
        nontrivial,
        violations == 0,
        capped,
        json_str(&rules.join(" | ")),
        parts.join(",\n   "),
        samples.join(",\n   "),
        assumptions.join(", "),
        begin.elapsed().as_secs_f64(),
        violations
    );
    let dir = o.verif.join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{}.json", check.id)), text).expect("evidence");
}

/// `assert_eq` as a verdict.
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, expected: &T) -> Verdict {
    if got == expected {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, expected {:?}", what, got, expected))
    }
}

pub fn ensure(what: &str, b: bool) -> Verdict {
    if b {
        Ok(())
    } else {
        Err(what.to_string())
    }
}
