//! Exhaustive-enumeration engine: sessions on the code under test, a parallel
//! driver over an index space, watchdog, violations and evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What one compilation on the code under test gave.
#[derive(Debug, Clone, Default)]
pub struct Out {
    /// rendered HTML (always rendered, even if there were errors)
    pub html: String,
    /// rendered text mode
    pub text: String,
    pub num_errors: u32,
    pub num_warnings: u32,
    /// the diagnostics as printed
    pub diag: String,
    /// message of a panic, if the compiler panicked
    pub panic: Option<String>,
    /// I/O level failure of loading a source file
    pub load_err: Option<String>,
    /// files collected by @file::write
    pub files: Vec<(PathBuf, String)>,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.panic.is_none() && self.load_err.is_none() && self.num_errors == 0
    }
    /// The result as compared with a model: Some(html) if no errors.
    pub fn ok_html(&self) -> Option<&str> {
        if self.ok() { Some(&self.html) } else { None }
    }
    pub fn describe(&self) -> String {
        if let Some(p) = &self.panic { return format!("PANIC: {p}"); }
        if let Some(p) = &self.load_err { return format!("LOAD ERROR: {p}"); }
        if self.num_errors > 0 || self.num_warnings > 0 {
            format!("{} errors, {} warnings\noutput: {:?}\n{}", self.num_errors, self.num_warnings, self.html, self.diag)
        } else {
            format!("ok: {:?}", self.html)
        }
    }
}

/// A compiler context of the code under test.
pub trait Session {
    /// `Context::reset` and then compile the given source as `name`.
    fn synth(&mut self, name: &str, src: &str) -> Out;
    /// `Context::reset` and then `Context::load_uncached`.
    fn load(&mut self, path: &Path) -> Out;
}

/// Access to the code under test.
#[derive(Clone, Copy)]
pub struct Subject {
    pub new_session: fn(Option<&Path>) -> Box<dyn Session>,
    pub compile_str: fn(&str) -> Result<String, String>,
    /// (kind debug string, text) of each token
    pub tokenize: fn(&str) -> Vec<(String, String)>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }

pub struct Cfg {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub subject: Subject,
    pub verif: PathBuf,
    pub papyri_bin: PathBuf,
    pub shim: PathBuf,
    pub start: Instant,
    pub threads: usize,
}
impl Cfg {
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    /// quick value or thorough value
    pub fn q<T>(&self, quick: T, thorough: T) -> T { if self.quick() { quick } else { thorough } }
}

#[derive(Debug, Clone)]
pub struct Violation {
    /// identifies the specific failing input/site; used to match known findings
    pub key: String,
    pub detail: String,
}

pub struct Report {
    pub level: &'static str,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub rule: String,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub extra: BTreeMap<String, String>,
    pub assumptions: Vec<String>,
}
impl Report {
    pub fn new(level: &'static str, rule: &str) -> Report {
        Report {level, states: 0, transitions: 0, traces: 0, evaluations: 0, nontrivial: 0, rule: rule.to_string(), samples: vec![], violations: vec![], extra: BTreeMap::new(), assumptions: vec![]}
    }
    pub fn absorb(&mut self, stats: Stats) {
        self.evaluations += stats.evaluations;
        self.nontrivial += stats.nontrivial.len() as u64 + stats.nontrivial_count;
        self.traces += stats.evaluations;
        self.transitions += stats.transitions;
        self.states += stats.states.len() as u64;
        for s in stats.samples { if self.samples.len() < 12 { self.samples.push(s); } }
        self.violations.extend(stats.violations);
        for (k, v) in stats.counters {
            let e = self.extra.entry(k).or_insert_with(|| "0".into());
            *e = (e.parse::<u64>().unwrap_or(0) + v).to_string();
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    /// hashes of distinct non-trivial cases
    pub nontrivial: HashSet<u64>,
    pub nontrivial_count: u64,
    pub transitions: u64,
    /// hashes of distinct model states
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub counters: BTreeMap<String, u64>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        self.nontrivial_count += o.nontrivial_count;
        self.transitions += o.transitions;
        self.states.extend(o.states);
        for s in o.samples { if self.samples.len() < 12 { self.samples.push(s); } }
        self.violations.extend(o.violations);
        for (k, v) in o.counters { *self.counters.entry(k).or_insert(0) += v; }
    }
    pub fn count(&mut self, k: &str) { *self.counters.entry(k.to_string()).or_insert(0) += 1; }
    pub fn violation(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        self.violations.push(Violation {key: key.into(), detail: detail.into()});
    }
    pub fn state<T: std::hash::Hash + ?Sized>(&mut self, t: &T) { self.states.insert(hash(t)); }
    pub fn nontriv<T: std::hash::Hash + ?Sized>(&mut self, t: &T) { self.nontrivial.insert(hash(t)); }
}

pub fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// One worker thread: its session and its statistics.
pub struct Worker {
    pub id: usize,
    pub subject: Subject,
    pub session: Box<dyn Session>,
    pub stats: Stats,
    used: u32,
    slot: usize,
}

thread_local! {
    pub static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

struct Slot { started: u64, what: String }
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
static STOP: AtomicBool = AtomicBool::new(false);
static PROP: Mutex<String> = Mutex::new(String::new());
static VERIF: Mutex<String> = Mutex::new(String::new());
const HANG_S: u64 = 30;
pub const MAX_VIOLATIONS: usize = 40;

fn now_ms() -> u64 { EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1 }

extern "C" { fn _exit(code: i32) -> !; fn creat(path: *const i8, mode: u32) -> i32; fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize; fn signal(sig: i32, h: extern "C" fn(i32)) -> usize; fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; }
/// A panic outside of a guarded compilation: of the code under test, for instance when
/// its standard library does not compile, or of the harness.
pub fn panicked(msg: &str) -> ! {
    let at = msg.rsplit(" at ").next().unwrap_or("");
    if !at.starts_with("/repo/") { eprintln!("harness error: {msg}"); std::process::exit(3); }
    let (id, dir) = (PROP.lock().unwrap().clone(), VERIF.lock().unwrap().clone());
    let f = format!("{dir}/replay/{id}-panic.txt");
    let _ = std::fs::create_dir_all(format!("{dir}/replay"));
    let _ = std::fs::write(&f, format!("the code under test panicked: {msg}\n"));
    println!("VIOLATION property={id} replay={f} # the code under test panicked: {}", msg.replace('\n', " "));
    std::process::exit(1);
}
static ABORT: std::sync::OnceLock<(String, String)> = std::sync::OnceLock::new();
/// Out of stack or memory. (Nothing is allocated here.)
extern "C" fn on_abort(_: i32) {
    unsafe {
        if let Some((path, line)) = ABORT.get() {
            let fd = creat(path.as_ptr() as *const i8, 0o644);
            let put = |s: &str| { write(fd, s.as_ptr() as *const _, s.len()); };
            put("the process was aborted (stack or memory exhausted)\n");
            if let Ok(s) = SLOTS.try_lock() { for s in s.iter() { if s.started != 0 { put("--- being compiled:\n"); put(&s.what); put("\n"); } } }
            write(1, line.as_ptr() as *const _, line.len());
        }
        _exit(1)
    }
}
/// Makes an abort of the process a report; and limits its memory, so that there is one.
fn limits(id: &str, verif: &Path) {
    let _ = std::fs::create_dir_all(verif.join("replay"));
    let f = format!("{}/replay/{id}-abort.txt", verif.display());
    let line = format!("VIOLATION property={id} replay={f} # the process was aborted (stack or memory exhausted)\n");
    let _ = std::fs::remove_file(&f);
    let _ = ABORT.set((f + "\0", line));
    unsafe { signal(6, on_abort); setrlimit(9, &[16 << 30, 16 << 30]); }
}

/// Starts the hang watchdog: a single compilation which takes longer than
/// `HANG_S` seconds is a violation and ends the process.
pub fn start_watchdog(id: &str, verif: &Path) {
    *PROP.lock().unwrap() = id.to_string();
    *VERIF.lock().unwrap() = verif.to_string_lossy().to_string();
    now_ms();
    limits(id, verif);
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let slots = SLOTS.lock().unwrap();
        for s in slots.iter() {
            if s.started != 0 && now_ms() - s.started > HANG_S * 1000 {
                let id = PROP.lock().unwrap().clone();
                let dir = VERIF.lock().unwrap().clone();
                let f = format!("{dir}/replay/{id}-hang.txt");
                let _ = std::fs::create_dir_all(format!("{dir}/replay"));
                let _ = std::fs::write(&f, format!("compilation did not finish within {HANG_S} s\n{}", s.what));
                println!("VIOLATION property={id} replay={f} # compilation did not finish");
                std::process::exit(1);
            }
        }
    });
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "?".to_string() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
        if std::thread::current().name() != Some("mc-worker") {
            eprintln!("panic: {msg} at {loc}");
        }
    }));
}

impl Worker {
    pub fn new(subject: Subject, id: usize) -> Worker {
        let mut slots = SLOTS.lock().unwrap();
        slots.push(Slot {started: 0, what: String::new()});
        let slot = slots.len() - 1;
        drop(slots);
        Worker {id, subject, session: (subject.new_session)(None), stats: Stats::default(), used: 0, slot}
    }
    
    pub fn guard<T>(&mut self, what: &str, f: impl FnOnce(&mut Worker) -> T) -> T {
        {
            let mut s = SLOTS.lock().unwrap();
            let sl = &mut s[self.slot];
            sl.started = now_ms();
            sl.what.clear();
            sl.what.push_str(what);
        }
        let t = f(self);
        SLOTS.lock().unwrap()[self.slot].started = 0;
        t
    }
    
    pub fn fresh(&mut self) {
        self.session = (self.subject.new_session)(None);
        self.used = 0;
    }
    
    /// Compiles a source on this worker's (reused, reset) context.
    pub fn compile(&mut self, src: &str) -> Out {
        self.stats.evaluations += 1;
        self.used += 1;
        if self.used > 4000 { self.fresh(); }
        let out = self.guard(src, |w| w.session.synth("<string>", src));
        if out.panic.is_some() { self.fresh(); }
        out
    }
    
    /// Loads and compiles a source file on this worker's (reused, reset) context.
    pub fn load(&mut self, path: &Path) -> Out {
        self.stats.evaluations += 1;
        self.used += 1;
        if self.used > 4000 { self.fresh(); }
        let what = path.to_string_lossy().to_string();
        let out = self.guard(&what, |w| w.session.load(path));
        if out.panic.is_some() { self.fresh(); }
        out
    }
    
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.stats.samples.len() < 2 { let s = s(); self.stats.samples.push(s); }
    }
}

/// Compilations leave memory behind (functions and the frames which hold them refer
/// to each other), so that a large space is explored in pieces by processes of their own.
const PIECE: u64 = 400_000;
static CALL: AtomicU64 = AtomicU64::new(0);

impl Stats {
    fn write(&self, path: &Path) -> std::io::Result<()> {
        use std::io::Write;
        let mut o = std::io::BufWriter::new(std::fs::File::create(path)?);
        let mut n = |o: &mut std::io::BufWriter<std::fs::File>, x: u64| o.write_all(&x.to_le_bytes());
        n(&mut o, self.evaluations)?; n(&mut o, self.nontrivial_count)?; n(&mut o, self.transitions)?;
        for set in [&self.nontrivial, &self.states] { n(&mut o, set.len() as u64)?; for x in set { n(&mut o, *x)?; } }
        let mut strs: Vec<String> = self.samples.clone();
        for (k, v) in &self.counters { strs.push(k.clone()); strs.push(v.to_string()); }
        for v in &self.violations { strs.push(v.key.clone()); strs.push(v.detail.clone()); }
        for x in [self.samples.len(), self.counters.len(), self.violations.len()] { n(&mut o, x as u64)?; }
        for s in strs { n(&mut o, s.len() as u64)?; o.write_all(s.as_bytes())?; }
        o.flush()
    }
    fn read(path: &Path) -> std::io::Result<Stats> {
        let b = std::fs::read(path)?;
        let mut i = 0;
        let mut n = || { let x = u64::from_le_bytes(b[i..i + 8].try_into().unwrap()); i += 8; x };
        let mut st = Stats {evaluations: n(), nontrivial_count: n(), transitions: n(), ..Stats::default()};
        for _ in 0..n() { st.nontrivial.insert(n()); }
        for _ in 0..n() { st.states.insert(n()); }
        let (a, c, v) = (n(), n(), n());
        let mut s = || { let l = u64::from_le_bytes(b[i..i + 8].try_into().unwrap()) as usize; i += 8; let s = String::from_utf8_lossy(&b[i..i + l]).to_string(); i += l; s };
        for _ in 0..a { st.samples.push(s()); }
        for _ in 0..c { let k = s(); st.counters.insert(k, s().parse().unwrap_or(0)); }
        for _ in 0..v { let key = s(); st.violations.push(Violation {key, detail: s()}); }
        Ok(st)
    }
}

/// Runs `f` for every index in `0..total`, in parallel, with one session per
/// worker thread. Every index is visited exactly once unless too many
/// violations were found. (The calls of `explore` in a run must not depend on
/// the results of earlier ones.)
pub fn explore(cfg: &Cfg, total: u64, f: impl Fn(&mut Worker, u64) + Sync) -> Stats { explore_by(cfg, total, PIECE, f) }

/// The same, with the given size of the pieces which have a process each (for
/// executions which leak more memory than the compilation of a document).
pub fn explore_by(cfg: &Cfg, total: u64, piece: u64, f: impl Fn(&mut Worker, u64) + Sync) -> Stats {
    let call = CALL.fetch_add(1, Ordering::Relaxed);
    // more violations than can be shown: the rest is not explored
    if FOUND.load(Ordering::Relaxed) > enough() { return Stats::default(); }
    if let Ok(part) = std::env::var("MC_PART") {
        let p: Vec<u64> = part.split(':').map(|x| x.parse().unwrap()).collect();
        if p[0] != call { return Stats::default(); }
        let st = explore_range(cfg, p[1], p[2], f);
        st.write(Path::new(&std::env::var("MC_PART_OUT").unwrap())).expect("write the result of a piece");
        std::process::exit(0);
    }
    if total <= piece / 2 {
        let st = explore_range(cfg, 0, total, f);
        FOUND.fetch_add(st.violations.len(), Ordering::Relaxed);
        return st;
    }
    let mut all = Stats::default();
    let pieces = total.div_ceil(piece);
    let file = std::env::temp_dir().join(format!("mc-{}-{}.part", cfg.id, std::process::id()));
    for k in 0..pieces {
        let (a, b) = (total * k / pieces, total * (k + 1) / pieces);
        let st = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args().skip(1))
            .env("MC_PART", format!("{call}:{a}:{b}")).env("MC_PART_OUT", &file).status().expect("start a process");
        if !st.success() { std::process::exit(st.code().unwrap_or(3)); }
        all.merge(Stats::read(&file).expect("read the result of a piece"));
        if all.violations.len() > enough() { break; }
    }
    let _ = std::fs::remove_file(&file);
    FOUND.fetch_add(all.violations.len(), Ordering::Relaxed);
    all
}
static FOUND: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// MC_ENOUGH is for development.
fn enough() -> usize { std::env::var("MC_ENOUGH").ok().and_then(|n| n.parse().ok()).unwrap_or(MAX_VIOLATIONS * 4) }

fn explore_range(cfg: &Cfg, from: u64, total: u64, f: impl Fn(&mut Worker, u64) + Sync) -> Stats {
    let next = AtomicU64::new(from);
    let enough = enough();
    let found = AtomicU64::new(0);
    let chunk = ((total - from) / (cfg.threads as u64 * 16)).clamp(1, 512);
    let merged = Mutex::new(Stats::default());
    let first_err: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|scope| {
        for id in 0..cfg.threads {
            let (next, found, merged, f, first_err) = (&next, &found, &merged, &f, &first_err);
            std::thread::Builder::new().name("mc-worker".into()).stack_size(512 << 20).spawn_scoped(scope, move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut w = Worker::new(cfg.subject, id);
                    'all: loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= total { break; }
                        for i in a..(a + chunk).min(total) {
                            let before = w.stats.violations.len();
                            f(&mut w, i);
                            let k = (w.stats.violations.len() - before) as u64;
                            if k > 0 { found.fetch_add(k, Ordering::Relaxed); }
                            if found.load(Ordering::Relaxed) as usize > enough || STOP.load(Ordering::Relaxed) { break 'all; }
                        }
                    }
                    merged.lock().unwrap().merge(std::mem::take(&mut w.stats));
                }));
                if r.is_err() {
                    let msg = LAST_PANIC.with(|p| p.borrow_mut().take());
                    *first_err.lock().unwrap() = Some(msg.unwrap_or_default());
                    STOP.store(true, Ordering::Relaxed);
                }
            }).unwrap();
        }
    });
    if let Some(e) = first_err.into_inner().unwrap() { panicked(&e); }
    merged.into_inner().unwrap()
}

/// A scratch directory, shared with the processes which explore pieces of the same run.
pub fn scratch(cfg: &Cfg) -> PathBuf {
    if let Ok(d) = std::env::var("MC_SCRATCH") { return PathBuf::from(d); }
    let shm = PathBuf::from("/dev/shm");
    let base = if std::fs::create_dir(shm.join(format!("mc-test-{}", std::process::id()))).is_ok() { let _ = std::fs::remove_dir(shm.join(format!("mc-test-{}", std::process::id()))); shm } else { std::env::temp_dir() };
    let d = base.canonicalize().unwrap_or(base).join(format!("mc-{}-{}", cfg.id, std::process::id()));
    std::fs::create_dir_all(&d).expect("create a scratch directory");
    std::env::set_var("MC_SCRATCH", &d);
    d
}
pub fn remove_scratch(d: &Path) {
    if std::env::var("MC_PART").is_err() && d.file_name().map_or(false, |n| n.to_string_lossy().starts_with("mc-C")) { let _ = std::fs::remove_dir_all(d); }
}

/// Splits index `i` into digits of the given bases (least significant first).
pub fn digits(mut i: u64, bases: &[u64]) -> Vec<usize> {
    bases.iter().map(|&b| { let d = i % b; i /= b; d as usize }).collect()
}

/// Number of sequences over an alphabet of `k` letters of length `min..=max`.
pub fn num_seqs(k: u64, min: usize, max: usize) -> u64 {
    (min..=max).map(|n| k.pow(n as u32)).sum()
}

/// Long sequences: every sequence of up to `period` of `k` items, repeated up to each of the lengths.
pub fn num_periodic(k: u64, period: usize, lens: &[usize]) -> u64 { num_seqs(k, 1, period) * lens.len() as u64 }
pub fn nth_periodic(i: u64, k: u64, period: usize, lens: &[usize]) -> Vec<usize> {
    let n = lens.len() as u64;
    let q = nth_seq(i / n, k, 1, period);
    (0..lens[(i % n) as usize]).map(|j| q[j % q.len()]).collect()
}

/// The `i`th sequence over `0..k` with length in `min..=max`, shortest first.
pub fn nth_seq(mut i: u64, k: u64, min: usize, max: usize) -> Vec<usize> {
    for n in min..=max {
        let c = k.pow(n as u32);
        if i < c {
            let mut v = vec![0; n];
            for d in v.iter_mut().rev() { *d = (i % k) as usize; i /= k; }
            return v;
        }
        i -= c;
    }
    panic!("nth_seq out of range");
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t",
            c if (c as u32) < 0x20 || c == '\u{7f}' => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Known { property: String, key: String, what: String }

fn known_findings(cfg: &Cfg) -> Vec<Known> {
    let mut v = vec![];
    let Ok(s) = std::fs::read_to_string(cfg.verif.join("known_findings.txt")) else { return v };
    for line in s.lines() {
        // known: property=C01 key=<key> :: <what fails>
        let Some(rest) = line.strip_prefix("known: property=") else { continue };
        let Some((prop, rest)) = rest.split_once(" key=") else { continue };
        let Some((key, what)) = rest.split_once(" :: ") else { continue };
        v.push(Known {property: prop.trim().into(), key: key.trim().into(), what: what.trim().into()});
    }
    v
}

/// Writes the evidence file, prints findings; returns the exit code.
pub fn finish(cfg: &Cfg, mut r: Report) -> i32 {
    let known = known_findings(cfg);
    let mut keys = HashSet::new();
    r.violations.sort_by_key(|v| (v.key.len(), v.key.clone()));
    let mut new = vec![];
    let mut known_hit = BTreeMap::new();
    for v in r.violations.iter() {
        if let Some(k) = known.iter().find(|k| k.property == cfg.id && k.key == v.key) {
            known_hit.insert(k.key.clone(), k.what.clone());
        } else if keys.insert(v.key.clone()) {
            new.push(v.clone());
        }
    }
    for (k, what) in known_hit.iter() {
        println!("KNOWN-FINDING: property={} {k}: {what}", cfg.id);
    }
    let dir = cfg.verif.join("replay");
    let _ = std::fs::create_dir_all(&dir);
    if let Ok(rd) = std::fs::read_dir(&dir) {
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with(&format!("{}-", cfg.id)) { let _ = std::fs::remove_file(e.path()); }
        }
    }
    for (i, v) in new.iter().take(12).enumerate() {
        let f = dir.join(format!("{}-{i}.txt", cfg.id));
        let _ = std::fs::write(&f, format!("property {}\nkey: {}\n\n{}\n", cfg.id, v.key, v.detail));
        let short: String = v.key.replace(['\n', '\r'], " ").chars().take(120).collect();
        println!("VIOLATION property={} replay={} # {short}", cfg.id, f.display());
    }
    let mut cov: Vec<(String, String)> = vec![];
    let mut push = |k: &str, v: String| cov.push((k.to_string(), v));
    match r.level {
        "model_checking" => {
            push("states", r.states.to_string());
            push("transitions", r.transitions.to_string());
            push("traces_validated_against_impl", r.traces.to_string());
        },
        _ => {
            push("evaluations", r.evaluations.to_string());
            push("distinct_nontrivial", r.nontrivial.to_string());
        },
    }
    push("rule", json_str(&r.rule));
    push("exhaustive", (new.is_empty()).to_string());
    let samples: Vec<String> = r.samples.iter().map(|s| json_str(&s.chars().take(1500).collect::<String>())).collect();
    push("samples", format!("[{}]", samples.join(", ")));
    for (k, v) in r.extra.iter() {
        push(k, if v.parse::<u64>().is_ok() { v.clone() } else { json_str(v) });
    }
    let cov: Vec<String> = cov.into_iter().map(|(k, v)| format!("    {}: {v}", json_str(&k))).collect();
    let assum: Vec<String> = r.assumptions.iter().map(|s| json_str(s)).collect();
    let ev = format!("{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"{}\",\n  \"coverage\": {{\n{}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        json_str(&cfg.id), if cfg.quick() {"quick"} else {"thorough"}, cfg.seed, r.level, cov.join(",\n"), assum.join(", "), cfg.start.elapsed().as_secs_f64(), new.len());
    let evdir = cfg.verif.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", cfg.id)), ev).expect("write evidence");
    println!("{} {}: {} evaluations, {} nontrivial, {} states, {} transitions, {} violations, {:.1}s", cfg.id, if cfg.quick() {"quick"} else {"thorough"},
        r.evaluations, r.nontrivial, r.states, r.transitions, new.len(), cfg.start.elapsed().as_secs_f64());
    if new.is_empty() { 0 } else { 1 }
}
