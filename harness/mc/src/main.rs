//! Glue between the models (mccore) and the code under test (papyri-lang).

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::Instant;

use mccore::engine::{self, Cfg, Out, Session, Subject, Tier, LAST_PANIC};
use papyri_lang::compiler::{Context, HTML};
use papyri_lang::errors::ReportingLevel;

struct Sess {
    ctx: Context,
    out_dir: Option<PathBuf>,
}

fn new_ctx(out_dir: Option<&Path>) -> Context {
    Context::new(ReportingLevel::Warning, out_dir, None)
}

fn new_session(out_dir: Option<&Path>) -> Box<dyn Session> {
    Box::new(Sess {ctx: new_ctx(out_dir), out_dir: out_dir.map(Path::to_path_buf)})
}

fn take_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

impl Sess {
    fn go(&mut self, f: impl FnOnce(&mut Context) -> Result<HTML, String>) -> Out {
        let r = catch_unwind(AssertUnwindSafe(|| {
            self.ctx.reset();
            let mut out = Out::default();
            match f(&mut self.ctx) {
                Ok(html) => {
                    let mut v = Vec::new();
                    self.ctx.render(&html, true, &mut v).unwrap();
                    out.html = String::from_utf8(v).unwrap();
                    let mut v = Vec::new();
                    self.ctx.render(&html, false, &mut v).unwrap();
                    out.text = String::from_utf8(v).unwrap();
                },
                Err(e) => out.load_err = Some(e),
            }
            out.num_errors = self.ctx.diagnostics.num_errors;
            out.num_warnings = self.ctx.diagnostics.num_warnings;
            if !self.ctx.diagnostics.is_empty() {
                out.diag = format!("{:?}", self.ctx.diagnostics);
            }
            let files: Vec<_> = self.ctx.out_files.as_mut().map_or(vec![], |o| o.take_iter().collect());
            for (p, h) in files {
                let mut v = Vec::new();
                self.ctx.render(&h, true, &mut v).unwrap();
                out.files.push((p, String::from_utf8(v).unwrap()));
            }
            out
        }));
        r.unwrap_or_else(|_| {
            self.ctx = new_ctx(self.out_dir.as_deref());
            Out {panic: Some(take_panic()), ..Out::default()}
        })
    }
}

impl Session for Sess {
    fn synth(&mut self, name: &str, src: &str) -> Out {
        self.go(|ctx| Ok(ctx.compile_synthetic(name, src).out))
    }
    fn load(&mut self, path: &Path) -> Out {
        self.go(|ctx| ctx.load_uncached(path).map(|r| r.out).map_err(|e| e.to_string()))
    }
}

fn compile_str(src: &str) -> Result<String, String> {
    match catch_unwind(|| papyri_lang::compile_str(src).map_err(|d| format!("{d:?}"))) {
        Ok(r) => r,
        Err(_) => Err(format!("PANIC: {}", take_panic())),
    }
}

fn tokenize(_src: &str) -> Vec<(String, String)> {
    Vec::new()
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    if av.get(1).map_or(false, |a| a == "as-nobody") { mccore::c14::as_nobody(&av[2..]); }
    let args: Vec<String> = std::env::args().collect();
    let usage = "usage: mc <ID> quick|thorough | mc src <file>";
    let verif = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()));
    let subject = Subject {new_session, compile_str, tokenize};
    if args.get(1).map(String::as_str) == Some("c17-child") { return mccore::c17::child(subject, &args[2]); }
    if args.get(1).map(String::as_str) == Some("src") {
        // compile one source (for looking at replays by hand)
        let src = if let Some(f) = args.get(2) { std::fs::read_to_string(f).expect("read") } else { std::io::read_to_string(std::io::stdin()).unwrap() };
        engine::start_watchdog("src", &verif);
        let out = new_session(None).synth("<string>", &src);
        println!("{}\ntext: {:?}", out.describe(), out.text);
        if let Some(n) = args.get(3).and_then(|n| n.parse::<u32>().ok()) {
            // memory use of repeated compilations
            let mut s = new_session(None);
            for i in 0..n { if i % 4000 == 0 { s = new_session(None); } s.synth("<string>", &src); }
            println!("{}", std::fs::read_to_string("/proc/self/status").unwrap().lines().find(|l| l.starts_with("VmRSS")).unwrap());
        }
        return;
    }
    let (Some(id), Some(tier)) = (args.get(1), args.get(2)) else { eprintln!("{usage}"); std::process::exit(2) };
    let tier = match tier.as_str() { "quick" => Tier::Quick, "thorough" => Tier::Thorough, _ => { eprintln!("{usage}"); std::process::exit(2) } };
    let cfg = Cfg {
        id: id.clone(),
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        subject,
        papyri_bin: std::env::var("MC_PAPYRI").map(PathBuf::from).unwrap_or_else(|_| verif.join("target/debug/papyri")),
        shim: verif.join("target/shim.so"),
        verif: verif.clone(),
        start: Instant::now(),
        threads: std::thread::available_parallelism().map_or(8, |n| n.get()).min(8),
    };
    engine::start_watchdog(id, &verif);
    let done = catch_unwind(AssertUnwindSafe(|| mccore::run(&cfg)));
    match done.unwrap_or_else(|_| engine::panicked(&take_panic())) {
        Some(r) => std::process::exit(engine::finish(&cfg, r)),
        None => { eprintln!("no such check: {id}"); std::process::exit(2) },
    }
}
