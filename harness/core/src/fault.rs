//! Runs of the command with a fault at a chosen file-system call (C15, C16).
use crate::cli::{self, Ran};
use crate::engine::*;
use std::collections::BTreeMap;
use std::path::Path;
use std::time::{Duration, SystemTime};

pub type Tree = BTreeMap<String, String>;

#[derive(Clone, Default)]
pub struct Scenario {
    pub name: &'static str,
    /// path, content, age in seconds
    pub files: Vec<(String, String, u64)>,
    pub args: Vec<&'static str>,
    pub stdin: Option<&'static str>,
    pub ok: bool,
    /// what is written (also by a run which fails in the end)
    pub writes: Vec<(String, String)>,
    pub stdout: Option<String>,
    /// another acceptable version of an output (which may be skipped or not)
    pub alt: Vec<(String, String)>,
}
fn f(p: &str, c: impl Into<String>, age: u64) -> (String, String, u64) { (p.into(), c.into(), age) }
fn o(p: &str, c: impl Into<String>) -> (String, String) { (p.into(), c.into()) }

pub fn big(n: usize) -> (String, String) {
    let (mut src, mut out) = (String::new(), String::new());
    for i in 0..n { src += &format!("<p>line {i}</p>\n"); out += &format!("<p>line {i}</p>"); }
    (src, out)
}

pub fn scenarios() -> Vec<Scenario> {
    let (bs, bo) = big(900);
    let (bs3, bo3) = big(3000);
    vec![
        Scenario {name: "one file", files: vec![f("a.papyri", "hello", 1000)], args: vec!["-o", "out", "a.papyri"], ok: true, writes: vec![o("out/a.html", "<p>hello</p>")], ..Scenario::default()},
        Scenario {name: "in place", files: vec![f("a.papyri", "new", 1000), f("a.html", "<p>old text</p>", 2000)], args: vec!["a.papyri"], ok: true, writes: vec![o("a.html", "<p>new</p>")], ..Scenario::default()},
        Scenario {name: "large output", files: vec![f("a.papyri", bs.clone(), 1000), f("out/a.html", "<p>old</p>", 2000)], args: vec!["-o", "out", "a.papyri"], ok: true, writes: vec![o("out/a.html", bo.clone())], ..Scenario::default()},
        Scenario {name: "several files", files: vec![f("a.papyri", "@file::write(`w/x.html`) {<b>x</b>} @file::write(`y`) y main", 1000), f("out/y", "old y", 2000), f("out/a.html", "<p>old</p>", 2000)], args: vec!["-s", "-o", "out", "a.papyri"], ok: true,
            writes: vec![o("out/w/x.html", "<b>x</b>"), o("out/y", "y"), o("out/a.html", "<p>main</p>")], ..Scenario::default()},
        Scenario {name: "named like a temporary file", files: vec![f("a.papyri", "@file::write(`x.tmp`) {t} @file::write(`x`) {u} @file::write(`a.html.tmp`) {v} main", 1000)], args: vec!["-o", "out", "."], ok: true,
            writes: vec![o("out/x.tmp", "t"), o("out/x", "u"), o("out/a.html.tmp", "v"), o("out/a.html", "<p>main</p>")], ..Scenario::default()},
        Scenario {name: "directory", files: vec![f("src/a.papyri", "a", 1000), f("src/d/b.papyri", "b @code `x`", 1000), f("src/d/e/c.papyri", "c", 1000), f("src/l.lib.papyri", "l", 1000), f("src/readme", "r", 1000)], args: vec!["-o", "out", "src"], ok: true,
            writes: vec![o("out/src/a.html", "<p>a</p>"), o("out/src/d/b.html", "<p>b <code>x</code></p>"), o("out/src/d/e/c.html", "<p>c</p>")], ..Scenario::default()},
        Scenario {name: "current directory", files: vec![f("a.papyri", "a", 1000), f("d/b.papyri", "b", 1000)], args: vec![], ok: true, writes: vec![o("a.html", "<p>a</p>"), o("d/b.html", "<p>b</p>")], ..Scenario::default()},
        Scenario {name: "modules and listing", files: vec![f("a.papyri", "@let(m=@import `lib/m`) {$m::v} @include `lib/m` @file::list `lib`", 1000), f("lib/m.papyri", "text @export(v=`1`).", 1000), f("lib/n.papyri", "n", 1000)], args: vec!["-o", "out", "a.papyri"], ok: true,
            writes: vec![o("out/a.html", "<p>1</p><p>text</p><ul><li>lib/m</li><li>lib/n</li></ul>")], ..Scenario::default()},
        Scenario {name: "skip unchanged", files: vec![f("a.papyri", "a", 1000), f("a.html", "<p>fresh</p>", 10), f("b.papyri", "b new", 1000), f("b.html", "<p>b old</p>", 2000), f("c.papyri", "c", 1000)], args: vec!["-u", "a.papyri", "b.papyri", "c.papyri"], ok: true,
            writes: vec![o("b.html", "<p>b new</p>"), o("c.html", "<p>c</p>")], alt: vec![o("a.html", "<p>a</p>")], ..Scenario::default()},
        Scenario {name: "text", files: vec![f("a.papyri", "x <b>y</b>\n\nz & w", 1000), f("t/a.txt", "old", 2000)], args: vec!["--text", "-o", "t", "a.papyri"], ok: true, writes: vec![o("t/a.txt", "x y\n\nz & w\n\n")], ..Scenario::default()},
        Scenario {name: "standard input", args: vec!["-i"], stdin: Some("hello <b>x</b>"), ok: true, stdout: Some("<p>hello <b>x</b></p>".into()), ..Scenario::default()},
        Scenario {name: "standard input with lines", args: vec!["-i", "-t"], stdin: Some("<p>a</p>b<p>c</p>d"), ok: true, stdout: Some("a\n\nb\n\nc\n\nd\n\n".into()), ..Scenario::default()},
        Scenario {name: "failing and good", files: vec![f("a.papyri", "@file::write(`x`) {x} a", 1000), f("b.papyri", "@file::write(`y`) {y} b @raise `r`", 1000), f("c.papyri", "c", 1000), f("out/b.html", "<p>old</p>", 2000)], args: vec!["-o", "out", "a.papyri", "b.papyri", "c.papyri"], ok: false,
            writes: vec![o("out/x", "x"), o("out/a.html", "<p>a</p>"), o("out/c.html", "<p>c</p>")], ..Scenario::default()},
        Scenario {name: "warning", files: vec![f("a.papyri", "@export(a=1). @export(a=2). w", 1000)], args: vec!["-o", "out", "a.papyri"], ok: true, writes: vec![o("out/a.html", "<p>w</p>")], ..Scenario::default()},
        Scenario {name: "two large", files: vec![f("a.papyri", format!("@file::write(`big`) {{{bs}}} {bs3}"), 1000), f("out/big", "old", 2000), f("z.papyri", bs, 1000)], args: vec!["-s", "-o", "out", "a.papyri", "z.papyri"], ok: true,
            writes: vec![o("out/big", bo.clone()), o("out/a.html", bo3), o("out/z.html", bo)], ..Scenario::default()},
        Scenario {name: "pattern", files: vec![f("d/a.papyri", "a", 1000), f("d/b.papyri", "b", 1000), f("d/x.txt", "", 1000)], args: vec!["-o", "out", "d/*.papyri"], ok: true, writes: vec![o("out/d/a.html", "<p>a</p>"), o("out/d/b.html", "<p>b</p>")], ..Scenario::default()},
        Scenario {name: "all failing", files: vec![f("a.papyri", "@file::write(`y`) {y} b <i>", 1000), f("b.papyri", "b $undefined", 1000)], args: vec!["-o", "out", "a.papyri", "b.papyri"], ok: false, writes: vec![], ..Scenario::default()},
    ]
}

/// Makes the initial files of a scenario.
pub fn setup(dir: &Path, sc: &Scenario) {
    cli::fresh(dir);
    let now = SystemTime::now();
    for (p, c, age) in &sc.files {
        cli::write(dir, p, c);
        let h = std::fs::File::options().write(true).open(dir.join(p)).expect("open");
        h.set_modified(now - Duration::from_secs(*age)).expect("set the time");
    }
}
pub fn files(dir: &Path) -> Tree {
    cli::tree(dir).into_iter().filter(|(k, _)| !k.ends_with('/')).map(|(k, v)| (k, String::from_utf8_lossy(&v).to_string())).collect()
}
/// One run under the shim.
pub fn run(cfg: &Cfg, dir: &Path, sc: &Scenario, extra: &[&str], fault: Option<&str>, log: Option<&Path>) -> Ran {
    let mut args: Vec<&str> = extra.iter().copied().filter(|e| !sc.args.contains(e)).collect();
    args.extend(&sc.args);
    let mut c = cli::papyri(cfg, dir, &args);
    c.env("LD_PRELOAD", &cfg.shim);
    if let Some(f) = fault { c.env("MC_FAULT", f); }
    if let Some(l) = log { let _ = std::fs::remove_file(l); c.env("MC_LOG", l); }
    cli::finish(c, sc.stdin.map(|s| s.as_bytes()))
}
/// A run without faults: its calls (name, number, argument), result and files.
pub struct Base { pub ops: Vec<(String, i64, String)>, pub ran: Ran, pub initial: Tree, pub tree: Tree }
pub fn baseline(cfg: &Cfg, root: &Path, sc: &Scenario, extra: &[&str]) -> Base {
    let dir = root.join("base");
    let log = root.join("base.log");
    setup(&dir, sc);
    let initial = files(&dir);
    let ran = run(cfg, &dir, sc, extra, None, Some(&log));
    let text = std::fs::read_to_string(&log).expect("the log of the shim");
    let mut ops = vec![];
    for (i, l) in text.lines().enumerate() {
        let mut p = l.splitn(4, ' ');
        assert_eq!(p.next().unwrap().parse::<usize>().ok(), Some(i), "log of the shim: {l}");
        let name = p.next().unwrap().to_string();
        let n = p.next().unwrap().parse().unwrap();
        ops.push((name, n, p.next().unwrap_or("").to_string()));
    }
    let tree = files(&dir);
    let _ = std::fs::remove_dir_all(&dir);
    Base {ops, ran, initial, tree}
}
pub fn is_writing(op: &str) -> bool { matches!(op, "open-write" | "write" | "rename" | "mkdir" | "unlink" | "link" | "truncate" | "fsync" | "copy" | "pwrite") }
pub fn diff(got: &Tree, want: &Tree) -> String {
    let mut s = String::new();
    let short = |v: &str| if v.len() > 200 { format!("{} bytes, {:?} ..", v.len(), v.chars().take(80).collect::<String>()) } else { format!("{v:?}") };
    for (k, v) in want { match got.get(k) { None => s += &format!("  missing {k}\n"), Some(g) if g != v => s += &format!("  {k}: {}, expected {}\n", short(g), short(v)), _ => {} } }
    for (k, v) in got { if !want.contains_key(k) { s += &format!("  unexpected {k}: {}\n", short(v)); } }
    s
}
