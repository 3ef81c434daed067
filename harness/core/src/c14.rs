//! C14: where documents can write.
use crate::cli;
use crate::engine::*;
use std::collections::BTreeMap;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};

/// The path as a list of names, after removing `.` and following `..`.
fn lexical(cwd: &str, path: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let full = if path.starts_with('/') { path.to_string() } else { format!("{cwd}/{path}") };
    for part in full.split('/') {
        match part { "" | "." => {}, ".." => { v.pop(); }, p => v.push(p.to_string()) }
    }
    v
}
/// Where a document's path leads, relative to the output directory.
fn target(cwd: &str, out: &str, path: &str) -> Option<Vec<String>> {
    let base = lexical(cwd, out);
    let full = lexical(&format!("/{}", base.join("/")), path);
    if full.len() > base.len() && full[..base.len()] == base[..] { Some(full[base.len()..].to_vec()) } else { None }
}

/// Names in paths; `OUT` and `OUTx` stand for the name of the output directory and a longer one.
const SEGS: &[&str] = &["a", "..", ".", "", "b.html", "..a", "a..", "...", " ", "OUT", "OUTx", "\u{e9}", "OU", "~", "a\\b", "*"];
const PREFIX: &[&str] = &["", "/", "CWD/", "OUTABS/", "OUTABS", "UP/", "OUTABSx/", "//", "./", "../"];
/// Ways to spell an output directory; CWD is the working directory, NAME its name.
const OUTS: &[&str] = &["OUT", "./OUT", "OUT/", "../NAME/OUT", "CWD/OUT", ".", "..", "x/../OUT", "x/OUT", "../OUT", "CWD", "CWD/../OUT", "OUT/.", "OUT/..", "x//OUT", "../../OUT", "CWD/./OUT/y/..", "OUT.d", " OUT"];

fn subst(s: &str, cwd: &str, out: &str) -> String {
    let base = lexical(cwd, out);
    let name = base.last().cloned().unwrap_or_default();
    let abs = format!("/{}", base.join("/"));
    let up = format!("/{}", base[..base.len().saturating_sub(1)].join("/"));
    s.replace("OUTABS", &abs).replace("CWD", cwd).replace("UP", &up).replace("OUT", &name)
        .replace("OU", &name.chars().take(name.chars().count().saturating_sub(1)).collect::<String>())
}
fn spelled_out(s: &str, cwd: &str) -> String { s.replace("CWD", cwd).replace("NAME", cwd.rsplit('/').next().unwrap()).replace("OUT", "outp") }
fn lit(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '\\' | '"' | '$' | '`' => { o.push('\\'); o.push(c) }, c => o.push(c) } } format!("\"{o}\"") }

fn judge_session(w: &mut Worker, cwd: &str, out: &str, path: &str, session: &mut Box<dyn Session>) {
    let src = format!("@file::write({}) {{<b>x</b> & y}}", lit(path));
    let want = target(cwd, out, path);
    w.stats.evaluations += 1;
    w.stats.transitions += 1;
    let o = w.guard(&src, |_| session.synth("<string>", &src));
    w.stats.state(&(out, &want));
    if want.is_some() { w.stats.nontrivial_count += 1; } else { w.stats.count("paths rejected"); }
    let got: Vec<(Vec<String>, String)> = o.files.iter().map(|(p, h)| (lexical(cwd, &p.to_string_lossy()), h.clone())).collect();
    let exp: Vec<(Vec<String>, String)> = want.iter().map(|t| { let mut p = lexical(cwd, out); p.extend(t.clone()); (p, "<b>x</b> &amp; y".to_string()) }).collect();
    w.sample(|| format!("--out {out}, @file::write({path:?}) => {want:?}"));
    if o.panic.is_some() || o.ok() != want.is_some() || got != exp {
        w.stats.violation(format!("--out {out} path {path:?}"), format!("working directory {cwd}\noutput directory: {out}\n@file::write({path:?})\n\nexpected: {exp:?}\ncollected: {got:?}\n{}", o.describe()));
    }
}

/// (name, source of main document with PATH and OTHER, library, success if the path is allowed, files: 0 none, 1 PATH, 2 PATH and OTHER, 3 OTHER only; main output)
struct Kind { name: &'static str, src: &'static str, lib: &'static str, ok: bool, path: bool, other: bool, main: Option<&'static str> }
const KINDS: &[Kind] = &[
    Kind {name: "write", src: "@file::write(PATH) {p} main", lib: "", ok: true, path: true, other: false, main: Some("<p>main</p>")},
    Kind {name: "write only", src: "@file::write(PATH) {p}", lib: "", ok: true, path: true, other: false, main: None},
    Kind {name: "two files", src: "@file::write(OTHER) {o} @file::write(PATH) {p} main", lib: "", ok: true, path: true, other: true, main: Some("<p>main</p>")},
    Kind {name: "error afterwards", src: "@file::write(PATH) {p} main @raise `x`", lib: "", ok: false, path: false, other: false, main: None},
    Kind {name: "error before", src: "@raise `x` main @file::write(PATH) {p}", lib: "", ok: false, path: false, other: false, main: None},
    Kind {name: "syntax error", src: "@file::write(PATH) {p} main <b>", lib: "", ok: false, path: false, other: false, main: None},
    Kind {name: "in a function", src: "@fn f $x -> @file::write(PATH) {$x} @f {p} main", lib: "", ok: true, path: true, other: false, main: Some("<p>main</p>")},
    Kind {name: "function not called", src: "@fn f $x -> @file::write(PATH) {$x} main", lib: "", ok: true, path: false, other: false, main: Some("<p>main</p>")},
    Kind {name: "twice", src: "@file::write(PATH) {q} @file::write(PATH) {p} main", lib: "", ok: true, path: true, other: false, main: Some("<p>main</p>")},
    Kind {name: "from an included module", src: "@include `m` main", lib: "@file::write(PATH) {p}", ok: false, path: false, other: false, main: None},
    Kind {name: "from an imported module", src: "@let(m=@import `m`) {main}", lib: "x @export(e={@file::write(PATH) {p}}).", ok: false, path: false, other: false, main: None},
    Kind {name: "after an import", src: "@let(m=@import `m`) {main $m::e} @file::write(PATH) {p}", lib: "@export(e=`v`).", ok: true, path: true, other: false, main: Some("<p>main v</p>")},
    Kind {name: "before an import", src: "@file::write(PATH) {p} @let(m=@import `m`) {main $m::e} @file::write(OTHER) {o}", lib: "@export(e=`v`).", ok: true, path: true, other: true, main: Some("<p>main v</p>")},
    Kind {name: "function of a module", src: "@let(m=@import `m`) {@m::f {p}} main", lib: "@export @fn f $x -> @file::write(PATH) {$x}", ok: true, path: true, other: false, main: Some("<p>main</p>")},
    Kind {name: "callback in a module", src: "@fn w $x -> @file::write(PATH) {$x} @let(m=@import `m`) {@m::f(g=$w) {p}} main", lib: "@export @fn f($g) $x -> @g {$x}", ok: true, path: true, other: false, main: Some("<p>main</p>")},
    Kind {name: "module of a module", src: "@include `m` main", lib: "@include `n`", ok: false, path: false, other: false, main: None},
    Kind {name: "after a failed write", src: "@file::write(`..`) {q} @file::write(PATH) {p} main", lib: "", ok: false, path: false, other: false, main: None},
    Kind {name: "warning", src: "@export(a=1). @export(a=2). @file::write(PATH) {p} main", lib: "", ok: true, path: true, other: false, main: Some("<p>main</p>")},
    Kind {name: "markup", src: "@file::write(PATH) {<ul><li>@str::from `<`</li><li>2</li></ul>} main", lib: "", ok: true, path: true, other: false, main: Some("<p>main</p>")},
];
const MARKUP: &str = "<ul><li>&lt;</li><li>2</li></ul>";

/// The command run by an account which can write only in the scratch directory.
fn confined(cfg: &Cfg, bin: &Path, cwd: &Path, args: &[&str], unprivileged: bool) -> std::process::Command {
    // (the account is changed by a process of its own, since forking this one is slow)
    let mut c = if unprivileged { let mut c = std::process::Command::new(std::env::current_exe().unwrap()); c.arg("as-nobody").arg(bin); c } else { std::process::Command::new(bin) };
    c.args(args).current_dir(cwd).env_clear().env("LC_ALL", "C.UTF-8").stdin(std::process::Stdio::null());
    let _ = cfg;
    c
}
/// `mc as-nobody COMMAND ARGS..`
pub fn as_nobody(args: &[String]) -> ! {
    let e = std::process::Command::new(&args[0]).args(&args[1..]).uid(NOBODY).gid(NOBODY).exec();
    eprintln!("as-nobody: {e}");
    std::process::exit(125)
}
const NOBODY: u32 = 65534;
fn own(dir: &Path) { let _ = std::os::unix::fs::chown(dir, Some(NOBODY), Some(NOBODY)); if let Ok(rd) = std::fs::read_dir(dir) { for e in rd.flatten() { if e.file_type().map_or(false, |t| t.is_dir()) { own(&e.path()) } else { let _ = std::os::unix::fs::chown(e.path(), Some(NOBODY), Some(NOBODY)); } } } }

/// The names of the files (not directories) below a directory, with contents.
fn files(dir: &Path) -> BTreeMap<String, String> {
    cli::tree(dir).into_iter().filter(|(k, _)| !k.ends_with('/')).map(|(k, v)| (k, String::from_utf8_lossy(&v).to_string())).collect()
}

struct Cell { bin: PathBuf, unprivileged: bool }

fn judge_command(w: &mut Worker, cfg: &Cfg, cell: &Cell, root: &Path, kind: &Kind, out: Option<&str>, path: &str, text: bool) {
    // four directories up are still below the scratch directory
    let top = cli::fresh(&root.join(format!("w{}", w.id)));
    let cwd_p = top.join("d/e/f/work");
    let cwd = cwd_p.to_string_lossy().to_string();
    std::fs::create_dir_all(&cwd_p).expect("mkdir");
    for keep in ["a", "d/a", "d/e/a", "d/e/f/a", "d/e/f/outp/keep"] { cli::write(&top, keep, "keep"); }
    let spelled = out.map(|o| spelled_out(o, &cwd));
    let o = spelled.as_deref().unwrap_or(".");
    let path = subst(path, &cwd, o);
    let other = "other/o.html";
    let fill = |s: &str| s.replace("PATH", &lit(&path)).replace("OTHER", &lit(other));
    let src = fill(kind.src);
    cli::write(&cwd_p, "main.papyri", &src);
    cli::write(&cwd_p, "m.papyri", fill(kind.lib));
    cli::write(&cwd_p, "n.papyri", fill("@file::write(PATH) {p}"));
    own(&top);
    let before = files(&top);
    let t = target(&cwd, o, &path);
    let calls = src.contains("@file::write(") && kind.path || !kind.ok || kind.src.contains("@m::f");
    let ok = kind.ok && (t.is_some() && out.is_some() || !calls || !kind.path);
    let mut want = before.clone();
    let prefix = lexical("", &top.to_string_lossy());
    let mut put = |p: Vec<String>, c: String| { want.insert(p[prefix.len().min(p.len())..].join("/"), c); };
    if ok {
        let at = |p: &[String]| { let mut b = lexical(&cwd, o); b.extend(p.iter().cloned()); b };
        let html = |s: &str| if text { s.replace("<p>", "").replace("</p>", "\n\n").replace("<ul>", "").replace("</ul>", "\n").replace("<li>", "").replace("</li>", "\n").replace("&lt;", "<") } else { s.to_string() };
        if kind.other { put(at(&lexical("", other)), "o".into()); }
        if kind.path { put(at(t.as_ref().unwrap()), html(if kind.name == "markup" { MARKUP } else { "p" })); }
        if let Some(m) = kind.main { put(at(&["main.".to_string() + if text { "txt" } else { "html" }]), html(m)); }
    }
    let mut args: Vec<&str> = vec![];
    if text { args.push("-t"); }
    if let Some(o) = &spelled { args.push("-o"); args.push(o); }
    args.push("main.papyri");
    let r = cli::finish(confined(cfg, &cell.bin, &cwd_p, &args, cell.unprivileged), None);
    w.stats.evaluations += 1;
    w.stats.transitions += 1;
    w.stats.state(&(kind.name, out, &t));
    if ok && (kind.path || kind.other) { w.stats.nontrivial_count += 1; }
    let after = files(&top);
    w.sample(|| format!("papyri {args:?}: {src} => exit {:?}, {} new files", r.code, after.len() - before.len()));
    if r.code != Some(if ok { 0 } else { 1 }) || after != want {
        let show = |t: &BTreeMap<String, String>| t.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, v)| format!("  {k}: {v:?}\n")).collect::<String>();
        w.stats.violation(format!("{}: papyri {args:?} path {path:?}", kind.name), format!("document: {src}\nlibrary m: {}\nworking directory {cwd}\npapyri {args:?}\n\nexit {:?}, expected {}\nfiles written:\n{}expected:\n{}removed: {:?}\nstderr: {}", fill(kind.lib), r.code, if ok { 0 } else { 1 }, show(&after), show(&want), before.keys().filter(|k| !after.contains_key(*k)).collect::<Vec<_>>(), r.stderr));
    }
    if after.len() != before.len() { let _ = std::fs::remove_dir_all(&top); }
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every path up to a number of names (with `.`, `..`, empty names, absolute prefixes, names which resemble the output directory's) for every spelling of the output directory: accepted and collected where an independent lexical resolution says; the same through the command for every kind of document, watching every file of the scratch tree");
    let cwd = std::env::current_dir().expect("cwd").canonicalize().expect("cwd").to_string_lossy().to_string();
    // A: the collected files, in memory
    let (na, no, np) = (SEGS.len() as u64, OUTS.len() as u64, PREFIX.len() as u64);
    let len = cfg.q(3, 4);
    let per = num_seqs(na, 0, len);
    let chunk = 1024;
    let bs = [per.div_ceil(chunk), np, no];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let out = spelled_out(OUTS[d[2]], &cwd);
        let mut ses = (w.subject.new_session)(Some(Path::new(&out)));
        for k in d[0] as u64 * chunk..(d[0] as u64 * chunk + chunk).min(per) {
            let seq = nth_seq(k, na, 0, len);
            let path = format!("{}{}", PREFIX[d[1]], seq.iter().map(|&s| SEGS[s]).collect::<Vec<_>>().join("/"));
            judge_session(w, &cwd, &out, &subst(&path, &cwd, &out), &mut ses);
        }
    }));
    // long walks up and down
    let bs = [8, 8, 8, no];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let out = spelled_out(OUTS[d[3]], &cwd);
        let mut ses = (w.subject.new_session)(Some(Path::new(&out)));
        let base = lexical(&cwd, &out);
        for back in 0..=base.len().min(d[1]) {
            // down, up, and down again the way to the output directory
            let path = [vec!["q"; d[0]], vec![".."; d[1]], base[base.len() - back..].iter().map(|s| s.as_str()).collect(), vec!["r"; d[2]]].concat().join("/");
            judge_session(w, &cwd, &out, &path, &mut ses);
        }
    }));
    
    // many steps down and up in turn, and where the rest leads
    let steps = ["z/../", "./", "z//../", "//", "../OUT/", "y/z/../../", "z/"];
    let ends = ["f", "../f", "..", "", "OUT/f", "../OUT/f", "../OUTx/f", "../../f"];
    let counts: &[usize] = if cfg.quick() { &[1, 2, 5, 9, 16, 17, 33, 65, 130, 300] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 600] };
    let bs = [steps.len() as u64, counts.len() as u64, no];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let out = spelled_out(OUTS[d[2]], &cwd);
        let mut ses = (w.subject.new_session)(Some(Path::new(&out)));
        for end in ends {
            // `z/` is followed by as many steps up, one fewer, or one more
            let n = counts[d[1]];
            let ups = if steps[d[0]] == "z/" { vec![n - 1, n, n + 1] } else { vec![0] };
            for up in ups { judge_session(w, &cwd, &out, &subst(&format!("{}{}{end}", steps[d[0]].repeat(n), "../".repeat(up)), &cwd, &out), &mut ses); }
        }
    }));
    
    // many files of one document
    rep.absorb(explore(cfg, 24 * 25 * 4, |w, i| {
        let d = digits(i, &[24, 25, 4]);
        let out = spelled_out("OUT", &cwd);
        let mut ses = (w.subject.new_session)(Some(Path::new(&out)));
        let n = d[0] + 1;
        // one of them may lead outside, or be the same as another
        let path = |k: usize| if k + 1 == d[1] { match d[2] { 0 => "../x".into(), 1 => "f0".into(), 2 => format!("{}z", "a/".repeat(k)), _ => "q/../..".into() } } else if k % 3 == 2 { format!("dir{k}/f{k}") } else { format!("f{k}") };
        let src: String = (0..n).map(|k| format!("@file::write({}) {{c{k}}} ", lit(&path(k)))).collect();
        w.stats.evaluations += 1;
        w.stats.transitions += 1;
        let o = w.guard(&src, |_| ses.synth("<string>", &src));
        let mut want: BTreeMap<Vec<String>, usize> = BTreeMap::new();
        let (mut ok, base) = (true, lexical(&cwd, &out));
        for k in 0..n { match target(&cwd, &out, &path(k)) { Some(t) => { let mut at = base.clone(); at.extend(t); want.insert(at, k); }, None => ok = false } }
        w.stats.nontrivial_count += ok as u64;
        let got: BTreeMap<Vec<String>, String> = o.files.iter().map(|(p, c)| (lexical(&cwd, &p.to_string_lossy()), c.clone())).collect();
        let same = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1.contains(&format!("c{}", b.1)));
        if o.ok() != ok || ok && !same { w.stats.violation(&src, format!("output directory {out}\nsource: {src}\nexpected {}: {want:?}\n{}\nfiles: {:?}", if ok { "success" } else { "an error" }, o.describe(), o.files)); }
    }));
    // very many, all different, or some written twice
    rep.absorb(explore(cfg, 6 * 4 * 2, |w, i| {
        let d = digits(i, &[6, 4, 2]);
        let out = spelled_out("OUT", &cwd);
        let mut ses = (w.subject.new_session)(Some(Path::new(&out)));
        let n = [65, 129, 257, 301, 520, 1030][d[0]];
        let path = |k: usize| match d[1] { 0 => format!("f{k}"), 1 => format!("f{}", k % 200), 2 => format!("d{}/e{}/f{k}", k % 7, k % 3), _ => format!("q/../f{}", k / 2) };
        // each by a call of its own, or by a function
        let src: String = if d[2] == 0 { (0..n).map(|k| format!("@file::write({}) {{c{k}}} ", lit(&path(k)))).collect() } else { format!("@fn f($_p, $_c) . -> @file::write($_p) {{$_c}} {}", (0..n).map(|k| format!("@f({}, `c{k}`) . ", lit(&path(k)))).collect::<String>()) };
        w.stats.evaluations += 1;
        w.stats.transitions += 1;
        w.stats.nontrivial_count += 1;
        let o = w.guard(&src, |_| ses.synth("<string>", &src));
        let base = lexical(&cwd, &out);
        // of two with one path the last one counts
        let want: BTreeMap<Vec<String>, String> = (0..n).map(|k| (base.iter().cloned().chain(target(&cwd, &out, &path(k)).unwrap()).collect(), format!("c{k}"))).collect();
        let got: BTreeMap<Vec<String>, String> = o.files.iter().map(|(p, c)| (lexical(&cwd, &p.to_string_lossy()), c.clone())).collect();
        let same = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1.split(|c: char| !c.is_ascii_alphanumeric()).any(|x| x == b.1));
        if !o.ok() || !same { w.stats.violation(format!("{n} files, kind {} {}", d[1], d[2]), format!("output directory {out}\nsource: {src}\nexpected {want:?}\n{}\nfiles: {got:?}", o.describe())); }
    }));
    // without an output directory
    let srcs = ["@file::write(`a`) x", "@fn f $x -> @file::write(`a`) $x @f y", "@let(w=$file::write) {@w(`a`) x}", "@list::map(@fn $x -> @file::write($x) y) [`a`, `b`]"];
    rep.absorb(explore(cfg, srcs.len() as u64, |w, i| {
        let src = srcs[i as usize];
        let o = w.compile(src);
        let c = (w.subject.compile_str)(src);
        w.stats.nontrivial_count += 1;
        if o.ok() || !o.files.is_empty() || c.is_ok() { w.stats.violation(format!("no output directory: {src}"), o.describe()); }
    }));
    
    // B: the command
    let root = scratch(cfg);
    let bin = root.join("papyri");
    if !bin.exists() { std::fs::copy(&cfg.papyri_bin, &bin).expect("copy the command"); }
    let _ = std::os::unix::fs::chown(&root, Some(NOBODY), Some(NOBODY));
    // whether another account can be used here
    let unprivileged = confined(cfg, &bin, &root, &["--version"], true).stdout(std::process::Stdio::null()).status().map_or(false, |s| s.success());
    rep.extra.insert("command runs as an unprivileged user".into(), unprivileged.to_string());
    let cell = Cell {bin, unprivileged};
    let mut paths: Vec<String> = vec![];
    let segs = ["a", "..", ".", "", "OUT", "OUTx", "b.html"];
    for k in 0..num_seqs(segs.len() as u64, 0, cfg.q(2, 3)) { paths.push(nth_seq(k, segs.len() as u64, 0, cfg.q(2, 3)).iter().map(|&i| segs[i]).collect::<Vec<_>>().join("/")); }
    for p in ["a/../..", "../../a", "a/../../OUT/b", "x/y/z", "x/../y/../z", "../../../a", "../OUT/../a", "CWD/a", "OUTABS/a", "OUTABS/../a", "OUTABSx/a", "UP/a", "main.papyri", "main.html", "./a/./b", "a.papyri", "keep", " ", "...", "..a", "\u{e9}"] { paths.push(p.into()); }
    paths.retain(|p| {
        // a directory of the scratch tree itself cannot be written
        !p.contains("//") || cfg.tier == Tier::Thorough
    });
    let outs: Vec<Option<&str>> = [None].into_iter().chain(OUTS.iter().map(|o| Some(*o)).filter(|o| !matches!(o.unwrap(), "../../OUT" | " OUT"))).collect();
    let nk = KINDS.len() as u64;
    let bs = [paths.len() as u64, outs.len() as u64, cfg.q(2, nk), cfg.q(1, 2)];
    let skip = |path: &str, out: Option<&str>| -> bool {
        // where a directory or another input stands, writing is an error of another kind (C15)
        let cwd = "/t/d/e/f/work";
        let o = out.map(|o| spelled_out(o, cwd)).unwrap_or(".".into());
        let mut at = lexical(cwd, &o);
        let Some(t) = target(cwd, &o, &subst(path, cwd, &o)) else { return false };
        at.extend(t);
        let at = at.join("/");
        let dirs = ["t", "t/d", "t/d/e", "t/d/e/f", "t/d/e/f/work", "t/d/e/f/outp"];
        let fixed = ["t/a", "t/d/a", "t/d/e/a", "t/d/e/f/a", "t/d/e/f/outp/keep", "t/d/e/f/work/main.papyri", "t/d/e/f/work/main.html"];
        dirs.contains(&at.as_str()) || fixed.iter().any(|f| at == *f || at.starts_with(&format!("{f}/"))) || at.ends_with("/other") || at.ends_with("/main.html") || at.ends_with("/main.txt")
            || out.map_or(false, |o| at.len() <= lexical(cwd, &spelled_out(o, cwd)).join("/").len())
            || at.contains("/main.html/")
    };
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let (path, out) = (&paths[d[0]], outs[d[1]]);
        if skip(path, out) { w.stats.count("paths where something else stands"); return; }
        judge_command(w, cfg, &cell, &root, &KINDS[d[2]], out, path, d[3] == 1);
    }));
    // every kind of document
    let some = ["a.html", "x/y", "../a", "..", "/a", "OUTABS/z", "OUTABSx/z"];
    let bs = [nk, some.len() as u64, cfg.q(4, outs.len() as u64), 2];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let out = if cfg.quick() { [None, Some("OUT"), Some("../NAME/OUT"), Some("..")][d[2]] } else { outs[d[2]] };
        if skip(some[d[1]], out) { return; }
        judge_command(w, cfg, &cell, &root, &KINDS[d[0]], out, some[d[1]], d[3] == 1);
    }));
    // standard input has no output directory
    rep.absorb(explore(cfg, 2, |w, i| {
        let dir = cli::fresh(&root.join(format!("stdin{i}")));
        let _ = std::os::unix::fs::chown(&dir, Some(NOBODY), Some(NOBODY));
        let args: &[&str] = if i == 0 { &["-i"] } else { &["-i", "-t"] };
        let r = cli::finish(confined(cfg, &cell.bin, &dir, args, cell.unprivileged), Some(b"@file::write(`a`) x"));
        w.stats.evaluations += 1;
        if r.ok() || !files(&dir).is_empty() || !r.stdout.is_empty() { w.stats.violation(format!("papyri {args:?}"), format!("{r:?}")); }
    }));
    remove_scratch(&root);
    rep
}
