//! C20: the command compiles exactly the selected sources to the right places.
//! A model of the file tree, of path arguments and of freshness; every tuple
//! of path arguments with every set of options is run in every tree, and every
//! history of runs, edits and deletions.
use crate::cli;
use crate::engine::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::time::{Duration, UNIX_EPOCH};

/// What a source compiles to.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum K { Ok, Empty, Err, Warn, Writes, Bin, Raw }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
enum Node { Dir, File(K, String, i64), Link(String) }
type P = Vec<String>;
#[derive(Debug, Clone, Default)]
struct Fs { n: BTreeMap<P, Node> }

fn split(s: &str) -> P { s.split('/').filter(|c| !c.is_empty() && *c != ".").map(String::from).collect() }
/// The components of a path given in the working directory: where it starts, and the rest.
fn parts(s: &str) -> (P, P) {
    if let Some(r) = s.strip_prefix("TOP/") { (vec![], split(r)) } else { (vec!["c".into()], split(s)) }
}
impl Fs {
    fn add(&mut self, path: &str, node: Node) {
        let p = split(path);
        for i in 1..p.len() { self.n.entry(p[..i].to_vec()).or_insert(Node::Dir); }
        self.n.insert(p, node);
    }
    fn walk(&self, start: &P, rest: &[String], follow: bool, depth: usize) -> Option<P> {
        if depth > 20 { return None; }
        let mut at = start.clone();
        for (i, c) in rest.iter().enumerate() {
            if c == ".." { at.pop()?; continue; }
            let mut q = at.clone();
            q.push(c.clone());
            match self.n.get(&q)? {
                Node::Link(t) if follow || i + 1 < rest.len() => {
                    at = self.walk(&at, &split(t), true, depth + 1)?;
                    if i + 1 < rest.len() && !self.is_dir(&at) { return None; }
                },
                Node::Dir => at = q,
                _ if i + 1 < rest.len() => return None,
                _ => at = q,
            }
        }
        Some(at)
    }
    fn is_dir(&self, p: &P) -> bool { p.is_empty() || matches!(self.n.get(p), Some(Node::Dir)) }
    fn stat(&self, s: &str) -> Option<P> { if s.is_empty() { return None; } let (a, r) = parts(s); let p = self.walk(&a, &r, true, 0)?; if s.ends_with('/') && !self.is_dir(&p) { return None; } Some(p) }
    fn lstat(&self, s: &str) -> Option<P> { if s.is_empty() { return None; } let (a, r) = parts(s); self.walk(&a, &r, s.ends_with('/'), 0) }
    /// Where a name stands: its directory with the links resolved, and the name.
    fn entry(&self, s: &str) -> Option<P> {
        let (a, mut r) = parts(s);
        let last = r.pop()?;
        if last == ".." { return None; }
        let mut p = self.walk(&a, &r, true, 0)?;
        p.push(last);
        Some(p)
    }
    fn children(&self, d: &P) -> Vec<String> { self.n.keys().filter(|k| k.len() == d.len() + 1 && k.starts_with(d)).map(|k| k.last().unwrap().clone()).collect() }
    fn write(&self, top: &Path) {
        for (p, n) in &self.n {
            let q = top.join(p.join("/"));
            match n {
                Node::Dir => { let _ = std::fs::create_dir_all(&q); },
                Node::Link(t) => std::os::unix::fs::symlink(t, &q).expect("link"),
                Node::File(k, d, t) => {
                    let bin: &[u8] = b"a\xff\xfe";
                    std::fs::write(&q, if *k == K::Bin { bin } else { d.as_bytes() }).expect("write");
                    settime(&q, *t);
                },
            }
        }
    }
}
fn settime(p: &Path, ns: i64) {
    let h = std::fs::File::options().write(true).open(p).expect("open");
    h.set_times(std::fs::FileTimes::new().set_modified(UNIX_EPOCH + Duration::from_secs(1_600_000_000) + Duration::from_nanos(ns as u64))).expect("time");
}
fn source(k: K, id: &str) -> String {
    match k {
        K::Ok => format!("X{id}"),
        K::Empty => String::new(),
        K::Err => "E @raise `r`".into(),
        K::Warn => "@export(a=1). @export(a=2). V".into(),
        K::Writes => format!("@file::write(`w/{id}`) Y{id} M{id}"),
        K::Bin | K::Raw => id.into(),
    }
}
fn ext(name: &str) -> bool { let l = name.to_ascii_lowercase(); l.ends_with(".papyri") && l.len() > ".papyri".len() }
fn library(name: &str) -> bool { name.to_ascii_lowercase().ends_with(".lib.papyri") }
fn has_glob(s: &str) -> bool { s.contains(['*', '?', '[', ']']) }
/// One component of a pattern.
fn wild(p: &[char], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).any(|i| wild(&p[1..], &s[i..])),
        Some('?') => !s.is_empty() && wild(&p[1..], &s[1..]),
        Some('[') => {
            let Some(end) = p.iter().skip(2).position(|c| *c == ']').map(|i| i + 2) else { return false };
            let (neg, set) = if p[1] == '!' { (true, &p[2..end]) } else { (false, &p[1..end]) };
            let Some(c) = s.first() else { return false };
            let mut hit = false;
            let mut i = 0;
            while i < set.len() { if i + 2 < set.len() && set[i + 1] == '-' { hit |= set[i] <= *c && *c <= set[i + 2]; i += 3; } else { hit |= set[i] == *c; i += 1; } }
            hit != neg && wild(&p[end + 1..], &s[1..])
        },
        Some(c) => s.first() == Some(c) && wild(&p[1..], &s[1..]),
    }
}
fn glob(fs: &Fs, at: &str, pat: &[&str], out: &mut BTreeSet<String>) {
    let join = |n: &str| if at.is_empty() { n.to_string() } else { format!("{at}/{n}") };
    let here = |s: &str| fs.stat(if s.is_empty() { "." } else { s });
    let Some((first, rest)) = pat.split_first() else { out.insert(at.to_string()); return };
    if *first == "." { return glob(fs, at, rest, out); }
    if *first == "**" {
        glob(fs, at, rest, out);
        if let Some(d) = here(at).filter(|d| fs.is_dir(d)) {
            for c in fs.children(&d) { let q = join(&c); if fs.stat(&q).map_or(false, |p| fs.is_dir(&p)) { glob(fs, &q, pat, out); } }
        }
        return;
    }
    if !has_glob(first) { let q = join(first); if fs.stat(&q).is_some() { glob(fs, &q, rest, out); } return; }
    if let Some(d) = here(at).filter(|d| fs.is_dir(d)) {
        let p: Vec<char> = first.chars().collect();
        for c in fs.children(&d) { if wild(&p, &c.chars().collect::<Vec<_>>()) { glob(fs, &join(&c), rest, out); } }
    }
}
/// The path of a source below the working directory, read as text.
fn below(s: &str) -> Option<P> {
    let (mut at, rest) = parts(s);
    for c in rest { if c == ".." { at.pop(); } else { at.push(c); } }
    if at.len() > 1 && at[0] == "c" { Some(at[1..].to_vec()) } else { None }
}

/// The sources, told apart by where they stand and, with an output directory, by their paths.
struct Sel { src: BTreeMap<(Option<P>, Option<P>, String), String>, errors: usize, others: usize, fatal: bool }
fn select(fs: &Fs, args: &[String], out: bool) -> Sel {
    let mut r = Sel {src: BTreeMap::new(), errors: 0, others: 0, fatal: false};
    let dot = vec![".".to_string()];
    let mut put = |s: String| { let e = fs.entry(&s); let k = (e.clone(), if out || e.is_none() { below(&s) } else { None }, if e.is_none() { s.clone() } else { String::new() }); r.src.entry(k).or_insert(s); };
    for a in if args.is_empty() { &dot } else { args } {
        if has_glob(a) && fs.lstat(a).is_none() {
            let mut found = BTreeSet::new();
            let (root, body) = match a.strip_prefix("TOP/") { Some(b) => ("TOP", b), None => ("", a.as_str()) };
            glob(fs, root, &body.split('/').collect::<Vec<_>>(), &mut found);
            for f in found {
                let isdir = fs.stat(&f).map_or(false, |p| fs.is_dir(&p));
                if ext(f.rsplit('/').next().unwrap()) && !isdir { put(f); }
            }
            continue;
        }
        match fs.stat(a) {
            Some(d) if fs.is_dir(&d) => {
                for (p, n) in fs.n.iter().filter(|(p, _)| p.len() > d.len() && p.starts_with(&d)) {
                    let target = if matches!(n, Node::Link(_)) { match fs.walk(&p[..p.len() - 1].to_vec(), &p[p.len() - 1..], true, 0) { Some(t) => t, None => { r.others += 1; continue } } } else { p.clone() };
                    if !target.starts_with(&d) || fs.is_dir(&target) || !ext(target.last().unwrap()) { continue; }
                    put(format!("{}/{}", a.trim_end_matches('/'), target[d.len()..].join("/")));
                }
            },
            _ if ext(a.rsplit('/').next().unwrap_or("")) => put(a.clone()),
            Some(_) => r.others += 1,
            None => r.errors += 1,
        }
    }
    r
}
#[derive(Debug, Clone)]
struct Opts { out: Option<&'static str>, text: bool, skip: bool, silent: bool, nowarn: bool }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Status { Ok, Library, Unchanged, NoOutput, Failed, Warned }
#[derive(Debug)]
struct Plan {
    /// where it stands (or its path, if nowhere) and below => the status
    st: Vec<(String, Option<P>, Status)>,
    /// files => their possible contents (trimmed)
    files: BTreeMap<P, Vec<String>>,
    written: usize,
    fatal: bool, errors: usize, messages: bool,
}
/// Where a file will be: links are followed as far as the directories exist.
fn out_at(fs: &Fs, dir: &str, rest: &[String]) -> P {
    let (mut at, mut r) = parts(dir);
    r.extend(rest.iter().cloned());
    let n = r.len();
    for (i, c) in r.iter().enumerate() {
        if c == ".." { at.pop(); continue; }
        at = fs.walk(&at, std::slice::from_ref(c), i + 1 < n, 0).unwrap_or_else(|| { let mut a = at.clone(); a.push(c.clone()); a });
    }
    at
}
fn plan(fs: &Fs, args: &[String], o: &Opts) -> Plan {
    let sel = select(fs, args, o.out.is_some());
    let mut p = Plan {st: vec![], files: BTreeMap::new(), written: 0, fatal: sel.fatal, errors: sel.errors, messages: sel.errors + sel.others > 0};
    for ((entry, rel, _), spelled) in sel.src {
        let name = spelled.rsplit('/').next().unwrap().to_string();
        if library(&name) { p.st.push((spelled, entry, Status::Library)); continue; }
        let mut out = match (o.out, &rel, &entry) {
            (Some(d), Some(r), _) => out_at(fs, d, r),
            (Some(_), None, _) => { p.fatal = true; continue },
            (None, _, Some(e)) => e.clone(),
            (None, _, None) => { p.fatal = true; continue },
        };
        let stem = name[..name.len() - ".papyri".len()].to_string();
        *out.last_mut().unwrap() = format!("{stem}.{}", if o.text { "txt" } else { "html" });
        let target = fs.stat(&spelled);
        let Some(Node::File(k, d, t)) = target.as_ref().and_then(|t| fs.n.get(t)) else { p.fatal = true; continue };
        if o.skip { if let Some(Node::File(_, _, to)) = fs.n.get(&out) { if t <= to { p.st.push((spelled, entry, Status::Unchanged)); continue; } } }
        let mut w = |q: P, s: String| { p.written += 1; p.files.entry(q).or_default().push(s); };
        let main = |s: &str| if o.text { s.to_string() } else { format!("<p>{s}</p>") };
        let s = match k {
            K::Ok => { w(out, main(d)); Status::Ok },
            K::Empty => Status::NoOutput,
            K::Err => Status::Failed,
            K::Warn => { w(out, main("V")); Status::Warned },
            K::Writes => match o.out {
                Some(od) => {
                    let id = d.rsplit(" M").next().unwrap();
                    w(out_at(fs, od, &["w".to_string(), id.to_string()]), format!("Y{id}"));
                    w(out, main(&format!("M{id}")));
                    Status::Ok
                },
                None => Status::Failed,
            },
            K::Bin | K::Raw => { p.fatal = true; continue },
        };
        p.st.push((spelled, entry, s));
    }
    p
}
fn argv(args: &[String], o: &Opts, top: &str, flip: bool) -> Vec<String> {
    let mut opt: Vec<String> = vec![];
    if let Some(d) = o.out { opt.push(if flip { "--out" } else { "-o" }.into()); opt.push(d.replace("TOP", top)); }
    if o.text { opt.push(if flip { "-t" } else { "--text" }.into()); }
    if o.skip { opt.push(if flip { "-u" } else { "--skip-unchanged" }.into()); }
    if o.silent { opt.push(if flip { "-s" } else { "--silent" }.into()); }
    if o.nowarn { opt.push("--ignore-warnings".into()); }
    let paths: Vec<String> = args.iter().map(|a| if a.starts_with("TOP") { a.replacen("TOP", top, 1) } else { a.clone() }).collect();
    if flip { paths.into_iter().chain(opt).collect() } else { opt.into_iter().chain(paths).collect() }
}
/// Runs the command and compares.
fn check(w: &mut Worker, cfg: &Cfg, top: &Path, label: &str, fs: &Fs, args: &[String], o: &Opts, flip: bool) {
    let topstr = top.to_string_lossy().to_string();
    if o.skip && plan(fs, args, &Opts {skip: false, ..o.clone()}).files.values().any(|v| v.len() > 1) { w.stats.count("not run: two sources with one output, and --skip-unchanged"); return; }
    let before = cli::tree(top);
    let av = argv(args, o, &topstr, flip);
    let r = cli::run(cfg, &top.join("c"), &av.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    let after = cli::tree(top);
    let p = plan(fs, args, o);
    w.stats.evaluations += 1;
    w.stats.transitions += 1;
    let mut why: Vec<String> = vec![];
    // the files
    let mut wrote = vec![];
    for (q, v) in &after {
        if q.ends_with('/') {
            if !before.contains_key(q) && !p.files.keys().any(|f| format!("{}/", f.join("/")).starts_with(q.as_str()) && f.join("/").len() > q.len() - 1) { why.push(format!("unexpected directory {q}")); }
            continue;
        }
        let comps = split(q);
        match p.files.get(&comps) {
            Some(want) => {
                let got = String::from_utf8_lossy(v).trim().to_string();
                let old = before.get(q);
                if want.contains(&got) { wrote.push(comps); } else if !(p.fatal && old == Some(v)) { why.push(format!("{q}: expected {want:?}, is {got:?}")); }
            },
            None => if before.get(q) != Some(v) { why.push(format!("{q}: not expected to be written, is {:?}", String::from_utf8_lossy(v))); },
        }
    }
    for q in before.keys() { if !after.contains_key(q) { why.push(format!("{q}: removed")); } }
    if !p.fatal { for f in p.files.keys() { if !wrote.contains(f) { why.push(format!("{}: not written", f.join("/"))); } } }
    // what is reported
    let key = |s: &str| -> Option<P> { let s = s.replacen(&topstr, "TOP", 1); fs.entry(&s) };
    let mut left: Vec<(String, Option<P>, Status)> = p.st.clone();
    let mut take = |path: &str, st: Status, why: &mut Vec<String>| {
        let e = key(path);
        match left.iter().position(|x| x.1 == e && x.2 == st) {
            Some(i) => { left.remove(i); },
            None => why.push(format!("unexpected report: {path} {st:?}")),
        }
    };
    let n = |s: Status| p.st.iter().filter(|x| x.2 == s).count();
    let oks = n(Status::Ok) + n(Status::Warned);
    let failed = n(Status::Failed);
    let skipped = p.st.len() - oks - failed;
    let mut summary = format!("{} file{} written; {oks} OK, {failed} failed, {skipped} skipped", p.written, if p.written == 1 { "" } else { "s" });
    if p.errors > 0 { summary += &format!("; {} file error{}", p.errors, if p.errors == 1 { "" } else { "s" }); }
    let bad = failed > 0 || p.errors > 0;
    let mut lines: Vec<&str> = r.stdout.lines().collect();
    if p.fatal {
        if r.code != Some(1) { why.push("exit status is not 1".into()); }
        if r.stderr.trim().is_empty() { why.push("no message".into()); }
    } else {
        if r.code != Some(bad as i32) { why.push(format!("exit status: expected {}", bad as i32)); }
        if bad { if r.stderr.lines().last() != Some(&summary) { why.push(format!("expected on stderr: {summary}")); } }
        else if !o.silent { if lines.pop() != Some(&summary) { why.push(format!("expected on stdout: {summary}")); } }
        // what does not exist, or is no source file, is named
        for a in args { if !has_glob(a) && !a.is_empty() && !ext(a.rsplit('/').next().unwrap_or("")) && fs.stat(a).map_or(true, |d| !fs.is_dir(&d)) && !r.stderr.contains(&format!("\"{}\"", a.replacen("TOP", &topstr, 1))) { why.push(format!("no message about {a}")); } }
        if p.messages && r.stderr.trim().is_empty() { why.push("no message".into()); }
        if !p.messages && !bad && n(Status::Warned) == 0 && !r.stderr.is_empty() { why.push("unexpected message".into()); }
    }
    let mut arrows = 0;
    if o.silent && !lines.is_empty() { why.push("output although silent".into()); }
    for l in &lines {
        if let Some(q) = l.strip_prefix("    => ") {
            arrows += 1;
            let at = out_at(fs, &q.replacen(&topstr, "TOP", 1), &[]);
            if !p.files.contains_key(&at) { why.push(format!("reported as written: {q}")); }
            continue;
        }
        match l.rsplit_once(" (") {
            Some((path, "OK)")) => take(path, Status::Ok, &mut why),
            Some((path, "library, skipping)")) => take(path, Status::Library, &mut why),
            Some((path, "unchanged, skipping)")) => take(path, Status::Unchanged, &mut why),
            Some((path, "no output, skipping)")) => take(path, Status::NoOutput, &mut why),
            _ => why.push(format!("unexpected line: {l}")),
        }
    }
    for l in r.stderr.lines() {
        if let Some((path, s)) = l.rsplit_once(" (") { if s.ends_with("warnings)") || s.ends_with("warning)") { take(path, if s.starts_with("failed") { Status::Failed } else { Status::Warned }, &mut why); } }
    }
    if !p.fatal {
        if !o.silent && arrows != p.written { why.push(format!("{arrows} files are reported as written, expected {}", p.written)); }
        for x in &left { if !o.silent || matches!(x.2, Status::Failed | Status::Warned) { why.push(format!("not reported: {} {:?}", x.0, x.2)); } }
    }
    if p.written > 0 { w.stats.nontrivial_count += 1; }
    if p.fatal { w.stats.count("aborted"); } else if bad { w.stats.count("failed"); } else { w.stats.count("succeeded"); }
    for (_, _, s) in &p.st { w.stats.count(match s { Status::Ok => "source: OK", Status::Library => "source: library", Status::Unchanged => "source: unchanged", Status::NoOutput => "source: no output", Status::Failed => "source: failed", Status::Warned => "source: warning" }); }
    w.stats.state(&(label, &p.st, &p.files));
    w.sample(|| format!("{label}: papyri {:?} => {}", av, r.stdout.lines().last().or(r.stderr.lines().last()).unwrap_or("")));
    if !why.is_empty() {
        let shown: Vec<String> = av.iter().map(|a| a.replace(&topstr, "TOP")).collect();
        w.stats.violation(format!("{label}: papyri {}", shown.join(" ")), format!("tree {label}, in TOP/c: papyri {shown:?}\n\n{}\n\nexit {:?}\nstdout:\n{}\nstderr:\n{}\nfiles before:\n{}\nfiles after:\n{}", why.join("\n"), r.code, r.stdout, r.stderr, cli::show_tree(&before), cli::show_tree(&after)));
    }
}

const SEC: i64 = 1_000_000_000;
fn file(fs: &mut Fs, path: &str, k: K) { let id: String = path.chars().filter(|c| c.is_ascii_alphanumeric()).collect(); fs.add(path, Node::File(k, source(k, &id), 10 * SEC)); }
fn trees() -> Vec<(&'static str, Fs, Vec<&'static str>, bool)> {
    let mut v = vec![];
    let mut t = Fs::default();
    for (p, k) in [("a", K::Ok), ("b", K::Ok), ("e", K::Empty), ("f", K::Err), ("g", K::Warn), ("l.lib", K::Ok), ("w", K::Writes), ("sub/a", K::Ok), ("sub/f", K::Err), ("sub/w", K::Writes), ("sub/bin", K::Bin)] { file(&mut t, &format!("c/{p}.papyri"), k); }
    t.add("c/n.txt", Node::File(K::Raw, "n".into(), 10 * SEC));
    t.add("c/sub2/b.papyri", Node::File(K::Ok, "Xdeep".into(), 10 * SEC));
    v.push(("kinds", t, vec![".", "a.papyri", "./a.papyri", "b.papyri", "e.papyri", "f.papyri", "g.papyri", "l.lib.papyri", "w.papyri", "[ab].papyri", "[e-g].papyri", "[!bfw]*.papyri", "sub", "sub2", "sub/w.papyri", "n.txt", "nope", "nope.papyri", "sub/bin.papyri", "", "?.papyri"], true));
    let mut t = Fs::default();
    for p in ["a", "d/a", "d/e/a", "d/e/M.LIB", "d/x.y", ".h", "s p", "é", "q[1]", "q1", "p.papyri/z", "p.papyri/lib", "v.lib.papyri/z", "a.html", "d/lib", "u.lib/v", ".lib", ".d/h", "_t/node_modules/x", "~/#b#", "s/p.papyri/z", "s/p.papyri/.papyri/y", "s/q.lib.papyri/z"] { file(&mut t, &format!("c/{p}.papyri"), K::Ok); }
    for p in ["c/d/UP.PAPYRI", "c/d/Mixed.PapyRI", "o.papyri", "c2/a.papyri"] { t.add(p, Node::File(K::Ok, "Xup".into(), 10 * SEC)); }
    for p in ["c/.papyri", "c/papyri", "c/d/xpapyri", "c/d/a.papyri.bak", "c/d/y.papyri~"] { t.add(p, Node::File(K::Raw, "n".into(), 10 * SEC)); }
    v.push(("names", t, vec![".", "d", "d/", "./d/", "d/a.papyri", "d/../a.papyri", "a.papyri", "TOP/c/a.papyri", "TOP/c/d", "*.papyri", "**/*.papyri", "d/*", "d/**/*", "*/*.papyri", "./*.papyri", "d/../*.papyri", "TOP/c/d/*.papyri", "q[1].papyri", "q?.papyri", "d/UP.PAPYRI", "p.papyri", "..", "../o.papyri", "../c2", ".papyri", "d/e", "../c/d/e", "**/e/*", "u.lib", "[[]*", "s/p.papyri", "./s/p.papyri/", "s/q.lib.papyri", "s/*", "s/p.papyri/z.papyri", "TOP/c/s/p.papyri"], true));
    let mut t = Fs::default();
    for (p, k) in [("c/a", K::Ok), ("c/out/b", K::Ok), ("c/out/s/w", K::Writes), ("c/out/out/d", K::Ok), ("c/o/p/e", K::Ok), ("c/o/p/w/z", K::Writes), ("r/g", K::Ok), ("q/h", K::Ok), ("c/outer/b", K::Ok), ("c/out/s/f", K::Err)] { file(&mut t, &format!("{p}.papyri"), k); }
    v.push(("sources in the output directory", t, vec![".", "a.papyri", "out", "out/b.papyri", "./out/s", "out/out", "o/p", "o/p/w/z.papyri", "TOP/c/out", "outer", "out/**/*", "../r", "out/../a.papyri", "TOP/c/o/../out/b.papyri"], true));
    let mut t = Fs::default();
    for p in ["a", "d/a", "d/b", "k/z"] { file(&mut t, &format!("c/{p}.papyri"), K::Ok); }
    file(&mut t, "o.papyri", K::Ok);
    file(&mut t, "od/i.papyri", K::Ok);
    for (p, l) in [("c/ln.papyri", "a.papyri"), ("c/d/up.papyri", "../a.papyri"), ("c/d/in.papyri", "b.papyri"), ("c/ld", "d"), ("c/k/dang.papyri", "none"), ("c/x.papyri", "../o.papyri"), ("c/noext", "d/a.papyri"), ("c/ext", "../od")] { t.add(p, Node::Link(l.into())); }
    v.push(("links", t, vec![".", "a.papyri", "ln.papyri", "d", "ld", "ld/", "ld/a.papyri", "d/a.papyri", "d/up.papyri", "d/in.papyri", "*.papyri", "*/*.papyri", "k", "k/dang.papyri", "x.papyri", "noext", "ext", "ext/i.papyri", "ld/../a.papyri"], true));
    let mut t = Fs::default();
    for p in ["a", "d/a", "d/e/b", "k/z"] { file(&mut t, &format!("c/{p}.papyri"), K::Ok); }
    for (p, l) in [("c/d/l", "."), ("c/k/up", ".."), ("c/d/e/r", "../.."), ("c/p.papyri", "d")] { t.add(p, Node::Link(l.into())); }
    v.push(("links in a circle", t, vec![".", "d", "d/l", "d/l/l/a.papyri", "k", "k/up", "k/up/k", "d/e/r/a.papyri", "d/e", "*.papyri", "d/*.papyri", "d/e/r", "k/up/d/l"], true));
    let mut t = Fs::default();
    // differences from the time of the source, which falls on a second or between two
    let pairs = [-3 * SEC, -SEC, -1, 0, 1, 999_999_999, SEC, 3600 * SEC].map(|d| (0, d)).into_iter().chain([-400_000_000, -1_000_000, -1000, -1, 1, 400_000_000].map(|d| (500_000_000, d)));
    for (i, (base, dt)) in pairs.enumerate() {
        file(&mut t, &format!("c/m{i}.papyri"), K::Ok);
        for (p, flip) in [("c/m{}.html", false), ("c/m{}.txt", true), ("c/out/m{}.html", true), ("c/out/m{}.txt", false)] {
            let d = if flip { -dt } else { dt };
            t.add(&p.replace("{}", &i.to_string()), Node::File(K::Raw, "old".into(), 5000 * SEC + base + d));
        }
        for n in [format!("c/m{i}.papyri")] { if let Some(Node::File(_, _, t)) = t.n.get_mut(&split(&n)) { *t = 5000 * SEC + base; } }
    }
    for (n, k) in [("sf", K::Err), ("se", K::Empty), ("sw", K::Writes), ("sb", K::Bin), ("sl.lib", K::Ok), ("d/s", K::Ok), ("sg", K::Warn)] {
        file(&mut t, &format!("c/u/{n}.papyri"), k);
        for (q, dt) in [("c/u/N.html", 1), ("c/u/N.txt", -1), ("c/out/u/N.html", -1), ("c/out/u/N.txt", 1)] { t.add(&q.replace('N', n), Node::File(K::Raw, "old".into(), 10 * SEC + dt)); }
    }
    // a link is as old as the file it stands for
    t.add("c/m2l.papyri", Node::Link("m2.papyri".into()));
    t.add("c/m2l.html", Node::File(K::Raw, "old".into(), 5000 * SEC));
    v.push(("times", t, vec![".", "m0.papyri", "m1.papyri", "m2.papyri", "m3.papyri", "m4.papyri", "m5.papyri", "m6.papyri", "m2l.papyri", "m*.papyri", "u", "u/sf.papyri", "u/sb.papyri", "u/d", "u/s[efwg].papyri", "**/*"], true));
    let mut t = Fs::default();
    for p in ["c/a.papyri", "c/A.papyri", "c/a.PAPYRI", "c/d/a.Papyri", "c/d/a.papyri"] { t.add(p, Node::File(K::Ok, format!("X{}", split(p).join("").replace('.', "")), 10 * SEC)); }
    v.push(("two sources, one output", t, vec![".", "a.papyri", "A.papyri", "a.PAPYRI", "d", "[aA].papyri", "a.*"], false));
    v
}
fn all_opts(skip: bool) -> Vec<Opts> {
    let mut v = vec![];
    for out in [None, Some("out"), Some("./o/p"), Some("TOP/q"), Some("."), Some("../r/")] { for text in [false, true] { for s in [false, true] { if s && !skip { continue; } for (silent, nowarn) in [(false, false), (true, false), (false, true)] { v.push(Opts {out, text, skip: s, silent, nowarn}); } } } }
    v
}
fn some_opts(skip: bool) -> Vec<Opts> { all_opts(skip).into_iter().filter(|o| matches!(o.out, None | Some("out")) && !o.nowarn && !o.silent && o.text == (o.skip && o.out.is_some())).collect() }

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every tuple of path arguments from a pool, with every set of options, in every file tree, compared with a model of selection, output paths, freshness, reports, counts and exit status; and every history of runs, edits, deletions and changed options up to a length; a state is what the model expects of a run");
    rep.assumptions.push("two sources with the same output path: either may win; not combined with --skip-unchanged".into());
    let root = scratch(cfg);
    let tr = trees();
    for (ti, (name, fs, pool, skip)) in tr.iter().enumerate() {
        let mut jobs: Vec<(Vec<&str>, Opts)> = vec![];
        let k = pool.len() as u64;
        let full = if cfg.quick() { 1 } else { 2 };
        for i in 0..num_seqs(k, 0, full) { let a: Vec<&str> = nth_seq(i, k, 0, full).into_iter().map(|j| pool[j as usize]).collect(); for o in all_opts(*skip) { jobs.push((a.clone(), o)); } }
        let lim = full + 1;
        for i in num_seqs(k, 0, full)..num_seqs(k, 0, lim) { let a: Vec<&str> = nth_seq(i, k, 0, lim).into_iter().map(|j| pool[j as usize]).collect(); for o in some_opts(*skip) { jobs.push((a.clone(), o)); } }
        rep.absorb(explore(cfg, jobs.len() as u64, |w, i| {
            let (a, o) = &jobs[i as usize];
            let top = cli::fresh(&root.join(format!("t{ti}w{}", w.id)));
            std::fs::create_dir_all(top.join("c")).expect("mkdir");
            fs.write(&top);
            let args: Vec<String> = a.iter().map(|s| s.to_string()).collect();
            check(w, cfg, &top, name, fs, &args, o, i % 2 == 1);
        }));
    }
    sizes(cfg, &mut rep, &root);
    histories(cfg, &mut rep, &root);
    if std::env::var("MC_PART").is_err() {
        let mut w = Worker::new(cfg.subject, 96);
        // only the version
        for more in [&[][..], &["."], &["-o", "out", "-t", "a.papyri"], &["--silent", "a.papyri"], &["-i"]] {
            let top = cli::fresh(&root.join("version"));
            cli::write(&top, "a.papyri", "X");
            let r = cli::run(cfg, &top, &[&["--version"], more].concat());
            w.stats.evaluations += 1;
            if !r.ok() || !r.stderr.is_empty() || !r.stdout.ends_with(&format!("version {}\n", version())) || cli::tree(&top).len() != 1 { w.stats.violation(format!("--version {more:?}"), format!("{r:?}\n{}", cli::show_tree(&cli::tree(&top)))); }
        }
        // a name which is not UTF-8
        use std::os::unix::ffi::OsStrExt;
        let top = cli::fresh(&root.join("bytes"));
        let n = std::ffi::OsStr::from_bytes(b"x\xff.papyri");
        std::fs::create_dir_all(top.join("d")).expect("mkdir");
        std::fs::write(top.join("d").join(n), "X").expect("write");
        let r = cli::run(cfg, &top, &["-o", "out", "d"]);
        w.stats.evaluations += 1;
        let got = std::fs::read(top.join("out/d").join(std::ffi::OsStr::from_bytes(b"x\xff.html"))).unwrap_or_default();
        if got != b"<p>X</p>" || !r.ok() { w.stats.violation("a name which is not UTF-8".to_string(), format!("{r:?}")); }
        rep.absorb(w.stats);
    }
    remove_scratch(&root);
    rep
}

/// The version of the package.
fn version() -> String {
    let t = std::fs::read_to_string("/repo/Cargo.toml").unwrap_or_default();
    t.lines().find_map(|l| l.strip_prefix("version = \"")).unwrap_or("").trim_end_matches('"').to_string()
}
/// Deep directories, and many of them and of files.
fn sizes(cfg: &Cfg, rep: &mut Report, root: &Path) {
    let plain = Opts {out: None, text: false, skip: false, silent: false, nowarn: false};
    let opts = [plain.clone(), Opts {out: Some("out"), ..plain.clone()}, Opts {out: Some("TOP/x/y"), text: true, skip: true, ..plain.clone()}];
    let deepest = cfg.q(24, 60);
    let counts: Vec<usize> = (2..cfg.q(20, 70) as usize).chain([99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 300]).chain((!cfg.quick()).then_some([500, 511, 512, 513, 999, 1000, 1001, 1025]).into_iter().flatten()).collect();
    let mut jobs = vec![];
    for d in 1..=deepest as usize { for a in 0..5 { for o in 0..3 { jobs.push((0, d, a, o)); } } }
    for n in &counts { for shape in 1..4 { for a in 0..5 { for o in 0..3 { if *n < 99 || !cfg.quick() || (a + o + shape) % 3 == 0 { jobs.push((shape, *n, a, o)); } } } } }
    let kinds = [K::Ok, K::Ok, K::Warn, K::Ok, K::Empty, K::Ok, K::Writes, K::Ok, K::Err];
    rep.absorb(explore(cfg, jobs.len() as u64, |w, i| {
        let (shape, n, a, o) = jobs[i as usize];
        let mut fs = Fs::default();
        let mut names: Vec<String> = vec![];
        // one below the other; beside each other; in a directory each; of all kinds
        for k in 0..n {
            let p = match shape { 0 => format!("{}s{k}.papyri", "d/".repeat(k + 1)), 1 => format!("d/s{k}.papyri"), 2 => format!("d/e{k}/s.papyri"), _ => format!("d/{}s{k}.papyri", ["", "z/", "y/x/"][k % 3]) };
            let id: String = p.chars().filter(|c| c.is_ascii_alphanumeric()).collect();
            let k = if shape == 3 { kinds[k % (if a % 2 == 0 { kinds.len() - 1 } else { kinds.len() })] } else { K::Ok };
            fs.add(&format!("c/{p}"), Node::File(k, source(k, &id), 10 * SEC));
            names.push(p);
        }
        let args: Vec<String> = match a { 0 => vec![], 1 => vec!["d".into()], 2 => vec!["**/*.papyri".into()], 3 => names, _ => vec!["d/../d".into(), "d/*".into(), "d/s0.papyri".into()] };
        let top = cli::fresh(&root.join(format!("s{}", w.id)));
        std::fs::create_dir_all(top.join("c")).expect("mkdir");
        fs.write(&top);
        check(w, cfg, &top, &format!("{n} sources, shape {shape}, arguments {a}"), &fs, &args, &opts[o], i % 2 == 1);
    }));
}
/// Runs, edits and deletions in sequence.
fn histories(cfg: &Cfg, rep: &mut Report, root: &Path) {
    const OPS: usize = 10;
    let depth = cfg.q(4, 5);
    let plain = Opts {out: None, text: false, skip: true, silent: false, nowarn: false};
    rep.absorb(explore(cfg, num_seqs(OPS as u64, 1, depth), |w, i| {
        let h = nth_seq(i, OPS as u64, 1, depth);
        // the last step is a run, and the first an edit only if it matters
        if *h.last().unwrap() > 3 { return; }
        let top = cli::fresh(&root.join(format!("h{}", w.id)));
        let mut fs = Fs::default();
        file(&mut fs, "c/a.papyri", K::Ok);
        file(&mut fs, "c/d/b.papyri", K::Writes);
        file(&mut fs, "c/d/l.lib.papyri", K::Ok);
        fs.write(&top);
        let mut clock = 100 * SEC;
        for (step, op) in h.iter().enumerate() {
            clock += SEC;
            let mut edit = |fs: &mut Fs, p: &str, k: K, id: String, t: i64| { let n = Node::File(k, source(k, &id), t); fs.add(p, n); let q = top.join(p); std::fs::write(&q, source(k, &id)).expect("write"); settime(&q, t); };
            match op {
                0..=3 => {
                    let o = match op { 0 => plain.clone(), 1 => Opts {text: true, ..plain.clone()}, 2 => Opts {out: Some("out"), ..plain.clone()}, _ => Opts {skip: false, ..plain.clone()} };
                    let label = format!("history {h:?} step {step}");
                    check(w, cfg, &top, &label, &fs, &[], &o, false);
                    let p = plan(&fs, &[], &o);
                    for f in p.files.keys() {
                        let q = top.join(f.join("/"));
                        if !q.is_file() { return; }
                        settime(&q, clock);
                        fs.add(&f.join("/"), Node::File(K::Raw, std::fs::read_to_string(&q).unwrap_or_default(), clock));
                    }
                },
                4 => edit(&mut fs, "c/a.papyri", K::Ok, format!("a{step}"), clock),
                5 => edit(&mut fs, "c/a.papyri", K::Err, format!("a{step}"), clock),
                6 => edit(&mut fs, "c/a.papyri", K::Empty, format!("a{step}"), clock),
                // a new text with an old time
                7 => edit(&mut fs, "c/a.papyri", K::Ok, format!("old{step}"), 10 * SEC),
                8 => for p in ["c/a.html", "c/d/b.html", "c/out/a.html", "c/a.txt"] { if fs.n.remove(&split(p)).is_some() { std::fs::remove_file(top.join(p)).expect("remove"); } },
                _ => edit(&mut fs, "c/d/b.papyri", K::Ok, format!("b{step}"), clock),
            }
        }
    }));
}
