//! C12: modules.
use crate::ast::*;
use crate::engine::*;
use crate::html::{self, Node};
use crate::prog::show;
use crate::sem::{self, Loader};
use std::cell::RefCell;
use std::path::PathBuf;
use std::rc::Rc;

fn b<T>(t: T) -> Box<T> { Box::new(t) }
fn e(x: E) -> A { A::E(x) }
fn import(p: &str) -> E { call("import", vec![], s(p)) }
fn include(p: &str) -> E { call("include", vec![], s(p)) }
fn uid() -> E { call("str::unique_id", vec![], s("id")) }
/// an error of a module, whose message is of no other
fn raise(n: &str) -> A { e(call("raise", vec![], s(&format!("broken-{n}-module")))) }

/// A tree of source files; paths are relative to its root, `main` is compiled.
#[derive(Default, Clone)]
pub struct Tree { pub files: Vec<(String, Vec<A>)>, bad: Vec<String>, dirs: Vec<String>, links: Vec<(String, String)> }
impl Tree {
    pub fn file(mut self, p: &str, d: Vec<A>) -> Tree { self.files.push((p.into(), d)); self }
    /// a file which is not text
    fn unreadable(mut self, p: &str) -> Tree { self.bad.push(p.into()); self }
}

thread_local! { static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) }; static COUNT: RefCell<u64> = const { RefCell::new(0) }; }

/// IDs are named in the order in which they appear.
fn canon_ids(s: &str) -> String {
    let mut out = String::new();
    let mut seen: Vec<String> = vec![];
    let mut rest = s;
    while let Some(i) = rest.find("id") {
        out += &rest[..i];
        let r = &rest[i + 2..];
        let n = if r.starts_with('_') { 1 + r[1..].chars().take_while(|c| c.is_ascii_digit()).count() } else { 0 };
        let n = if n == 1 { 0 } else { n };
        let id = rest[i..i + 2 + n].to_string();
        let k = seen.iter().position(|x| *x == id).unwrap_or_else(|| { seen.push(id); seen.len() - 1 });
        out += &format!("id#{k}");
        rest = &r[n..];
    }
    out + rest
}

/// How the main file is compiled: with the library by its absolute path, or with the command by a relative one.
#[derive(Clone, Copy, PartialEq)]
enum How { Load, Command(usize) }
const WHERE: &[(&str, &str)] = &[("", "main.papyri"), ("", "./main.papyri"), ("lib", "../main.papyri"), ("sub", "../sub/../main.papyri")];

pub fn judge(w: &mut Worker, root: &PathBuf, tree: &Tree) { judge_how(w, root, tree, How::Load, None) }
fn judge_how(w: &mut Worker, root: &PathBuf, tree: &Tree, how: How, cfg: Option<&Cfg>) {
    // a new place for each tree, since modules are cached by their paths
    let n = COUNT.with(|c| { *c.borrow_mut() += 1; *c.borrow() });
    let base = root.join(format!("w{}", w.id)).join(n.to_string());
    let mut ok = std::fs::create_dir_all(&base).is_ok();
    let bs = base.to_string_lossy().to_string();
    let put = |p: &str| base.join(p);
    let mut l = Loader::default();
    let mut at = String::new();
    for seg in bs.split('/').filter(|s| !s.is_empty()) { at = format!("{at}/{seg}"); l.dirs.insert(at.clone()); }
    for d in &tree.dirs { ok &= std::fs::create_dir_all(put(d)).is_ok(); let mut at = bs.clone(); for seg in d.split('/') { at = format!("{at}/{seg}"); l.dirs.insert(at.clone()); } }
    let fill = |s: String| s.replace("{ROOT}", &bs);
    let mut listing = String::new();
    for (p, d) in &tree.files {
        let src = fill(print(d));
        listing += &format!("--- {p}\n{src}\n");
        ok &= std::fs::write(put(p), src).is_ok();
        l.files.insert(format!("{bs}/{p}"), fill_doc(d, &bs));
    }
    for p in &tree.bad {
        listing += &format!("--- {p}\n(bytes which are not UTF-8)\n");
        ok &= std::fs::write(put(p), b"x \xff").is_ok();
        l.files.insert(format!("{bs}/{p}"), vec![raise("unreadable")]);
    }
    for (a, t) in &tree.links { ok &= std::os::unix::fs::symlink(put(t), put(a)).is_ok(); l.links.push((format!("{bs}/{a}"), format!("{bs}/{t}"))); listing += &format!("--- {a} -> {t}\n"); }
    assert!(ok, "cannot write the files of a tree");
    let l = Rc::new(l);
    let main = format!("{bs}/main.papyri");
    let want = sem::expect_file(&l, &main);
    let out = match how {
        How::Load => w.load(&put("main.papyri")),
        How::Command(k) => {
            let r = crate::cli::run(cfg.unwrap(), &put(WHERE[k].0), &[WHERE[k].1]);
            let html = std::fs::read_to_string(put("main.html")).ok();
            listing += &format!("--- in {:?}: papyri {}\n", WHERE[k].0, WHERE[k].1);
            w.stats.evaluations += 1;
            // no file is written for an empty output
            let ok = r.code == Some(0);
            Out {html: html.unwrap_or_default(), diag: format!("{}{}", r.stdout, r.stderr), num_errors: !ok as u32, load_err: (ok == r.stderr.contains("failed") || !matches!(r.code, Some(0 | 1))).then(|| format!("exit {:?}", r.code)), ..Out::default()}
        },
    };
    let log = l.log.borrow().iter().map(|p| p.strip_prefix(&bs).unwrap_or(p).to_string()).collect::<Vec<_>>();
    let _ = std::fs::remove_dir_all(&base);
    let Ok(want) = want else { w.stats.count("skipped: out of fuel"); return };
    w.stats.transitions += log.len() as u64;
    w.stats.state(&log);
    w.sample(|| format!("{listing}=> {}", show(&want)));
    let same = match (out.ok_html(), &want) {
        (None, None) => out.panic.is_none() && out.load_err.is_none(),
        (Some(a), Some(b)) => { let (a, b) = (canon_ids(a), canon_ids(b)); a == b || same_tree(&a, &b) },
        _ => false,
    };
    // a module which fails is not compiled again: its error is reported once
    let again: Vec<&str> = tree.files.iter().map(|f| f.0.trim_end_matches(".papyri")).filter(|n| out.diag.matches(&format!("broken-{n}-module")).count() > 1).collect();
    let again = if out.diag.matches("valid UTF-8").count() > tree.bad.len() { vec!["a file which cannot be read"] } else { again };
    if !again.is_empty() { w.stats.violation(format!("again: {listing}"), format!("{listing}\ncompiled again after an error: {again:?}\ncompiler: {}", out.describe())); }
    else if same {
        if want.is_some() { w.stats.nontrivial_count += 1; } else { w.stats.count("errors expected and reported"); }
    } else {
        w.stats.violation(listing.clone(), format!("{listing}\nmodules compiled by the reference loader: {log:?}\nexpected: {}\ncompiler: {}", show(&want), out.describe()));
    }
}
fn same_tree(a: &str, b: &str) -> bool { match (html::parse(a), html::parse(b)) { (Ok(a), Ok(b)) => { let (a, b): (Vec<Node>, Vec<Node>) = (html::norm(&a), html::norm(&b)); a == b }, _ => false } }

/// The model needs the real root in absolute paths.
fn fill_doc(d: &[A], root: &str) -> Vec<A> {
    fn ex(x: &E, r: &str) -> E {
        match x {
            E::Str(s) => E::Str(s.replace("{ROOT}", r)),
            E::Call(n, a, c) => E::Call(n.clone(), a.clone(), b(ex(c, r))),
            E::Let(i, v, c) => E::Let(*i, v.iter().map(|(k, x)| (k.clone(), ex(x, r))).collect(), b(ex(c, r))),
            E::Group(c) => E::Group(fill_doc(c, r)),
            E::List(v) => E::List(v.iter().map(|(x, s)| (ex(x, r), *s)).collect()),
            x => x.clone(),
        }
    }
    d.iter().map(|a| match a { A::E(x) => A::E(ex(x, root)), a => a.clone() }).collect()
}

// ---------- graphs ----------
/// How a module uses another one.
fn edge(kind: usize, target: &str) -> Vec<A> {
    match kind {
        0 => vec![e(let1("k", import(target), group(vec![t("("), e(v("k::v")), t(")")])))],
        1 => vec![t("("), e(include(target)), t(")")],
        // a function which is not called
        2 => vec![def(&format!("f{target}"), vec![], None, import(target))],
        // through the name of the function, in a list
        3 => vec![e(call("list::map", vec![Arg::Pos(v("import"))], list(vec![s(target), s(target)])))],
        _ => vec![A::ExportNames(vec![(format!("x{target}"), import(target))])],
    }
}
/// A module's own part: its name, an ID, and what it exports.
fn module(name: &str, state: usize, edges: Vec<Vec<A>>) -> Option<Vec<A>> {
    let mut d = vec![];
    for x in edges { d.extend(x); }
    d.push(t(name));
    d.push(A::ExportNames(vec![("v".into(), E::Group(vec![t(name), t("."), e(uid())]))]));
    match state {
        0 => {},
        1 => d.push(raise(name)),
        2 => d.insert(0, A::Raw("<b>".into(), vec![raise(name)])),
        3 => return None,
        _ => d = vec![],
    }
    Some(d)
}

fn graphs(cfg: &Cfg, rep: &mut Report, root: &PathBuf) {
    let names = ["m", "n", "o", "p"];
    let files = ["main", "m", "n", "o", "p"];
    // lists of up to two edges out of each of three files, to two modules, the main file and a missing one
    let targets: &[&str] = if cfg.quick() { &["m", "n", "main"] } else { &["m", "n", "main", "gone"] };
    let nt = targets.len();
    let kinds = cfg.q(2, 3) as u64;
    let k = targets.len() as u64 * kinds;
    let per = num_seqs(k, 0, 2);
    rep.absorb(explore(cfg, per.pow(3), |w, i| {
        let d = digits(i, &[per; 3]);
        let lists: Vec<Vec<usize>> = d.into_iter().map(|x| nth_seq(x as u64, k, 0, 2)).collect();
        // only what the main file can reach matters
        let mut reach = [true, false, false];
        loop {
            let mut more = false;
            for f in 0..3 { if reach[f] { for x in &lists[f] { let g = match x % nt { 0 => 1, 1 => 2, _ => 0 }; if !reach[g] { reach[g] = true; more = true; } } } }
            if !more { break; }
        }
        if (0..3).any(|f| !reach[f] && !lists[f].is_empty()) { return; }
        let mut tree = Tree::default();
        for f in 0..3 { tree = tree.file(&format!("{}.papyri", files[f]), module(files[f], 0, lists[f].iter().map(|x| edge(x / nt, targets[x % nt])).collect()).unwrap()); }
        judge(w, root, &tree);
    }));
    // all graphs over three modules, in every state of each module
    let kinds = cfg.q(2, 5);
    let states = cfg.q(4u64, 5);
    rep.absorb(explore(cfg, (1 << 12) * states.pow(3) * kinds as u64, |w, i| {
        let d = digits(i, &[1 << 12, states, states, states, kinds as u64]);
        let adj = |f: usize, g: usize| d[0] >> (f * 3 + g) & 1 == 1;
        let mut reach = [false; 3];
        loop {
            let mut more = false;
            for g in 0..3 { if !reach[g] && (adj(0, g) || (0..3).any(|f| reach[f] && adj(f + 1, g))) { reach[g] = true; more = true; } }
            if !more { break; }
        }
        if (0..3).any(|f| !reach[f] && (d[1 + f] != 0 || (0..3).any(|g| adj(f + 1, g)))) { return; }
        // a missing or empty module has no edges
        if (0..3).any(|f| d[1 + f] >= 3 && (0..3).any(|g| adj(f + 1, g))) { return; }
        let mut tree = Tree::default();
        for f in 0..4 {
            if f > 0 && !reach[f - 1] { continue; }
            let edges = (0..3).filter(|g| adj(f, *g)).map(|g| edge((d[4] + if kinds == 2 { f } else { 0 }) % kinds, names[g])).collect();
            if let Some(m) = module(files[f], if f == 0 { 0 } else { d[f] }, edges) { tree = tree.file(&format!("{}.papyri", files[f]), m); }
        }
        judge(w, root, &tree);
    }));
    // acyclic graphs over four modules; one of them may fail, or its file is not text
    rep.absorb(explore(cfg, (1 << 10) * 9 * 6, |w, i| {
        let d = digits(i, &[1 << 10, 9, 6]);
        let (mut tree, mut bit) = (Tree::default(), 0);
        for f in 0..5 {
            let mut edges = vec![];
            for g in f..4 { if d[0] >> bit & 1 == 1 { edges.push(edge(if d[2] == 5 { f + g } else { d[2] } % 5, names[g])); } bit += 1; }
            if f % 2 == 1 { edges.reverse(); }
            let at = format!("{}.papyri", files[f]);
            // (it uses no others)
            if d[1] == f + 4 && f > 0 { if !edges.is_empty() { return; } tree = tree.unreadable(&at); continue; }
            tree = tree.file(&at, module(files[f], (f > 0 && d[1] == f) as usize, edges).unwrap());
        }
        judge(w, root, &tree);
    }));
    // long chains which end, fail, or come back to an earlier module, entered at two places
    let long = 9usize;
    rep.absorb(explore(cfg, (long * (long + 4) * 3 * long) as u64, |w, i| {
        let d = digits(i, &[long as u64, long as u64 + 4, 3, long as u64]);
        let (n, to, kinds, second) = (d[0] + 1, d[1], d[2], d[3]);
        if to >= n && to < long || second > n { return; }
        let file = |k: usize| format!("c{k}");
        let mut main = edge(kinds % 2, &file(0));
        if second > 0 { main.extend(edge(0, &file(second - 1))); }
        let mut tree = Tree::default().file("main.papyri", module("main", 0, vec![main]).unwrap());
        for k in 0..n {
            let kind = if kinds == 2 { k % 2 } else { kinds };
            let mut edges = vec![];
            if k + 1 < n { edges.push(edge(kind, &file(k + 1))); }
            // at the end
            else if to < n { edges.push(edge(kind, &file(to))); }
            else if to == long { edges.push(edge(kind, "main")); }
            else if to == long + 1 { edges.push(edge(kind, "gone")); }
            tree = tree.file(&format!("{}.papyri", file(k)), module(&file(k), (k + 1 == n && to == long + 2) as usize, edges).unwrap());
        }
        judge(w, root, &tree);
    }));
    // chains which are much longer
    let lens: &[usize] = if cfg.quick() { &[17, 33, 65] } else { &[16, 17, 20, 32, 33, 34, 50, 64, 65, 66, 100, 128, 129] };
    rep.absorb(explore(cfg, (lens.len() * 5 * 3) as u64, |w, i| {
        let d = digits(i, &[lens.len() as u64, 5, 3]);
        let (n, end, kinds) = (lens[d[0]], d[1], d[2]);
        let file = |k: usize| format!("c{k}");
        let mut tree = Tree::default().file("main.papyri", module("main", 0, vec![edge(kinds % 2, &file(0)), edge(0, &file(n / 2))]).unwrap());
        for k in 0..n {
            let kind = if kinds == 2 { k % 2 } else { kinds };
            let edges = if k + 1 < n { vec![edge(kind, &file(k + 1))] } else { match end { 1 => vec![edge(kind, &file(n / 3))], 2 => vec![edge(kind, "main")], 3 => vec![edge(kind, "gone")], _ => vec![] } };
            tree = tree.file(&format!("{}.papyri", file(k)), module(&file(k), (k + 1 == n && end == 4) as usize, edges).unwrap());
        }
        judge(w, root, &tree);
    }));
    // many modules used by one, each twice
    rep.absorb(explore(cfg, (lens.len() * 5) as u64, |w, i| {
        let d = digits(i, &[lens.len() as u64, 5]);
        let n = lens[d[0]];
        let file = |k: usize| format!("c{k}");
        let mut tree = Tree::default().file("main.papyri", module("main", 0, (0..2 * n).map(|k| edge(if d[1] == 4 { k % 2 } else { d[1].min(1) }, &file(if d[1] == 2 { k / 2 } else if d[1] == 3 { (2 * n - 1 - k) % n } else { k % n }))).collect()).unwrap());
        for k in 0..n { tree = tree.file(&format!("{}.papyri", file(k)), module(&file(k), 0, if d[1] == 4 && k > 0 { vec![edge(0, &file(k / 2))] } else { vec![] }).unwrap()); }
        judge(w, root, &tree);
    }));
    if cfg.quick() { return; }
    // graphs over four modules; one of them may fail
    rep.absorb(explore(cfg, (1 << 20) * 5, |w, i| {
        let d = digits(i, &[1 << 20, 5]);
        let adj = |f: usize, g: usize| d[0] >> (f * 4 + g) & 1 == 1;
        let mut reach = [false; 4];
        loop {
            let mut more = false;
            for g in 0..4 { if !reach[g] && (adj(0, g) || (0..4).any(|f| reach[f] && adj(f + 1, g))) { reach[g] = true; more = true; } }
            if !more { break; }
        }
        if reach != [true; 4] { return; }
        // cyclic graphs are covered above: only those which can pass, and those with one cycle through the last module
        if (0..4).any(|f| adj(f + 1, f)) { return; }
        let mut tree = Tree::default();
        for f in 0..5 {
            let edges = (0..4).filter(|g| adj(f, *g)).map(|g| edge((f + g) % 2, names[g])).collect();
            tree = tree.file(&format!("{}.papyri", files[f]), module(files[f], (f > 0 && d[1] == f) as usize, edges).unwrap());
        }
        judge(w, root, &tree);
    }));
}

// ---------- paths ----------
fn paths_tree() -> Tree {
    let m = |n: &str| module(n, 0, vec![]).unwrap();
    Tree {dirs: ["sub/deep", "lib", "d.papyri"].map(String::from).to_vec(), ..Tree::default()}
        .file("m.papyri", m("m")).file("m.lib.papyri", m("mlib")).file("M.papyri", m("bigm")).file("m.papyri.papyri", m("mm")).file("sp ace.papyri", m("space")).file(".papyri", m("dot"))
        .file("x.PAPYRI", m("upper")).file("x.PAPYRI.papyri", m("upper2")).file("noext", m("noext"))
        .file("sub/m.papyri", m("subm")).file("sub/deep/m.papyri", m("deepm"))
        .file("sub/n.papyri", module("subn", 0, vec![edge(0, "m"), edge(0, "../m"), edge(0, "deep/m"), edge(1, "deep/n")]).unwrap())
        .file("sub/deep/n.papyri", module("deepn", 0, vec![edge(0, "../m"), edge(0, "m"), edge(0, "../../m")]).unwrap())
}
const SPELLINGS: &[&str] = &["m", "./m", "m.papyri", "sub/../m", "sub/m", "sub//m", "sub/./m", "sub/deep/../m", "sub/deep/m", "{ROOT}/m", "{ROOT}/sub/m.papyri", "{ROOT}/sub/../m", "m.lib", "m.lib.papyri", "M", "m.papyri.papyri", "gone/../m", "m/../m", "sub", "d", "", ".", "..", "/", "sub/", "../m", "sp ace", "x.PAPYRI", "x", "noext", "link", "ld/m", "ld/../m", "sub/n", "ld/n", "sub/deep/n", "m ", "m\u{0}", "dangling", "sub/n.papyri/", "far", "lib/far", "lib/../far", "le/n", "le/m", "le/../m", "le/../n", "lib/up/n", "lib/up/../m", "lib/up/../../m"];

fn paths(cfg: &Cfg, rep: &mut Report, root: &PathBuf) {
    let n = SPELLINGS.len() as u64;
    // two paths to modules, from the main file and from a module elsewhere, imported or included
    rep.absorb(explore(cfg, n * n * 4, |w, i| {
        let d = digits(i, &[n, n, 4]);
        if d[2] > 1 && d[1] > 0 && cfg.quick() && d[1] % 3 != 0 { return; }
        let mut tree = paths_tree();
        tree.links = vec![("link.papyri".into(), "m.papyri".into()), ("ld".into(), "sub".into()), ("dangling.papyri".into(), "gone.papyri".into()), ("far.papyri".into(), "sub/n.papyri".into()), ("lib/far.papyri".into(), "../sub/deep/n.papyri".into()), ("le".into(), "sub/deep".into()), ("lib/up".into(), "../sub/deep".into())];
        let (p, q) = (SPELLINGS[d[0]], SPELLINGS[d[1]]);
        let use_ = |k: usize, p: &str| if p == "m\u{0}" { edge_raw(k) } else { edge(k, p) };
        let main = match d[2] {
            0 => [use_(0, p), use_(0, q)].concat(),
            1 => [use_(1, p), use_(0, q)].concat(),
            // the function of another module, written there
            2 => [vec![e(let1("k", import("lib/f"), call("k::f", vec![], s(p))))], edge(0, q)].concat(),
            // our function, called there
            _ => [vec![def("g", vec![], content("p"), call("import", vec![], v("p"))), e(let1("k", import("lib/f"), call("k::h", vec![Arg::Pos(v("g"))], s(p))))], edge(0, q)].concat(),
        };
        tree = tree.file("main.papyri", main)
            .file("lib/m.papyri", module("libm", 0, vec![]).unwrap())
            .file("lib/f.papyri", vec![
                A::ExportDef(std::sync::Arc::new(FnDef {name: Some("f".into()), params: vec![], content: content("p"), body: call("import", vec![], v("p"))})),
                A::ExportDef(std::sync::Arc::new(FnDef {name: Some("h".into()), params: vec![Param::new("_f", PK::Pos)], content: content("p"), body: call("_f", vec![], v("p"))}))]);
        judge(w, root, &tree);
    }));
}
fn relative(cfg: &Cfg, rep: &mut Report, root: &PathBuf) {
    // two paths to modules from the main file, which is compiled by a relative path
    let n = SPELLINGS.len() as u64;
    rep.absorb(explore(cfg, n * n * cfg.q(1, 4), |w, i| {
        let d = digits(i, &[n, n, 4]);
        let k = if cfg.quick() { (d[0] + d[1]) % 4 } else { d[2] };
        let mut tree = paths_tree().file("lib/m.papyri", module("libm", 0, vec![]).unwrap());
        tree.links = vec![("link.papyri".into(), "m.papyri".into()), ("ld".into(), "sub".into()), ("dangling.papyri".into(), "gone.papyri".into()), ("far.papyri".into(), "sub/n.papyri".into()), ("lib/far.papyri".into(), "../sub/deep/n.papyri".into()), ("le".into(), "sub/deep".into()), ("lib/up".into(), "../sub/deep".into())];
        let (p, q) = (SPELLINGS[d[0]], SPELLINGS[d[1]]);
        let use_ = |k: usize, p: &str| if p == "m\u{0}" { edge_raw(k) } else { edge(k, p) };
        tree = tree.file("main.papyri", [use_((d[0] > d[1]) as usize, p), use_(0, q)].concat());
        judge_how(w, root, &tree, How::Command(k), Some(cfg));
    }));
}
/// a path with a NUL in it
fn edge_raw(k: usize) -> Vec<A> {
    let p = E::Raw("\"m\\x00\"".into(), b(s("m\u{0}")));
    vec![e(call(if k == 0 { "import" } else { "include" }, vec![], p))]
}

// ---------- what modules define ----------
fn fd(n: &str, params: Vec<Param>, c: Option<Param>, body: E) -> std::sync::Arc<FnDef> { std::sync::Arc::new(FnDef {name: Some(n.into()), params, content: c, body}) }
/// parts of a module
fn part(k: usize) -> Vec<A> {
    match k {
        0 => vec![A::ExportNames(vec![("a".into(), s("1"))])],
        1 => vec![A::ExportNames(vec![("b".into(), E::Int(2)), ("a".into(), s("3"))])],
        2 => vec![A::ExportDef(fd("a", vec![], None, s("4")))],
        3 => vec![A::ExportDef(fd("f", vec![], content("x"), group(vec![e(v("x")), e(v("loc"))])))],
        4 => vec![A::ExportLet(vec![("a".into(), s("5")), ("b".into(), v("a"))], E::Unit)],
        5 => vec![def("loc", vec![], None, s("6"))],
        6 => vec![t("T"), A::Para, e(tag("p", vec![], vec![t("q")]))],
        7 => vec![e(E::Let(true, vec![("imp".into(), s("7"))], b(group(vec![A::ExportDef(fd("g", vec![Param::new("imp", PK::Named).ty(Ty::Str).imp()], None, v("imp")))]))))],
        8 => vec![A::ExportDef(fd("h", vec![Param::new("imp", PK::Named).ty(Ty::Str).imp()], None, v("imp"))), A::ExportDef(fd("j", vec![], None, call("h", vec![], E::Unit)))],
        9 => vec![e(include("other"))],
        10 => vec![A::ExportNames(vec![("k".into(), import("other"))])],
        11 => vec![A::ExportNames(vec![("l".into(), v("a"))])],
        12 => vec![e(tag("li", vec![], vec![t("z")]))],
        13 => vec![A::ExportNames(vec![("z".into(), v("z"))])],
        _ => vec![e(let1("a", s("8"), group(vec![A::ExportDef(fd("m", vec![], None, v("a")))])))],
    }
}
/// names which look like something else
const HARD: &[&str] = &["_u", "__", "_9", "a1", "Aa", "aA", "a_b_", "u_", "import", "include", "raise", "typeof", "main", "m", "papyri", "text", "none", "fn_", "X"];
fn names(cfg: &Cfg, rep: &mut Report, root: &PathBuf) {
    let n = HARD.len() as u64;
    rep.absorb(explore(cfg, n * n * 4 * 6, |w, i| {
        let d = digits(i, &[n, n, 4, 6]);
        let (x, y) = (HARD[d[0]], HARD[d[1]]);
        if x == y { return; }
        if d[3] == 4 && [x, y].iter().any(|n| n.starts_with('_')) { return; }
        let two = |l: Vec<(String, E)>| A::ExportNames(l);
        let m = match d[2] {
            0 => vec![two(vec![(x.into(), s("1")), (y.into(), s("2"))])],
            1 => vec![two(vec![(x.into(), s("1"))]), A::ExportDef(fd(y, vec![], None, s("2")))],
            2 => vec![A::ExportLet(vec![(x.into(), s("1")), (y.into(), s("2"))], E::Unit)],
            _ => vec![A::ExportLet(vec![(x.into(), s("1"))], E::Unit), e(E::Let(true, vec![(y.into(), s("2"))], b(group(vec![t("i"), e(v(y))]))))],
        };
        let k = || list(vec![v("q"), v("r")]);
        let main = match d[3] {
            0 => vec![e(let1("k", import("m"), group(vec![e(v(&format!("k::{x}"))), t("/"), e(v(&format!("k::{y}")))])))],
            1 => vec![e(include("m")), t("/"), e(v(x)), t("/"), e(v(y))],
            2 => vec![e(let1("k", call("dict::keys", vec![], import("m")), v("k")))],
            3 => vec![e(include("m")), t("/"), e(v(x)), e(include("other"))],
            4 => vec![e(E::Match(b(import("m")), vec![(Pat::Dict(vec![(y.into(), Pat::Var("r".into())), (x.into(), Pat::Var("q".into()))], None), let1("l", k(), v("l"))), (Pat::Dict(vec![(x.into(), Pat::Var("q".into()))], Some(b(Pat::Var("r".into())))), let1("l", call("dict::len", vec![], v("r")), v("l"))), (Pat::Ignore, s("no"))]))],
            _ => vec![def("u", vec![], None, group(vec![e(include("m")), e(v(x))])), e(call("u", vec![], E::Unit)), e(v(y))],
        };
        let other = vec![t("O"), A::ExportNames(vec![(y.into(), s("3"))])];
        judge(w, root, &Tree::default().file("main.papyri", main).file("m.papyri", m).file("other.papyri", other));
    }));
}
const PARTS: u64 = 15;
/// uses of the module in the main file
fn usage(k: usize) -> Vec<A> {
    let m = |body: E| vec![e(let1("k", import("m"), body))];
    let show = |n: &str| e(v(n));
    match k {
        0 => m(v("k")),
        1 => m(group(vec![show("k::a"), show("k::b")])),
        2 => vec![e(include("m")), t("/"), show("a")],
        3 => vec![e(include("m")), t("/"), e(call("f", vec![], s("c")))],
        4 => m(call("k::g", vec![], E::Unit)),
        5 => vec![e(E::Let(true, vec![("imp".into(), s("8"))], b(group(vec![e(let1("k", import("m"), call("k::h", vec![], E::Unit)))]))))],
        6 => vec![e(E::Let(true, vec![("imp".into(), s("8"))], b(group(vec![e(let1("k", import("m"), call("k::j", vec![], E::Unit)))]))))],
        7 => vec![def("a", vec![], None, s("9")), e(include("m")), e(call("a", vec![], E::Unit))],
        8 => vec![def("loc", vec![], None, s("10")), e(include("m")), e(call("f", vec![], s("c")))],
        9 => vec![e(let1("y", include("m"), group(vec![t("x"), show("y"), show("y"), show("a")])))],
        10 => vec![e(let1("y", include("m"), group(vec![]))), show("a")],
        11 => vec![def("u", vec![], None, group(vec![e(include("m")), show("b")])), e(call("u", vec![], E::Unit)), e(call("u", vec![], E::Unit)), show("b")],
        12 => vec![e(tag("ul", vec![], vec![e(include("m")), show("z")]))],
        13 => vec![e(tag("b", vec![], vec![e(include("m"))])), show("k")],
        14 => vec![e(E::Match(b(import("m")), vec![(Pat::Dict(vec![("a".into(), Pat::Var("q".into()))], Some(b(Pat::Ignore))), v("q")), (Pat::Ignore, s("no a"))]))],
        15 => vec![e(call("list::map", vec![Arg::Pos(v("include"))], list(vec![s("m"), s("other")]))), show("a")],
        16 => vec![def("u", vec![Param::new("k", PK::Named).def(import("m"))], None, v("k::a")), e(call("u", vec![], E::Unit))],
        17 => vec![e(let1("k", import("m"), let1("l", import("m"), list(vec![v("k"), v("l")]))))],
        18 => vec![e(E::Let(false, vec![("z".into(), s("11")), ("k".into(), import("m"))], b(v("k"))))],
        19 => vec![e(include("m")), e(include("m")), show("l")],
        20 => vec![e(include("m")), e(include("other")), show("a"), show("o")],
        21 => vec![e(call("typeof", vec![], import("m")))],
        _ => vec![e(E::Match(b(E::Int(1)), vec![(Pat::And(b(Pat::Var("w".into())), b(Pat::Eq(include("m")))), s("no")), (Pat::Ignore, v("a"))]))],
    }
}
const USES: u64 = 23;
fn contents(cfg: &Cfg, rep: &mut Report, root: &PathBuf) {
    let len = cfg.q(2, 3);
    let n = num_seqs(PARTS, 0, len);
    rep.absorb(explore(cfg, n * USES, |w, i| {
        let m: Vec<A> = nth_seq(i / USES, PARTS, 0, len).into_iter().flat_map(part).collect();
        let other = vec![t("O"), A::ExportNames(vec![("o".into(), s("12")), ("a".into(), s("13"))])];
        judge(w, root, &Tree::default().file("main.papyri", usage((i % USES) as usize)).file("m.papyri", m).file("other.papyri", other));
    }));
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every import/include graph up to the bound with every state of each module, every pair of path spellings, and every combination of parts of a module with uses of it, compared with a reference module loader and interpreter; each module gives out an ID when it is compiled, so that being compiled twice is seen; a state is a distinct history of module compilations");
    let root = scratch(cfg);
    graphs(cfg, &mut rep, &root);
    paths(cfg, &mut rep, &root);
    relative(cfg, &mut rep, &root);
    contents(cfg, &mut rep, &root);
    names(cfg, &mut rep, &root);
    remove_scratch(&root);
    rep
}
