//! C23: the file functions read the right files, whole, and list exactly the sources.
use crate::cli;
use crate::engine::*;
use crate::html::{self, El, Node};
use std::collections::BTreeMap;
use std::os::unix::fs::symlink;
use std::path::Path;

fn lit(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '\\' | '"' | '$' | '`' | '{' | '}' => { o.push('\\'); o.push(c) }, '\n' => o += "\\n", c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\x{:02x}", c as u32), c => o.push(c) } } format!("\"{o}\"") }
/// The elements of a name, in order.
fn find<'a>(ns: &'a [Node], name: &str, out: &mut Vec<&'a El>) {
    for n in ns { if let Node::El(e) = n { if e.name == name { out.push(e); } else { find(&e.children, name, out); } } }
}
fn text(ns: &[Node]) -> String { ns.iter().map(|n| match n { Node::Text(t) => t.clone(), Node::El(e) => text(&e.children) }).collect() }
fn title(e: &El) -> String { e.attrs.iter().find(|a| a.0 == "title").and_then(|a| a.1.clone()).unwrap_or("(no title)".into()) }
/// What each `<div>` of the output has: the titles in it, or else its list items or its text.
fn divs(h: &str) -> Result<Vec<Vec<String>>, String> {
    let ns = html::parse(h)?;
    let mut v = vec![];
    find(&ns, "div", &mut v);
    Ok(v.into_iter().map(|d| {
        let (mut b, mut li) = (vec![], vec![]);
        find(&d.children, "b", &mut b);
        find(&d.children, "li", &mut li);
        if !b.is_empty() { b.into_iter().map(title).collect() } else if !li.is_empty() { li.into_iter().map(|e| text(&e.children)).collect() } else { vec![text(&d.children)].into_iter().filter(|s| !s.is_empty()).collect() }
    }).collect())
}
fn check(w: &mut Worker, key: String, detail: &str, out: &Out, want: &Option<Vec<Vec<String>>>) {
    w.stats.transitions += 1;
    w.stats.state(want);
    let got = out.ok_html().map(divs);
    let same = match (&got, want) {
        (None, None) => out.panic.is_none() && out.num_errors > 0,
        (Some(Ok(a)), Some(b)) => a == b,
        _ => false,
    };
    w.sample(|| format!("{detail}=> {want:?}"));
    if want.is_some() { w.stats.nontrivial_count += 1; } else { w.stats.count("errors expected and reported"); }
    if !same { w.stats.violation(key, format!("{detail}\nexpected: {want:?}\ngot: {got:?}\ncompiler: {}", out.describe())); }
}

// ---------- listing ----------
/// What may stand in the directory: files with their contents (a source has its own text), directories, links.
#[derive(Clone, Copy)]
enum N { F(&'static str), L(&'static str) }
const ENTRIES: &[&[(&str, N)]] = &[
    &[("a.papyri", N::F("one"))], &[("B.PAPYRI", N::F("two"))], &[("c.txt", N::F("no"))], &[("x.papyri.papyri", N::F("three"))], &[(".h.papyri", N::F("four")), (".d/e.papyri", N::F("twelve")), ("_t/node_modules/.x.papyri", N::F("thirteen")), ("~/#b#.papyri", N::F("fourteen"))],
    &[("s p.papyri", N::F("five"))], &[("\u{e9}.papyri", N::F("six"))], &[("a/z.papyri", N::F("seven")), ("a/n.html", N::F("no"))], &[("sub.papyri/y.papyri", N::F("eight"))], &[("a-b.papyri", N::F("nine"))],
    &[("l.papyri", N::L("a.papyri"))], &[("out.papyri", N::L("../f.papyri"))], &[("o.papyri", N::L("c.txt"))], &[("dl", N::L("a"))], &[(".papyri", N::F("no"))], &[("up", N::L(".."))], &[("dead.papyri", N::L("gone"))],
    &[("m.lib.papyri", N::F("ten"))], &[("papyri", N::F("no"))], &[("z/z/z.Papyri", N::F("eleven"))], &[("k.txt", N::L("a-b.papyri"))],
];
/// A link needs what it leads to.
const NEEDS: &[(usize, usize)] = &[(10, 0), (12, 2), (13, 7), (20, 9)];
const SPELL: &[&str] = &["d", "d/", "./d", "d//", "d/../d", "ld", "ld/", "ABS/d", "d/.", "../w/d", "e/../ld"];

fn is_source(name: &str) -> bool { let l = name.to_ascii_lowercase(); l.ends_with(".papyri") && l.len() > 7 }
fn listed(base: &str, rel: &str) -> String {
    let p = format!("{}/{rel}", base.trim_end_matches('/'));
    match p.strip_suffix(".papyri") { Some(q) if !q.to_ascii_lowercase().ends_with(".papyri") => q.to_string(), _ => p }
}
fn put(top: &Path, rel: &str, n: N) {
    let p = top.join(rel);
    std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
    match n { N::F(s) => std::fs::write(&p, s).expect("write"), N::L(t) => symlink(t, &p).expect("link") }
}
fn listing(cfg: &Cfg, rep: &mut Report, root: &Path) {
    let bits = ENTRIES.len() as u32;
    let most = cfg.q(5, bits);
    rep.absorb(explore(cfg, 1 << bits, |w, i| {
        let n = i.count_ones();
        if n > most && n + cfg.q(1, 0) < bits { return; }
        if NEEDS.iter().any(|(a, b)| i >> a & 1 == 1 && i >> b & 1 == 0) { return; }
        let has = |k: usize| i >> k & 1 == 1;
        let top = cli::fresh(&root.join(format!("l{}/w", w.id)));
        let abs = top.to_string_lossy().to_string();
        std::fs::create_dir_all(top.join("d")).expect("mkdir");
        std::fs::create_dir_all(top.join("e")).expect("mkdir");
        put(&top, "ld", N::L("d"));
        put(&top, "f.papyri", N::F("outside"));
        // the sources, by their names in components
        let mut sources: BTreeMap<Vec<String>, &str> = BTreeMap::new();
        let mut shown = String::new();
        for (k, e) in ENTRIES.iter().enumerate() {
            if !has(k) { continue; }
            for (p, x) in *e {
                put(&top.join("d"), p, *x);
                shown += &match x { N::F(s) => format!("d/{p}: {s}\n"), N::L(t) => format!("d/{p} -> {t}\n") };
                if let N::F(s) = x { if is_source(p.rsplit('/').next().unwrap()) { sources.insert(p.split('/').map(String::from).collect(), s); } }
            }
        }
        let dead = has(16);
        let mut src = String::new();
        let mut want = vec![];
        for (k, sp) in SPELL.iter().enumerate() {
            let sp = sp.replace("ABS", &abs);
            let l = lit(&sp);
            src += &format!("<div>@list::map(@fn $p -> <b title=$p>.</b>) @file::list {l}</div>\n");
            want.push(sources.keys().map(|p| listed(&sp, &p.join("/"))).collect::<Vec<_>>());
            // and what the paths lead to
            if k % 4 == (i % 4) as usize {
                src += &format!("<div>@list::map($include) @file::list {l}</div>\n");
                want.push(sources.values().map(|s| s.to_string()).collect());
            }
        }
        std::fs::write(top.join("main.papyri"), &src).expect("write");
        let out = w.load(&top.join("main.papyri"));
        check(w, format!("{shown}"), &format!("{shown}main.papyri: {src}"), &out, &(!dead).then_some(want));
    }));
    // a directory with many sources, and one below many others
    let lens = cfg.q(40u64, 400);
    rep.absorb(explore(cfg, lens * 2, |w, i| {
        let d = digits(i, &[lens, 2]);
        let top = cli::fresh(&root.join(format!("n{}/w", w.id)));
        std::fs::create_dir_all(top.join("d")).expect("mkdir");
        let mut names: Vec<String> = vec![];
        if d[1] == 0 { for k in 0..d[0] { names.push(format!("f{k}.papyri")); } }
        else { let mut at = String::new(); for k in 0..d[0].min(60) { names.push(format!("{at}s{k}.papyri")); at += &format!("d{k}/"); } }
        for n in &names { put(&top.join("d"), n, N::F("t")); }
        names.sort_by_key(|n| n.split('/').map(String::from).collect::<Vec<_>>());
        let src = "<div>@list::map(@fn $p -> <b title=$p>.</b>) @file::list `d`</div><div>@list::map($include) @file::list `d`</div>";
        std::fs::write(top.join("main.papyri"), src).expect("write");
        let want = vec![names.iter().map(|n| listed("d", n)).collect::<Vec<_>>(), names.iter().map(|_| "t".to_string()).collect()];
        let out = w.load(&top.join("main.papyri"));
        check(w, format!("{} sources, {}", d[0], if d[1] == 0 { "in a directory" } else { "in directories of directories" }), src, &out, &Some(want));
    }));
}

// ---------- contents ----------
const BYTES: &[&[u8]] = &[b"a", b"\n", b"\r", b"\0", b"\xc3\xa9", b"<", b"&amp;", b"\xff", b"\xef\xbb\xbf", b" ", b"\t", b"\xe2\x82", b"$x", b"@import `x`", b"\xed\xa0\x80", b"\xf0\x9f\x98\x80", b"\"", b"\x1a", b"\xc2\x85", b"}"];
fn read_one(w: &mut Worker, dir: &Path, data: &[u8], name: &str) {
    std::fs::write(dir.join("f"), data).expect("write");
    let out = w.load(&dir.join("main.papyri"));
    let want = String::from_utf8(data.to_vec()).ok();
    let len = want.as_ref().map_or(0, |s| s.len());
    let want = want.map(|s| vec![vec![s], vec![len.to_string()]]);
    check(w, format!("contents {name}"), &format!("file f: {}\nmain.papyri: {READ}\n", name), &out, &want);
}
const READ: &str = "<div><b title=@file::read `f`>.</b></div><div>@str::len @file::read `f`</div>";
fn contents(cfg: &Cfg, rep: &mut Report, root: &Path) {
    let k = BYTES.len() as u64;
    let max = cfg.q(4, 5);
    let dir = |w: &Worker| { let d = root.join(format!("c{}", w.id)); if !d.exists() { std::fs::create_dir_all(&d).expect("mkdir"); std::fs::write(d.join("main.papyri"), READ).expect("write"); } d };
    rep.absorb(explore(cfg, num_seqs(k, 0, max), |w, i| {
        let data: Vec<u8> = nth_seq(i, k, 0, max).iter().flat_map(|j| BYTES[*j].to_vec()).collect();
        let d = dir(w);
        read_one(w, &d, &data, &format!("{:?}", String::from_utf8_lossy(&data)));
    }));
    // every byte alone, and after a letter
    rep.absorb(explore(cfg, 512, |w, i| {
        let data = if i < 256 { vec![i as u8] } else { vec![b'a', (i - 256) as u8, b'b'] };
        let d = dir(w);
        read_one(w, &d, &data, &format!("{data:?}"));
    }));
    // long ones
    let lens: Vec<usize> = (0..cfg.q(14, 22)).flat_map(|p| [(1usize << p) - 1, 1 << p, (1 << p) + 1]).collect();
    rep.absorb(explore(cfg, lens.len() as u64 * 4, |w, i| {
        let d = digits(i, &[lens.len() as u64, 4]);
        let unit: &[u8] = [&b"x"[..], b"line\n", b"\xc3\xa9", b"<&>\r\n"][d[1]];
        let data: Vec<u8> = unit.iter().copied().cycle().take(lens[d[0]]).collect();
        let dd = dir(w);
        read_one(w, &dd, &data, &format!("{} bytes of {:?}", lens[d[0]], String::from_utf8_lossy(unit)));
    }));
}

// ---------- who reads what ----------
/// The files: text, or what a source includes to.
const FILES: &[(&str, &str)] = &[("f", "root f"), ("g.papyri", "root g"), ("d/f", "d f"), ("d/g.papyri", "d g"), ("d/e/f", "e f"), ("d/e/g.papyri", "e g"), ("d/only", "d only"), ("g", "plain g"), ("d/G.PAPYRI", "upper g"), ("s p/f", "space f"), ("s p/g.papyri", "space g")];
const PATHS: &[&str] = &["f", "g", "../f", "../g", "e/f", "e/g", "d/f", "d/g", "./f", "./g", "ABS/d/f", "ABS/g", "only", "none", "d", ".", "", "d/e/../f", "d/e/../g", "ln/f", "ln/g", "ln/../f", "g.papyri", "../g.papyri", "G.PAPYRI", "g.PAPYRI", "s p/f", "s p/g", "f/", "f/f", "d//f", "../w/g", "../../w/f", "/", "~", "f\0", "none/../f", "x.txt"];
const DIRS: &[&str] = &["", "d", "d/e", "s p"];
/// Resolves a path as the system does; `ln` is a link to d/e.
fn resolve(base: &str, path: &str, abs: &str) -> Option<String> {
    if path.is_empty() { return Some(base.to_string()); }
    let mut at: Vec<String> = match path.strip_prefix(abs) { Some(_) => vec![], None => { if path.starts_with('/') { return None; } base.split('/').filter(|s| !s.is_empty()).map(String::from).collect() } };
    let rest = path.strip_prefix(abs).unwrap_or(path);
    let parts: Vec<&str> = rest.split('/').filter(|s| !s.is_empty()).collect();
    let mut up = 0;
    for (i, c) in parts.iter().enumerate() {
        if *c == "." { continue; }
        // above the directory of all files
        if up > 0 { if *c == "w" && up == 1 { up = 0; continue; } else if *c == ".." { up += 1; continue; } else { return None; } }
        if *c == ".." { if at.pop().is_none() { up = 1; } continue; }
        at.push(c.to_string());
        if at.join("/") == "ln" { at = vec!["d".into(), "e".into()]; }
        let p = at.join("/");
        let is_dir = DIRS.contains(&p.as_str());
        if !is_dir && (i + 1 < parts.len() || path.ends_with('/')) { return None; }
    }
    if up > 0 { return None; }
    Some(at.join("/"))
}
fn file(p: &str) -> Option<&'static str> { FILES.iter().find(|f| f.0 == p).map(|f| f.1) }
/// What an operation gives, from a directory.
fn gives(op: usize, base: &str, path: &str, abs: &str) -> Option<Vec<String>> {
    if path.contains('\0') { return None; }
    match op {
        0 => Some(vec![file(&resolve(base, path, abs)?)?.to_string()]),
        _ => {
            let p = if path.to_ascii_lowercase().ends_with(".papyri") { path.to_string() } else { format!("{path}.papyri") };
            Some(vec![file(&resolve(base, &p, abs)?)?.to_string()])
        },
    }
}
/// Ways to make the call: (main, library in d, the call is made in the directory d); OP is the call, FN the function, ARG the path.
const SITES: &[(&str, &str, &str, bool)] = &[
    ("direct", "<div>OP</div>", "", false),
    ("function", "@fn h . -> OP <div>@h .</div>", "", false),
    ("argument", "@fn h $p -> @FN $p <div>@h ARG</div>", "", false),
    ("default value", "@fn h($x=OP) . -> $x <div>@h .</div>", "", false),
    ("variable", "@let(v=OP) {<div>$v</div>}", "", false),
    ("callback", "<div>@list::map($FN) [ARG]</div>", "", false),
    ("function value", "@let(h=$FN) {<div>@h ARG</div>}", "", false),
    ("included library", "@include `d/lib`", "<div>OP</div>", true),
    ("export of a library", "@let(l=@import `d/lib`) {<div>$l::v</div>}", "@export(v=OP).", true),
    ("function of a library", "@let(l=@import `d/lib`) {<div>@l::h .</div>}", "@export @fn h . -> OP", true),
    ("function of a library, argument", "@let(l=@import `d/lib`) {<div>@l::h ARG</div>}", "@export @fn h $p -> @FN $p", true),
    ("included function", "@include `d/lib` <div>@h ARG</div>", "@export @fn h $p -> @FN $p", true),
    ("default value in a library", "@include `d/lib` <div>@h .</div>", "@export @fn h($x=OP) . -> $x", true),
    ("function of main called in a library", "@fn k $p -> @FN $p @include `d/lib` <div>@h(k=$k) ARG</div>", "@export @fn h($k) $p -> @k $p", false),
    ("function value called in a library", "@include `d/lib` <div>@h(k=$FN) ARG</div>", "@export @fn h($k) $p -> @k $p", true),
    ("callback in a library", "@include `d/lib` <div>@h(k=$FN) ARG</div>", "@export @fn h($k) $p -> @list::map($k) [$p]", true),
    ("function value of a library", "@let(l=@import `d/lib`) {@let(h=$l::r) {<div>@h ARG</div>}}", "@export(r=$FN).", false),
    ("library in a library", "@include `d/e/../lib`", "@include `./e/lib2` @include `lib3`", true),
    ("content", "@include `d/lib` <div>@h {OP}</div>", "@export @fn h $c -> $c", false),
];
fn sites(cfg: &Cfg, rep: &mut Report, root: &Path) {
    let total = (SITES.len() * 2 * PATHS.len()) as u64;
    let fns = ["file::read", "include"];
    let setup = |top: &Path, s: usize, op: usize, path: &str| -> (String, String) {
        let arg = lit(path);
        let fill = |t: &str| t.replace("OP", &format!("@{} {arg}", fns[op])).replace("FN", fns[op]).replace("ARG", &arg);
        let (main, lib) = (fill(SITES[s].1), fill(SITES[s].2));
        for (p, x) in FILES { put(top, p, N::F(x)); }
        put(top, "ln", N::L("d/e"));
        std::fs::write(top.join("main.papyri"), &main).expect("write");
        std::fs::write(top.join("d/lib.papyri"), &lib).expect("write");
        std::fs::write(top.join("d/e/lib2.papyri"), "<div>-</div>").expect("write");
        std::fs::write(top.join("d/lib3.papyri"), fill("<div>OP</div>")).expect("write");
        (main, lib)
    };
    let want = |s: usize, op: usize, path: &str, abs: &str| {
        let mut r = vec![gives(op, if SITES[s].3 { "d" } else { "" }, path, abs)?];
        if SITES[s].0 == "library in a library" { r.insert(0, vec!["-".into()]); }
        Some(r)
    };
    rep.absorb(explore(cfg, total, |w, i| {
        let d = digits(i, &[SITES.len() as u64, 2, PATHS.len() as u64]);
        let top = cli::fresh(&root.join(format!("s{}/{}/w", w.id, i)));
        let abs = top.to_string_lossy().to_string();
        let path = PATHS[d[2]].replace("ABS", &abs);
        let (main, lib) = setup(&top, d[0], d[1], &path);
        let out = w.load(&top.join("main.papyri"));
        let want = want(d[0], d[1], &path, &abs);
        check(w, format!("{}: @{} {path:?}", SITES[d[0]].0, fns[d[1]]), &format!("{FILES:?}\nmain.papyri: {main}\nd/lib.papyri: {lib}\n"), &out, &want);
        let _ = std::fs::remove_dir_all(top.parent().unwrap());
    }));
    // run by the command from several directories
    let cwds: &[(&str, &str)] = &[("w", "main.papyri"), ("w", "./main.papyri"), ("w/d", "../main.papyri"), (".", "w/main.papyri"), ("w/s p", "../d/../main.papyri"), ("w", "ABS/main.papyri")];
    let few: Vec<&str> = PATHS.iter().copied().filter(|p| !p.contains('\0')).collect();
    let step = cfg.q(3, 1);
    rep.absorb(explore(cfg, (SITES.len() * 2 * few.len() * cwds.len()) as u64, |w, i| {
        // each of the directories with a part of the rest
        if (i / 11 + i) % step != 0 { return; }
        let d = digits(i, &[cwds.len() as u64, few.len() as u64, 2, SITES.len() as u64]);
        let base = cli::fresh(&root.join(format!("x{}", w.id)));
        let top = base.join("w");
        let abs = top.to_string_lossy().to_string();
        let path = few[d[1]].replace("ABS", &abs);
        let (main, lib) = setup(&top, d[3], d[2], &path);
        let (cwd, arg) = cwds[d[0]];
        let arg = arg.replace("ABS", &abs);
        let r = cli::run(cfg, &base.join(cwd), &[&arg]);
        w.stats.evaluations += 1;
        let html = std::fs::read_to_string(top.join("main.html")).ok();
        let ok = r.code == Some(0);
        let out = Out {html: html.clone().unwrap_or_default(), diag: format!("{}{}", r.stdout, r.stderr), num_errors: !ok as u32, panic: (!matches!(r.code, Some(0 | 1))).then(|| format!("exit {:?}", r.code)), ..Out::default()};
        let want = want(d[3], d[2], &path, &abs);
        check(w, format!("in {cwd}, papyri {arg}, {}: @{} {path:?}", SITES[d[3]].0, fns[d[2]]), &format!("{FILES:?}\nin {cwd}: papyri {arg}\nw/main.papyri: {main}\nw/d/lib.papyri: {lib}\n"), &out, &want);
    }));
}

// ---------- histories ----------
/// Files change between documents: each document sees them as they are when it is compiled.
fn histories(cfg: &Cfg, rep: &mut Report, root: &Path) {
    const STEPS: &[&str] = &["f = one", "f = two", "remove f", "add d/p.papyri", "remove d/p.papyri", "d/q/r.papyri", "compile"];
    let k = STEPS.len() as u64;
    let max = cfg.q(5, 7);
    let src = "<div>@list::map(@fn $p -> <b title=$p>.</b>) @file::list `d`</div><div><b title=@file::read `f`>.</b></div>";
    rep.absorb(explore(cfg, num_seqs(k, 1, max), |w, i| {
        let top = cli::fresh(&root.join(format!("h{}", w.id)));
        std::fs::create_dir_all(top.join("d/q")).expect("mkdir");
        std::fs::write(top.join("main.papyri"), src).expect("write");
        let (mut f, mut p, mut q): (Option<&str>, bool, bool) = (None, false, false);
        let steps = nth_seq(i, k, 1, max);
        let name = steps.iter().map(|s| STEPS[*s]).collect::<Vec<_>>().join("; ");
        for (n, s) in steps.iter().map(|s| *s).chain([6]).enumerate() {
            let _ = n;
            match s {
                0 | 1 => { f = Some(["one", "two"][s]); std::fs::write(top.join("f"), f.unwrap()).expect("write"); },
                2 => { f = None; let _ = std::fs::remove_file(top.join("f")); },
                3 => { p = true; cli::write(&top, "d/p.papyri", "x"); },
                4 => { p = false; let _ = std::fs::remove_file(top.join("d/p.papyri")); },
                5 => { q = !q; if q { cli::write(&top, "d/q/r.papyri", "y"); } else { let _ = std::fs::remove_file(top.join("d/q/r.papyri")); } },
                _ => {
                    let mut l = vec![];
                    if p { l.push("d/p".to_string()); }
                    if q { l.push("d/q/r".to_string()); }
                    let want = f.map(|f| vec![l, vec![f.to_string()]]);
                    let out = w.load(&top.join("main.papyri"));
                    check(w, name.clone(), &format!("main.papyri: {src}\nsteps: {name}\n"), &out, &want);
                },
            }
        }
    }));
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every set of entries of a directory (sources of all kinds of names, other files, directories, symbolic links), listed with every spelling of its path, each listed path given to @include; every sequence of pieces of contents up to a length, read; every way and place to make a call with every path, compiled by the library and by the command in several directories; every history of changes to the files and of compilations; a state is a result");
    let root = scratch(cfg);
    let root = std::fs::canonicalize(&root).unwrap_or(root);
    listing(cfg, &mut rep, &root);
    contents(cfg, &mut rep, &root);
    sites(cfg, &mut rep, &root);
    histories(cfg, &mut rep, &root);
    remove_scratch(&root);
    rep
}
