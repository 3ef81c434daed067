//! C15: exit status 0 only if every output is complete.
use crate::cli;
use crate::engine::*;
use crate::fault::*;

const EIO: i32 = 5;
/// The faults for a call.
fn faults(name: &str, n: i64, all: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![format!("E:{EIO}"), "E:13".into()];
    if all { v.extend(["E:4", "E:12", "E:24", "E:22"].map(String::from)); }
    if is_writing(name) { v.push("E:28".into()); v.push("D:28".into()); if all { v.push("E:122".into()); v.push("E:30".into()); v.push("E:17".into()); } }
    if name == "write" { v.push("Z".into()); v.push("E:4".into()); for k in if all { vec![0, 1, 2, 4, 6, 7] } else { vec![0, 4, 7] } { if n > 1 { v.push(format!("S:{k}")); } } v.push("E:32".into()); v.push("E:11".into()); }
    if name == "read" { v.push("E:4".into()); if n > 1 { for k in 0..if all { 6 } else { 1 } { v.push(format!("S:{}", k * 11)); } } v.push("E:21".into()); }
    if name.starts_with("open") { v.push("E:24".into()); v.push("E:4".into()); }
    v
}

fn check(w: &mut Worker, sc: &Scenario, base: &Base, fault: &str, r: &cli::Ran, tree: &Tree) {
    w.stats.evaluations += 1;
    w.stats.transitions += 1;
    let at = |f: &str| -> String { f.split(',').map(|f| { let i: usize = f.split(':').next().unwrap().parse().unwrap(); format!("{:?} ", base.ops.get(i)) }).collect() };
    let stderr_hit = fault.split(',').any(|f| { let i: usize = f.split(':').next().unwrap().parse().unwrap_or(usize::MAX); f.contains(":D:") || base.ops.get(i).map_or(false, |o| o.2 == "fd2") });
    let bad = |w: &mut Worker, why: &str| {
        w.stats.violation(format!("{}: fault {fault} at {}", sc.name, at(fault)), format!("scenario: {}\npapyri {:?}\nfault {fault} at {}\n\n{why}\nexit {:?}\nfiles, compared with those of a run without faults:\n{}\nstdout: {}\nstderr: {}", sc.name, sc.args, at(fault), r.code, diff(tree, &base.tree), r.stdout, r.stderr));
    };
    let Some(code) = r.code else { return bad(w, "killed by a signal or did not finish") };
    w.stats.state(&(sc.name, tree));
    if code == 0 {
        w.stats.count("fault without consequence, exit status 0");
        let mut t = tree.clone();
        for (p, c) in &sc.alt { if t.get(p) == Some(c) { t.insert(p.clone(), base.tree[p].clone()); } }
        // the glob library takes a path whose status cannot be read for one that does not match
        if t != base.tree && sc.name == "pattern" && fault.split(',').any(|f| base.ops.get(f.split(':').next().unwrap().parse::<usize>().unwrap()).map_or(false, |o| o.0 == "stat")) {
            return w.stats.violation("glob-stat", format!("papyri {:?}\nfault {fault} at {}\n{}", sc.args, at(fault), diff(&t, &base.tree)));
        }
        if t != base.tree { return bad(w, "exit status 0, but the output files are not complete"); }
        if let Some(o) = &sc.stdout { if &r.stdout != o { bad(w, "exit status 0, but the output is not complete"); } }
        if !sc.ok { bad(w, "exit status 0, although a document has errors"); }
    } else {
        w.stats.count("fault reported");
        w.stats.nontrivial_count += 1;
        if r.stderr.trim().is_empty() && !stderr_hit { bad(w, "failed without a message"); }
        // the number of file errors is that of the messages about them
        if let Some(n) = r.stderr.lines().last().and_then(|l| l.strip_suffix(" file error").or(l.strip_suffix(" file errors"))).and_then(|l| l.rsplit(' ').next()) {
            let shown = r.stderr.lines().filter(|l| l.starts_with("File error: ")).count();
            if !stderr_hit && n.parse() != Ok(shown) { bad(w, &format!("{n} file errors in the summary, but {shown} messages")); }
        }
        // documents with errors leave nothing behind
        for (p, c) in tree {
            let temp = !sc.writes.iter().any(|x| &x.0 == p) && !base.initial.contains_key(p);
            if temp && ["b.html", "out/b.html", "out/y"].contains(&p.as_str()) && sc.name.contains("failing") { bad(w, &format!("a document with errors has written {p}: {c:?}")); }
        }
    }
}

fn show_opt(x: &Option<String>) -> String { x.as_ref().map_or("a failure, a message and no output".into(), |x| format!("{x:?}")) }

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("fault_enumeration", "every file-system call of every scenario fails in every way (error codes, short and empty writes and reads, full disk), one at a time (thorough: also two at a time): exit status 0 only with complete output files, else a message; and all inputs and places which fail without faults; a state is a final tree");
    rep.assumptions.push("a failing close and data lost after a successful write (no fsync) are not modelled".into());
    let root = scratch(cfg);
    let scs = scenarios();
    let mut bases = vec![];
    let mut w = Worker::new(cfg.subject, 98);
    for sc in &scs {
        let mut b = baseline(cfg, &root.join("b"), sc, &[]);
        if std::env::var("MC_PART").is_ok() { b.initial.clear(); }
        let mut want = b.initial.clone();
        for (p, c) in &sc.writes { if b.tree.get(p).is_some() && c.is_empty() { want.insert(p.clone(), b.tree[p].clone()); } else { want.insert(p.clone(), c.clone()); } }
        if std::env::var("MC_PART").is_err() {
            w.stats.evaluations += 1;
            if b.ran.code != Some(if sc.ok { 0 } else { 1 }) || b.tree != want || sc.stdout.as_ref().map_or(false, |o| o != &b.ran.stdout) || (!sc.ok && b.ran.stderr.is_empty()) {
                w.stats.violation(format!("{}: no fault", sc.name), format!("papyri {:?}\nexit {:?}\n{}\nstdout: {:?}\nstderr: {}", sc.args, b.ran.code, diff(&b.tree, &want), b.ran.stdout, b.ran.stderr));
            }
            rep.extra.insert(format!("calls: {}", sc.name), b.ops.len().to_string());
        }
        bases.push(b);
    }
    rep.absorb(w.stats);
    // one fault
    let mut jobs: Vec<(usize, String)> = vec![];
    for (k, b) in bases.iter().enumerate() {
        for (i, (name, n, _)) in b.ops.iter().enumerate() { for f in faults(name, *n, !cfg.quick()) { jobs.push((k, format!("{i}:{f}"))); } }
    }
    // two faults: the first without consequence by itself
    if !cfg.quick() {
        for (k, b) in bases.iter().enumerate() {
            if b.ops.len() > 60 { continue; }
            for (i, (n1, c1, _)) in b.ops.iter().enumerate() {
                let first = match n1.as_str() { "write" if *c1 > 1 => "S:3", "write" | "read" => "E:4", "stat" => "E:5", "close" => "E:5", "mkdir" => "E:17", _ => continue };
                for (j, (n2, ..)) in b.ops.iter().enumerate().skip(i + 1) {
                    for f in if is_writing(n2) { vec!["E:28", "E:5"] } else { vec!["E:5"] } { jobs.push((k, format!("{i}:{first},{j}:{f}"))); jobs.push((k, format!("{i}:{first},{}:{f}", j + 1))); }
                }
            }
        }
    }
    rep.absorb(explore(cfg, jobs.len() as u64, |w, i| {
        let (k, fault) = &jobs[i as usize];
        let (sc, base) = (&scs[*k], &bases[*k]);
        let dir = root.join(format!("w{}", w.id));
        setup(&dir, sc);
        let r = crate::fault::run(cfg, &dir, sc, &[], Some(fault), None);
        let tree = files(&dir);
        w.sample(|| format!("{}: {fault} => exit {:?}, {}", sc.name, r.code, r.stderr.trim()));
        check(w, sc, base, fault, &r, &tree);
    }));
    
    // every sequence of bytes: as standard input, as a source file and as a module
    let bytes: &[u8] = b"a \0\x7f\x80\xbf\xc0\xc3\xa0\xe2\xed\xf0\x9f\xf4\xff";
    let nb = bytes.len() as u64;
    let most = cfg.q(3, 4);
    rep.absorb(explore(cfg, num_seqs(nb, 1, most) * 3, |w, i| {
        let q: Vec<u8> = nth_seq(i / 3, nb, 1, most).into_iter().map(|k| bytes[k]).collect();
        if cfg.quick() && i % 3 > 0 && q.len() > 2 { return; }
        let data = [b"x", q.as_slice()].concat();
        let dir = cli::fresh(&root.join(format!("y{}", w.id)));
        let text = String::from_utf8(data.clone());
        let (r, got) = match i % 3 {
            0 => { let r = cli::finish(cli::papyri(cfg, &dir, &["-i"]), Some(&data)); let o = r.stdout.clone(); (r, o) },
            k => {
                cli::write(&dir, if k == 1 { "a.papyri" } else { "m.papyri" }, &data);
                if k == 2 { cli::write(&dir, "a.papyri", "@include `m`"); }
                (cli::run(cfg, &dir, &["-s", "a.papyri"]), std::fs::read_to_string(dir.join("a.html")).unwrap_or_default())
            },
        };
        w.stats.evaluations += 1;
        w.stats.nontrivial_count += text.is_err() as u64;
        let want = text.ok().and_then(|t| w.compile(&t).ok_html().map(|x| x.to_string()));
        let good = match &want { Some(x) => r.code == Some(0) && x == &got && r.stderr.is_empty(), None => r.code == Some(1) && got.is_empty() && !r.stderr.trim().is_empty() };
        if !good { w.stats.violation(format!("bytes {data:?} {}", i % 3), format!("{} with the bytes {data:?}\nexpected {}\nexit {:?}\noutput: {got:?}\nstderr: {}", ["standard input", "a source file", "a module"][i as usize % 3], show_opt(&want), r.code, r.stderr)); }
    }));
    // documents with warnings, errors and several outputs in every order
    let pieces = ["text ", "@export(a=1). @export(a=2). ", "@raise `x` ", "@file::write(`w`) x ", "@code(language=`zz`) `y` ", "$nope "];
    let np = pieces.len() as u64;
    let most = cfg.q(4, 5);
    rep.absorb(explore(cfg, num_seqs(np, 1, most) * 3, |w, i| {
        let q = nth_seq(i / 3, np, 1, most);
        if q.iter().filter(|k| **k == 3).count() > 1 { return; }
        let src: String = q.iter().map(|k| pieces[*k]).collect();
        let dir = cli::fresh(&root.join(format!("z{}", w.id)));
        let stdin = i % 3 == 2;
        let mut args = if stdin { vec!["-i"] } else { cli::write(&dir, "a.papyri", &src); vec!["-o", "out", "a.papyri"] };
        if i % 3 == 1 { args.insert(0, "--ignore-warnings"); }
        let r = if stdin { cli::finish(cli::papyri(cfg, &dir, &args), Some(src.as_bytes())) } else { cli::run(cfg, &dir, &args) };
        let got = files(&dir.join("out"));
        w.stats.evaluations += 1;
        w.stats.nontrivial_count += 1;
        // a warning is no error; what is written depends on errors only
        let (errors, warnings) = (q.iter().filter(|k| matches!(k, 2 | 5)).count(), q.iter().filter(|k| **k == 4).count() + (2 * q.iter().filter(|k| **k == 1).count()).saturating_sub(1));
        let writes = q.contains(&3);
        let has_text = q.iter().any(|k| matches!(k, 0 | 4));
        // on standard output nothing is printed if there are warnings
        let good = if errors > 0 || (stdin && (writes || warnings > 0)) { r.code == Some(1) && got.is_empty() && !r.stderr.is_empty() && (!stdin || r.stdout.is_empty()) } else {
            r.code == Some(0) && got.contains_key("w") == writes && (stdin || got.contains_key("a.html") == has_text) && (i % 3 == 1 || r.stderr.is_empty() == (warnings == 0)) && (!stdin || r.stdout.contains("<p>") == has_text)
        };
        if !good { w.stats.violation(format!("{src:?} {}", i % 3), format!("papyri {args:?}, source {src:?}\n{errors} errors, {warnings} warnings\nexit {:?}\nfiles: {got:?}\nstdout: {}\nstderr: {}", r.code, r.stdout, r.stderr)); }
    }));
    // inputs and places which fail
    let mut w = Worker::new(cfg.subject, 97);
    if std::env::var("MC_PART").is_err() {
        type Prep = fn(&std::path::Path);
        let cases: &[(&str, Prep, &[&str], &[(&str, &str)])] = &[
            ("the output directory is a file", |d| { cli::write(d, "a.papyri", "a"); cli::write(d, "out", "keep"); }, &["-o", "out", "a.papyri"], &[("out", "keep")]),
            ("a directory stands at the output", |d| { cli::write(d, "a.papyri", "a"); cli::write(d, "a.html/x", "keep"); }, &["a.papyri"], &[("a.html/x", "keep")]),
            ("a directory stands at a written file", |d| { cli::write(d, "a.papyri", "@file::write(`w`) x"); cli::write(d, "out/w/x", "keep"); }, &["-o", "out", "a.papyri"], &[("out/w/x", "keep")]),
            ("a file stands where a directory is needed", |d| { cli::write(d, "d/a.papyri", "a"); cli::write(d, "out/d", "keep"); }, &["-o", "out", "d"], &[("out/d", "keep")]),
            ("missing source", |_| {}, &["a.papyri"], &[]),
            ("missing source and others", |d| cli::write(d, "b.papyri", "b"), &["-o", "out", "zz.papyri"], &[]),
            ("missing path", |_| {}, &["nothing"], &[]),
            ("missing directory", |_| {}, &["no/such/"], &[]),
            ("binary source", |d| cli::write(d, "a.papyri", b"a\xff"), &["a.papyri"], &[]),
            ("source is a directory", |d| cli::write(d, "a.papyri/x", "keep"), &["--", "a.papyri/x/b.papyri"], &[("a.papyri/x", "keep")]),
            ("outside of the working directory", |d| cli::write(d, "a.papyri", "a"), &["-o", "out", "../a.papyri"], &[]),
            ("bad pattern", |_| {}, &["[", "***"], &[]),
            ("stdin and paths", |d| cli::write(d, "a.papyri", "a"), &["-i", "a.papyri"], &[]),
            ("stdin and out", |_| {}, &["-i", "-o", "out"], &[]),
            ("unknown option", |_| {}, &["--nope"], &[]),
            ("dangling out", |d| { cli::write(d, "a.papyri", "a"); let _ = std::os::unix::fs::symlink("nowhere/x", d.join("out")); }, &["-o", "out", "a.papyri"], &[("out", "nowhere/x")]),
            ("missing module", |d| cli::write(d, "a.papyri", "a @include `m`"), &["-o", "out", "a.papyri"], &[]),
            ("binary module", |d| { cli::write(d, "a.papyri", "a @include `m`"); cli::write(d, "m.papyri", b"\xff"); }, &["-o", "out", "a.papyri"], &[]),
            ("missing directory to list", |d| cli::write(d, "a.papyri", "a [@file::list `m`]"), &["-o", "out", "a.papyri"], &[]),
            ("name too long", |d| cli::write(d, "a.papyri", format!("@file::write(`{}`) x", "n".repeat(300))), &["-o", "out", "a.papyri"], &[]),
            ("written file below another", |d| cli::write(d, "a.papyri", "@file::write(`x`) x @file::write(`x/y`) y"), &["-o", "out", "a.papyri"], &[("out/x", "x")]),
        ];
        for (name, prep, args, left) in cases {
            let dir = cli::fresh(&root.join("case"));
            prep(&dir);
            let r = cli::run(cfg, &dir, args);
            w.stats.evaluations += 1;
            let got: Tree = files(&dir).into_iter().filter(|(k, _)| !k.ends_with(".papyri") || k.starts_with("out")).collect();
            let want: Tree = left.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            if r.code.map_or(true, |c| c == 0) || r.stderr.trim().is_empty() || got != want {
                w.stats.violation(name.to_string(), format!("{name}: papyri {args:?}\nexit {:?}, expected a failure with a message\nfiles: {}\nstdout: {}\nstderr: {}", r.code, diff(&got, &want), r.stdout, r.stderr));
            }
            w.stats.nontrivial_count += 1;
        }
        // a document with an error of any kind, anywhere in a batch
        let errors = ["@raise `x`", "$undefined", "<b>", "}", "@nope .", "<hr>x</hr>", "@str::from(1, 2) `x`", "@match 1 {2 -> .}", "@include `none`", "&nosuch;", "@file::write(`..`) x", "@let(x=1", "`", "<b a=`1` a=`2`>x</b>", "@fn f($x: int) . -> $x @f(x=`s`)"];
        for err in errors { for place in 0..3 { for text in [false, true] { for before in [false, true] {
            let dir = cli::fresh(&root.join("case"));
            let bad = if before { format!("{err} @file::write(`w`) x text") } else { format!("@file::write(`w`) x text {err}") };
            for k in 0..3 { cli::write(&dir, &format!("{k}.papyri"), if k == place { bad.clone() } else { format!("doc {k}") }); }
            let mut args = vec!["-o", "out", "."];
            if text { args.insert(0, "-t"); }
            let r = cli::run(cfg, &dir, &args);
            w.stats.evaluations += 1;
            w.stats.nontrivial_count += 1;
            let got = files(&dir.join("out"));
            let want: Tree = (0..3).filter(|k| *k != place).map(|k| (format!("{k}.{}", if text { "txt" } else { "html" }), if text { format!("doc {k}\n\n") } else { format!("<p>doc {k}</p>") })).collect();
            if r.code != Some(1) || got != want || r.stderr.is_empty() {
                w.stats.violation(format!("document with an error: {bad}"), format!("document {place} of 3: {bad}\npapyri {args:?}\nexit {:?}\nfiles: {}\nstdout: {}\nstderr: {}", r.code, diff(&got, &want), r.stdout, r.stderr));
            }
            let i = cli::finish(cli::papyri(cfg, &dir, if text { &["-i", "-t"] } else { &["-i"] }), Some(bad.as_bytes()));
            if i.code != Some(1) || !i.stdout.is_empty() || i.stderr.is_empty() { w.stats.violation(format!("document with an error on standard input: {bad}"), format!("{i:?}")); }
        } } } }
    }
    rep.absorb(w.stats);
    remove_scratch(&root);
    rep
}
