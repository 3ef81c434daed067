//! C17: compile_str has no access to files or the network.
use crate::cli;
use crate::engine::*;
use std::path::Path;

/// `mc c17-child FILE`: compiles each program of a file (separated by NUL) with compile_str,
/// after a mark in the log of calls, and prints the results.
pub fn child(subject: Subject, file: &str) {
    let progs = std::fs::read_to_string(file).expect("programs");
    let mut out = String::new();
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let _ = (subject.compile_str)("warm up");
        for (i, p) in progs.split('\0').enumerate() {
            let _ = std::fs::metadata(format!("/MC-MARK/{i}"));
            let r = (subject.compile_str)(p);
            if i > 0 { out.push('\0'); }
            match r { Ok(h) => { out += "+"; out += &h; }, Err(e) => { out += "-"; out += &e; } }
        }
        let _ = std::fs::metadata("/MC-MARK/end");
        print!("{out}");
    }).unwrap().join().unwrap();
}

/// Ways to ask for a file or the network, with P for the path.
const OPS: &[&str] = &["@import P", "@include P", "@file::read P", "@file::list P", "@file::write(P) {x}", "@net::fetch_raw P", "@net::fetch_html P"];
/// The functions themselves, and the form of their call through a variable f.
const FNS: &[(&str, &str)] = &[("$import", "@f P"), ("$include", "@f P"), ("$file::read", "@f P"), ("$file::list", "@f P"), ("$file::write", "@f(P) {x}"), ("$net::fetch_raw", "@f P"), ("$net::fetch_html", "@f P"),
    ("@function::bind($file::write, P) .", "@f {x}"), ("@fn $x -> @import $x", "@f P"), ("@fn $x -> @file::read $x", "@f P")];
const PATHS: &[&str] = &["m", "m.papyri", "./m", "dir/n", "../w/m", "dir", ".", "..", "", "/", "/etc/passwd", "ABS/m", "ABS/dir", "none", "none/none", "/proc/self/environ", "/proc/self/cwd/m", "http://127.0.0.1:PORT/", "https://127.0.0.1:PORT/m.papyri", "http://localhost:PORT/m", "http://localhost/", "HTTP://LOCALHOST:PORT/", "http://[::1]:PORT/", "ftp://127.0.0.1/m", "data:text/html,x", "file:m", "http:", "http://none.invalid/", "file:///etc/passwd", "//etc/passwd", "~", "\u{e9}", "bad", "<string>", "loop"];
/// Places where the attempt is made; OP stands for it. The flag says whether it is executed.
const PLACES: &[(&str, bool)] = &[
    ("OP", true), ("text OP text", true), ("{OP}", true), ("<b>OP</b>", true), ("<p>a</p>OP", true), ("<b x=OP>y</b>", true), ("@let(v=OP) {$v}", true), ("@let(v=1) {OP $v}", true),
    ("@fn g . -> OP @g .", true), ("@fn g . -> OP", false), ("@fn g($x=OP) . -> $x @g .", true), ("@let(g=@fn $x -> {OP $x}) {@g `x`}", true), ("@list::map(@fn $_x -> OP) [1]", true),
    ("@match 1 {1 -> OP}", true), ("@match 1 {2 -> OP, _ -> .}", false), ("@match 1 {2 -> ., _ -> OP}", true), ("@list::filter(@fn $_x -> {@let(_y=OP) @bool::from .}) [1]", true), ("[OP, OP]", true),
    ("@match OP {$_x -> .}", true), ("@export(e=OP).", true), ("@implicit(i=OP) {x}", true), ("@page {OP}", true), ("@b {OP}", true), ("\"$x\" # OP", false), ("@list::sorted(key=@fn $_x -> OP) [1, 2]", true),
    ("<@fn $x -> $x>OP</>", true), ("@dict::new(a=OP).", true), ("@let(h=@fn($k: @implicit any) . -> $k) {@implicit(k=OP) @h .}", true), ("@undefined . OP", true), ("@let(a=@raise `x`) . OP", true), ("@code(language=`papyri`) \"OP\"", false),
    ("@str::from @str::escape_html OP", true), ("@html::parse OP", true), ("@regex::compile OP", true), ("<!-- OP -->", false), ("@list::join(OP) [a, b]", true), ("@function::name @fn $x -> OP", false), ("@let(list=`s`) OP", true),
];

/// All functions, for a path as their argument.
const ALL: &[&str] = &["bool::and", "bool::from", "bool::negate", "int::add", "int::parse", "str::ends_with", "str::escape_html", "str::from", "str::is_empty", "str::len", "str::lower", "str::split", "str::trim", "str::unique_id", "str::upper", "regex::compile", "regex::count", "regex::find", "regex::split", "regex::test", "function::bind", "function::name", "html::escape_html", "html::is_empty", "html::parse", "list::all", "list::map", "list::flat", "list::get", "list::html_nodes", "list::join", "list::len", "dict::get", "dict::keys", "dict::new", "code", "raise", "page", "typeof", "attributes", "class", "style", "b", "blockquote", "bold", "cite", "emph", "href", "image", "kbd", "quote", "samp", "span", "h1", "code_block", "numbered", "footnote", "list", "str", "int", "bool", "html", "dict", "regex", "function", "net", "file"];

struct Run { results: Vec<String>, calls: Vec<Vec<String>> }
fn run_child(cfg: &Cfg, cwd: &Path, file: &Path, log: &Path, env: bool) -> Option<Run> {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("c17-child").arg(file).current_dir(cwd).env_clear().env("LD_PRELOAD", &cfg.shim).env("MC_LOG", log);
    if env { c.env("HOME", "/root").env("PATH", "/usr/bin").env("HTTP_PROXY", "http://127.0.0.1:9/"); }
    let _ = std::fs::remove_file(log);
    let out = c.stderr(std::process::Stdio::null()).output().expect("run the child");
    if !out.status.success() { return None; }
    let results: Vec<String> = String::from_utf8_lossy(&out.stdout).split('\0').map(|s| s.to_string()).collect();
    let text = std::fs::read_to_string(log).unwrap_or_default();
    let mut calls: Vec<Vec<String>> = vec![];
    for l in text.lines() {
        let arg = l.splitn(4, ' ').nth(3).unwrap_or("");
        if arg == "/MC-MARK/end" { break; }
        if arg.starts_with("/MC-MARK/") { calls.push(vec![]); continue; }
        if let Some(c) = calls.last_mut() { c.push(l.to_string()); }
    }
    Some(Run {results, calls})
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every function which asks for a file or the network, with every path, at every place of a program (and in pairs), and every other function with every path, compiled by compile_str in a process all of whose file and network calls are watched, in a directory which has all of the files and in an empty one: no call, an error where the attempt is executed, and the same result in both; a state is a result");
    let root = scratch(cfg);
    let (full, empty) = (root.join("full/w"), root.join("empty/w"));
    let secret = "SENTINEL-7391";
    if std::env::var("MC_PART").is_err() {
        for f in ["m.papyri", "m", "dir/n.papyri", "dir/n", "none.d/x.papyri", "\u{e9}.papyri", "\u{e9}", "~", "<string>", "<string>.papyri"] { cli::write(&full, f, format!("@export(v=`{secret}`). {secret}")); }
        cli::write(&full, "bad.papyri", format!("{secret} @raise `{secret}`"));
        cli::write(&full, "bad", b"\xff\xfe");
        cli::write(&full, "loop.papyri", "@import `loop`");
        std::fs::create_dir_all(&empty).expect("mkdir");
    }
    let abs = full.to_string_lossy().to_string();
    // a port on which nothing listens; a connection would be seen as a call in any case
    let path = |p: &str| format!("`{}`", p.replace("ABS", &abs).replace("PORT", "9"));
    // (program, attempt is executed)
    let mut progs: Vec<(String, bool)> = vec![];
    for (place, exec) in PLACES { for op in OPS { for p in PATHS {
        let o = op.replace('P', &path(p));
        progs.push((place.replace("OP", &o), *exec));
    } } }
    for (f, call) in FNS { for p in PATHS {
        let (f, c) = (f.replace('P', &path(p)), call.replace('P', &path(p)));
        for form in ["@let(f=F) {C}", "@let(d=@dict::new(f=F).) {@let(f=$d::f) {C}}", "@fn g($f) . -> C @g(f=F) .", "@match [F] {[$f] -> C}", "@let(f=F) {@let(g=@fn . -> C) {@g .}}", "@export(f=F). C", "@let(f=F) {<b x={C}>y</b>}", "@implicit(f=F) {@fn g($f: @implicit any) . -> C @g .}", "@let(f=F) {@list::map(@fn $_ -> C) [1]}"] {
            progs.push((form.replace('F', &f).replace('C', &c).replace("@implicit(f=@fn", "@implicit(f=@fn"), true));
        }
    } }
    for p in PATHS { for f in ["import", "include", "file::read", "file::list", "net::fetch_raw", "net::fetch_html"] {
        progs.push((format!("@list::map(${f}) [{}]", path(p)), true));
        progs.push((format!("@{f} {{{}}}", p.replace("ABS", &abs).replace(['<', '>'], "").replace("PORT", "9").replace("//", "\\x2f\\x2f")), true));
        progs.push((format!("@{f} {{@str::from {}}}", path(p)), true));
        progs.push((format!("@match {{@str::from {}}} {{$x -> @{f} $x}}", path(p)), true));
        progs.push((format!("@{f} [{}]", path(p)), true));
    } }
    // pairs of attempts: the first must not open the way for the second
    let few = if cfg.quick() { vec!["m", "none", "dir"] } else { PATHS.to_vec() };
    for a in OPS { for b in OPS { for p in &few { for q in &few {
        progs.push((format!("{} {}", a.replace('P', &path(p)), b.replace('P', &path(q))), true));
    } } } }
    for f in ALL { for p in PATHS {
        let x = path(p);
        for form in ["@F X", "@F(X) X", "@F(X) .", "@F(X, X) .", "@F(a=X) X", "@F(language=X) X", "$F X", "@list::map($F) [X]", "@F(path=X, file=X, src=X) X"] { progs.push((form.replace('F', f).replace('X', &x), false)); }
    } }
    for p in PATHS {
        let x = path(p);
        let raw = x.trim_matches('`').to_string();
        for t in ["<img src=X>", "<link rel=`stylesheet` href=X>", "<script src=X></script>", "<a href=X>x</a>", "<iframe src=X></iframe>", "@page(title=X, css=[X], js=[X]) {x}", "<!DOCTYPE html>X", "@code(language=`papyri`) `@import RAW`", "@html::parse `<!DOCTYPE html><html><head><link href=RAW></head><body><img src=\"RAW\"></body></html>`", "&RAW;", "<!-- #include RAW -->", "```\nRAW\n@import RAW\n```"] {
            progs.push((t.replace("RAW", &raw).replace('X', &x), false));
        }
    }
    let total = progs.len() as u64;
    let chunk = 100;
    let prog = &progs;
    rep.extra.insert("programs".into(), total.to_string());
    rep.absorb(explore(cfg, total.div_ceil(chunk), |w, k| {
        let range = (k * chunk) as usize..((k + 1) * chunk).min(total) as usize;
        let file = root.join(format!("p{}", w.id));
        std::fs::write(&file, prog[range.clone()].iter().map(|p| p.0.as_str()).collect::<Vec<_>>().join("\0")).expect("write");
        let (a, b) = (run_child(cfg, &full, &file, &root.join(format!("l{}", w.id)), true), run_child(cfg, &empty, &file, &root.join(format!("m{}", w.id)), false));
        let (Some(a), Some(b)) = (a, b) else { return w.stats.violation(format!("programs {range:?}"), "the process which compiles the programs did not finish".to_string()) };
        let n = range.len();
        if a.results.len() != n || b.results.len() != n || a.calls.len() != n || b.calls.len() != n { return w.stats.violation(format!("programs {range:?}"), "the process which compiles the programs did not give all results".to_string()); }
        for (j, i) in range.enumerate() {
            let (src, exec) = &prog[i];
            w.stats.evaluations += 2;
            w.stats.transitions += 2;
            let r = &a.results[j];
            w.stats.state(r);
            if *exec { w.stats.nontrivial_count += 1; }
            if i % 997 == 0 { w.sample(|| format!("{src} => {}", r.chars().take(200).collect::<String>())); }
            let mut bad = |why: &str| w.stats.violation(src.clone(), format!("program: {src}\n\n{why}\nin a directory with the files: {r}\ncalls: {:?}\nin an empty directory: {}\ncalls: {:?}", a.calls[j], b.results[j], b.calls[j]));
            if !a.calls[j].is_empty() || !b.calls[j].is_empty() { bad("compile_str made calls to the file system or network"); }
            else if *exec && r.starts_with('+') { bad("the attempt was not reported as an error"); }
            else if r != &b.results[j] { bad("the result depends on the files"); }
            else if r.contains(secret) { bad("the contents of a file are in the result"); }
            else if r.contains(&abs) && !src.contains(&abs) { bad("the name of the directory is in the result"); }
        }
    }));
    remove_scratch(&root);
    rep
}
