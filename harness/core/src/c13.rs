//! C13: batches.
use crate::cli;
use crate::engine::*;
use std::collections::BTreeMap;
use std::path::Path;

/// (name, source)
const DOCS: &[(&str, &str)] = &[
    ("idthen", "@let(a=@import `lib/mid`) {$a::v} @let(b=@import `lib/m`) {$b::v}"),
    ("manyids", "@fn f $x -> {@str::unique_id $x @str::unique_id $x @str::unique_id $x @str::unique_id $x @str::unique_id $x} @fn g $x -> {@f $x @f $x @f $x @f $x @f $x} @g `a` @g `b` @g `a` @g `id` @g `v` @g `x`"),
    ("plain", "Hello *world*.\n\n<b>x</b> @code `y`"),
    ("raise", "a @raise `r` @let(k=1) $k"),
    ("syntax", "a {<b> x"),
    ("ids", "@str::unique_id `a` @str::unique_id `a` @str::unique_id `b`"),
    ("names", "@let(k=1, imp=2) {$k} @implicit(imp=`3`) {@let(g=@fn($imp: @implicit str) $_x: none -> $imp) {@g .}} @export(e=5). @fn f $x -> {f $x} @f `z`"),
    ("uses", "$e"),
    ("usesf", "@f `b`"),
    ("usesimp", "@fn g($imp: @implicit str) . -> $imp @g ."),
    ("lib", "@let(m=@import `lib/m`) {$m::v @m::f `x`} @str::unique_id `id`"),
    ("libid", "@let(m=@import `lib/mid`) $m::v @str::unique_id `id`"),
    ("inclid", "@str::unique_id `id` @include `lib/mid` $v"),
    ("incl", "@include `lib/m` @f `y` $v"),
    ("bad", "@let(m=@import `lib/bad`) $m::v"),
    ("inclbad", "@include `lib/bad` ok"),
    ("deepbad", "@include `lib/usesbad`"),
    ("cycle", "@include `lib/cyc`"),
    ("missing", "@include `lib/gone`"),
    ("binary", "@include `lib/binary` x"),
    ("asdir", "@import `lib/dir` x"),
    ("write", "@file::write(`w/one`) {one <b>1</b>} @file::write(`w/two`) two"),
    ("writeid", "@file::write(`w/id`) {@str::unique_id `a`} @str::unique_id `a`"),
    ("writeonly", "@file::write(`w/only`) x"),
    ("writebad", "@file::write(`w/bad`) x @raise `r`"),
    ("libwrite", "@include `lib/writes`"),
    ("warn", "@export(a=1). @export(a=2). w"),
    ("empty", "# nothing\n"),
    ("strings", "@let(r=@regex::compile `(?P<q>a)(?P<zz>b)`, d=@regex::find($r) `ab`) {<b **$d>{$d::zz}</b>} @html::parse `<!DOCTYPE html><html><head></head><body><p new_attr=\"1\">x</p></body></html>`"),
    ("code", "@code(language=`papyri`) `@raise x` @code(language=`rust`) `fn f() {}` `x = 1`"),
    ("matches", "@match [1, 2] {[$a, 3] | [$a, $b] -> {$a $b}, _ -> .} @match `x` {$a: int -> `no`, $s -> $s}"),
    ("std", "@let(b=1, list=2) $b @fn page $x -> $x @page `p` @href(`u`) v"),
    ("raisefn", "@fn f $x -> @raise $x @list::map($f) [`1`]"),
    ("errlib", "@raise `x` @include `lib/m` @f `y`"),
    ("errvia", "$zz @let(m=@import `lib/viam`) {$m::v @raise `y`}"),
    ("via", "@let(m=@import `lib/viam`, k=@import `lib/m`) {$m::v $k::v}"),
    ("mixed", "@include `lib/m` @let(i=@import `lib/mid`) @raise `x`"),
    ("order", "@let(a=@import `lib/mid`, b=@import `lib/mid2`) {$a::v $b::v}"),
    ("order2", "@let(b=@import `lib/mid2`, a=@import `lib/mid`) {$a::v $b::v}"),
];
const LIBS: &[(&str, &str)] = &[
    ("lib/m.papyri", "lib text @export @fn f $x -> {f $x} @export(v=`vm`)."),
    ("lib/mid.papyri", "lib id @str::unique_id `id` @export(v={@str::unique_id `id`})."),
    ("lib/mid2.papyri", "lib @export(v={@str::unique_id `id`})."),
    ("lib/bad.papyri", "bad @raise `lib` @export(v=`vb`)."),
    ("lib/viam.papyri", "@include `m` @export(v={$v v})."),
    ("lib/usesbad.papyri", "uses @include `bad`"),
    ("lib/cyc.papyri", "c @include `cyc2`"),
    ("lib/cyc2.papyri", "d @include `cyc`"),
    ("lib/writes.papyri", "@file::write(`w/lib`) x"),
];

fn libs(dir: &Path) {
    for (n, s) in LIBS { cli::write(dir, n, s); }
    cli::write(dir, "lib/binary.papyri", b"ok \xff\xfe");
    cli::write(dir, "lib/dir.papyri/inside", "");
}

/// What one document gives: success or failure, and if successful, its output and files.
fn result(o: &Out) -> String {
    if let Some(p) = &o.panic { return format!("panic {p}"); }
    if !o.ok() { return format!("failed {:?}", o.load_err); }
    format!("ok\n{}\n--text--\n{}\n--files--\n{:?}", o.html, o.text, o.files)
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every sequence of documents up to a length, compiled one after another in one context (and all pairs by the command), each compared with the same document compiled alone; a state is a history, a transition the compilation of its last document");
    let root = scratch(cfg);
    let src = root.join("src");
    for (n, s) in DOCS { cli::write(&src, &format!("{n}.papyri"), s); }
    libs(&src);
    let n = DOCS.len() as u64;
    let out_dir = root.join("out");
    let new = |w: &Worker| (w.subject.new_session)(Some(&out_dir));
    let load = |w: &mut Worker, ses: &mut Box<dyn Session>, d: usize| -> Out {
        w.stats.evaluations += 1;
        let p = src.join(format!("{}.papyri", DOCS[d].0));
        w.guard(DOCS[d].1, |_| ses.load(&p))
    };
    // each alone
    let mut w = Worker::new(cfg.subject, 99);
    let alone: Vec<(String, Out)> = (0..DOCS.len()).map(|d| { let mut s = new(&w); let o = load(&mut w, &mut s, d); (result(&o), o) }).collect();
    for (i, (r, _)) in alone.iter().enumerate() { rep.extra.insert(format!("alone: {}", DOCS[i].0), r.chars().take(300).collect()); }
    rep.extra.insert("documents which succeed alone".into(), alone.iter().filter(|a| a.1.ok()).count().to_string());
    let own_diag = |d: usize| !DOCS[d].1.contains("@import") && !DOCS[d].1.contains("@include");
    let len = cfg.q(3, 4);
    let total = n.pow(len as u32);
    // each execution has a context of its own, with the standard library
    rep.absorb(explore_by(cfg, total, 100_000, |w, i| {
        let h = digits(i, &vec![n; len]);
        let mut ses = new(w);
        let mut prefix = String::new();
        for (k, &d) in h.iter().enumerate() {
            let o = load(w, &mut ses, d);
            prefix += DOCS[d].0; prefix += " ";
            let r = result(&o);
            w.stats.transitions += 1;
            if k + 1 == len || k == 0 { w.stats.state(&h[..=k]); }
            let diag_same = !own_diag(d) || o.diag == alone[d].1.diag;
            if r != alone[d].0 || !diag_same {
                w.stats.violation(prefix.clone(), format!("documents: {prefix}\n\nthe last one: {}\nalone: {}\n\nin this history: {}\n{}", DOCS[d].1, alone[d].0, r, o.describe()));
                return;
            }
            if o.ok() && k > 0 { w.stats.nontrivial_count += 1; }
        }
        w.sample(|| format!("{prefix}: each as alone"));
    }));
    
    // long histories: of one and two documents, and of all of them in turn
    let lens: &[usize] = if cfg.quick() { &[9, 20] } else { &[9, 20, 70] };
    rep.absorb(explore(cfg, num_periodic(n, 2, lens) + 4 * n, |w, i| {
        let many = num_periodic(n, 2, lens);
        let h: Vec<usize> = if i < many { nth_periodic(i, n, 2, lens) } else { let k = ((i - many) / 4) as usize; (0..2 * DOCS.len()).map(|j| match (i - many) % 4 { 0 => (k + j) % DOCS.len(), 1 => (k + DOCS.len() * 2 - j) % DOCS.len(), 2 => (k + 3 * j) % DOCS.len(), _ => (k + j * j) % DOCS.len() }).collect() };
        let mut ses = new(w);
        for (k, &d) in h.iter().enumerate() {
            let o = load(w, &mut ses, d);
            w.stats.transitions += 1;
            if result(&o) != alone[d].0 || own_diag(d) && o.diag != alone[d].1.diag {
                let names: String = h[..=k].iter().map(|d| format!("{} ", DOCS[*d].0)).collect();
                w.stats.violation(names.clone(), format!("documents: {names}\n\nthe last one: {}\nalone: {}\n\nin this history: {}\n{}", DOCS[d].1, alone[d].0, result(&o), o.describe()));
                return;
            }
        }
        w.stats.nontrivial_count += 1;
    }));
    // the command: every pair (or triple) of documents in one batch
    // (success, the files, what is said of the document with and without --ignore-warnings)
    type Single = (bool, BTreeMap<String, Vec<u8>>, [Vec<String>; 2]);
    let said = |r: &cli::Ran, name: &str| -> Vec<String> { r.stdout.lines().chain(r.stderr.lines()).filter(|l| l.starts_with(&format!("{name} ("))).map(String::from).collect() };
    let per = |name: &str, dir: &Path| -> Single {
        let quiet = cli::run(cfg, dir, &["-o", "out", "--ignore-warnings", name]);
        let _ = std::fs::remove_dir_all(dir.join("out"));
        let r = cli::run(cfg, dir, &["-o", "out", name]);
        let t = cli::tree(&dir.join("out"));
        let _ = std::fs::remove_dir_all(dir.join("out"));
        (r.ok(), t, [said(&r, name), said(&quiet, name)])
    };
    let setup = |dir: &Path, docs: &[usize]| -> Vec<String> {
        libs(dir);
        docs.iter().enumerate().map(|(k, &d)| {
            let name = format!("{k}-{}.papyri", DOCS[d].0);
            // the files which it writes are its own
            cli::write(dir, &name, DOCS[d].1.replace("`w/", &format!("`w{k}/")));
            name
        }).collect()
    };
    let len = cfg.q(2, 3);
    // what each gives alone, at each place
    let single: Vec<Single> = {
        let cells: Vec<std::sync::Mutex<Option<Single>>> = (0..DOCS.len() * len).map(|_| std::sync::Mutex::new(None)).collect();
        let next = std::sync::atomic::AtomicUsize::new(0);
        if std::env::var("MC_PART").is_err() {
            std::thread::scope(|sc| for _ in 0..cfg.threads { sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= cells.len() { break; }
                let (d, k) = (i % DOCS.len(), i / DOCS.len());
                let dir = cli::fresh(&root.join(format!("s{i}")));
                let names = setup(&dir, &vec![d; k + 1]);
                *cells[i].lock().unwrap() = Some(per(&names[k], &dir));
                let _ = std::fs::remove_dir_all(&dir);
            }); });
        }
        cells.into_iter().map(|c| c.into_inner().unwrap().unwrap_or_default()).collect()
    };
    rep.absorb(explore(cfg, n.pow(len as u32) * 2, |w, i| {
        let (h, quiet) = (digits(i / 2, &vec![n; len]), i % 2 == 1);
        let dir = cli::fresh(&root.join(format!("b{}", w.id)));
        let names = setup(&dir, &h);
        let args: Vec<&str> = ["-o", "out"].into_iter().chain(quiet.then_some("--ignore-warnings")).chain(names.iter().map(|s| s.as_str())).collect();
        let r = cli::run(cfg, &dir, &args);
        let got = cli::tree(&dir.join("out"));
        let _ = std::fs::remove_dir_all(&dir);
        let (mut want, mut ok) = (BTreeMap::new(), true);
        for (k, &d) in h.iter().enumerate() { let s = &single[k * DOCS.len() + d]; ok &= s.0; want.extend(s.1.clone()); }
        w.stats.evaluations += 1;
        w.stats.transitions += len as u64;
        if !want.is_empty() { w.stats.nontrivial_count += 1; }
        let unsaid = h.iter().enumerate().find(|&(k, &d)| own_diag(d) && said(&r, &names[k]) != single[k * DOCS.len() + d].2[quiet as usize]);
        if let Some((k, &d)) = unsaid {
            w.stats.violation(format!("command {names:?} said"), format!("papyri {args:?}\nsays of {}: {:?}\nalone: {:?}\nstdout: {}\nstderr: {}", names[k], said(&r, &names[k]), single[k * DOCS.len() + d].2, r.stdout, r.stderr));
        }
        if r.ok() != ok || got != want || r.code.is_none() {
            w.stats.violation(format!("command {names:?}"), format!("papyri {args:?}\nexit {:?}, expected {}\nfiles:\n{}\nexpected (each alone):\n{}\nstdout: {}\nstderr: {}", r.code, if ok {"success"} else {"failure"}, cli::show_tree(&got), cli::show_tree(&want), r.stdout, r.stderr));
        }
    }));
    remove_scratch(&root);
    rep
}
