//! C02: text is reproduced with only the documented changes.
use crate::engine::*;
use crate::html::esc;
use crate::lex::*;

#[derive(Debug, PartialEq)]
pub enum Expect { Html(String), Error, Skip }

/// The reference model: paragraphs of inline text and code.
pub fn model(src: &str) -> Expect { model_of(src, false) }
fn model_of(src: &str, items: bool) -> Expect {
    // items of the current paragraph: (html, is whitespace)
    let mut paras: Vec<Vec<(String, bool)>> = vec![vec![]];
    let mut run = String::new();
    let mut left = true;
    let toks: Vec<(T, usize, usize)> = lex(src).into_iter().filter(|t| t.0 != T::Comment).collect();
    fn flush(run: &mut String, paras: &mut Vec<Vec<(String, bool)>>) {
        if !run.is_empty() {
            let t = std::mem::take(run);
            paras.last_mut().unwrap().push((esc(&subs(&t), false), false));
        }
    }
    let mut error = false;
    for (k, (t, at, n)) in toks.iter().enumerate() {
        let next = toks.get(k + 1);
        let mut text: Option<String> = None;
        let mut item: Option<(String, bool)> = None;
        match t {
            T::Comment => unreachable!(),
            T::Ws | T::Para => {},
            // a named entity which the model does not know
            T::Ent(None) if src[*at..at + n].strip_suffix(';').map_or(false, |e| e.len() > 1 && e[1..].chars().all(|c| c.is_ascii_alphanumeric()) && !e.contains("bogus")) => return Expect::Skip,
            T::Esc(None) | T::Ent(None) | T::Verb(_, _, false) | T::BadClose | T::Close(_) | T::RBrace | T::RSqb => error = true,
            T::Esc(Some(c)) | T::Ent(Some(c)) => item = Some((esc(&c.to_string(), false), ws(*c))),
            T::Verb(n, s, true) => {
                if *n >= 3 { return Expect::Skip; }
                item = Some((format!("<code>{}</code>", esc(&dedent(s), false)), false));
            },
            T::Func(_) | T::Var(_) | T::LBrace | T::LSqb => return Expect::Skip,
            T::LAngle => {
                if matches!(next, Some((T::Name(_) | T::Var(_) | T::Excl, ..))) { return Expect::Skip; }
                flush(&mut run, &mut paras);
                text = Some("<".into());
            },
            T::Name(s) | T::Text(s) => text = Some(s.clone()),
            T::LPar => text = Some("(".into()),
            T::RPar => text = Some(")".into()),
            T::RAngle(_) => text = Some(src[*at..at + n].into()),
            T::Quote(c) => text = Some(match (c, left) { ('\'', true) => "‘", ('\'', false) => "’", (_, true) => "“", _ => "”" }.into()),
            T::Ellipsis => text = Some("…".into()),
            T::Bar => text = Some("\u{2060}".into()),
            T::Equals => text = Some("=".into()),
            T::Excl => text = Some("!".into()),
        }
        if let Some(s) = text { run += &s; } else { flush(&mut run, &mut paras); }
        match t {
            T::Para => paras.push(vec![]),
            T::Ws => {
                // whitespace runs (around removed comments too) are one space
                let prev_ws = k > 0 && matches!(toks[k - 1].0, T::Ws | T::Para);
                if !prev_ws { paras.last_mut().unwrap().push((" ".into(), true)); }
            },
            _ => if let Some(i) = item { paras.last_mut().unwrap().push(i) },
        }
        left = items && matches!(t, T::Text(s) | T::Name(s) if s.ends_with(|c| ('\u{e100}'..'\u{e200}').contains(&c))) || matches!(t, T::Equals | T::LBrace | T::LPar | T::LSqb | T::RAngle(_) | T::Ws | T::Para);
    }
    flush(&mut run, &mut paras);
    if error { return Expect::Error; }
    let mut html = String::new();
    for p in paras {
        let a = p.iter().position(|i| !i.1);
        let b = p.iter().rposition(|i| !i.1);
        if let (Some(a), Some(b)) = (a, b) {
            html += "<p>";
            for (s, _) in &p[a..=b] { html += s; }
            html += "</p>";
        }
    }
    Expect::Html(html)
}

fn value_doc(s: &str) -> Expect {
    Expect::Html(if s.chars().all(ws) { String::new() } else { format!("<p>{}</p>", esc(s, false)) })
}

/// A string template which is the rest of the source.
fn template_model(src: &str) -> Expect {
    let mut toks: Vec<(T, usize, usize)> = vec![];
    for t in lex(src).into_iter().filter(|t| t.0 != T::Comment) {
        let w = |t: &T| matches!(t, T::Ws | T::Para);
        if w(&t.0) && toks.last().map_or(false, |p| w(&p.0)) {
            if t.0 == T::Para { toks.pop(); } else { continue; }
        }
        toks.push(t);
    }
    let T::Quote(open) = toks[0].0 else { return Expect::Skip };
    // where each brace was opened; the text, and whether each character is whitespace of the source
    let (mut open_at, mut error, mut out, mut skip_ws): (Vec<usize>, bool, Vec<(char, bool)>, bool) = (vec![], false, vec![], false);
    for (k, (t, at, n)) in toks.iter().enumerate().skip(1) {
        let skipping = std::mem::replace(&mut skip_ws, false);
        match t {
            T::Quote(q) if *q == open => {
                if k + 1 != toks.len() { return Expect::Skip; }
                return if error || !open_at.is_empty() { Expect::Error } else { value_doc(&out.iter().map(|c| c.0).collect::<String>()) };
            },
            T::Ent(None) if !src[*at..at + n].contains("bogus") => return Expect::Skip,
            T::Para if skipping => {},
            T::Para | T::Verb(..) | T::Esc(None) | T::Ent(None) => error = true,
            T::BadClose => error = true,
            T::LBrace => { open_at.push(out.len()); skip_ws = true; },
            T::RBrace => match open_at.pop() { None => error = true, Some(i) => if out[i..].last().map_or(false, |c| c.1) { out.pop(); } },
            T::Esc(Some(c)) | T::Ent(Some(c)) => out.push((*c, false)),
            T::Var(_) => return Expect::Skip,
            T::Ws => if !skipping { out.push((' ', true)); },
            _ => out.extend(src[*at..at + n].chars().map(|c| (c, false))),
        }
    }
    Expect::Error
}

/// A string value: a backtick string or a template.
pub fn check_string(w: &mut Worker, lit: &str) {
    let exp = if lit.starts_with('`') {
        let l = lex(lit);
        let T::Verb(_, s, ok) = &l[0].0 else { return };
        if !ok { Expect::Error } else if l.len() > 1 { Expect::Skip } else { value_doc(s) }
    } else { template_model(lit) };
    compare(w, &format!("@str::from {lit}"), exp);
}

pub fn check(w: &mut Worker, src: &str) {
    compare(w, src, model(src))
}

fn compare(w: &mut Worker, src: &str, exp: Expect) {
    if exp == Expect::Skip { w.stats.count("skipped_not_text"); return; }
    let out = w.compile(src);
    w.stats.transitions += 1;
    match &exp {
        Expect::Html(h) => {
            if out.ok_html() != Some(h.as_str()) {
                w.stats.violation(format!("text {src:?}"), format!("source: {src:?}\nexpected: {h:?}\n{}", out.describe()));
            }
            w.stats.state(h);
            if h.len() > 8 { w.stats.nontriv(h); }
            w.sample(|| format!("{src:?} => {h:?}"));
        },
        Expect::Error => {
            w.stats.count("expected_errors");
            if out.num_errors == 0 || out.panic.is_some() {
                w.stats.violation(format!("text {src:?}"), format!("source: {src:?}\nexpected an error\n{}", out.describe()));
            }
        },
        Expect::Skip => {},
    }
}

/// Items within text: the source, the rendering, and whether it ends with the `>` of an opening or empty tag.
const ITEMS: &[(&str, &str, bool)] = &[
    ("<b>x</b>", "<b>x</b>", false), ("<b>\"x\"</b>", "<b>“x”</b>", false), ("<i>'x'</>", "<i>‘x’</i>", false), ("{x}", "x", false), ("{\"x\"}", "“x”", false), ("$v", "w", false), ("@f.", "w", false), ("@f `q`", "w", false), ("<br>", "<br>", true),
    ("<img src=\"x\">", "<img src=\"x\">", true), ("@match 1 {_ -> {w}}", "w", false), ("@g {x}", "<u>x</u>", false), ("<b/>", "<b></b>", true), ("@g \"x\"", "<u>x</u>", false), ("<a href='x'>y</a>", "<a href=\"x\">y</a>", false), ("@g <b>x</b>", "<u><b>x</b></u>", false), ("@f <br>", "w", true), ("@let(z=1) {w}", "w", false), ("@g $v", "<u>w</u>", false), ("<b><i>x</></>", "<b><i>x</i></b>", false),
];
const AROUND: &[&str] = &["\"", "'", " ", "a", ")", "(", "-", "é", "=", "!", "<!-- c -->", "# c\n", "\\\"", "&lt;", "\n", "`v`", "1", ",", "_", "+", "`` ` ``"];
/// Text and items: `\u{e000}` and `\u{e100}` stand for them in the model.
fn check_items(w: &mut Worker, seq: &[usize]) {
    let (mut src, mut plain) = (String::new(), String::new());
    for d in seq {
        if *d < AROUND.len() {
            let a = AROUND[*d];
            // the text would be a part of the item
            if src.ends_with("$v") && a.starts_with(|c: char| c.is_ascii_alphanumeric() || "_:".contains(c)) { return; }
            if src.ends_with('`') && a.starts_with('`') { return; }
            src += a; plain += a;
        } else {
            let it = ITEMS[d - AROUND.len()];
            src += it.0;
            plain.push(char::from_u32(if it.2 { 0xe100 } else { 0xe000 } + (d - AROUND.len()) as u32).unwrap());
        }
    }
    let Expect::Html(mut h) = model_of(&plain, true) else { w.stats.count("skipped_not_text"); return };
    for (k, it) in ITEMS.iter().enumerate() { h = h.replace(char::from_u32(if it.2 { 0xe100 } else { 0xe000 } + k as u32).unwrap(), it.1); }
    compare(w, &format!("@fn f $x -> {{w}}\n@fn g $x -> <u>$x</u>\n@let(v={{w}})...\n{src}"), Expect::Html(h));
}

pub const ATOMS: &[&str] = &[
    "a", "\"", " ", "-", "<", "\n\n", "1", "'", ">", "=", ".", "(", "é", "\\\"", "&amp;", "# c\n", "`v`", "|", "!", "/", "+",
    ")", "c", "~", "\n", "...", "\\n", "<!-- x -->", "_", ",", "*", ":", "?", "日", "\t", "&#65;", "\\x41", "\\ ", "$", "@", "%", "\u{a0}", "``a`b``", "&",
    "True", "\r\n", "\\u00e9", "&#x3c;", "&nbsp;", ";", "# c\n\n", "\\#", "-->", "\\\\", "\u{1F600}", "&bogus;", "\\xZZ",
];

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every sequence of text fragments up to the bound (all fragments, short; the interacting symbol fragments, longer), compared byte for byte with the reference text model; a state is a distinct expected document, a transition one source text; non-trivial: output beyond one character");
    let k = ATOMS.len() as u64;
    let n = cfg.q(3, 4);
    rep.absorb(explore(cfg, num_seqs(k, 0, n), |w, i| {
        let s: String = nth_seq(i, k, 0, n).into_iter().map(|d| ATOMS[d]).collect();
        check(w, &s);
    }));
    // the fragments that interact with their neighbours, longer
    let core = cfg.q(20u64, 24);
    let m = cfg.q(5, 6);
    let m = if cfg.quick() { m } else { m };
    rep.absorb(explore(cfg, num_seqs(core, n + 1, m), |w, i| {
        let s: String = nth_seq(i, core, n + 1, m).into_iter().map(|d| ATOMS[d]).collect();
        check(w, &s);
    }));
    // text around items of every kind
    let k = (AROUND.len() + ITEMS.len()) as u64;
    let m = cfg.q(3, 4);
    rep.absorb(explore(cfg, num_seqs(k, 1, m), |w, i| check_items(w, &nth_seq(i, k, 1, m))));
    // code between any number of backticks, in a line of text and alone
    let units = ["é", "`é", "``é", "```é", "\né", "é`````é", " é", "&é", "<!-- é", "\"é\\n"];
    let k2 = units.len() as u64;
    let (a, b) = (num_seqs(k2, 0, cfg.q(2, 4)), 9);
    rep.absorb(explore(cfg, a * b * 3, |w, i| {
        let d = digits(i, &[b, a, 3]);
        let ticks = d[0] + 1;
        let code: String = std::iter::once("é").chain(nth_seq(d[1] as u64, k2, 0, cfg.q(2, 4)).into_iter().map(|d| units[d])).collect();
        let fence = "`".repeat(ticks);
        // the code ends at the first delimiter; another number of backticks is an error (in C01 and C18)
        if code.contains(&fence) || ticks < 3 && code.contains('\n') { return; }
        let text = |s: &str| s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;");
        let (pre, post) = [("", ""), ("x", " y"), ("", "x")][d[2]];
        let src = format!("{pre}{fence}{code}{fence}{post}");
        let p = |s: &str| if s.is_empty() { String::new() } else { format!("<p>{s}</p>") };
        let want = if ticks < 3 { format!("<p>{pre}<code>{}</code>{post}</p>", text(&code)) } else {
            let lines: String = code.lines().enumerate().map(|(k, l)| format!("<span class=\"line\" data-line-no=\"{}\">{}</span>\n", k + 1, text(l))).collect();
            format!("{}<pre class=\"panel listing\"><code>{lines}</code></pre>{}", p(pre), p(post.trim()))
        };
        compare(w, &src, Expect::Html(want));
    }));
    // long texts
    let lens: &[usize] = if cfg.quick() { &[8, 9, 17, 33, 65, 257] } else { &[7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025] };
    rep.absorb(explore(cfg, num_periodic(k, 2, lens), |w, i| {
        let s: String = nth_periodic(i, k, 2, lens).into_iter().map(|d| ATOMS[d]).collect();
        check(w, &s);
        if i % 3 == 0 { check_string(w, &format!("\"{s}\"")); }
        if i % 3 == 1 { check_string(w, &format!("``{s}``")); }
    }));
    // symbols: every string over the substitution characters
    let sym = ["-", "<", ">", "=", "!", "1", "+", "/", "(", "c", ")", "~", ".", "'"];
    let m = cfg.q(5, 6);
    rep.absorb(explore(cfg, num_seqs(sym.len() as u64, 4, m), |w, i| {
        let s: String = nth_seq(i, sym.len() as u64, 4, m).into_iter().map(|d| sym[d]).collect();
        check(w, &format!("x {s}y"));
    }));
    // string values: the same fragments inside templates and backtick strings
    let n = cfg.q(2, 3);
    let extra = ["{", "}", "{ ", " }", "``", "```"];
    let all: Vec<&str> = ATOMS.iter().copied().chain(extra).collect();
    let k = all.len() as u64;
    rep.absorb(explore(cfg, num_seqs(k, 0, n) * 5, |w, i| {
        let s: String = nth_seq(i / 5, k, 0, n).into_iter().map(|d| all[d]).collect();
        match i % 5 {
            0 => check_string(w, &format!("`{s}`")),
            1 => check_string(w, &format!("``{s}``")),
            2 => check_string(w, &format!("```{s}```")),
            3 => check_string(w, &format!("\"{s}\"")),
            _ => check_string(w, &format!("'{s}'")),
        }
    }));
    // templates: what has no text of its own, longer
    let core = ["a", "{", "}", "<!-- x -->", " ", "&amp;", "b", "# c\n", "'", "\\n", "-", "\n", ".", "<"];
    let k = core.len() as u64;
    let m = cfg.q(5, 6);
    rep.absorb(explore(cfg, num_seqs(k, n + 1, m), |w, i| {
        let s: String = nth_seq(i, k, n + 1, m).into_iter().map(|d| core[d]).collect();
        check_string(w, &format!("\"{s}\""));
    }));
    // every character of Unicode, alone, escaped, and as an entity
    rep.absorb(explore(cfg, 0x110000 / 64, |w, i| {
        let cs: Vec<char> = (i as u32 * 64..i as u32 * 64 + 64).filter_map(char::from_u32).collect();
        for c in cs {
            if cfg.quick() && c as u32 > 0x3100 && (c as u32) % 97 != 0 { continue; }
            check(w, &format!("x{c}y\"{c}\""));
            check_string(w, &format!("``{c}x{c}``"));
            check_string(w, &format!("\"x{c}y\""));
            if c != '\n' && !matches!(c, 'x' | 'u' | 'U') { check(w, &format!("\\{c}\\U{:08x}.", c as u32)); }
            let n = c as u32;
            check(w, &format!("&#{n};&#x{n:X};&#x0{n:x};a\\U{n:08X}{}{}", if n < 0x10000 { format!("\\u{n:04X}") } else { String::new() }, if n < 256 { format!("\\x{n:02x}\\x{n:02X}") } else { String::new() }));
            check_string(w, &format!("\"&#{n};\\U{n:08X}\""));
        }
    }));
    rep
}
