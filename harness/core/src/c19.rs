//! C19: code blocks and inline code show the code unchanged.
use crate::engine::*;
use crate::html::{self, Node};
use crate::lex;

const LANGS: &[&str] = &["none", "papyri", "python", "rust", "html", "js", "json", "css", "c", "java", "sh", "xml", "md", "rb", "php", "sql", "yaml", "hs", "tex", "lua", "pl", "go", "cpp", "cs", "diff", "ml", "scala", "clj", "erl", "d", "groovy", "lisp", "m", "mm", "pas", "r", "re", "rst", "tcl", "textile", "as", "asa", "applescript", "bat", "bib", "dot", "jsp", "make", "adoc", "txt", "erb", "build", "toml", "zz", "a\"b", "<x> &lt;", "\u{e9}", "Python", "C++"];
/// Languages which have a highlighter.
const KNOWN: &[&str] = &["python", "rust", "html", "js", "json", "css", "c", "java", "sh", "xml", "papyri", "none"];
/// Pieces of code.
const UNITS: &[&str] = &["a", "(", "\"", "\n", ")", " ", "'", "https://x.y/z", "# ", "<", "[", "]", "/*", "*/", "//", "{", "}", "&", "é", "@", "`", "\\", "0", "$x", "<!--", "-->", "if", "=", "\t", "def f", "->", "%", "\r\n", ";", "-", "🙂", "|", ">", "</a>", "/", "\u{a0}", "http://", "@fn", "&lt;", "\"\"\"", "<?php ", "\\begin{a}", "```"];

/// A string expression for a text.
fn quoted(s: &str) -> String {
    let mut o = "\"".to_string();
    for c in s.chars() { if c.is_ascii() { o += &format!("\\x{:02X}", c as u32); } else { o.push(c); } }
    o + "\""
}
/// The language of a block, and the code without the line which names it.
fn hint<'a>(src: &'a str, lang: &'a str) -> (&'a str, &'a str) {
    if let Some((first, rest)) = src.split_once('\n') {
        let f = first.trim_end();
        if f.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && f.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') { return (f, rest); }
    }
    (lang, src)
}
fn lines(src: &str) -> Vec<String> {
    let d = lex::dedent(src);
    if d.is_empty() { vec![] } else { d.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l).to_string()).collect() }
}
/// The text of one line, whose markup is only that of highlighting; brackets are paired by their numbers.
fn line_text(v: &[Node], open: &mut Vec<(char, String)>, seen: &mut Vec<String>) -> Result<String, String> {
    let mut out = String::new();
    for n in v {
        match n {
            Node::Text(t) => out += t,
            Node::El(x) => {
                let t: String = match &x.children[..] { [Node::Text(t)] => t.clone(), _ => return Err(format!("unexpected content of {x:?}")) };
                let at = |k: &str| x.attrs.iter().find(|a| a.0 == k).and_then(|a| a.1.clone());
                match x.name.as_str() {
                    "span" => {
                        let (class, no) = (at("class"), at("data-paren-no"));
                        if class.is_none() || x.attrs.len() != 1 + no.is_some() as usize { return Err(format!("unexpected attributes of {x:?}")); }
                        match (class.as_deref().unwrap(), no) {
                            ("lparen", Some(n)) => {
                                if seen.contains(&n) { return Err(format!("bracket number {n} is used twice")); }
                                seen.push(n.clone());
                                open.push((t.chars().next().unwrap(), n));
                            },
                            ("rparen", Some(n)) => {
                                let Some((l, m)) = open.pop() else { return Err(format!("closing bracket {n} without an open one")) };
                                if m != n || !matches!((l, t.as_str()), ('(', ")") | ('[', "]") | ('{', "}")) { return Err(format!("closing bracket {t} {n} is paired with {l} {m}")); }
                            },
                            ("unmatched-paren", None) => for c in t.chars() {
                                if let Some((l, m)) = open.last() { if matches!((l, c), ('(', ')') | ('[', ']') | ('{', '}')) { return Err(format!("closing bracket {c} is not paired with {l} {m}")); } }
                            },
                            ("lparen" | "rparen", None) => return Err(format!("bracket without number: {x:?}")),
                            (_, Some(_)) => return Err(format!("bracket number on {x:?}")),
                            _ => {},
                        }
                    },
                    "a" => {
                        if at("href").as_deref() != Some(&t) || x.attrs.iter().any(|a| a.0 != "href" && a.0 != "class") || !t.starts_with("http") { return Err(format!("unexpected link {x:?}")); }
                    },
                    _ => return Err(format!("unexpected element {x:?}")),
                }
                out += &t;
            },
        }
    }
    Ok(out)
}
/// The only `code` element of a tree.
fn find_code<'a>(v: &'a [Node], out: &mut Vec<&'a html::El>) { for n in v { if let Node::El(x) = n { if x.name == "code" { out.push(x); } else { find_code(&x.children, out); } } } }

/// Judges the output for a code of a language; block gives the first line number.
fn judge(w: &mut Worker, program: &str, code: &str, lang: &str, block: Option<i64>, known: bool) {
    let out = w.compile(program);
    w.stats.transitions += 1;
    let (lang, body) = match block { Some(_) => hint(code, lang), None => (lang, code) };
    let want = lines(body);
    let bad = |w: &mut Worker, why: String| w.stats.violation(program.to_string(), format!("program: {program}\ncode: {code:?}\nlanguage: {lang}\nexpected lines: {want:?}\n{why}\ncompiler: {}", out.describe()));
    if out.panic.is_some() { return bad(w, "panic".into()); }
    if let Some(n) = block { if n.checked_add(want.len().max(1) as i64 - 1).is_none() {
        if out.ok() || !out.diag.contains("integer overflow") { return bad(w, "expected an error, as the line numbers are too large".into()); }
        w.stats.count("errors expected and reported");
        return;
    } }
    if !out.ok() { return bad(w, "expected no error".into()); }
    w.stats.nontrivial_count += 1;
    w.stats.state(&out.html);
    let tree = match html::parse(&out.html) { Ok(t) => t, Err(e) => return bad(w, e) };
    let mut codes = vec![];
    find_code(&tree, &mut codes);
    let [c] = codes[..] else { return bad(w, "expected one code element".into()) };
    let unknown = out.diag.contains("no syntax highlighter found");
    if known && unknown { return bad(w, "the language is not known".into()); }
    let class = c.attrs.iter().find(|a| a.0 == "class").and_then(|a| a.1.clone());
    let plain = unknown || lang == "none";
    if class != (!plain).then(|| format!("syntax-highlight lang-{lang}")) || c.attrs.len() != class.is_some() as usize { return bad(w, "unexpected attributes of the code element".into()); }
    let (mut open, mut seen) = (vec![], vec![]);
    let got: Result<Vec<String>, String> = match block {
        None => line_text(&c.children, &mut open, &mut seen).map(|t| vec![t]),
        Some(first) => (|| {
            let mut got = vec![];
            for pair in c.children.chunks(2) {
                let [Node::El(x), Node::Text(nl)] = pair else { return Err("expected line elements, each followed by a newline".into()) };
                let no = first + got.len() as i64;
                let mut attrs = x.attrs.clone();
                attrs.sort();
                if x.name != "span" || attrs != [("class".to_string(), Some("line".to_string())), ("data-line-no".to_string(), Some(no.to_string()))] || nl != "\n" { return Err(format!("expected line {no}, got {x:?}")); }
                got.push(line_text(&x.children, &mut open, &mut seen)?);
            }
            Ok(got)
        })(),
    };
    w.sample(|| format!("{lang}: {code:?} => {}", out.html));
    let got = match got { Ok(g) => g, Err(e) => return bad(w, e) };
    let got: Vec<String> = got.iter().map(|l| l.strip_suffix('\r').unwrap_or(l).to_string()).collect();
    let same = match block {
        Some(_) => got == want || want.is_empty() && got == [""],
        // inline code of several lines gives a warning, and is joined
        None => got[0].replace('\r', "") == want.concat().replace('\r', "") && (want.len() < 2 || out.diag.contains("inline code cannot be multiple lines")),
    };
    if !same { return bad(w, format!("lines: {got:?}")); }
    if plain && c.children.iter().any(|n| matches!(n, Node::El(x) if block.is_none() || x.children.iter().any(|n| matches!(n, Node::El(_))))) { bad(w, "highlighted although the language is not known".into()); }
}
fn call(lang: &str, code: &str, block: Option<i64>) -> String {
    match block {
        Some(1) => format!("@code(language=`{lang}`, code_block=True) {}", quoted(code)),
        Some(n) => format!("@code(language=`{lang}`, code_block=True, first_line_no={n}) {}", quoted(code)),
        None => format!("@code(language=`{lang}`) {}", quoted(code)),
    }
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every sequence of pieces of code up to a length in every language, as a block and inline; every sequence of lines with all kinds of indentation; every way to write code in a document, with all first line numbers; the output is parsed and its lines, line numbers, brackets and markup compared with the code; a state is an output");
    let (nl, nu) = (LANGS.len() as u64, UNITS.len() as u64);
    // all languages
    for (langs, k, depth) in cfg.q(vec![(6, nu, 2), (nl, 20, 2), (2, 20, 3)], vec![(nl, nu, 3), (8, 24, 4), (2, 14, 5)]) {
        let n = num_seqs(k, 0, depth);
        rep.absorb(explore(cfg, n * langs, |w, i| {
            // one language after the other, as each takes time to prepare
            let (l, s) = (LANGS[(i / n) as usize], nth_seq(i % n, k, 0, depth));
            let code: String = s.iter().map(|u| UNITS[*u]).collect();
            judge(w, &call(l, &code, Some(1)), &code, l, Some(1), KNOWN.contains(&l) && hint(&code, l).0 == l);
            if !code.contains('\n') || i % 7 == 0 { judge(w, &call(l, &code, None), &code, l, None, false); }
        }));
    }
    // brackets
    let br: &[&str] = &["(", ")", "[", "]", "{", "}", "\n", "a"];
    let k = br.len() as u64;
    let (lo, hi) = cfg.q((3, 5), (3, 6));
    let n = num_seqs(k, lo, hi);
    let langs = ["papyri", "sh", "python", "rust"];
    rep.absorb(explore(cfg, n * cfg.q(2, 4), |w, i| {
        let l = langs[(i / n) as usize];
        let code: String = nth_seq(i % n, k, lo, hi).iter().map(|u| br[*u]).collect();
        judge(w, &call(l, &code, Some(1)), &code, l, Some(1), false);
    }));
    // indentation
    let rows: &[&str] = &["", "a", " a", "  a", "\ta", " \ta", "  ", "\u{a0}b", "a ", "\t", "(", "  )", "\u{3000}c", " \u{a0}d"];
    let k = rows.len() as u64;
    let depth = cfg.q(4, 5);
    let n = num_seqs(k, 0, depth);
    rep.absorb(explore(cfg, n * 3, |w, i| {
        let l = ["none", "papyri", "python"][(i % 3) as usize];
        let code = nth_seq(i / 3, k, 0, depth).iter().map(|r| rows[*r]).collect::<Vec<_>>().join("\n");
        judge(w, &call(l, &code, Some(1)), &code, l, Some(1), false);
        if i % 5 == 0 { judge(w, &call(l, &code.replace('\n', "\r\n"), Some(1)), &code.replace('\n', "\r\n"), l, Some(1), false); judge(w, &call(l, &code, None), &code, l, None, false); }
    }));
    // long lines and many lines
    let lens: &[usize] = if cfg.quick() { &[9, 33, 129, 257] } else { &[9, 17, 33, 65, 100, 129, 257, 1025] };
    let ks = cfg.q(24, nu);
    rep.absorb(explore(cfg, num_periodic(ks, 2, lens) * cfg.q(2, 4), |w, i| {
        let m = num_periodic(ks, 2, lens);
        let l = ["papyri", "python", "none", "rust"][(i / m) as usize];
        if cfg.quick() && (l == "python") && i % 5 > 0 { return; }
        let code: String = nth_periodic(i % m, ks, 2, lens).iter().map(|u| UNITS[*u]).collect();
        judge(w, &call(l, &code, Some(1)), &code, l, Some(1), false);
        if !code.contains('\n') { judge(w, &call(l, &code, None), &code, l, None, false); }
    }));
    let br2: &[&str] = &["(", "[", "{", ")", "]", "}", "a ", "\n"];
    rep.absorb(explore(cfg, 8 * 8 * 8 * 6, |w, i| {
        // opened n deep and closed again, with something in between
        let d = digits(i, &[8, 8, 8, 6]);
        let n = [4, 9, 17, 33, 70, 130][d[3]];
        let code: String = (0..n).map(|_| br2[d[0]]).chain((0..n / 2).map(|_| br2[d[1]])).chain((0..n + 1).map(|_| br2[d[2]])).collect();
        judge(w, &call("papyri", &code, Some(1)), &code, "papyri", Some(1), false);
    }));
    // very many lines, or very long ones
    let lens: &[usize] = if cfg.quick() { &[520, 1030] } else { &[499, 500, 501, 502, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2050, 5001, 10001] };
    let us = ["a\n", "(x) = 1\n", "\n", "  é\n", "x ", "(", "[]", "\"s\" ", "é", "@f `x` "];
    rep.absorb(explore(cfg, (lens.len() * us.len() * 3) as u64, |w, i| {
        let d = digits(i, &[lens.len() as u64, us.len() as u64, 3]);
        let l = ["none", "papyri", "python"][d[2]];
        let code = format!("{}z", us[d[1]].repeat(lens[d[0]]));
        judge(w, &call(l, &code, Some(1)), &code, l, Some(1), false);
        if !code.contains('\n') { judge(w, &call(l, &code, None), &code, l, None, false); }
    }));
    // line numbers
    let firsts: &[i64] = &[0, 1, 2, 9, 10, 100, -1, -5, i64::MAX, i64::MAX - 1, i64::MAX - 2, i64::MIN + 1];
    rep.absorb(explore(cfg, firsts.len() as u64 * 16 * 4, |w, i| {
        let d = digits(i, &[firsts.len() as u64, 16, 4]);
        let l = ["none", "papyri", "python", "zz"][d[2]];
        let code = (0..[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 40, 101, 260][d[1]]).map(|j| format!("x = {j}")).collect::<Vec<_>>().join("\n");
        judge(w, &call(l, &code, Some(firsts[d[0]])), &code, l, Some(firsts[d[0]]), false);
    }));
    // the ways to write code
    let ways: &[&str] = &["F", "a F b", "{F}", "<div>F</div>", "@implicit(language=`L`) {F}", "@code_block(language=`L`) F", "@code_block(language=`L`, first_line_no=1) F", "@let(language=`L`) {F}",
        "@code(language=`L`) F", "@implicit(language=`L`) {@let(z=1) {F}}", "@fn f $x -> $x @implicit(language=`L`) {@f F}", "@code(language=`L`, code_block=True) F", "<b>F</b>", "[F]"];
    let texts: &[&str] = &["x = 1", "x", " x", "x ", "é", "(a)", "f(x) + [1]", "\"s\"", "a\nb", "\nx = 1\n", "\n  if a:\n    b\n", "python\nx = (1)\n", "rust\n  fn f() {}\n", "none\n(a)\n", "\n\n", "\n \n a\n\n b\n", "L", "papyri\n@f(a=1) {b} `c`\n", "zz\na\n", "\na `b` c\n", "a `b` c", "\n``\n", "x\ny", "# c https://x.y/ d", "\n<b>&amp;</b>\n", "<b>", "\\n", "\n\\x41\n", " a\n  b\nc", "p-q\nr", "p q\nr", "_1\nr", "1a\nr"];
    rep.absorb(explore(cfg, ways.len() as u64 * texts.len() as u64 * 3 * 4, |w, i| {
        let d = digits(i, &[ways.len() as u64, texts.len() as u64, 3, 4]);
        let (way, code, lang, ticks) = (ways[d[0]], texts[d[1]], ["python", "papyri", "none"][d[2]], [1, 2, 3, 5][d[3]]);
        let fence = "`".repeat(ticks);
        if code.contains(&fence) || code.starts_with('`') || code.ends_with('`') || code.contains('\n') && ticks < 3 { return; }
        let is_fence = way.starts_with("@code_block") || way.starts_with("@code(language=`L`, code_block") || !way.starts_with("@code(") && ticks >= 3;
        // a block is not allowed in there
        if is_fence && (way.starts_with("<b>")) { return; }
        // in these the string is a value and not code
        if way == "[F]" || way.contains("@f F") { return; }
        let block = is_fence.then_some(1);
        let named = way.contains("@implicit") || way.contains("@code");
        let lang = if named { lang } else { "none" };
        let src = way.replace('L', lang).replace('F', &format!("{fence}{code}{fence}"));
        judge(w, &src, code, lang, block, false);
    }));
    rep
}
