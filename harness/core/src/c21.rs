//! C21: text mode.
use crate::ast::*;
use crate::c03::{self, at, c1, e, let_, ts};
use crate::cli;
use crate::engine::*;
use crate::html::{self, Node};
use crate::prog::show;
use crate::sem::{self, N};

/// The text of a tree of elements, with the documented line breaks.
fn text_of(v: &[Node], out: &mut String) {
    let mut after_doctype = false;
    for n in v {
        match n {
            // the line break which HTML output has after a doctype is not text
            Node::Text(t) => *out += if after_doctype { t.strip_prefix('\n').unwrap_or(t) } else { t },
            Node::El(x) => {
                text_of(&x.children, out);
                match x.name.as_str() { "p" => *out += "\n\n", "hr" => *out += "\n\u{2015}\n\n", n if sem::tag_is_block(n) => *out += "\n", _ => {} }
            },
        }
        after_doctype = matches!(n, Node::El(x) if x.name == "!DOCTYPE");
    }
}
/// Only the text content of a model tree.
fn content(h: &[N], out: &mut String) { for n in h { match n { N::Text(t) => *out += t, N::Tag(t) => content(&t.content, out) } } }
fn squash(s: &str) -> String { s.chars().filter(|c| !matches!(c, '\n' | '\u{2015}')).collect() }

fn judge(w: &mut Worker, doc: &[A]) {
    let src = print(doc);
    let Ok(want) = sem::expect(doc) else { w.stats.count("skipped: out of fuel"); return };
    let out = w.compile(&src);
    w.stats.transitions += 1;
    let bad = |w: &mut Worker, why: String| w.stats.violation(&src, format!("source:\n{src}\n\n{why}\ntext: {:?}\ncompiler: {}", out.text, out.describe()));
    if out.panic.is_some() { return bad(w, "panic".into()); }
    if out.ok() != want.is_some() { return bad(w, format!("expected {}", show(&want))); }
    if !out.ok() { w.stats.count("errors expected and reported"); return; }
    let tree = sem::document(doc).unwrap();
    let (mut t1, mut c) = (String::new(), String::new());
    sem::render_text(&tree, &mut t1);
    content(&tree, &mut c);
    w.sample(|| format!("{src} => {t1:?}"));
    w.stats.state(&t1);
    w.stats.nontrivial_count += 1;
    if out.text != t1 { return bad(w, format!("expected text: {t1:?}")); }
    if squash(&out.text) != squash(&c) { return bad(w, format!("the text content is {c:?}")); }
    let mut t2 = String::new();
    match html::parse(&out.html) { Ok(t) => text_of(&html::norm(&t), &mut t2), Err(e) => return bad(w, format!("the HTML output is not well-formed: {e}")) }
    if out.text != t2 { bad(w, format!("text of the HTML output: {t2:?}")); }
}

const TAGS: &[&str] = &["!DOCTYPE", "a", "abbr", "address", "area", "article", "aside", "audio", "b", "base", "bdi", "bdo", "blockquote", "body", "br", "button", "canvas", "caption", "cite", "code", "col", "colgroup", "command", "custom", "Custom_2", "data", "dd", "del", "details", "dfn", "dialog", "div", "DIV", "dl", "dt", "em", "embed", "fieldset", "figcaption", "figure", "footer", "form", "h1", "H1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "HR", "html", "i", "iframe", "img", "input", "ins", "kbd", "keygen", "label", "legend", "li", "link", "main", "map", "mark", "math", "menu", "menuitem", "meta", "meter", "nav", "noscript", "object", "ol", "option", "output", "p", "P", "param", "picture", "pre", "progress", "q", "rp", "rt", "ruby", "s", "samp", "script", "section", "select", "slot", "small", "source", "span", "strong", "style", "sub", "summary", "sup", "svg", "table", "tbody", "td", "template", "textarea", "tfoot", "th", "thead", "time", "title", "tr", "track", "u", "ul", "var", "video", "wbr"];

/// an element; those without an end tag have no content
fn el(n: &str, attrs: Vec<At>, c: Vec<A>) -> A { let c = if html::is_void(n) { vec![] } else { c }; e(tag(n, attrs, c)) }
/// Ways to fill an element.
fn fill(k: usize, x: &str) -> Vec<A> {
    match k {
        0 => vec![],
        1 => vec![ts("x")],
        2 => vec![e(s("<&\"'>"))],
        3 => vec![el(x, vec![], vec![])],
        4 => vec![el(x, vec![], vec![ts("y")])],
        5 => vec![ts("a"), A::Para, ts("b")],
        6 => vec![ts("a"), el(x, vec![], vec![ts("y")]), ts("b")],
        7 => vec![A::Char('\n'), ts("a"), A::Char('\n'), ts("b")],
        8 => vec![ts("a"), A::Sp, e(tag("br", vec![], vec![])), A::Sp, ts("b")],
        12 => vec![ts("a"), A::Char('\n')],
        13 => vec![A::Char('\n')],
        14 => vec![ts("a"), A::Sp],
        15 => vec![ts("a"), e(s("\n"))],
        16 => vec![ts("a"), e(tag("br", vec![], vec![])), A::Char('\n'), A::Para, ts("b"), A::Char('\n')],
        17 => vec![el(x, vec![], vec![]), A::Char('\n'), ts("c"), el(x, vec![], vec![ts("y")]), A::Char('\n')],
        18 => vec![el(x, vec![], vec![ts("y")]), e(s("\n"))],
        19 => vec![e(s("\n")), el(x, vec![], vec![ts("y")])],
        20 => vec![e(s("\n"))],
        21 => vec![e(c1("list::join", list(vec![tag("b", vec![], vec![ts("y")]), s("\n")])))],
        22 => vec![e(c1("list::join", list(vec![s("\n"), s("y"), tag("i", vec![], vec![]), s("\n"), tag("i", vec![], vec![e(s("\n"))])])))],
        9 => vec![e(list(vec![s("i"), s("j")]))],
        10 => vec![e(dict(vec![("k", s("i")), ("l", E::Int(2))]))],
        _ => vec![ts("a"), e(s("\n\n")), ts("b")],
    }
}
const FILLS: u64 = 23;

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every element name x content x container, every hostile string on every route to the output, every small element tree: the text output is the text of the reference interpreter's tree and of the parsed HTML output; the command's --text output is the same");
    let nt = TAGS.len() as u64;
    // each element in each element, in each place
    let bs = [nt, FILLS, cfg.q(12, nt)];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let outer = if cfg.quick() { ["", "div", "p", "b", "ul", "pre", "a", "li", "table", "h1", "hr", "td"][d[2]] } else { TAGS[d[2]] };
        let inner = el(TAGS[d[0]], vec![], fill(d[1], "i"));
        if outer.is_empty() { judge(w, &[inner]); } else { judge(w, &[ts("s"), el(outer, vec![], vec![inner]), ts("t")]); }
    }));
    // each element between each other two, with each content
    let few = ["p", "hr", "div", "b", "br", "h1", "li", "ul", "pre", "a", "td", "!DOCTYPE", "custom", "img"];
    let bs = [few.len() as u64, few.len() as u64, FILLS, cfg.q(4, FILLS), 4];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let f2 = [1, 5, 0, 6, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22][d[3]];
        let (x, y) = (el(few[d[0]], vec![], fill(d[2], "b")), el(few[d[1]], vec![], fill(f2, few[d[0]])));
        match d[4] {
            0 => judge(w, &[x, y]),
            1 => judge(w, &[ts("s"), x, A::Sp, ts("m"), y, ts("t")]),
            2 => judge(w, &[e(tag("div", vec![], vec![x, A::Para, y]))]),
            _ => judge(w, &[e(let_(vec![("v", group(vec![x]))], group(vec![e(v("v")), y, e(v("v"))])))]),
        }
    }));
    // every character
    let chars: Vec<char> = (0..cfg.q(0x3100, 0x110000u32)).filter_map(char::from_u32).collect();
    rep.absorb(explore(cfg, chars.len() as u64, |w, i| {
        let c = chars[i as usize].to_string();
        judge(w, &[e(tag("b", vec![at("x", s(&c))], vec![e(s(&c))])), e(E::List(vec![(s(&format!("a{c}b")), false)]))]);
    }));
    // the same programs as for well-formedness
    c03::corpus(cfg, &mut rep, cfg.q(2, 3), cfg.q(4, 5), &judge);
    // the command
    let docs: Vec<Vec<A>> = (0..few.len() * FILLS as usize).map(|i| vec![ts("s"), el(few[i % few.len()], vec![at("x", s("<\""))], fill(i / few.len(), "i")), A::Para, e(c1("quote", s("&"))), ts("t")]).collect();
    let root = scratch(cfg);
    rep.absorb(explore(cfg, docs.len() as u64 * 2, |w, i| {
        let doc = &docs[i as usize / 2];
        let src = print(doc);
        let Ok(want) = sem::expect(doc) else { return };
        let want = want.map(|_| { let mut t = String::new(); sem::render_text(&sem::document(doc).unwrap(), &mut t); t });
        let dir = cli::fresh(&root.join(format!("t{}", w.id)));
        let got = if i % 2 == 0 {
            let r = cli::finish(cli::papyri(cfg, &dir, &["-t", "-i"]), Some(src.as_bytes()));
            (r.ok(), r.stdout)
        } else {
            cli::write(&dir, "a.papyri", &src);
            let r = cli::run(cfg, &dir, &["--text", "-o", "o", "a.papyri"]);
            (r.ok(), cli::tree(&dir.join("o")).get("a.txt").map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or_default())
        };
        w.stats.evaluations += 1;
        w.stats.transitions += 1;
        if want.is_some() { w.stats.nontrivial_count += 1; }
        if got != (want.is_some(), want.clone().unwrap_or_default()) {
            w.stats.violation(&src, format!("papyri --text{}\nsource:\n{src}\n\nsuccess and text: {got:?}\nexpected: {want:?}", if i % 2 == 0 { " --stdin" } else { "" }));
        }
    }));
    remove_scratch(&root);
    rep
}
