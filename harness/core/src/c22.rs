//! C22: html::parse and rendering.
use crate::ast::*;
use crate::c03::{c1, sorted};
use crate::engine::*;
use crate::html::{self, El, Node};

/// Where a node stands, which decides what may stand there.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ctx { Head, Flow, Phrase, Text, Ul, Dl, Table, Tbody, Tr, Select, Svg, Math, Ruby }
use Ctx::*;

/// (name, contexts it may stand in, context of its content; None for void elements, cannot be inside itself)
const ELEMS: &[(&str, &[Ctx], Option<Ctx>, bool)] = &[
    ("b", &[Flow, Phrase], Some(Phrase), false),
    ("p", &[Flow], Some(Phrase), false),
    ("div", &[Flow], Some(Flow), false),
    ("br", &[Flow, Phrase], None, false),
    ("ul", &[Flow], Some(Ul), false),
    ("li", &[Ul], Some(Flow), false),
    ("table", &[Flow], Some(Table), false),
    ("tbody", &[Table], Some(Tbody), false),
    ("thead", &[Table], Some(Tbody), false),
    ("caption", &[Table], Some(Flow), true),
    ("tr", &[Tbody], Some(Tr), false),
    ("td", &[Tr], Some(Flow), false),
    ("th", &[Tr], Some(Flow), false),
    ("a", &[Flow, Phrase], Some(Phrase), true),
    ("pre", &[Flow], Some(Phrase), false),
    ("textarea", &[Flow, Phrase], Some(Text), false),
    ("template", &[Head, Flow, Phrase], Some(Flow), false),
    ("svg", &[Flow, Phrase], Some(Svg), false),
    ("g", &[Svg], Some(Svg), false),
    ("circle", &[Svg], Some(Svg), false),
    ("title", &[Svg], Some(Phrase), false),
    ("x-y", &[Flow, Phrase], Some(Phrase), false),
    ("button", &[Flow, Phrase], Some(Phrase), true),
    ("span", &[Flow, Phrase], Some(Phrase), false),
    ("h1", &[Flow], Some(Phrase), false),
    ("hr", &[Flow], None, false),
    ("img", &[Flow, Phrase], None, false),
    ("select", &[Flow, Phrase], Some(Select), false),
    ("option", &[Select], Some(Text), false),
    ("dl", &[Flow], Some(Dl), false),
    ("dt", &[Dl], Some(Flow), false),
    ("dd", &[Dl], Some(Flow), false),
    ("math", &[Flow, Phrase], Some(Math), false),
    ("mi", &[Math], Some(Phrase), false),
    ("form", &[Flow], Some(Flow), true),
    ("ruby", &[Flow, Phrase], Some(Ruby), true),
    ("rt", &[Ruby], Some(Phrase), false),
    ("code", &[Flow, Phrase], Some(Phrase), false),
    ("i", &[Flow, Phrase], Some(Phrase), false),
    ("title", &[Head], Some(Text), false),
    ("meta", &[Head], None, false),
    ("link", &[Head], None, false),
    ("input", &[Flow, Phrase], None, false),
    ("article", &[Flow], Some(Flow), false),
    ("listing", &[Flow], Some(Phrase), false),
    ("wbr", &[Flow, Phrase], None, false),
    ("col", &[], None, false),
];
const TEXTS: &[&str] = &["x", "<&\"'>", " ", "\n", "\u{a0}", "<b>y</b>", "&amp;", "\nz\n", "\u{1d54f}\u{e9}"];

#[derive(Clone, Debug)]
enum T { Text(usize), El(usize, Vec<(String, String)>, Vec<T>) }

/// All sequences of trees with exactly `n` nodes in a context.
fn forests(ctx: Ctx, n: usize, elems: usize, texts: usize, banned: &mut Vec<usize>, after_text: bool) -> Vec<Vec<T>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = vec![];
    // the first tree has k nodes
    for k in 1..=n {
        let mut firsts: Vec<T> = vec![];
        if k == 1 && !after_text {
            for t in 0..texts {
                let ok = match ctx { Head | Ul | Dl | Table | Tbody | Tr | Select | Svg | Math => TEXTS[t].trim_matches(|c| c == ' ' || c == '\n').is_empty(), _ => true };
                if ok { firsts.push(T::Text(t)); }
            }
        }
        for (i, (_, at, content, once)) in ELEMS[..elems].iter().enumerate() {
            if !at.contains(&ctx) || banned.contains(&i) { continue; }
            match content {
                None => if k == 1 { firsts.push(T::El(i, vec![], vec![])) },
                Some(c) => {
                    if *once { banned.push(i); }
                    for inner in forests(*c, k - 1, elems, texts, banned, false) { firsts.push(T::El(i, vec![], inner)); }
                    if *once { banned.pop(); }
                },
            }
        }
        for f in firsts {
            let text = matches!(f, T::Text(_));
            for rest in forests(ctx, n - k, elems, texts, banned, text) {
                // a caption is the first in a table, and there is one
                if let (T::El(i, ..), Table) = (&f, ctx) { if ELEMS[*i].0 != "caption" && rest.iter().any(|r| matches!(r, T::El(j, ..) if ELEMS[*j].0 == "caption")) { continue; } if ELEMS[*i].0 == "caption" && rest.iter().any(|r| matches!(r, T::El(j, ..) if ELEMS[*j].0 == "caption")) { continue; } }
                if let (T::Text(_), Table) = (&f, ctx) { if rest.iter().any(|r| matches!(r, T::El(j, ..) if ELEMS[*j].0 == "caption")) { continue; } }
                // one title
                if let (T::El(i, ..), Head) = (&f, ctx) { if ELEMS[*i].0 == "title" && rest.iter().any(|r| matches!(r, T::El(j, ..) if ELEMS[*j].0 == "title")) { continue; } }
                let mut v = vec![f.clone()];
                v.extend(rest);
                out.push(v);
            }
        }
    }
    out
}

/// How a document is spelled.
#[derive(Clone, Copy, Default)]
struct Spell { quote: usize, entity: usize, case: usize, omit: usize, comment: usize, void: usize, space: usize, dup: bool, doctype: usize }
const SPELL: [u64; 9] = [3, 4, 3, 4, 4, 3, 3, 2, 5];
fn spelling(d: &[usize]) -> Spell { Spell {quote: d[0], entity: d[1], case: d[2], omit: d[3], comment: d[4], void: d[5], space: d[6], dup: d[7] == 1, doctype: d[8]} }

struct Pr { o: String, sp: Spell }
impl Pr {
    fn chars(&mut self, s: &str, attr: Option<char>) {
        for c in s.chars() {
            // what may be written as it is
            let special = match c {
                '<' => attr.is_none() || attr == Some(' '),
                '&' | '\u{a0}' => true,
                '>' => attr.is_none() || attr == Some(' '),
                '"' | '\'' => attr == Some(c) || attr == Some(' '),
                ' ' | '\n' | '=' | '`' => attr == Some(' '),
                _ => false,
            };
            if !special { self.o.push(c); continue; }
            let named = match c { '<' => "&lt;", '>' => "&gt;", '&' => "&amp;", '"' => "&quot;", '\'' => "&apos;", '\u{a0}' => "&nbsp;", _ => "" };
            match self.sp.entity {
                0 if !named.is_empty() => self.o += named,
                1 => self.o += &format!("&#{};", c as u32),
                3 if !named.is_empty() && c != '&' => self.o.push_str(match c { '<' => "&LT;", '>' => "&GT;", '"' => "&QUOT;", _ => named }),
                _ => self.o += &format!("&#x{:X};", c as u32),
            }
        }
    }
    fn name(&mut self, s: &str) {
        match self.sp.case {
            0 => self.o += s,
            1 => self.o += &s.to_ascii_uppercase(),
            _ => for (i, c) in s.chars().enumerate() { self.o.push(if i % 2 == 0 { c.to_ascii_uppercase() } else { c }) },
        }
    }
    fn open(&mut self, name: &str, attrs: &[(String, String)], void: bool) {
        self.o.push('<');
        self.name(name);
        let mut unquoted = false;
        let again: Vec<_> = if self.sp.dup && !attrs.is_empty() { vec![(attrs[0].0.clone(), "again".to_string())] } else { vec![] };
        for (k, v) in attrs.iter().chain(&again) {
            self.o += match self.sp.space { 0 => " ", 1 => "\n\t", _ => "  " };
            self.name(k);
            unquoted = false;
            if v.is_empty() && self.sp.space != 1 { continue; }
            self.o += match self.sp.space { 0 => "=", 1 => " =", _ => "\n= " };
            match self.sp.quote {
                0 => { self.o.push('"'); self.chars(v, Some('"')); self.o.push('"') },
                1 => { self.o.push('\''); self.chars(v, Some('\'')); self.o.push('\'') },
                _ if v.is_empty() => self.o += "\"\"",
                _ => { unquoted = true; self.chars(v, Some(' ')) },
            }
        }
        if self.sp.space != 0 { self.o += " "; unquoted = false; }
        if void && self.sp.void > 0 { if unquoted || self.sp.void == 2 { self.o.push(' '); } self.o.push('/'); }
        self.o.push('>');
    }
    fn comment(&mut self) { self.o += ["", "<!---->", "<!-- <b> &amp; \"x\" - -->", "<!--\n</html>-->"][self.sp.comment] }
    fn trees(&mut self, v: &[T], ctx: Ctx) {
        if ctx != Text { self.comment(); }
        for (k, t) in v.iter().enumerate() {
            match t {
                T::Text(i) => self.chars(TEXTS[*i], None),
                T::El(i, attrs, inner) => {
                    let (name, _, content, _) = ELEMS[*i];
                    self.open(name, attrs, content.is_none());
                    let Some(c) = content else { if ctx != Text { self.comment(); } continue };
                    if matches!(name, "pre" | "textarea" | "listing") && matches!(inner.first(), Some(T::Text(t)) if TEXTS[*t].starts_with('\n')) && (name == "textarea" || self.sp.comment == 0) { self.o.push('\n'); }
                    self.trees(inner, c);
                    // end tags which may be omitted
                    let next = v.get(k + 1);
                    let next_is = |ns: &[&str]| matches!(next, Some(T::El(j, ..)) if ns.contains(&ELEMS[*j].0));
                    let may = self.sp.comment == 0 && self.sp.omit >= 2 && match name {
                        "p" => next.is_none() && matches!(ctx, Flow) || next_is(&["div", "ul", "p", "h1", "pre", "hr", "table", "dl", "form", "article"]),
                        "li" => next.is_none() || next_is(&["li"]),
                        "dt" => next_is(&["dt", "dd"]),
                        "dd" => next.is_none() || next_is(&["dt", "dd"]),
                        "td" | "th" => next.is_none() || next_is(&["td", "th"]),
                        "tr" => next.is_none() || next_is(&["tr"]),
                        "tbody" => next.is_none() || next_is(&["tbody"]),
                        "thead" => next_is(&["tbody"]),
                        "option" => next.is_none() || next_is(&["option"]),
                        "rt" => next.is_none() || next_is(&["rt"]),
                        _ => false,
                    };
                    if !may { self.o += "</"; self.name(name); if self.sp.space == 2 { self.o.push(' '); } self.o.push('>'); }
                },
            }
            if ctx != Text { self.comment(); }
        }
    }
}
/// Whether the tags around the body can be omitted.
fn bare_body(body: &[T]) -> bool {
    match body.first() {
        None => true,
        Some(T::Text(t)) => !TEXTS[*t].starts_with([' ', '\n']),
        Some(T::El(i, ..)) => !matches!(ELEMS[*i].0, "template" | "title" | "meta" | "link"),
    }
}
fn spell(head: &[T], body: &[T], sp: Spell) -> String {
    let mut p = Pr {o: String::new(), sp};
    p.o += ["<!DOCTYPE html>", "<!doctype HTML>\n", "<!DOCTYPE html SYSTEM \"about:legacy-compat\">", " \n<!-- c --><!DOCTYPE html>", "<!DOCTYPE  html  >"][sp.doctype];
    let omit = sp.omit % 2 == 1 && sp.comment == 0;
    let bare = omit && bare_body(body);
    if !omit { p.open("html", &[], false); }
    let head_bare = omit && !matches!(head.first(), Some(T::Text(_)));
    if !head_bare { p.open("head", &[], false); }
    p.trees(head, Head);
    if !(head_bare && bare && !matches!(head.last(), Some(T::Text(_)))) { p.o += "</"; p.name("head"); p.o.push('>'); }
    if !bare { p.open("body", &[], false); }
    p.trees(body, Flow);
    if !(bare && sp.omit >= 2) { p.o += "</"; p.name("body"); p.o += ">"; p.o += "</"; p.name("html"); p.o += ">"; }
    p.o
}
fn model(v: &[T]) -> Vec<Node> {
    html::norm(&v.iter().map(|t| match t {
        T::Text(i) => Node::Text(TEXTS[*i].into()),
        T::El(i, a, c) => {
            let mut attrs: Vec<_> = a.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect();
            attrs.sort();
            Node::El(El {name: ELEMS[*i].0.into(), attrs, children: model(c)})
        },
    }).collect::<Vec<_>>())
}
fn page(head: &[T], body: &[T]) -> Vec<Node> {
    let el = |n: &str, c: Vec<Node>| Node::El(El {name: n.into(), attrs: vec![], children: c});
    vec![el("html", vec![el("head", model(head)), el("body", model(body))])]
}
fn empty_attrs(v: &mut [Node]) { for n in v { if let Node::El(e) = n { for a in &mut e.attrs { a.1.get_or_insert_with(String::new); } empty_attrs(&mut e.children); } } }

fn program(src: &str) -> String { print(&[A::E(c1("html::parse", s(src)))]) }
/// The parsed output.
fn read(out: &str) -> Result<Vec<Node>, String> {
    let mut t = html::norm(&html::parse(out)?);
    sorted(&mut t);
    empty_attrs(&mut t);
    Ok(t)
}

fn valid(w: &mut Worker, head: &[T], body: &[T], sp: Spell) {
    let src = spell(head, body, sp);
    let mut want = page(head, body);
    // an omitted <tbody> etc. is not used here, so that the tree is the document's
    sorted(&mut want);
    w.stats.transitions += 1;
    w.stats.nontrivial_count += 1;
    let out = w.compile(&program(&src));
    w.sample(|| format!("{src:?} => {}", out.html));
    let got = if out.ok() { read(&out.html) } else { Err("error".into()) };
    w.stats.state(&want);
    if got.as_ref() != Ok(&want) {
        return w.stats.violation(&src, format!("document: {src:?}\n\ncompiler: {}\nexpected tree: {want:?}\nread: {got:?}", out.describe()));
    }
    // and what is rendered is again a document of the same tree
    if sp.doctype == 0 && sp.quote == 0 { again(w, &src, &out.html); }
}
/// Rendering what was parsed gives a document which is parsed as the same tree.
fn again(w: &mut Worker, src: &str, html: &str) {
    let doc = format!("<!DOCTYPE html>{html}");
    let o2 = w.compile(&program(&doc));
    w.stats.transitions += 1;
    if !o2.ok() || read(&o2.html) != read(html) {
        w.stats.violation(key(src, html), format!("document: {src:?}\nis rendered as {html:?}\n\nwhich is parsed as: {}", o2.describe()));
    }
}
/// The specific known findings, by what is in the rendered document.
fn key(src: &str, html: &str) -> String {
    let raw = ["script", "style", "noscript", "iframe", "noembed", "noframes", "xmp", "plaintext"];
    if let Ok(t) = html::parse(html) {
        fn any(v: &[Node], f: &dyn Fn(&El) -> bool) -> bool { v.iter().any(|n| matches!(n, Node::El(e) if f(e) || any(&e.children, f))) }
        if any(&t, &|e| raw.contains(&e.name.as_str()) && html::text_of(&e.children).contains(['<', '>', '&'])) { return "raw-text-escaped".into(); }
    }
    src.to_string()
}

const TOKENS: &[&str] = &["Q", "<b>", "</b>", "<p>", "</p>", "<div>", "</div>", "<table>", "</table>", "<tr>", "<td>", "<ul>", "<li>", "</ul>", "<a href=x>", "</a>", "<br>", "&lt;", " ", "<pre>", "</pre>", "\n", "<svg>", "</svg>",
    "<template>", "</template>", "<!-- c -->", "<textarea>", "</textarea>", "<title>", "</title>", "<body>", "</body>", "<head>", "</head>", "</html>", "<html>", "<select>", "<option>", "</select>", "<i>", "</i>", "<script>", "</script>", "<meta>", "<frameset>", "<math>", "</math>", "<caption>", "<col>", "<button>", "</button>", "<form>", "</form>", "<h1>", "</h1>", "<![CDATA[", "]]>", "<dd>", "</tr>", "<x-y>", "</x-y>", "<br/>", "<svg/>", "<?php", "&amp", "<b a=1 a=2>"];

/// Character data of a token sequence that is text whatever the tree is.
fn letters(s: &str) -> usize { s.matches('Q').count() }

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "all valid element trees of the HTML content model up to a number of nodes and all their spellings: html::parse gives the tree, and rendering and parsing again too; all sequences of tokens of HTML: an error, or a tree which rendering and parsing preserves; all single-fault mutations of valid documents: an error; a state is a tree");
    // A: trees
    let sets: Vec<(usize, usize, usize)> = cfg.q(vec![(1, ELEMS.len(), TEXTS.len()), (2, ELEMS.len(), TEXTS.len()), (3, 24, 5)], vec![(1, ELEMS.len(), TEXTS.len()), (2, ELEMS.len(), TEXTS.len()), (3, ELEMS.len(), TEXTS.len()), (4, 26, 4)]);
    for &(n, elems, texts) in &sets {
        let all = forests(Flow, n, elems, texts, &mut vec![], false);
        rep.absorb(explore(cfg, all.len() as u64, |w, i| valid(w, &[], &all[i as usize], Spell::default())));
    }
    // small trees in every spelling, in combination with each other
    let small: Vec<Vec<T>> = (0..=2).flat_map(|n| forests(Flow, n, if n < 2 { ELEMS.len() } else { 38 }, if n < 2 { TEXTS.len() } else { 3 }, &mut vec![], false)).collect();
    let np: u64 = SPELL.iter().product();
    // each tree with each value of each two dimensions of spelling
    let mut spells: Vec<Vec<usize>> = vec![];
    for a in 0..9 { for b in a + 1..9 { for x in 0..SPELL[a] as usize { for y in 0..SPELL[b] as usize { let mut d = vec![0; 9]; d[a] = x; d[b] = y; if !spells.contains(&d) { spells.push(d); } } } } }
    let ns = spells.len() as u64;
    // attributes, on some elements, with some content
    let vals = ["", "v", "<&\"'>", "a b", "&amp;", "=", "\u{a0}\u{e9}"];
    let names = ["id", "class", "data-x", "x:y", "disabled"];
    let mut attrs: Vec<Vec<(String, String)>> = vec![];
    for k in names { for v in vals { attrs.push(vec![(k.into(), v.into())]); } }
    for k in names { for l in names { if k != l { for (v, u) in [("", "1"), ("2", ""), ("3", "4\""), ("'", "5")] { attrs.push(vec![(k.into(), v.into()), (l.into(), u.into())]); } } } }
    let hosts: Vec<usize> = (0..ELEMS.len()).filter(|&i| ELEMS[i].1.contains(&Flow)).collect();
    // A.1 spellings of trees
    let nt = small.len() as u64;
    let bs = [nt, ns];
    if cfg.quick() {
        let tiny: Vec<&Vec<T>> = small.iter().filter(|t| t.len() <= 1 && t.iter().all(|x| matches!(x, T::Text(_)) || matches!(x, T::El(_, _, c) if c.len() <= 1))).collect();
        let bs = [tiny.len() as u64, ns];
        rep.absorb(explore(cfg, bs.iter().product(), |w, i| { let d = digits(i, &bs); valid(w, &[], tiny[d[0]], spelling(&spells[d[1]])); }));
    } else {
        rep.absorb(explore(cfg, bs.iter().product(), |w, i| { let d = digits(i, &bs); valid(w, &[], &small[d[0]], spelling(&spells[d[1]])); }));
    }
    // A.2 attributes in all spellings
    let bs = [attrs.len() as u64, cfg.q(4, hosts.len() as u64), cfg.q(ns, np / 4)];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let sp = if cfg.quick() { spelling(&spells[d[2]]) } else { let mut x = digits(d[2] as u64, &[3, 4, 3, 1, 1, 3, 3, 2, 5]); x[3] = 0; spelling(&x) };
        let h = hosts[d[1] * cfg.q(7, 1) % hosts.len()];
        let c = match ELEMS[h].2 { Some(Flow | Phrase | Text) => vec![T::Text(1)], _ => vec![] };
        valid(w, &[], &[T::El(h, attrs[d[0]].clone(), c)], sp);
    }));
    // A.3 heads
    let heads: Vec<Vec<T>> = (0..=cfg.q(2, 3)).flat_map(|n| forests(Head, n, ELEMS.len(), 6, &mut vec![], false)).collect();
    let bodies: Vec<Vec<T>> = (0..=1).flat_map(|n| forests(Flow, n, 20, 4, &mut vec![], false)).collect();
    let bs = [heads.len() as u64, bodies.len() as u64, cfg.q(8, ns)];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let sp = if cfg.quick() { Spell {omit: d[2] % 4, comment: d[2] / 4, ..Spell::default()} } else { spelling(&spells[d[2]]) };
        valid(w, &heads[d[0]], &bodies[d[1]], sp);
    }));
    
    // B: token sequences
    let alpha = TOKENS.len() as u64;
    let len = cfg.q(3, 4);
    rep.absorb(explore(cfg, num_seqs(alpha, 0, len), |w, i| {
        let seq = nth_seq(i, alpha, 0, len);
        let body: String = seq.iter().map(|&k| TOKENS[k]).collect();
        let src = format!("<!DOCTYPE html>{body}");
        let out = w.compile(&program(&src));
        w.stats.transitions += 1;
        if let Some(p) = &out.panic { return w.stats.violation(&src, format!("document: {src:?}\n\npanic: {p}")); }
        if !out.ok() { w.stats.count("token sequences reported as errors"); return; }
        w.stats.nontrivial_count += 1;
        let Ok(t) = read(&out.html) else { return w.stats.violation(&src, format!("document: {src:?}\n\nnot well-formed: {}", out.html)) };
        w.stats.state(&t);
        // the letters stay text
        let n = if body.contains("<frameset>") || body.contains("<script>") || body.contains("<?php") { letters(&html::text_of(&t)) } else { letters(&body) };
        if letters(&html::text_of(&t)) != n { return w.stats.violation(&src, format!("document: {src:?}\n\nthe text is not that of the document: {}", out.html)); }
        again(w, &src, &out.html);
    }));
    
    // comments: whatever they hold, they are not part of the document, and the wrong ones are errors
    let inner = ["", "[CDATA[", "]]", "-", ">", "--", "!", "<", "!--", "<b>", "</p>", "x", "&amp;", "&bogus;", "<!", "\n", "=", "\"", "\u{e9}"];
    let (k, len) = (inner.len() as u64, cfg.q(3, 4));
    let places = ["<!DOCTYPE html><p>a{}b</p>", "<!DOCTYPE html><p>a</p>{}<p>b</p>", "<!DOCTYPE html><table>{}<tr><td>{}a</td>{}</tr></table>", "{}<!DOCTYPE html>{}<html>{}<head>{}<title>t</title>{}</head>{}<body>{}</body>{}</html>{}", "<!DOCTYPE html><ul>{}<li>a<!-- x -->{}</ul>"];
    rep.absorb(explore(cfg, num_seqs(k, 0, len) * places.len() as u64, |w, i| {
        let c: String = nth_seq(i / places.len() as u64, k, 0, len).into_iter().map(|j| inner[j]).collect();
        let place = places[(i % places.len() as u64) as usize];
        let good = !c.starts_with('>') && !c.starts_with("->") && !c.contains("<!--") && !c.contains("-->") && !c.contains("--!>") && !c.ends_with("<!-");
        // ends earlier
        if !good && (c.contains("-->") || c.contains("--!>") || c.starts_with('>') || c.starts_with("->")) { w.stats.count("skipped: a comment which ends early"); return; }
        let src = place.replace("{}", &format!("<!--{c}-->"));
        let out = w.compile(&program(&src));
        w.stats.transitions += 1;
        w.stats.state(&src);
        let want = good.then(|| w.compile(&program(&place.replace("{}", ""))));
        // two hyphens inside were an error until recently
        let fine = match &want { _ if c.contains("--") || c.ends_with('-') => out.panic.is_none() && (!out.ok() || want.as_ref().is_some_and(|x| read(&out.html) == read(&x.html))), Some(x) => out.ok() && x.ok() && read(&out.html) == read(&x.html), None => out.panic.is_none() && !out.ok() };
        if !fine { w.stats.violation(&src, format!("document with the comment {c:?}: {src:?}\n\nexpected {}\ncompiler: {}", want.map_or("an error".into(), |x| x.describe()), out.describe())); }
    }));

    // the characters of values and texts: all short sequences, and each character alone, between letters and at both ends
    let chars = ['x', ' ', '\n', '\t', '\u{a0}', '&', '<', '>', '"', '\'', '=', ';', '#', '\u{e9}', '\u{feff}', '\u{200b}', '\u{1d54f}', '{', '`', '\u{2028}'];
    let (nc, len) = (chars.len() as u64, cfg.q(3, 4));
    let seqs = num_seqs(nc, 1, len);
    let alone: Vec<char> = (0x20..cfg.q(0x3000, 0x110000u32)).filter_map(char::from_u32).filter(|&c| !('\u{7f}'..='\u{9f}').contains(&c) && (c as u32) & 0xfffe != 0xfffe && !('\u{fdd0}'..='\u{fdef}').contains(&c)).collect();
    let hosts = ["title", "alt", "p", "pre", "textarea", "td"];
    rep.absorb(explore(cfg, (seqs + alone.len() as u64) * hosts.len() as u64, |w, i| {
        let (j, host) = (i / hosts.len() as u64, hosts[(i % hosts.len() as u64) as usize]);
        let text: String = if j < seqs { nth_seq(j, nc, 1, len).into_iter().map(|k| chars[k]).collect() } else { let c = alone[(j - seqs) as usize]; format!("{c}a{c}{c}b{c}") };
        let esc = text.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;");
        let e = |n: &str, attrs: Vec<(String, Option<String>)>, children: Vec<Node>| Node::El(El {name: n.into(), attrs, children});
        let (src, body) = match host {
            "title" | "alt" => (format!("<b {host}=\"{esc}\">q</b>"), e("b", vec![(host.into(), Some(text.clone()))], vec![Node::Text("q".into())])),
            "td" => (format!("<table><tbody><tr><td>{esc}</td></tr></tbody></table>"), e("table", vec![], vec![e("tbody", vec![], vec![e("tr", vec![], vec![e("td", vec![], vec![Node::Text(text.clone())])])])])),
            h => (format!("<{h}>{}{esc}</{h}>", if h != "p" && text.starts_with('\n') { "\n" } else { "" }), e(h, vec![], vec![Node::Text(text.clone())])),
        };
        let src = format!("<!DOCTYPE html><html><head></head><body>{src}</body></html>");
        let want = html::norm(&[e("html", vec![], vec![e("head", vec![], vec![]), e("body", vec![], vec![body])])]);
        w.stats.transitions += 1;
        w.stats.nontrivial_count += 1;
        let out = w.compile(&program(&src));
        w.stats.state(&want);
        let got = if out.ok() { read(&out.html) } else { Err("error".into()) };
        if got.as_ref() != Ok(&want) { return w.stats.violation(&src, format!("document: {src:?}\n\ncompiler: {}\nexpected tree: {want:?}\nread: {got:?}", out.describe())); }
        if j < seqs { again(w, &src, &out.html); }
    }));

    // attributes with prefixes, in html and in foreign elements: every pair and (some) triples
    let an = ["xml:lang", "xml:space", "xlink:href", "xlink:title", "xlink:show", "lang", "href", "title", "xmlns:xlink", "foo:href", "xml:base", "viewBox", "definitionURL", "class", "a:b:c", "xml", "xlink:role", "xlink:type"];
    let hosts = ["svg", "math", "g", "mi", "p", "circle", "foreignObject", "in"];
    let na = an.len() as u64;
    let (per, step) = (num_seqs(na, 1, 3), cfg.q(3, 1));
    rep.absorb(explore(cfg, per * hosts.len() as u64 / step, |w, i| {
        let i = i * step;
        let q = nth_seq(i % per, na, 1, 3);
        if q.iter().enumerate().any(|(j, a)| q[..j].contains(a)) { return; }
        let host = hosts[(i / per) as usize];
        let e = |n: &str, attrs: Vec<(String, Option<String>)>, children: Vec<Node>| Node::El(El {name: n.to_lowercase(), attrs, children});
        let at: String = q.iter().map(|a| format!(" {}=\"{a}\"", an[*a])).collect();
        let mut vals: Vec<(String, Option<String>)> = q.iter().map(|a| (an[*a].to_lowercase(), Some(a.to_string()))).collect();
        vals.sort();
        let x = || Node::Text("x".into());
        let (src, body) = match host {
            "svg" | "math" | "p" => (format!("<{host}{at}></{host}>"), e(host, vals, vec![])),
            "mi" => (format!("<math><mi{at}>x</mi></math>"), e("math", vec![], vec![e("mi", vals, vec![x()])])),
            // html within a foreign element
            "in" => (format!("<svg><foreignObject><b{at}>x</b></foreignObject></svg>"), e("svg", vec![], vec![e("foreignObject", vec![], vec![e("b", vals, vec![x()])])])),
            h => (format!("<svg><{h}{at}></{h}></svg>"), e("svg", vec![], vec![e(h, vals, vec![])])),
        };
        let src = format!("<!DOCTYPE html><html><head></head><body>{src}</body></html>");
        let mut want = html::norm(&[e("html", vec![], vec![e("head", vec![], vec![]), e("body", vec![], vec![body])])]);
        sorted(&mut want);
        w.stats.transitions += 1;
        w.stats.nontrivial_count += 1;
        let out = w.compile(&program(&src));
        w.stats.state(&want);
        let got = if out.ok() { read(&out.html) } else { Err("error".into()) };
        if got.as_ref() != Ok(&want) { return w.stats.violation(&src, format!("document: {src:?}\n\ncompiler: {}\nexpected tree: {want:?}\nread: {got:?}", out.describe())); }
        again(w, &src, &out.html);
    }));
    // long, deep and wide documents
    let units: &[&str] = &["x", "\u{e9}", "<&\"'>", " y", "\u{1d54f}", "a\nb", "&lt;", "\u{a0}"];
    let sizes: Vec<usize> = (2..cfg.q(24, 70) as usize).chain([99, 100, 127, 128, 129, 255, 256, 257]).chain((!cfg.quick()).then_some([511, 512, 513, 1000, 1024, 4095, 4096, 4097]).into_iter().flatten()).collect();
    let bs = [sizes.len() as u64, units.len() as u64, 8];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let (n, u, kind) = (sizes[d[0]], units[d[1]], d[2]);
        let e = |n: &str, attrs: Vec<(String, Option<String>)>, children: Vec<Node>| Node::El(El {name: n.into(), attrs, children});
        let x = |s: &str| Node::Text(s.to_string());
        let esc = |s: &str| s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;");
        let names = ["b", "span", "x-y", "code", "i"];
        let (src, body): (String, Vec<Node>) = match kind {
            // a long text, in one piece and as references
            0 => (format!("<p>{}</p>", esc(&u.repeat(n))), vec![e("p", vec![], vec![x(&u.repeat(n))])]),
            1 => (format!("<p>{}</p>", u.repeat(n).chars().map(|c| format!("&#x{:X};", c as u32)).collect::<String>()), vec![e("p", vec![], vec![x(&u.repeat(n))])]),
            // a long value
            2 => (format!("<p title=\"{}\">{}</p>", esc(&u.repeat(n)), esc(u)), vec![e("p", vec![("title".into(), Some(u.repeat(n)))], vec![x(u)])]),
            // many attributes
            3 => (format!("<p{}>{}</p>", (0..n).map(|k| format!(" data-k{k}=\"{}{k}\"", esc(u))).collect::<String>(), esc(u)), vec![e("p", (0..n).map(|k| (format!("data-k{k}"), Some(format!("{u}{k}")))).collect(), vec![x(u)])]),
            // many beside each other, of several kinds, with text between some
            4 => (
                (0..n).map(|k| match k % 4 { 3 => "<br>".to_string(), 2 => format!("<i>{k}</i>{}", esc(u)), _ => format!("<b>{}{k}</b>", esc(u)) }).collect::<String>(),
                (0..n).flat_map(|k| match k % 4 { 3 => vec![e("br", vec![], vec![])], 2 => vec![e("i", vec![], vec![x(&k.to_string())]), x(u)], _ => vec![e("b", vec![], vec![x(&format!("{u}{k}"))])] }).collect(),
            ),
            // one in the other, with text before and after (very deep ones are beyond the bound on nesting)
            5 | 6 => {
                let n = n.min(70);
                let name = |k: usize| if kind == 5 { "div" } else { names[k % 5] };
                let (mut s, mut t) = (esc(u), vec![x(u)]);
                for k in 0..n { s = format!("{}<{}>{s}</{}>{k}", esc(u), name(k), name(k)); t = vec![x(u), e(name(k), vec![], t), x(&k.to_string())]; }
                (s, t)
            },
            // a table of many rows, or a long list
            _ => (
                format!("<table><tbody>{}</tbody></table><ul>{}</ul>", (0..n).map(|k| format!("<tr><td>{k}</td><td>{}</td></tr>", esc(u))).collect::<String>(), (0..n).map(|k| format!("<li>{k}{}</li>", esc(u))).collect::<String>()),
                vec![e("table", vec![], vec![e("tbody", vec![], (0..n).map(|k| e("tr", vec![], vec![e("td", vec![], vec![x(&k.to_string())]), e("td", vec![], vec![x(u)])])).collect())]), e("ul", vec![], (0..n).map(|k| e("li", vec![], vec![x(&format!("{k}{u}"))])).collect())],
            ),
        };
        let src = format!("<!DOCTYPE html><html><head></head><body>{src}</body></html>");
        let mut want = html::norm(&[e("html", vec![], vec![e("head", vec![], vec![]), e("body", vec![], body)])]);
        sorted(&mut want);
        w.stats.transitions += 1;
        w.stats.nontrivial_count += 1;
        let out = w.compile(&program(&src));
        w.stats.state(&want);
        let got = if out.ok() { read(&out.html) } else { Err("error".into()) };
        if got.as_ref() != Ok(&want) {
            let cut = |s: String| s.chars().take(5000).collect::<String>();
            return w.stats.violation(format!("size {n}, kind {kind}, {u:?}"), format!("document: {}\n\ncompiler: {}\nexpected tree: {}\nread: {}", cut(src), cut(out.describe()), cut(format!("{want:?}")), cut(format!("{got:?}"))));
        }
        again(w, &src, &out.html);
    }));

    // C: faults
    let docs: Vec<Vec<T>> = (1..=cfg.q(2, 3)).flat_map(|n| forests(Flow, n, if n < 3 { 38 } else { 20 }, if n < 2 { 5 } else { 2 }, &mut vec![], false)).collect();
    const FAULTS: &[&str] = &["</i>", "</div>", "</table>", "<p/>", "&bogus;", "&#0;", "&#xD800;", "<>", "<1>", "</>", "<b a=\"", "<i>", "<div>", "<!-- ", "<b a='1'b='2'>", "<b \"=1>", "</b a=1>", "<!x>", "<?x?>", "<body>", "<html>", "<!DOCTYPE html>", "<head>", "&#x110000;", "<b/>", "&amp", "<a b=c`d>", "\u{0}", "</p>", "</br>"];
    let bs = [docs.len() as u64, FAULTS.len() as u64];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let f = FAULTS[d[1]];
        // each place between two nodes
        let good = spell(&[], &docs[d[0]], Spell {comment: 1, ..Spell::default()});
        for (k, (at, _)) in good.match_indices("<!---->").enumerate() {
            let bad = format!("{}{f}{}", good[..at].replace("<!---->", ""), good[at..].replace("<!---->", ""));
            let out = w.compile(&program(&bad));
            w.stats.transitions += 1;
            w.stats.state(&bad);
            if out.panic.is_some() || out.ok() { w.stats.violation(format!("{f} {}", bad), format!("invalid document ({f} at place {k}): {bad:?}\n\ncompiler: {}", out.describe())); }
            else { w.stats.count("faults reported"); }
        }
    }));
    // faults of whole documents
    let whole = ["", "x", "<p>x</p>", "<html></html>", "<!DOCTYPE>", "<!DOCTYPE foo>", "<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 3.2//EN\">x", "x<!DOCTYPE html>", "<!DOCTYPE html></html>x", "<!DOCTYPE html><body></body></body>", "<!DOCTYPE html><title>x", "<!DOCTYPE html><textarea>x", "<!DOCTYPE html><svg>", "<!DOCTYPE html><b", "<!DOCTYPE html><b>", "<!DOCTYPE html></b>", "<!DOCTYPE html><!--", "<!DOCTYPE html><table>x</table>", "<!DOCTYPE html><b><p></b></p>", "<!DOCTYPE html><p><b></p></b>", "<!DOCTYPE html><a><a></a></a>", "<!DOCTYPE html><button><button>", "<!DOCTYPE html><script>", "<!DOCTYPE html><template>", "<!DOCTYPE html><b a a=1 =2>", "<!DOCTYPE html></div>", "<!DOCTYPE html><h1><h2></h2></h1>", "<!DOCTYPE html><select><b></b></select>", "<!DOCTYPE html><form><form></form></form>"];
    rep.absorb(explore(cfg, whole.len() as u64, |w, i| {
        let bad = whole[i as usize];
        let out = w.compile(&program(bad));
        w.stats.transitions += 1;
        if out.panic.is_some() || out.ok() { w.stats.violation(bad, format!("invalid document: {bad:?}\n\ncompiler: {}", out.describe())); } else { w.stats.count("faults reported"); }
    }));
    
    // D: the known findings, each by the smallest document
    let known = ["<script>a<b</script>", "<style>a>b</style>"];
    rep.absorb(explore(cfg, known.len() as u64, |w, i| {
        let src = format!("<!DOCTYPE html>{}", known[i as usize]);
        let out = w.compile(&program(&src));
        if out.ok() { again(w, &src, &out.html); }
    }));
    // an underscore in the name of an attribute
    let mut w = Worker::new(cfg.subject, 99);
    let src = "<!DOCTYPE html><html><head></head><body><p a_b=\"1\">x</p></body></html>";
    let out = w.compile(&program(src));
    if !out.html.contains("a_b=\"1\"") { w.stats.violation(if out.html.contains("a-b=\"1\"") { "attr-underscore" } else { "attr-underscore-other" }, format!("document: {src}\n\ncompiler: {}", out.describe())); }
    rep.absorb(w.stats);
    rep
}
