//! C03: the output is well-formed, and data never turns into markup.
use crate::ast::*;
use crate::engine::*;
use crate::html::{self, El, Node};
use crate::prog::*;
use crate::sem::{self, N};

pub fn b<T>(t: T) -> Box<T> { Box::new(t) }
/// a string in flow content has to come from an expression
pub fn e(x: E) -> A { A::E(match x { E::Str(_) | E::Tmpl(_) | E::Raw(..) => call("str::from", vec![], x), x => x }) }
pub fn let_(v: Vec<(&str, E)>, body: E) -> E { E::Let(false, v.into_iter().map(|(k, e)| (k.to_string(), e)).collect(), b(body)) }
pub fn at(n: &str, x: E) -> At { At::Attr(n.into(), Some(x)) }
pub fn ts(x: &str) -> A { t(x) }
pub fn c1(f: &str, x: E) -> E { call(f, vec![], x) }

/// The element tree which the model's document is, as the independent parser should see it.
pub fn tree(h: &[N]) -> Vec<Node> {
    let mut v = vec![];
    for n in h {
        match n {
            N::Text(s) => v.push(Node::Text(s.to_string())),
            N::Tag(x) => {
                let mut attrs: Vec<_> = x.attrs.iter().map(|(k, v)| (k.replace('_', "-"), v.as_ref().map(|s| s.to_string()))).collect();
                attrs.sort();
                v.push(Node::El(El {name: x.name.to_string(), attrs, children: tree(&x.content)}));
                if &*x.name == "!DOCTYPE" { v.push(Node::Text("\n".into())); }
            },
        }
    }
    html::norm(&v)
}
pub fn sorted(v: &mut [Node]) { for n in v { if let Node::El(e) = n { e.attrs.sort(); sorted(&mut e.children); } } }

fn judge(w: &mut Worker, doc: &[A]) {
    let src = print(doc);
    let Ok(want) = sem::expect(doc) else { w.stats.count("skipped: out of fuel"); return };
    w.sample(|| format!("{src} => {}", show(&want)));
    let out = w.compile(&src);
    w.stats.transitions += 1;
    let bad = |w: &mut Worker, why: &str| w.stats.violation(&src, format!("source:\n{src}\n\n{why}\nexpected: {}\ncompiler: {}", show(&want), out.describe()));
    if out.panic.is_some() { return bad(w, "panic"); }
    let (Some(got), Some(want_html)) = (out.ok_html(), want.as_ref()) else {
        if out.ok() || want.is_some() { bad(w, "error and output disagree"); } else { w.stats.count("errors expected and reported"); }
        return;
    };
    w.stats.state(want_html);
    w.stats.nontrivial_count += 1;
    // the output is parsed independently of how the model would write it
    let mut got = match html::parse(got) { Ok(t) => html::norm(&t), Err(e) => return bad(w, &format!("not well-formed: {e}")) };
    sorted(&mut got);
    if got != tree(&sem::document(doc).unwrap()) { bad(w, "the parsed output is not the tree which the document denotes"); }
}

const ROUTES: usize = 78;
/// Everything by which a string reaches the output.
fn route(k: usize, x: E) -> Vec<A> {
    let n = |s: &str| name(s);
    let pos = Arg::Pos;
    let nm = |k: &str, x: E| Arg::Named(k.into(), x);
    let tv = |s: &str| Tp::Var(n(s));
    let lit = |s: &str| Tp::Lit(s.into());
    let f1 = |body: E| def("f", vec![], content("x"), body);
    let m = |v: E, bs: Vec<(Pat, E)>| E::Match(b(v), bs);
    let var = |s: &str| Pat::Var(s.into());
    match k {
        0 => vec![e(x)],
        1 => vec![ts("a"), e(x), ts("b")],
        2 => vec![e(group(vec![e(x.clone()), e(x)]))],
        3 => vec![e(let_(vec![("v", x)], group(vec![ts("1"), e(v("v")), ts("2")])))],
        4 => vec![e(let_(vec![("v", x)], E::Tmpl(vec![lit("1"), tv("v"), lit("2"), tv("v")])))],
        5 => vec![e(tag("b", vec![], vec![e(x)]))],
        6 => vec![e(tag("pre", vec![], vec![e(x)]))],
        7 => vec![e(tag("title", vec![], vec![e(x)]))],
        8 => vec![e(tag("style", vec![], vec![e(x)]))],
        9 => vec![e(tag("script", vec![], vec![e(x)]))],
        10 => vec![e(tag("textarea", vec![], vec![e(x)]))],
        11 => vec![e(tag("div", vec![], vec![e(tag("td", vec![], vec![e(x)]))]))],
        12 => vec![e(let_(vec![("v", list(vec![x.clone(), E::Int(1), x]))], v("v")))],
        13 => vec![e(let_(vec![("v", dict(vec![("k", x.clone()), ("l", list(vec![x]))]))], v("v")))],
        14 => vec![e(E::List(vec![(x.clone(), false), (list(vec![x]), true)]))],
        15 => vec![def("f", vec![Param::new("_x", PK::Pos)], None, v("_x")), e(call("f", vec![pos(x)], E::Unit))],
        16 => vec![def("f", vec![Param::new("_x", PK::Pos).ty(Ty::Str)], None, v("_x")), e(call("f", vec![pos(x)], E::Unit))],
        17 => vec![def("f", vec![Param::new("x", PK::Named).ty(Ty::Html)], None, v("x")), e(call("f", vec![nm("x", x)], E::Unit))],
        18 => vec![def("f", vec![Param::new("x", PK::Named).def(x)], None, v("x")), e(call("f", vec![], E::Unit))],
        19 => vec![def("f", vec![Param::new("_x", PK::Spread)], None, v("_x")), e(call("f", vec![pos(x.clone()), pos(x)], E::Unit))],
        20 => vec![def("f", vec![Param::new("x", PK::NSpread)], None, v("x")), e(call("f", vec![nm("k", x)], E::Unit))],
        21 => vec![f1(v("x")), e(c1("f", x))],
        22 => vec![def("f", vec![], content("x").map(|p| p.ty(Ty::Inline)), tag("i", vec![], vec![e(v("x"))])), e(c1("f", x))],
        23 => vec![def("f", vec![], content("x").map(|p| p.ty(Ty::Block)), v("x")), e(c1("f", x))],
        24 => vec![f1(v("x")), e(c1("f", group(vec![ts("a"), e(x), ts("b")])))],
        25 => vec![def("f", vec![Param::new("x", PK::Named).ty(Ty::Str).imp()], None, v("x")), e(E::Let(true, vec![("x".into(), x)], b(group(vec![e(call("f", vec![], E::Unit))]))))],
        26 => vec![e(c1("str::from", x))],
        27 => vec![e(c1("str::escape_html", x))],
        28 => vec![e(c1("html::escape_html", x))],
        29 => vec![e(c1("html::escape_html", tag("b", vec![at("id", x.clone())], vec![e(x)])))],
        30 => vec![e(c1("str::escape_html", c1("str::escape_html", x)))],
        31 => vec![e(call("list::join", vec![pos(x.clone())], list(vec![x.clone(), E::Int(1), x])))],
        32 => vec![e(call("list::join", vec![pos(tag("br", vec![], vec![]))], list(vec![x.clone(), x])))],
        33 => vec![e(c1("list::html_nodes", group(vec![ts("a"), e(x.clone()), e(tag("b", vec![], vec![e(x)]))])))],
        34 => vec![e(call("list::map", vec![pos(v("str::from"))], list(vec![x])))],
        35 => vec![def("f", vec![], content("x"), tag("b", vec![], vec![e(v("x"))])), e(call("list::map", vec![pos(v("f"))], list(vec![x])))],
        36 => vec![e(call("list::sorted", vec![], list(vec![x, s("a")])))],
        37 => vec![e(call("str::split", vec![pos(s("a"))], x))],
        38 => vec![e(c1("str::lower", x.clone())), e(c1("str::upper", x))],
        39 => vec![e(c1("str::trim", x))],
        40 => vec![e(tag("b", vec![at("id", x)], vec![]))],
        41 => vec![e(tag("b", vec![At::Opt("id".into(), x)], vec![ts("t")]))],
        42 => vec![e(tag("b", vec![at("id", x.clone()), at("class", x.clone())], vec![e(x)]))],
        43 => vec![e(tag("img", vec![at("src", x), At::Attr("hidden".into(), None)], vec![]))],
        44 => vec![e(tag("b", vec![At::Spread(dict(vec![("data_x", x.clone()), ("y", E::Unit)])), at("z", x)], vec![]))],
        45 => vec![e(let_(vec![("v", x)], tag("b", vec![at("id", E::Tmpl(vec![lit("1"), tv("v"), lit("2")]))], vec![])))],
        46 => vec![e(let_(vec![("v", x)], tag("b", vec![at("id", v("v"))], vec![])))],
        47 => vec![e(call("attributes", vec![nm("id", x)], tag("b", vec![], vec![])))],
        48 => vec![e(call("class", vec![pos(x.clone())], call("class", vec![pos(x)], tag("b", vec![], vec![]))))],
        49 => vec![e(call("style", vec![pos(x.clone())], call("style", vec![pos(x)], tag("b", vec![], vec![]))))],
        50 => vec![e(call("href", vec![pos(x.clone())], x))],
        51 => vec![e(call("image", vec![nm("alt", x.clone())], x))],
        52 => vec![e(call("blockquote", vec![nm("cite", x.clone())], x))],
        53 => vec![e(c1("kbd", x.clone())), e(c1("samp", x.clone())), e(c1("quote", x))],
        54 => vec![e(c1("footnote", x))],
        55 => vec![e(call("page", vec![nm("title", x.clone()), nm("web_root", x.clone())], x))],
        56 => vec![e(call("page", vec![nm("title", s("t")), nm("head", tag("title", vec![], vec![e(x.clone())])), nm("header", x.clone()), nm("footer", x)], E::Unit))],
        57 => vec![e(m(x, vec![(var("v"), v("v"))]))],
        58 => vec![e(m(x, vec![(Pat::Tmpl(vec![tv("p"), lit("a"), tv("q")]), group(vec![e(v("q")), ts("."), e(v("p"))])), (Pat::Tmpl(vec![tv("p"), lit("<"), tv("q")]), group(vec![e(v("q")), ts("."), e(v("p"))])), (Pat::Ignore, s("-"))]))],
        59 => vec![e(m(list(vec![x.clone(), x]), vec![(Pat::List(vec![var("p"), var("q")], Some(1)), group(vec![e(v("p")), e(v("q"))]))]))],
        60 => vec![e(m(tag("b", vec![at("id", x.clone())], vec![e(x)]), vec![(Pat::Tag(PName::Any, vec![("id".into(), Some(var("p")))], None, b(var("q"))), group(vec![e(v("p")), ts("."), e(v("q"))]))]))],
        61 => vec![e(m(tag("b", vec![at("id", x.clone())], vec![e(x)]), vec![(Pat::Tag(PName::Var("n".into()), vec![], Some(b(var("p"))), b(var("q"))), E::Tag(TName::Var(n("n")), vec![At::Spread(v("p")), at("k", c1("html::escape_html", v("q")))], vec![e(v("p")), e(v("q"))]))]))],
        62 => vec![e(m(dict(vec![("k", x)]), vec![(Pat::Dict(vec![("k".into(), var("p"))], None), v("p"))]))],
        63 => vec![e(m(group(vec![ts("a"), e(tag("b", vec![], vec![e(x.clone())])), e(x)]), vec![(Pat::Seq(vec![var("p"), var("q"), var("r")], Some(2)), group(vec![e(v("r")), e(v("q")), e(v("p"))])), (Pat::Ignore, s("-"))]))],
        64 => vec![e(let_(vec![("r", c1("regex::compile", s("(?P<p>[^a])|(?P<q>a)")))], let_(vec![("l", call("regex::find_all", vec![pos(v("r"))], x.clone())), ("d", call("regex::find", vec![pos(v("r"))], x))], group(vec![e(v("l")), e(m(v("d"), vec![(Pat::Typed(Ty::Any.dict()), tag("b", vec![At::Spread(v("d"))], vec![e(v("d"))])), (Pat::Ignore, E::Unit)]))]))))],
        65 => vec![e(let_(vec![("r", c1("regex::compile", s("[^a]")))], let_(vec![("l", call("regex::split", vec![pos(v("r"))], x.clone())), ("d", call("regex::find", vec![pos(v("r"))], x))], group(vec![e(v("l")), e(v("d"))]))))],
        66 => vec![def("f", vec![Param::new("_x", PK::Pos), Param::new("y", PK::Named)], content("z"), list(vec![v("_x"), v("y"), v("z")])), e(let_(vec![("g", call("function::bind", vec![pos(v("f")), pos(x.clone()), nm("y", x.clone())], E::Unit))], c1("g", x)))],
        67 => vec![f1(v("x")), e(call("function::call", vec![pos(v("f"))], x))],
        68 => vec![e(let_(vec![("v", x)], E::Tag(TName::Var(n("v")), vec![], vec![ts("t")])))],
        69 => vec![e(let_(vec![("v", x)], E::Tag(TName::Var(n("v")), vec![At::Attr("html".into(), None)], vec![])))],
        70 => vec![e(call("dict::items", vec![], dict(vec![("k", x)])))],
        71 => vec![e(c1("list::enumerate", list(vec![x])))],
        72 => vec![def("f", vec![Param::new("_x", PK::Pos).ty(Ty::Html)], None, tag("b", vec![], vec![e(v("_x"))])), e(call("f", vec![pos(list(vec![x]))], E::Unit))],
        73 => vec![e(c1("inline::from", x.clone())), e(c1("block::from", x))],
        74 => vec![e(call("list::filter", vec![pos(v("bool::from"))], list(vec![x])))],
        75 => vec![A::Def(std::sync::Arc::new(FnDef {name: Some("f".into()), params: vec![], content: None, body: let_(vec![("v", x)], func(vec![], None, v("v")))})), e(let_(vec![("g", call("f", vec![], E::Unit))], call("g", vec![], E::Unit)))],
        76 => vec![e(tag("!DOCTYPE", vec![at("x", x.clone())], vec![])), e(tag("br", vec![at("x", x)], vec![]))],
        _ => vec![e(let_(vec![("v", x)], call("regex::test", vec![pos(call("regex::compile", vec![], s("a")))], v("v")))), e(let_(vec![("r", c1("regex::compile", s("<b>&\"'")))], v("r")))],
    }
}

/// Ways to write a string expression.
fn form(k: usize, h: &str, file: &str) -> Option<E> {
    let ent = |f: &dyn Fn(char) -> String| E::Raw(format!("\"{}\"", h.chars().map(f).collect::<String>()), b(s(h)));
    Some(match k {
        0 => E::Str(h.into()),
        1 => E::Tmpl(vec![Tp::Lit(h.into())]),
        2 => ent(&|c| format!("&#{};", c as u32)),
        3 => ent(&|c| format!("&#x{:X};", c as u32)),
        4 => ent(&|c| match c { '<' => "&lt;".into(), '>' => "&gt;".into(), '&' => "&amp;".into(), '"' => "&quot;".into(), '\'' => "&apos;".into(), c => format!("\\U{:08x}", c as u32) }),
        5 => ent(&|c| if (c as u32) < 256 { format!("\\x{:02x}", c as u32) } else { format!("\\U{:08x}", c as u32) }),
        6 => E::Raw(format!("@file::read `{file}`"), b(s(h))),
        _ => {
            // as characters of a group
            if h.is_empty() || sem::ws_only(h) || h.starts_with(|c: char| c.is_ascii_whitespace()) || h.ends_with(|c: char| c.is_ascii_whitespace()) { return None; }
            E::Raw(format!("{{{}}}", h.chars().map(|c| format!("\\U{:08x}", c as u32)).collect::<String>()), b(s(h)))
        },
    })
}
const FORMS: usize = 8;

const SEEDS: &[&str] = &["<script>alert(1)</script>", "</b><b>", "</p>", "--><b>", "<!--", "]]>", "&lt;", "&amp;lt;", "&#60;", "&#x3c;b&#x3e;", "\" onclick=\"x", "' onclick='x", "\"><b>", "'/><b>", "a b=c", "javascript:alert(1)", "<b", "<b a=\"1\">", "b><i", "b id", "br", "DIV", "!doctype", "!DOCTYPE html", "\u{2028}<", "\u{ff1c}b\u{ff1e}", "<\u{e9}>", "`", "``", "$x", "{x}", "@raise .", "\\<", "&", "&;", "&&", "&#;", "&nbsp;", "\u{a0}<", "a=1", "=", "data-x", "</script", "</style><script>", "</textarea>", "</title>", "<![CDATA[<b>]]>", "<?xml?>", "%3Cb%3E", "\u{0}<", "\u{7f}\"", "a\u{301}<", "\u{fe64}", "</", "<>", "< b>", "x y", "/", "b/", "_"];
const ALPHABET: &[char] = &['<', '>', '&', '"', '\'', '=', 'a', '/', ';', ' ', '#', '!', '-', '\n', '\u{e9}'];

const ALL_TAGS: &[&str] = &["!DOCTYPE", "a", "abbr", "address", "area", "article", "aside", "audio", "b", "base", "bdi", "bdo", "blockquote", "body", "br", "button", "canvas", "caption", "center", "cite", "code", "col", "colgroup", "command", "custom", "data", "datalist", "dd", "del", "details", "dfn", "dialog", "dir", "div", "dl", "dt", "em", "embed", "fieldset", "figcaption", "figure", "font", "footer", "form", "frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "i", "iframe", "img", "input", "ins", "kbd", "keygen", "label", "legend", "li", "link", "listing", "main", "map", "mark", "marquee", "math", "menu", "menuitem", "meta", "meter", "nav", "nobr", "noembed", "noframes", "noscript", "object", "ol", "optgroup", "option", "output", "p", "param", "picture", "plaintext", "pre", "progress", "q", "rp", "rt", "ruby", "s", "samp", "script", "section", "select", "slot", "small", "source", "span", "strike", "strong", "style", "sub", "summary", "sup", "svg", "table", "tbody", "td", "template", "textarea", "tfoot", "th", "thead", "time", "title", "tr", "track", "tt", "u", "ul", "var", "video", "wbr", "xmp"];
const NAMES: &[&str] = &["id", "ID", "Id", "data_x", "DATA_x", "class", "x", "_x", "x_", "__", "href", "onclick"];
/// ways to write an attribute
fn attr(k: usize, n: &str) -> At {
    match k {
        0 => At::Attr(n.into(), None),
        1 => at(n, s("<\"'>")),
        2 => At::Opt(n.into(), s("1&lt;")),
        3 => At::Opt(n.into(), E::Unit),
        4 => At::Spread(dict(vec![(n, s("s>"))])),
        5 => At::Spread(dict(vec![(n, E::Unit), ("z", s("2"))])),
        6 => At::Spread(call("dict::new", vec![], E::Unit)),
        7 => At::Attr(n.into(), Some(E::Int(-5))),
        8 => at(n, E::Unit),
        _ => at(n, list(vec![])),
    }
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every hostile string up to a length (and each seed) x every route to the output x every way of writing it: the output, parsed by an independent strict parser, is the tree which the reference interpreter says the document denotes; all attribute lists up to a length; all small element trees");
    corpus(cfg, &mut rep, cfg.q(3, 4), cfg.q(4, 5), &judge);
    rep
}

/// Every program of this check: strings up to `len` on each route, attribute lists, and trees of up to `nodes` nodes.
pub fn corpus(cfg: &Cfg, rep: &mut Report, len: usize, nodes: usize, judge: &(dyn Fn(&mut Worker, &[A]) + Sync)) {
    let k = ALPHABET.len() as u64;
    let n = num_seqs(k, 0, len);
    rep.extra.insert("routes".into(), ROUTES.to_string());
    rep.extra.insert("strings".into(), (n as usize + SEEDS.len()).to_string());
    // every string on every route
    rep.absorb(explore(cfg, n * ROUTES as u64, |w, i| {
        let h: String = nth_seq(i / ROUTES as u64, k, 0, len).into_iter().map(|c| ALPHABET[c]).collect();
        judge(w, &route((i % ROUTES as u64) as usize, s(&h)));
    }));
    // long strings
    let lens: &[usize] = if cfg.quick() { &[9, 17, 33, 65, 257] } else { &[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025] };
    let (many, step) = (num_periodic(k, 2, lens), cfg.q(7, 1));
    rep.absorb(explore(cfg, many * ROUTES as u64 / step, |w, i| {
        let i = i * step;
        let h: String = nth_periodic(i % many, k, 2, lens).into_iter().map(|c| ALPHABET[c]).collect();
        judge(w, &route((i / many) as usize, s(&h)));
    }));
    // very long strings with one hostile character in them, to each kind of place
    let (to, sizes): (&[usize], &[usize]) = (&[0, 5, 10, 27, 29, 40, 41, 44, 45, 47, 48, 55, 60], if cfg.quick() { &[1024, 4096, 4097, 65537] } else { &[512, 1000, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16385, 32769, 65535, 65536, 65537, 100001] });
    let bs = [k, to.len() as u64, sizes.len() as u64, 3];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let (c, n) = (ALPHABET[d[0]], sizes[d[2]]);
        let at = match d[3] { 0 => 0, 1 => n / 2, _ => n };
        judge(w, &route(to[d[1]], s(&format!("{}{c}{}", "x".repeat(at), "y".repeat(n - at)))));
    }));
    // many attributes, of which two may have the same name
    let most = cfg.q(14, 24);
    rep.absorb(explore(cfg, (most * most * most * 3) as u64, |w, i| {
        let d = digits(i, &[most as u64, most as u64, most as u64, 3]);
        let (n, a, b2) = (d[0] + 1, d[1], d[2]);
        if a > b2 || b2 >= n { return; }
        let nm = |j: usize| format!("n{}", if j == b2 { a } else { j });
        let one = |j: usize| match (j + d[3]) % 3 { 0 => at(&nm(j), s(&format!("v{j}"))), 1 => At::Attr(nm(j), None), _ => At::Spread(dict(vec![(Box::leak(nm(j).into_boxed_str()), s("<"))])) };
        judge(w, &[e(tag("b", (0..n).map(one).collect(), vec![ts("x")]))]);
    }));
    // very many, one of them in another spelling; one after another or all in a dict
    let lens: &[usize] = if cfg.quick() { &[17, 33, 65, 129] } else { &[15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258] };
    rep.absorb(explore(cfg, lens.len() as u64 * 7 * 7 * 4 * 4, |w, i| {
        let d = digits(i, &[lens.len() as u64, 7, 7, 4, 4]);
        let n = lens[d[0]];
        let place = |k: usize| [0, 1, n / 3, n / 2, n - 3, n - 2, n - 1][k];
        let (a, b2) = (place(d[1]), place(d[2]));
        if a > b2 { return; }
        // (the same place twice: all names differ)
        let nm = |j: usize| if j == b2 && a != b2 { [format!("n_{a}"), format!("N_{a}"), format!("n-{a}"), format!("n_{a}x")][d[3]].clone() } else { format!("n_{j}") };
        let one = |j: usize| match d[4] { 0 => at(&nm(j), s("<")), 1 => At::Attr(nm(j), None), 2 if j == b2 || j % 5 == 1 => At::Spread(dict(vec![(Box::leak(nm(j).into_boxed_str()), s("<"))])), 2 => at(&nm(j), s("\"")), _ => At::Opt(nm(j), s("&")) };
        judge(w, &[e(tag("b", (0..n).map(one).collect(), vec![ts("x")]))]);
    }));
    // short strings and seeds, in every form, on every route
    let strs: Vec<String> = SEEDS.iter().map(|s| s.to_string()).chain((0..num_seqs(k, 0, cfg.q(1, 2))).map(|i| nth_seq(i, k, 0, 2).into_iter().map(|c| ALPHABET[c]).collect())).collect();
    let dir = scratch(cfg);
    let files: Vec<String> = strs.iter().enumerate().map(|(i, h)| { let f = format!("{}/h{i}.txt", dir.display()); std::fs::write(&f, h).expect("write"); f }).collect();
    let bs = [ROUTES as u64, strs.len() as u64, FORMS as u64];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        match form(d[2], &strs[d[1]], &files[d[1]]) { Some(x) => judge(w, &route(d[0], x)), None => {} }
    }));
    // two strings on one route at the same time, one after the other: quotes and brackets of one must not close the other
    let two: Vec<&str> = vec!["<", ">", "\"", "'", "&", "&lt", ";", "=", " "];
    let bs = [two.len() as u64, two.len() as u64, two.len() as u64, 6];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let (x, y, z) = (s(two[d[0]]), s(two[d[1]]), s(two[d[2]]));
        judge(w, &match d[3] {
            0 => vec![e(x), e(y), e(z)],
            1 => vec![e(tag("b", vec![at("a", x), at("b", y)], vec![e(z)]))],
            2 => vec![e(let_(vec![("x", x), ("y", y), ("z", z)], tag("b", vec![at("a", E::Tmpl(vec![Tp::Var(name("x")), Tp::Var(name("y")), Tp::Var(name("z"))]))], vec![])))],
            3 => vec![e(x), e(tag("b", vec![], vec![e(y)])), e(z)],
            4 => vec![e(tag("img", vec![at("a", x)], vec![])), e(tag("img", vec![at("a", y)], vec![])), e(z)],
            _ => vec![e(list(vec![x, y, z]))],
        });
    }));
    // every tag, in every spelling, with and without content
    let bs = [ALL_TAGS.len() as u64, 3, 2, 4, 2, 3];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let lower = ALL_TAGS[d[0]];
        let name = match d[1] { 0 => lower.to_string(), 1 => lower.to_uppercase(), _ => lower.chars().enumerate().map(|(k, c)| if k % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect() };
        if d[2] == 0 && d[3] > 0 && VOID.contains(&lower) { return; }
        let content = match d[3] { 0 => vec![], 1 => vec![ts("x")], 2 => vec![e(tag("b", vec![], vec![ts("y")]))], _ => vec![e(s("<"))] };
        let attrs = if d[4] == 0 { vec![] } else { vec![at("id", s("\"<"))] };
        let x = if d[2] == 0 { tag(&name, attrs, content) } else { let_(vec![("t", s(&name))], E::Tag(TName::Var(crate::ast::name("t")), attrs, content)) };
        judge(w, &match d[5] { 0 => vec![e(x)], 1 => vec![ts("a"), e(x), ts("b")], _ => vec![e(tag("div", vec![], vec![e(x.clone()), e(x)]))] });
    }));
    // attribute lists
    let na = (NAMES.len() * 10) as u64;
    let at_of = |d: usize| attr(d / NAMES.len(), NAMES[d % NAMES.len()]);
    rep.absorb(explore(cfg, num_seqs(na, 0, 2) * 3, |w, i| {
        let a: Vec<At> = nth_seq(i / 3, na, 0, 2).into_iter().map(at_of).collect();
        judge(w, &[e(match i % 3 { 0 => tag("span", a, vec![ts("x")]), 1 => tag("img", a, vec![]), _ => let_(vec![("t", s("Custom"))], E::Tag(TName::Var(name("t")), a, vec![e(tag("b", vec![], vec![]))])) })]);
    }));
    let names3 = cfg.q(4, NAMES.len());
    let forms3: &[usize] = if cfg.quick() { &[0, 1, 2, 4, 5] } else { &[0, 1, 2, 3, 4, 5, 7] };
    let n3 = (names3 * forms3.len()) as u64;
    rep.absorb(explore(cfg, n3.pow(3), |w, i| {
        let a: Vec<At> = digits(i, &[n3; 3]).into_iter().map(|d| attr(forms3[d / names3], NAMES[d % names3])).collect();
        judge(w, &[e(tag("span", a, vec![ts("x")]))]);
    }));
    // @attributes, @class and @style applied one after the other
    let bs = [NAMES.len() as u64 + 1, NAMES.len() as u64 + 2, NAMES.len() as u64 + 2, 3];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let add = |k: usize, x: E| match k { k if k < NAMES.len() => call("attributes", vec![Arg::Named(NAMES[k].into(), s("<1>"))], x), k if k == NAMES.len() => call("class", vec![Arg::Pos(s("\"2"))], x), _ => call("style", vec![Arg::Pos(s("'3"))], x) };
        let base = match d[0] { k if k < NAMES.len() => vec![at(NAMES[k], s("0"))], _ => vec![] };
        let base = match d[3] { 0 => tag("b", base, vec![ts("x")]), 1 => tag("hr", base, vec![]), _ => group(vec![e(tag("p", base, vec![ts("y")]))]) };
        judge(w, &[e(add(d[1], add(d[2], base)))]);
    }));
    // element trees: every tree with up to 4 (5) elements or texts
    let tags = ["div", "b", "BR", "img", "Custom", "SCRIPT", "span", "p", "a", "ul"];
    // a tree is written as a sequence of (depth, label) choices
    let labels = tags.len() as u64 + 2;
    let bs: Vec<u64> = (0..nodes).flat_map(|j| [labels, if j == 0 { 1 } else { 3 }]).collect();
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        // depth change: 0 = child of the previous, 1 = sibling, 2 = sibling of the parent
        struct T { label: usize, kids: Vec<T> }
        fn insert(v: &mut Vec<T>, path: usize, t: T) { if path == 0 || v.is_empty() { v.push(t); } else { insert(&mut v.last_mut().unwrap().kids, path - 1, t); } }
        let (mut roots, mut depth): (Vec<T>, usize) = (vec![], 0);
        for j in 0..nodes {
            if j > 0 { match d[2 * j + 1] { 0 => depth += 1, 1 => {}, _ => depth = depth.saturating_sub(1) } }
            insert(&mut roots, depth, T {label: d[2 * j], kids: vec![]});
        }
        fn doc(v: &[T], tags: &[&str]) -> Option<Vec<A>> {
            v.iter().map(|x| Some(match x.label {
                l if l < tags.len() => {
                    let kids = doc(&x.kids, tags)?;
                    if !kids.is_empty() && VOID.iter().any(|v| v.eq_ignore_ascii_case(tags[l])) { return None; }
                    e(tag(tags[l], vec![], kids))
                },
                l => { if !x.kids.is_empty() { return None; } if l == tags.len() { ts("x") } else { e(s("<\"&")) } },
            })).collect()
        }
        if let Some(a) = doc(&roots, &tags) { judge(w, &a); }
    }));
    remove_scratch(&dir);
}
