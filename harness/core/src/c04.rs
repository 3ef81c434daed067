//! C04: the HTML content model.
use crate::ast::*;
use crate::engine::*;
use crate::prog::*;

const TAGS: &[&str] = &["a", "address", "article", "aside", "b", "blockquote", "body", "button", "caption", "code", "colgroup", "custom", "dd", "details", "div", "dl", "dt", "em", "fieldset", "figcaption", "figure", "footer", "form",
    "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "html", "i", "iframe", "label", "li", "main", "menu", "nav", "noscript", "object", "ol", "option", "p", "pre", "q", "script", "section", "select", "small", "span", "strong",
    "style", "summary", "table", "tbody", "td", "template", "textarea", "tfoot", "th", "thead", "title", "tr", "ul", "video",
    "area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link", "menuitem", "meta", "param", "source", "track", "wbr", "!DOCTYPE"];
/// one of each kind
const KINDS: &[&str] = &["ROOT", "GROUP", "section", "div", "a", "li", "dl", "ul", "table", "tr", "thead", "hgroup", "head", "html", "p", "h1", "b", "pre", "td", "button", "br"];

fn e(x: E) -> A { A::E(x) }
fn leaf(n: &str, x: &str) -> A { e(tag(n, vec![], if x.is_empty() { vec![] } else { vec![t(x)] })) }

fn leaf_e(n: &str, x: &str) -> E { tag(n, vec![], vec![t(x)]) }

fn defs() -> Vec<A> {
    vec![
        def("empty", vec![], None, E::Unit),
        def("white", vec![], None, s(" ")),
        def("wide", vec![], None, s("  ")),
        def("line", vec![], None, s("\n")),
        def("tab", vec![], None, s("\t")),
        def("mixed", vec![], None, s(" \n \u{a0}")),
        def("str", vec![], None, s("s")),
        def("inl", vec![], None, group(vec![t("j"), leaf("i", "k")])),
        def("blk", vec![], None, group(vec![t("u"), A::Para, t("v")])),
        def("two", vec![], None, group(vec![leaf("li", "l"), leaf("li", "m")])),
        def("ablk", vec![], None, tag("a", vec![], vec![leaf("div", "o")])),
        def("rows", vec![], None, group(vec![leaf("tr", ""), leaf("tr", "")])),
        def("lst", vec![], None, list(vec![s("n"), E::Int(1)])),
    ]
}
fn c(f: &str) -> A { e(call(f, vec![], E::Unit)) }
fn needs_defs(a: &A) -> bool { matches!(a, A::E(E::Call(..))) }

fn items() -> Vec<A> {
    let mut v = vec![
        t("x"), A::Sp, A::Para, leaf("b", "y"), leaf("p", "z"), leaf("div", "d"), leaf("li", "w"), leaf("tr", ""), c("empty"), c("white"), c("str"), c("inl"), c("blk"), c("two"), c("ablk"), leaf("a", "q"), leaf("br", ""), leaf("hr", ""),
        A::Code("c".into()), e(group(vec![])), e(group(vec![t("g"), A::Sp])), c("rows"), c("lst"), c("wide"), c("line"), c("tab"), c("mixed"), A::Char(' '), A::Char('\u{a0}'),
        e(E::List(vec![(s("n"), false), (E::Bool(true), false)])),
    ];
    for n in ["dd", "dt", "td", "th", "tbody", "thead", "tfoot", "caption", "colgroup", "h1", "h6", "head", "body", "title", "meta", "link", "base", "style", "script", "template", "noscript", "!DOCTYPE", "section", "pre", "custom", "img"] { v.push(leaf(n, "")); }
    v
}
/// parts of values
fn parts() -> Vec<A> { vec![t("x"), A::Sp, e(E::Raw("@str::from \"\\n \"".into(), Box::new(s("\n ")))), leaf("b", "y"), leaf("p", "z"), leaf("div", "d"), leaf("li", "w"), leaf("tr", ""), leaf("dt", ""), leaf("a", "q"), leaf("br", ""), leaf("h1", ""), leaf("meta", ""), leaf("td", "")] }
/// a smaller set for long sequences
fn core() -> Vec<A> {
    vec![t("x"), A::Sp, A::Para, leaf("b", "y"), leaf("p", "z"), leaf("li", "w"), c("empty"), c("white"), c("wide"), c("inl"), c("blk"), c("two"), leaf("tr", ""), leaf("dt", "r"), leaf("td", "r"), leaf("meta", "")]
}

fn wrap(parent: &str, c: Vec<A>) -> Vec<A> {
    let d = if c.iter().any(needs_defs) || parent == "LET" { defs() } else { vec![] };
    let mut doc = d;
    match parent {
        "ROOT" => doc.extend(c),
        "GROUP" => doc.push(e(tag("div", vec![], vec![t("1"), e(group(c)), t("2")]))),
        // void elements cannot be written with content, but a computed name can
        n if VOID.contains(&n) => {
            doc.insert(0, def("name", vec![], content("n"), E::Let(false, vec![("k".into(), s(n))], Box::new(E::Tag(TName::Var(name("k")), vec![], c)))));
            doc.push(e(call("name", vec![], E::Unit)));
        },
        n => doc.push(e(tag(n, vec![], c))),
    }
    doc
}
/// content in an element inside an element
fn wrap2(outer: &str, inner: &str, mut c: Vec<A>, rest: usize) -> Vec<A> {
    let d = if c.iter().any(needs_defs) { defs() } else { vec![] };
    let mid = match inner { "ROOT" | "GROUP" => e(group(std::mem::take(&mut c))), n if VOID.contains(&n) => leaf(n, ""), n => e(tag(n, vec![], std::mem::take(&mut c))) };
    let c = match rest { 0 => vec![mid], 1 => vec![t("f"), mid, t("l")], 2 => vec![mid, A::Para, t("l")], _ => vec![t("f"), A::Para, A::Sp, mid, leaf("p", "t")] };
    let mut doc = d;
    doc.extend(wrap(outer, c));
    doc
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "the rendered output (or error) of every element x every sequence of children up to the bound, compared with the reference content model; non-trivial: outputs");
    let mut parents: Vec<&str> = vec!["ROOT", "GROUP"];
    parents.extend(TAGS);
    
    // every element, sequences over all kinds of children
    let len = cfg.q(2, 3);
    let n = items().len() as u64;
    let per = num_seqs(n, 0, len);
    rep.absorb(explore(cfg, per * parents.len() as u64, |w, i| {
        thread_local! { static IT: Vec<A> = items(); }
        let c = IT.with(|it| nth_seq(i % per, n, 0, len).into_iter().map(|k| it[k].clone()).collect());
        check(w, &wrap(parents[(i / per) as usize], c));
    }));
    // elements whose name is a value, in any spelling, at the top, in an element, or called
    let n = core().len() as u64;
    let len = cfg.q(2, 3);
    let (per, nt) = (num_seqs(n, 0, len), TAGS.len() as u64);
    rep.absorb(explore(cfg, per * nt * 3 * cfg.q(1, 3), |w, i| {
        thread_local! { static IT: Vec<A> = core(); }
        let d = digits(i, &[per, 3, nt, cfg.q(1, 3)]);
        let c: Vec<A> = IT.with(|it| nth_seq(d[0] as u64, n, 0, len).into_iter().map(|k| it[k].clone()).collect());
        let x = TAGS[d[2]];
        let spelled = match d[1] { 0 => x.to_string(), 1 => x.to_ascii_uppercase(), _ => x.char_indices().map(|(k, c)| if k % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
        let mut doc = if c.iter().any(needs_defs) { defs() } else { vec![] };
        let el = let1("k", s(&spelled), E::Tag(TName::Var(name("k")), vec![], c));
        let at = if cfg.quick() { (d[0] + d[1] + d[2]) % 3 } else { d[3] };
        match at {
            0 => doc.push(e(el)),
            1 => doc.push(e(tag("div", vec![], vec![t("f"), e(el)]))),
            _ => { doc.push(def("el", vec![], None, el)); doc.push(e(tag("ul", vec![], vec![e(call("el", vec![], E::Unit)), t("l")]))); },
        }
        check(w, &doc);
    }));
    // longer sequences over the core alphabet
    let len = cfg.q(4, 5);
    let ps: Vec<&str> = if cfg.quick() { KINDS.to_vec() } else { KINDS.to_vec() };
    let n = core().len() as u64;
    let per = num_seqs(n, 3, len) - if cfg.quick() { 0 } else { 0 };
    rep.absorb(explore(cfg, per * ps.len() as u64, |w, i| {
        thread_local! { static IT: Vec<A> = core(); }
        let c = IT.with(|it| nth_seq(i % per, n, 3, len).into_iter().map(|k| it[k].clone()).collect());
        check(w, &wrap(ps[(i / per) as usize], c));
    }));
    // long ones
    let lens: &[usize] = if cfg.quick() { &[9, 17, 33] } else { &[6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65, 129] };
    let per = num_periodic(n, 2, lens);
    rep.absorb(explore(cfg, per * ps.len() as u64 * 3, |w, i| {
        thread_local! { static IT: Vec<A> = core(); }
        let d = digits(i, &[3, per, ps.len() as u64]);
        let mut q = nth_periodic(d[1] as u64, n, 2, lens);
        // the last, or one in the middle, is another one
        let m = q.len();
        if d[0] > 0 { let at = if d[0] == 1 { m - 1 } else { m / 2 }; q[at] = (q[at] + d[1] * 7 + 1) % n as usize; }
        check(w, &wrap(ps[d[2]], IT.with(|it| q.iter().map(|k| it[*k].clone()).collect())));
    }));
    // elements in elements, deeply
    let deep: &[&str] = &["div", "b", "a", "ul", "li", "p", "table", "td", "span", "section", "h1", "button"];
    let lens: &[usize] = if cfg.quick() { &[3, 4, 5, 9, 17, 33] } else { &[3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 32, 33, 64] };
    let (nd, pm) = (deep.len() as u64, cfg.q(2, 3));
    let per = num_periodic(nd, pm, lens);
    rep.absorb(explore(cfg, per * 4, |w, i| {
        let mut c = match i % 4 { 0 => vec![t("x")], 1 => vec![leaf("p", "x")], 2 => vec![], _ => vec![t("x"), A::Para, t("y")] };
        for (j, k) in nth_periodic(i / 4, nd, pm, lens).into_iter().enumerate() {
            c = vec![e(tag(deep[k], vec![], c))];
            if i % 8 > 3 && j % 2 == 0 { c.push(t("z")); }
        }
        check(w, &c);
    }));
    // values which are sequences of their own, made in each way
    let n = parts().len() as u64;
    let len = cfg.q(2, 3);
    let (per, ctx) = (num_seqs(n, 1, len), 5);
    let ps: Vec<&str> = if cfg.quick() { KINDS.to_vec() } else { parents.clone() };
    rep.absorb(explore(cfg, per * 3 * ctx * ps.len() as u64, |w, i| {
        thread_local! { static IT: Vec<A> = parts(); }
        let d = digits(i, &[per, 3, ctx, ps.len() as u64]);
        let c: Vec<A> = IT.with(|it| nth_seq(d[0] as u64, n, 1, len).into_iter().map(|k| it[k].clone()).collect());
        let as_list = |sep: Option<E>| call("list::join", sep.map(Arg::Pos).into_iter().collect(), E::List(c.iter().map(|a| (match a { A::E(x) => x.clone(), A::Sp => s(" "), a => group(vec![a.clone()]) }, false)).collect()));
        let val = match d[1] { 0 => group(c.clone()), 1 => as_list(None), _ => as_list(Some(leaf_e("li", "s"))) };
        let use_ = e(v("val"));
        let body = match d[2] { 0 => vec![use_], 1 => vec![t("f"), use_, t("l")], 2 => vec![leaf("li", "f"), use_], 3 => vec![use_.clone(), A::Sp, use_], _ => vec![e(group(vec![t("g"), use_])), leaf("b", "l")] };
        check(w, &[e(let1("val", val, group(wrap(ps[d[3]], body))))]);
    }));
    // long values of which one part, anywhere, is of another kind
    let n = parts().len() as u64;
    let lens: &[usize] = if cfg.quick() { &[4, 5, 8, 17] } else { &[3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 18, 32, 33, 65] };
    let at: Vec<(usize, usize)> = lens.iter().flat_map(|m| (0..*m).map(move |p| (*m, p))).collect();
    let bs = [at.len() as u64, n, cfg.q(3, n), KINDS.len() as u64, 4];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        thread_local! { static IT: Vec<A> = parts(); }
        let d = digits(i, &bs);
        let (m, p) = at[d[0]];
        let base = if cfg.quick() { [3, 0, 6][d[2]] } else { d[2] };
        // (text between elements, so that the parts are not one)
        let c: Vec<A> = IT.with(|it| (0..m).map(|j| if j == p { it[d[1]].clone() } else if j % 2 == 1 && base < 4 { t("x") } else { it[base].clone() }).collect());
        let items = || E::List(c.iter().map(|a| (match a { A::E(x) => x.clone(), a => group(vec![a.clone()]) }, false)).collect());
        let val = match d[4] { 0 => group(c.clone()), 1 => call("list::join", vec![], items()), 2 => group(vec![t("x"), e(group(c.clone()))]), _ => items() };
        check(w, &[e(let1("val", val, group(wrap(KINDS[d[3]], vec![e(v("val"))]))))]);
    }));
    // elements within elements
    let len = cfg.q(1, 2);
    let n = items().len() as u64;
    let per = num_seqs(n, 0, len);
    let k = KINDS.len() as u64;
    let inner: Vec<&str> = if cfg.quick() { KINDS.to_vec() } else { parents.clone() };
    let m = inner.len() as u64;
    rep.absorb(explore(cfg, per * k * m * 4, |w, i| {
        thread_local! { static IT: Vec<A> = items(); }
        let d = digits(i, &[per, m, k, 4]);
        let c = IT.with(|it| nth_seq(d[0] as u64, n, 0, len).into_iter().map(|k| it[k].clone()).collect());
        check(w, &wrap2(KINDS[d[2]], inner[d[1]], c, d[3]));
    }));
    rep.extra.insert("elements".into(), parents.len().to_string());
    rep
}
