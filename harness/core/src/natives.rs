//! The library functions of the reference interpreter.
use crate::ast::*;
use crate::sem::*;
use std::rc::Rc;

fn err<T>(s: &str) -> R<T> { Err(s.to_string()) }
fn p(n: &str, ty: Ty) -> P { P {name: Rc::from(n), ty, implicit: false, default: None} }
fn d(n: &str, ty: Ty, v: V) -> P { P {name: Rc::from(n), ty, implicit: false, default: Some(v)} }

const STR: Ty = Ty::Str;
const INT: Ty = Ty::Int;

/// how `$value::name` binds its subject
#[derive(Clone, Copy, PartialEq)]
enum B { No, Pos, Con }

/// (module, name, binding, positional, spread, named, named spread, content)
type Row = (&'static str, &'static str, B, Vec<P>, Option<P>, Vec<P>, Option<P>, Option<P>);
fn table() -> Vec<Row> {
    use B::*;
    let any = || Ty::Any;
    let l = || Ty::Any.list();
    let f = || Ty::Func;
    let row = |m, n, b, pos: Vec<P>, c: Option<P>| -> Row { (m, n, b, pos, None, vec![], None, c) };
    let mut t = vec![
        row("bool", "and", Pos, vec![p("_a", Ty::Bool), p("_b", Ty::Bool)], None),
        row("bool", "from", No, vec![], Some(p("param", any()))),
        row("bool", "or", Pos, vec![p("_a", Ty::Bool), p("_b", Ty::Bool)], None),
        row("bool", "negate", Con, vec![], Some(p("param", Ty::Bool))),
        ("int", "add", Pos, vec![], Some(p("args", INT.list())), vec![], None, None),
        row("int", "negate", Con, vec![], Some(p("param", INT))),
        row("int", "parse", No, vec![], Some(p("param", STR))),
        row("str", "ends_with", Pos, vec![p("_a", STR), p("_b", STR)], None),
        row("str", "from", No, vec![], Some(p("param", STR))),
        row("str", "split", Con, vec![p("_sep", STR)], Some(p("str", STR))),
        row("str", "starts_with", Pos, vec![p("_a", STR), p("_b", STR)], None),
        ("str", "unique_id", Con, vec![], None, vec![d("max_length", INT, V::Int(128))], None, Some(p("base", STR))),
        row("regex", "compile", No, vec![], Some(p("source", STR))),
        ("function", "bind", Pos, vec![p("_function", f())], Some(p("args", l())), vec![], Some(p("kwargs", any().dict())), Some(p("param", any()))),
        row("function", "name", Con, vec![], Some(p("function", f()))),
        row("html", "escape_html", Con, vec![], Some(p("html", Ty::Html))),
        row("html", "is_empty", Con, vec![], Some(p("html", Ty::Html))),
        row("html", "is_whitespace", Con, vec![], Some(p("html", Ty::Html))),
        row("html", "parse", No, vec![], Some(p("param", STR))),
        row("list", "contains", Con, vec![p("_param", any())], Some(p("list", l()))),
        ("list", "enumerate", Con, vec![], None, vec![d("from", INT, V::Int(0))], None, Some(p("list", l()))),
        row("list", "filter", Con, vec![d("_function", f().opt(), unit())], Some(p("list", l()))),
        row("list", "get", Con, vec![p("_i", INT)], Some(p("list", l()))),
        row("list", "html_nodes", No, vec![], Some(p("html", Ty::Html))),
        row("list", "join", Con, vec![d("_sep", Ty::Html, unit())], Some(p("list", Ty::Html.list()))),
        row("list", "slice", Con, vec![p("_a", INT), d("_b", INT.opt(), unit())], Some(p("list", l()))),
        ("list", "sorted", Con, vec![], None, vec![d("key", f().opt(), unit()), d("reversed", Ty::Bool, V::Bool(false))], None, Some(p("list", l()))),
        row("list", "reversed", No, vec![], Some(p("list", l()))),
        row("dict", "get", No, vec![p("_key", STR)], Some(p("dict", any().dict()))),
        ("dict", "new", No, vec![], None, vec![], Some(p("kwargs", any().dict())), None),
        row("file", "list", No, vec![], Some(p("path", STR))),
        row("file", "read", No, vec![], Some(p("path", STR))),
        row("file", "write", No, vec![p("_path", STR)], Some(p("html", Ty::Html))),
        row("net", "fetch_raw", No, vec![], Some(p("path", STR))),
        row("net", "fetch_html", No, vec![], Some(p("path", STR))),
        ("", "code", No, vec![], None, vec![
            P {name: Rc::from("language"), ty: STR.opt(), implicit: true, default: Some(unit())},
            d("code_block", Ty::Bool, V::Bool(false)), d("first_line_no", INT, V::Int(1))], None, Some(p("source", STR))),
        row("", "import", No, vec![], Some(p("path", STR))),
        row("", "include", No, vec![], Some(p("path", STR))),
        row("", "raise", No, vec![], Some(p("str", STR))),
    ];
    for n in ["escape_html", "is_empty", "is_whitespace", "len", "lower", "trim", "upper"] { t.push(row("str", n, Con, vec![], Some(p("str", STR)))); }
    for n in ["count", "find", "find_all", "split", "test"] { t.push(row("regex", n, Pos, vec![p("_regex", Ty::Regex)], Some(p("str", STR)))); }
    for n in ["all", "any", "find", "map"] { t.push(row("list", n, Con, vec![p("_function", f())], Some(p("list", l())))); }
    for n in ["flat", "is_empty", "len"] { t.push(row("list", n, Con, vec![], Some(p("list", l())))); }
    for n in ["is_empty", "items", "keys", "len", "values"] { t.push(row("dict", n, No, vec![], Some(p("dict", any().dict())))); }
    t
}

thread_local! {
    static TABLE: Vec<(Rc<str>, B, Rc<F>)> = table().into_iter().map(|(m, n, b, pos, spread, named, nspread, content)| {
        let full = if m.is_empty() { n.to_string() } else { format!("{m}::{n}") };
        let full: Rc<str> = Rc::from(full);
        (full.clone(), b, Rc::new(F::Native(full, Rc::from(n), Rc::new(Sig {pos, spread, named, nspread, content}))))
    }).collect();
}
fn get(n: &str) -> Rc<F> { TABLE.with(|t| t.iter().find(|r| &*r.0 == n).unwrap().2.clone()) }

/// The library names, as `$name` or `$name::name`, which are functions.
pub fn names() -> Vec<String> { TABLE.with(|t| t.iter().map(|r| r.0.to_string()).collect()) }

pub fn method(v: &V, attr: &str) -> Option<(Rc<F>, bool)> {
    let m = match v { V::Bool(_) => "bool", V::Int(_) => "int", V::Str(_) => "str", V::Regex(_) => "regex", V::Func(_) => "function", V::Html(_) => "html", V::List(_) => "list", V::Dict(_) => return None };
    let full = format!("{m}::{attr}");
    TABLE.with(|t| t.iter().find(|r| *r.0 == *full && r.1 != B::No).map(|r| (r.2.clone(), r.1 == B::Con)))
}

fn inline_tag(n: &str, t: &str, ty: Ty) -> A { def(n, vec![], content("v").map(|p| p.ty(ty)), tag(t, vec![], vec![A::E(v("v"))])) }

/// The definitions of the standard library which are written in the language.
fn std_defs() -> Vec<A> {
    use Pat as Q;
    let b = |p: Q| Box::new(p);
    let var = |n: &str| Q::Var(n.into());
    let raise = |e: E| call("raise", vec![], e);
    let lit = |s: &str| Tp::Lit(s.into());
    let tv = |s: &str| Tp::Var(name(s));
    let vh = || content("v").map(|p| p.ty(Ty::Html));
    let expected_tag = || (Q::TypeOf("t".into()), raise(E::Tmpl(vec![lit("expected tag, was "), tv("t")])));
    let mut out = vec![
        def("typeof", vec![], content("v"), E::Match(Box::new(v("v")), vec![(Q::TypeOf("t".into()), v("t"))])),
        def("attributes", vec![Param::new("d", PK::NSpread).ty(STR.opt().dict())], vh(), E::Match(Box::new(v("v")), vec![
            (Q::Tag(PName::Var("t".into()), vec![], Some(b(var("a"))), b(var("v"))), E::Tag(TName::Var(name("t")), vec![At::Spread(v("a")), At::Spread(v("d"))], vec![A::E(v("v"))])),
            expected_tag(),
        ])),
    ];
    let ht = |n: &str| Param::new(n, PK::Named).opt().ty(Ty::Html);
    let at = |n: &str, x: &str| At::Attr(n.into(), Some(s(x)));
    let tmpl = |x: &str| E::Tmpl(vec![tv("w"), lit(x)]);
    let opt_tag = |n: &str| A::E(E::Match(Box::new(v(n)), vec![(Q::None, E::Unit), (Q::Ignore, tag(n, vec![], vec![A::E(v(n))]))]));
    out.push(def("page", vec![Param::new("title", PK::Named).ty(STR), Param::new("web_root", PK::Named).ty(STR).def(s("https://kaya3.github.io/papyri")), ht("head"), ht("header"), ht("footer")],
        content("content").map(|p| p.ty(Ty::Block)), group(vec![A::E(E::Let(false, vec![("w".into(), E::Match(Box::new(v("web_root")), vec![(Q::Tmpl(vec![tv("w"), lit("/")]), v("w")), (Q::Ignore, v("web_root"))]))],
            Box::new(group(vec![
                A::E(tag("!DOCTYPE", vec![At::Attr("html".into(), None)], vec![])), A::Sp,
                A::E(tag("html", vec![], vec![
                    A::Sp, A::E(tag("head", vec![], vec![
                        A::E(tag("title", vec![], vec![A::E(v("title"))])), A::E(tag("meta", vec![at("charset", "utf-8")], vec![])),
                        A::E(tag("link", vec![at("rel", "stylesheet"), at("type", "text/css"), At::Attr("href".into(), Some(tmpl("/papyri.css")))], vec![])), A::E(v("head")), A::Sp,
                    ])), A::Sp,
                    A::E(tag("body", vec![], vec![
                        A::Sp, opt_tag("header"), A::E(tag("article", vec![], vec![A::E(v("content"))])), A::Sp, opt_tag("footer"),
                        A::E(tag("script", vec![at("type", "text/javascript"), At::Attr("src".into(), Some(tmpl("/papyri.js")))], vec![])), A::Sp,
                    ])), A::Sp,
                ])),
            ]))))])));
    for (n, k, joined) in [("class", "_c", vec![tv("o"), Tp::Sp, tv("_c")]), ("style", "_s", vec![tv("o"), tv("_s")])] {
        out.push(def(n, vec![Param::new(k, PK::Pos).ty(STR)], vh(), E::Match(Box::new(v("v")), vec![
            (Q::Tag(PName::Var("t".into()), vec![(n.into(), Some(var("o")))], Some(b(var("a"))), b(var("v"))),
                E::Tag(TName::Var(name("t")), vec![At::Attr(n.into(), Some(E::Tmpl(joined))), At::Spread(v("a"))], vec![A::E(v("v"))])),
            (Q::Tag(PName::Var("t".into()), vec![], Some(b(var("a"))), b(var("v"))),
                E::Tag(TName::Var(name("t")), vec![At::Attr(n.into(), Some(v(k))), At::Spread(v("a"))], vec![A::E(v("v"))])),
            expected_tag(),
        ])));
    }
    for (n, t) in [("b", "b"), ("bold", "strong"), ("cite", "cite"), ("dfn", "dfn"), ("emph", "em"), ("i", "i"), ("quote", "q"), ("span", "span"), ("sub", "sub"), ("sup", "sup"), ("strikethrough", "s"), ("underline", "u"),
        ("h1", "h1"), ("h2", "h2"), ("h3", "h3"), ("h4", "h4"), ("h5", "h5"), ("h6", "h6")] { out.push(inline_tag(n, t, Ty::Inline)); }
    for (n, t) in [("kbd", "kbd"), ("samp", "samp")] { out.push(inline_tag(n, t, STR)); }
    out.push(def("blockquote", vec![Param::new("cite", PK::Named).opt().ty(STR)], content("v").map(|p| p.ty(Ty::Block)), tag("blockquote", vec![At::Opt("cite".into(), v("cite"))], vec![A::E(v("v"))])));
    out.push(def("href", vec![Param::new("_url", PK::Pos).ty(STR)], content("v").map(|p| p.ty(Ty::Inline)), tag("a", vec![At::Attr("href".into(), Some(v("_url")))], vec![A::E(v("v"))])));
    out.push(def("image", vec![Param::new("alt", PK::Named).opt().ty(STR)], content("url").map(|p| p.ty(STR)), tag("img", vec![At::Attr("src".into(), Some(v("url"))), At::Opt("alt".into(), v("alt"))], vec![])));
    out.push(def("numbered", vec![], vh(), E::Match(Box::new(v("v")), vec![
        (Q::Tag(PName::Lit("ul".into()), vec![], Some(b(var("d"))), b(var("v"))), tag("ol", vec![At::Spread(v("d"))], vec![A::E(v("v"))])),
        (Q::Ignore, raise(s("expected <ul>"))),
    ])));
    out.push(def("footnote", vec![], content("v").map(|p| p.ty(Ty::Inline)), group(vec![
        A::Char('\u{2060}'), A::E(tag("a", vec![At::Attr("class".into(), Some(s("footnote-ref")))], vec![])),
        A::E(tag("span", vec![At::Attr("class".into(), Some(s("footnote panel")))], vec![A::E(v("v"))])),
    ])));
    out
}

pub fn globals() -> Rc<Frame> {
    let mut mods: Vec<(Rc<str>, Vec<(Rc<str>, V)>)> = vec![];
    let mut top: Vec<(Rc<str>, V)> = vec![];
    TABLE.with(|t| for (full, _, f) in t {
        match full.split_once("::") {
            None => top.push((full.clone(), V::Func(f.clone()))),
            Some((m, n)) => {
                if !mods.iter().any(|x| &*x.0 == m) { mods.push((Rc::from(m), vec![])); }
                mods.iter_mut().find(|x| &*x.0 == m).unwrap().1.push((Rc::from(n), V::Func(f.clone())));
            },
        }
    });
    // functions of the standard library see only the native functions
    let nat = Frame::new(None, mods.iter().map(|(m, d)| (m.clone(), vdict(d.clone()))).chain(top.iter().cloned()).collect());
    let i = In::in_frame(Frame::new(Some(nat.clone()), vec![]));
    let ident = |n: &str, ty: Ty, e: E| func_named(n, content("v").map(|p| p.ty(ty)), e);
    let mut defs = vec![];
    for a in std_defs() { if let A::Def(d) = a { defs.push((Rc::from(d.name.as_deref().unwrap()), V::Func(i.define(&d, &nat).unwrap()))); } }
    let mk = |d: std::sync::Arc<FnDef>| V::Func(i.define(&d, &nat).unwrap());
    let callf = std::sync::Arc::new(FnDef {
        name: Some("call".into()), params: vec![Param::new("_f", PK::Pos).ty(Ty::Func), Param::new("_args", PK::Spread), Param::new("kwargs", PK::NSpread)],
        content: content("content"), body: call("_f", vec![Arg::Spread(v("_args")), Arg::NSpread(v("kwargs"))], v("content")),
    });
    let mut function = mods.iter().find(|m| &*m.0 == "function").unwrap().1.clone();
    function.push((Rc::from("call"), mk(callf)));
    let mut html = mods.iter().find(|m| &*m.0 == "html").unwrap().1.clone();
    html.push((Rc::from("tag_name"), mk(ident("tag_name", Ty::Html, E::Var(name("v::tag_name"))))));
    let mut all: Vec<(Rc<str>, V)> = mods.iter().filter(|m| !matches!(&*m.0, "function" | "html")).map(|(m, d)| (m.clone(), vdict(d.clone()))).collect();
    all.extend(top);
    all.extend(defs);
    all.push((Rc::from("function"), vdict(function)));
    all.push((Rc::from("html"), vdict(html)));
    all.push((Rc::from("inline"), vdict(vec![(Rc::from("from"), mk(ident("from", Ty::Inline, v("v"))))])));
    all.push((Rc::from("block"), vdict(vec![(Rc::from("from"), mk(ident("from", Ty::Block, v("v"))))])));
    Frame::new(None, all)
}
fn func_named(n: &str, c: Option<Param>, body: E) -> std::sync::Arc<FnDef> { std::sync::Arc::new(FnDef {name: Some(n.into()), params: vec![], content: c, body}) }

pub fn parse_int(s: &str) -> Option<i64> {
    let (neg, ds) = match s.as_bytes() { [b'-', r @ ..] => (true, r), [b'+', r @ ..] => (false, r), r => (false, r) };
    if ds.is_empty() { return None; }
    let mut n: i128 = 0;
    for c in ds {
        if !c.is_ascii_digit() { return None; }
        n = (n * 10 + (c - b'0') as i128).min(1 << 80);
    }
    if neg { n = -n; }
    if n >= i64::MIN as i128 && n <= i64::MAX as i128 { Some(n as i64) } else { None }
}
pub fn split(s: &str, sep: &str) -> Vec<V> {
    if sep.is_empty() {
        // a separator of nothing is found before, between and after all characters
        let mut r = vec![vs("")];
        r.extend(s.chars().map(|c| vs(&c.to_string())));
        r.push(vs(""));
        return r;
    }
    let (mut out, mut cur, mut rest) = (vec![], String::new(), s);
    while let Some(c) = rest.chars().next() {
        if let Some(r) = rest.strip_prefix(sep) { out.push(vs(&cur)); cur.clear(); rest = r; } else { cur.push(c); rest = &rest[c.len_utf8()..]; }
    }
    out.push(vs(&cur));
    out
}

pub fn run(i: &In, name: &str, b: &[(Rc<str>, V)]) -> R<V> {
    let g = |n: &str| b.iter().find(|x| &*x.0 == n).map(|x| x.1.clone()).unwrap_or_else(unit);
    let st = |n: &str| -> String { match g(n) { V::Str(s) => s.to_string(), o => panic!("{name}: {n} = {o:?}") } };
    let list = |n: &str| -> Vec<V> { match g(n) { V::List(s) => s.to_vec(), o => panic!("{name}: {n} = {o:?}") } };
    let dict = |n: &str| -> Vec<(Rc<str>, V)> { match g(n) { V::Dict(s) => s.to_vec(), o => panic!("{name}: {n} = {o:?}") } };
    let int = |n: &str| -> i64 { match g(n) { V::Int(s) => s, o => panic!("{name}: {n} = {o:?}") } };
    let bo = |n: &str| -> bool { match g(n) { V::Bool(s) => s, o => panic!("{name}: {n} = {o:?}") } };
    let fun = |n: &str| -> Option<Rc<F>> { match g(n) { V::Func(f) => Some(f), _ => None } };
    let html = |n: &str| -> Vec<N> { to_html(&g(n)) };
    let pred = |f: &F, x: &V| -> R<bool> { match i.callback(f, x, &Ty::Bool)? { V::Bool(b) => Ok(b), _ => err("bool expected") } };
    Ok(match name {
        "bool::and" => V::Bool(bo("_a") && bo("_b")),
        "bool::or" => V::Bool(bo("_a") || bo("_b")),
        "bool::negate" => V::Bool(!bo("param")),
        "bool::from" => V::Bool(match g("param") { V::Bool(b) => b, V::Int(i) => i != 0, V::Str(s) => !s.is_empty(), V::Html(h) => !h.is_empty(), V::List(l) => !l.is_empty(), V::Dict(d) => !d.is_empty(), _ => true }),
        "int::add" => {
            // overflow of any partial sum is an error
            let mut n: i128 = 0;
            for x in list("args") { if let V::Int(x) = x { n += x as i128; } if n > i64::MAX as i128 || n < i64::MIN as i128 { return err("overflow"); } }
            V::Int(n as i64)
        },
        "int::negate" => { let n = int("param"); if n == i64::MIN { return err("overflow"); } V::Int(0 - n) },
        "int::parse" => match parse_int(&st("param")) { Some(n) => V::Int(n), None => return err("not an int") },
        "str::ends_with" => { let (a, b) = (st("_a"), st("_b")); V::Bool(a.len() >= b.len() && a.as_bytes()[a.len() - b.len()..] == *b.as_bytes()) },
        "str::starts_with" => { let (a, b) = (st("_a"), st("_b")); V::Bool(a.len() >= b.len() && a.as_bytes()[..b.len()] == *b.as_bytes()) },
        "str::escape_html" => vs(&crate::html::esc(&st("str"), false)),
        "str::from" => vs(&st("param")),
        "str::is_empty" => V::Bool(st("str") == ""),
        "str::is_whitespace" => V::Bool(ws_only(&st("str"))),
        "str::len" => V::Int(st("str").as_bytes().len() as i64),
        "str::lower" => vs(&st("str").to_lowercase()),
        "str::upper" => vs(&st("str").to_uppercase()),
        "str::trim" => {
            let c: Vec<char> = st("str").chars().collect();
            let a = c.iter().position(|c| !c.is_whitespace()).unwrap_or(c.len());
            let b = c.iter().rposition(|c| !c.is_whitespace()).map_or(a, |k| k + 1);
            vs(&c[a..b].iter().collect::<String>())
        },
        "str::split" => vlist(split(&st("str"), &st("_sep"))),
        "regex::compile" => { let s = st("source"); if crate::rx::parse(&s).is_none() { return err("regex"); } V::Regex(Rc::from(s)) },
        "regex::count" | "regex::find" | "regex::find_all" | "regex::split" | "regex::test" => {
            let V::Regex(r) = g("_regex") else { panic!() };
            crate::rx::run(&r, &name[7..], &st("str"))
        },
        "function::bind" => {
            let f = fun("_function").unwrap();
            let mut bd = Binder::open(&f);
            for a in list("args") { bd.pos(&a)?; }
            for (k, a) in dict("kwargs") { bd.named(&k, &a)?; }
            if !g("param").is_unit() { bd.content(&g("param"))?; }
            V::Func(bd.bound(f)?)
        },
        "function::name" => vs(&fname(&fun("function").unwrap())),
        "html::escape_html" => vs(&rendered(&html("html"))),
        "html::is_empty" => V::Bool(html("html").is_empty()),
        "html::is_whitespace" => V::Bool(is_white(&html("html"))),
        "list::all" => { let f = fun("_function").unwrap(); for x in list("list") { if !pred(&f, &x)? { return Ok(V::Bool(false)); } } V::Bool(true) },
        "list::any" => { let f = fun("_function").unwrap(); for x in list("list") { if pred(&f, &x)? { return Ok(V::Bool(true)); } } V::Bool(false) },
        "list::find" => { let f = fun("_function").unwrap(); for x in list("list") { if pred(&f, &x)? { return Ok(x); } } unit() },
        "list::filter" => {
            let f = fun("_function");
            let mut o = vec![];
            for x in list("list") { if match &f { Some(f) => pred(f, &x)?, None => !x.is_unit() } { o.push(x); } }
            vlist(o)
        },
        "list::map" => { let f = fun("_function").unwrap(); vlist(list("list").iter().map(|x| i.callback(&f, x, &Ty::Any)).collect::<R<_>>()?) },
        "list::contains" => { let p = g("_param"); V::Bool(list("list").iter().any(|x| *x == p)) },
        "list::enumerate" => {
            let from = int("from") as i128;
            let mut o = vec![];
            for (k, x) in list("list").into_iter().enumerate() {
                let n = from + k as i128;
                if n > i64::MAX as i128 { return err("overflow"); }
                o.push(vlist(vec![V::Int(n as i64), x]));
            }
            vlist(o)
        },
        "list::flat" => vlist(list("list").into_iter().flat_map(|x| match x { V::List(l) => l.to_vec(), x => vec![x] }).collect()),
        "list::get" => index(&list("list"), int("_i"))?,
        "list::html_nodes" => vlist(html("html").into_iter().map(|n| html_value(vec![n])).collect()),
        "list::is_empty" => V::Bool(list("list").is_empty()),
        "list::join" => {
            let sep = html("_sep");
            let mut parts = vec![];
            for (k, x) in list("list").iter().enumerate() { if k > 0 { parts.push(sep.clone()); } parts.push(to_html(x)); }
            html_value(join(parts))
        },
        "list::len" => V::Int(list("list").len() as i64),
        "list::slice" => {
            let l = list("list");
            let n = l.len() as i128;
            let at = |k: i64| { let k = k as i128; (if k < 0 { n + k } else { k }).clamp(0, n) as usize };
            let a = at(int("_a"));
            let b = match g("_b") { V::Int(b) => at(b), _ => n as usize };
            vlist(if a < b { l[a..b].to_vec() } else { vec![] })
        },
        "list::sorted" => {
            let f = fun("key");
            let mut keyed = vec![];
            for x in list("list") { let k = match &f { Some(f) => i.callback(f, &x, &Ty::Any)?, None => x.clone() }; keyed.push((k, x)); }
            let ints = keyed.iter().all(|k| matches!(k.0, V::Int(_)));
            if !ints && !keyed.iter().all(|k| matches!(k.0, V::Str(_))) { return err("sort key"); }
            let less = |a: &V, b: &V| match (a, b) { (V::Int(a), V::Int(b)) => a < b, (V::Str(a), V::Str(b)) => a < b, _ => false };
            // insertion sort; equal keys keep their order in both directions
            let mut o: Vec<(V, V)> = vec![];
            let rev = bo("reversed");
            for e in keyed {
                let at = o.iter().position(|x| if rev { less(&x.0, &e.0) } else { less(&e.0, &x.0) }).unwrap_or(o.len());
                o.insert(at, e);
            }
            vlist(o.into_iter().map(|e| e.1).collect())
        },
        "list::reversed" => vlist(list("list").into_iter().rev().collect()),
        "dict::get" => match dict("dict").iter().find(|e| *e.0 == *st("_key")) { Some(e) => e.1.clone(), None => return err("no such key") },
        "dict::is_empty" => V::Bool(dict("dict").is_empty()),
        "dict::items" => vlist(dict("dict").iter().map(|(k, x)| vlist(vec![vs(k), x.clone()])).collect()),
        "dict::keys" => vlist(dict("dict").iter().map(|(k, _)| vs(k)).collect()),
        "dict::values" => vlist(dict("dict").iter().map(|(_, x)| x.clone()).collect()),
        "dict::len" => V::Int(dict("dict").len() as i64),
        "dict::new" => vdict(dict("kwargs")),
        "raise" => return err("raised"),
        "import" => i.import(&st("path"), false)?,
        "include" => i.import(&st("path"), true)?,
        // which IDs are given out is not the point where modules are modelled
        "str::unique_id" if i.loader.is_some() => vs(&format!("id_{}", i.loader.as_ref().unwrap().next_id())),
        "file::list" | "file::read" | "file::write" | "net::fetch_raw" | "net::fetch_html" => return err("not allowed"),
        // not in the model
        _ => return err(OUT_OF_FUEL),
    })
}
