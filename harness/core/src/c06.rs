//! C06: types accept exactly their values; coercion is sound.
use crate::ast::*;
use crate::engine::*;
use crate::prog::*;

fn leaf(n: &str, c: Vec<A>) -> A { A::E(tag(n, vec![], c)) }

pub fn values0() -> Vec<E> {
    vec![
        E::Unit, E::Bool(true), E::Bool(false), E::Int(0), E::Int(7), E::Int(-3), E::Bare("w".into()), s(""), s("a"), s("5"), s(" "),
        v("fu"), v("list::len"), v("bf"), func(vec![], None, E::Int(1)), v("rx"),
        tag("b", vec![], vec![t("i")]), tag("p", vec![], vec![t("o")]), tag("br", vec![], vec![]), tag("hr", vec![], vec![]), tag("a", vec![], vec![t("k")]), v("abl"), tag("li", vec![], vec![]), tag("td", vec![], vec![]),
        group(vec![]), group(vec![t("g")]), group(vec![t("g"), leaf("b", vec![t("h")])]), group(vec![t("g"), A::Para, t("h")]), group(vec![leaf("p", vec![]), leaf("b", vec![t("h")])]), v("mixed"),
        list(vec![]), dict(vec![]), E::Tmpl(vec![Tp::Lit("x".into()), Tp::Var(name("n"))]),
    ]
}
/// values with components
pub fn values1(sel: &[E]) -> Vec<E> {
    let mut out = vec![];
    for a in sel { out.push(list(vec![a.clone()])); out.push(dict(vec![("k", a.clone())])); }
    for a in sel { for b in sel { out.push(list(vec![a.clone(), b.clone()])); } }
    for a in sel.iter().step_by(2) { for b in sel.iter().step_by(3) { out.push(dict(vec![("k", a.clone()), ("j", b.clone())])); } }
    out
}
pub fn values2() -> Vec<E> {
    let sel: Vec<E> = vec![E::Unit, E::Bool(true), E::Int(7), s("a"), v("fu"), tag("b", vec![], vec![t("i")]), tag("p", vec![], vec![t("o")])];
    let mut inner: Vec<E> = vec![list(vec![]), dict(vec![])];
    for a in &sel { inner.push(list(vec![a.clone()])); inner.push(dict(vec![("k", a.clone())])); }
    let mut out = vec![];
    for a in &inner { out.push(list(vec![a.clone()])); out.push(dict(vec![("k", a.clone())])); }
    for a in &inner { for b in inner.iter().chain(&[E::Unit, E::Int(1), tag("b", vec![], vec![t("i")])]) { out.push(list(vec![a.clone(), b.clone()])); } }
    out
}
fn atoms() -> Vec<Ty> { vec![Ty::Unit, Ty::Any, Ty::Html, Ty::Block, Ty::Inline, Ty::Bool, Ty::Int, Ty::Str, Ty::Func, Ty::Regex] }
pub fn types(depth: usize) -> Vec<Ty> {
    let mut all = atoms();
    let mut last = all.clone();
    for _ in 0..depth {
        let mut next = vec![];
        for t in last {
            // `T?` of a type which already has the unit value is an error (warning) in some positions; as in the documentation use it for the others
            if !t.unit_ok() && !matches!(t, Ty::Opt(_)) { next.push(Ty::Opt(Box::new(t.clone()))); }
            next.push(t.clone().list());
            next.push(t.dict());
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
fn prelude() -> Vec<A> {
    vec![
        def("fu", vec![], content("c"), v("c")),
        def("rxd", vec![], None, call("regex::compile", vec![], s("a+"))),
        def("id", vec![], content("c"), v("c")),
    ]
}
fn vars() -> Vec<(String, E)> {
    vec![
        ("rx".into(), call("rxd", vec![], E::Unit)),
        ("bf".into(), call("function::bind", vec![Arg::Pos(v("list::join")), Arg::Pos(s(","))], E::Unit)),
        ("abl".into(), tag("a", vec![], vec![leaf("div", vec![t("x")])])),
        ("mixed".into(), call("list::join", vec![], list(vec![s("t"), tag("p", vec![], vec![t("o")])]))),
        ("n".into(), E::Int(4)),
    ]
}
fn doc(body: Vec<A>) -> Vec<A> {
    let mut d = prelude();
    d.push(A::E(E::Let(false, vars(), Box::new(group(body)))));
    d
}
/// shows a value and its type
fn show(x: &str) -> Vec<A> { vec![leaf("i", vec![A::E(call("typeof", vec![], v(x)))]), A::E(let1("l", list(vec![v(x)]), v("l")))] }
fn showf(x: &str) -> E { group(show(x)) }

/// the ways in which a value meets a type
const ROUTES: u64 = 17;
fn route(k: u64, e: &E, ty: &Ty) -> Vec<A> {
    let tv = || v("val");
    let f = |p: Vec<Param>, c: Option<Param>| func(p, c, showf("x"));
    let with = |fe: E, c: E| vec![A::E(let1("f", fe, c))];
    let ct = Param::new("x", PK::Named).ty(ty.clone());
    match k {
        // type patterns
        0 => vec![A::E(let1("val", e.clone(), E::Match(Box::new(tv()), vec![(Pat::Typed(ty.clone()), s("yes")), (Pat::Ignore, s("no"))])))],
        1 => vec![A::E(E::Match(Box::new(e.clone()), vec![(Pat::And(Box::new(Pat::Typed(ty.clone())), Box::new(Pat::Var("x".into()))), showf("x")), (Pat::Ignore, s("no"))]))],
        // parameters; from a variable and as written
        2 => with(f(vec![], Some(ct)), let1("val", e.clone(), call("f", vec![], tv()))),
        3 => with(f(vec![], Some(ct)), call("f", vec![], e.clone())),
        4 => with(f(vec![Param::new("_x", PK::Pos).ty(ty.clone())], None).pos_x(), call("f", vec![Arg::Pos(e.clone())], E::Unit)),
        5 => with(f(vec![ct], None), call("f", vec![Arg::Named("x".into(), e.clone())], E::Unit)),
        6 => with(f(vec![ct.def(e.clone())], None), call("f", vec![], E::Unit)),
        7 => with(f(vec![ct.opt()], None), call("f", vec![Arg::Named("x".into(), e.clone())], E::Unit)),
        // spread arguments
        8 => with(f(vec![Param::new("_x", PK::Spread).ty(ty.clone().list())], None).pos_x(), let1("val", e.clone(), call("f", vec![Arg::Pos(tv()), Arg::Pos(e.clone())], E::Unit))),
        9 => with(f(vec![Param::new("x", PK::NSpread).ty(ty.clone().dict())], None), call("f", vec![Arg::Named("a".into(), e.clone())], E::Unit)),
        10 => with(f(vec![], Some(ct)), call("f", vec![], call("id", vec![], e.clone()))),
        11 => with(f(vec![], Some(ct)), call("list::map", vec![Arg::Pos(v("f"))], list(vec![e.clone()]))),
        // bound in advance
        12 => with(f(vec![], Some(ct)), let1("g", call("function::bind", vec![Arg::Pos(v("f"))], e.clone()), call("g", vec![], E::Unit))),
        // from the scope of the call
        13 => with(f(vec![ct.imp()], None), E::Let(true, vec![("x".into(), e.clone())], Box::new(call("f", vec![], E::Unit)))),
        14 => with(f(vec![ct.imp().opt()], None), E::Let(true, vec![("x".into(), e.clone())], Box::new(call("f", vec![], E::Unit)))),
        15 => with(f(vec![ct.imp()], None), E::Let(true, vec![("x".into(), e.clone())], Box::new(call("list::map", vec![Arg::Pos(func(vec![], content("_y"), call("f", vec![], E::Unit)))], list(vec![s("1")]))))),
        _ if matches!(e, E::Group(g) if g.is_empty()) || matches!(e, E::Unit | E::Bool(_) | E::Int(_) | E::Bare(_) | E::Str(_) | E::Tmpl(_)) => with(f(vec![], Some(ct)), call("f", vec![], let1("q", e.clone(), v("q")))),
        _ => with(f(vec![], Some(ct)), call("f", vec![], E::Let(false, vec![("q".into(), E::Int(1))], Box::new(e.clone())))),
    }
}
trait PosX { fn pos_x(self) -> E; }
impl PosX for E {
    /// a parameter `_x` instead of `x`
    fn pos_x(self) -> E { let E::Fn(d) = self else { unreachable!() }; func(d.params.clone(), None, let1("x", v("_x"), d.body.clone())) }
}

fn x_of(l: &[E], k: usize) -> E { l[(k * 7 + 1) % l.len()].clone() }

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every value x every type x every way in which they meet, compared with the reference subtyping and coercion relation; types of all pairs");
    let v0 = values0();
    let sel: Vec<E> = v0.iter().enumerate().filter(|(i, _)| !matches!(i, 2 | 3 | 6 | 10 | 14 | 18 | 19 | 22 | 23 | 24 | 25 | 28)).map(|x| x.1.clone()).collect();
    let v1 = values1(&sel);
    let v2 = values2();
    let t2 = types(2);
    let t1 = types(1);
    let t3 = types(3);
    let rounds: Vec<(Vec<E>, Vec<Ty>, Vec<u64>)> = if cfg.quick() {
        vec![(v0.clone(), t2.clone(), (0..ROUTES).collect()), (v1.clone(), t1, vec![0, 2, 3, 8]), (v1.clone(), t2[10 + 20 + 7..].to_vec(), vec![0, 2]), (v2.clone(), t2, vec![0, 2])]
    } else {
        vec![(v0.clone(), t3.clone(), (0..ROUTES).collect()), (v1.clone(), t2.clone(), (0..ROUTES).collect()), (v2.clone(), t2, (0..ROUTES).collect()), (v2.clone(), t3, vec![0, 1, 2])]
    };
    for (vals, tys, routes) in &rounds {
        let b = [vals.len() as u64, tys.len() as u64, routes.len() as u64];
        rep.absorb(explore(cfg, b.iter().product(), |w, i| {
            let d = digits(i, &b);
            check(w, &doc(route(routes[d[2]], &vals[d[0]], &tys[d[1]])));
        }));
    }
    // what a function of the library gives, of each type
    let given: Vec<E> = vec![
        call("str::is_empty", vec![], s("a")), call("bool::negate", vec![], E::Bool(false)), call("str::len", vec![], s("ab")), call("int::add", vec![Arg::Pos(E::Int(1)), Arg::Pos(E::Int(2))], E::Unit),
        call("str::upper", vec![], s("ab")), call("str::trim", vec![], s(" ")), call("list::find", vec![Arg::Pos(func(vec![], content("c"), E::Bool(false)))], list(vec![E::Int(1)])), call("list::get", vec![Arg::Pos(E::Int(0))], list(vec![E::Int(4)])),
        call("list::get", vec![Arg::Pos(E::Int(0))], list(vec![E::Bool(true)])), call("list::map", vec![Arg::Pos(v("fu"))], list(vec![E::Int(1), E::Bool(true)])), call("list::slice", vec![Arg::Pos(E::Int(1))], list(vec![s("a"), E::Unit])),
        call("list::join", vec![], list(vec![s("a"), tag("b", vec![], vec![])])), call("list::join", vec![], list(vec![tag("p", vec![], vec![])])), call("list::join", vec![], list(vec![])), call("html::parse", vec![], s("<i>x</i>")), call("html::parse", vec![], s("<p>x</p>y")), call("html::parse", vec![], s("z")),
        call("dict::new", vec![Arg::Named("k".into(), E::Int(1))], E::Unit), call("dict::get", vec![Arg::Pos(s("k"))], dict(vec![("k", E::Bool(false))])), call("dict::keys", vec![], dict(vec![("k", E::Unit)])), call("dict::values", vec![], dict(vec![("k", E::Int(3))])),
        call("function::bind", vec![Arg::Pos(v("fu"))], E::Unit), call("regex::compile", vec![], s("a")), call("bool::from", vec![], s("")), call("str::from", vec![], E::Int(3)), call("typeof", vec![], E::Int(3)), call("list::contains", vec![Arg::Pos(E::Int(1))], list(vec![E::Int(1)])),
        call("list::html_nodes", vec![], tag("b", vec![], vec![])), call("list::enumerate", vec![], list(vec![s("x")])), call("regex::find", vec![Arg::Pos(v("rx"))], s("ba")), call("regex::count", vec![Arg::Pos(v("rx"))], s("ba")), call("id", vec![], E::Bool(true)), call("fu", vec![], E::Int(6)),
    ];
    let (ng, tys) = (given.len() as u64, types(cfg.q(2, 3)));
    rep.absorb(explore(cfg, ng * tys.len() as u64 * ROUTES, |w, i| {
        let d = digits(i, &[ng, ROUTES, tys.len() as u64]);
        check(w, &doc(route(d[1] as u64, &given[d[0]], &tys[d[2]])));
    }));
    // lists of three and four, where the position of what does not belong differs
    let ends: Vec<E> = vec![E::Int(1), s("a"), E::Unit, E::Bool(true), tag("b", vec![], vec![t("i")]), tag("p", vec![], vec![t("o")]), v("fu"), list(vec![E::Int(1)]), list(vec![]), list(vec![s("q"), E::Int(2)])];
    let (k, hi) = (ends.len() as u64, cfg.q(3, 4));
    let tys: Vec<Ty> = types(2).into_iter().filter(|t| matches!(t, Ty::List(_))).chain([Ty::Html, Ty::Inline, Ty::Block, Ty::Str]).collect();
    let per = num_seqs(k, 3, hi);
    rep.absorb(explore(cfg, per * tys.len() as u64, |w, i| {
        let e = list(nth_seq(i % per, k, 3, hi).into_iter().map(|d| ends[d].clone()).collect());
        check(w, &doc(route([2, 0, 4, 1, 7][(i % per % 5) as usize], &e, &tys[(i / per) as usize])));
    }));
    // lists of dicts and lists, which are mixed or not, inside of each other
    let parts = |e: Vec<E>| vec![list(e.clone()), dict(e.into_iter().zip(["a", "b", "c"]).map(|(e, k)| (k, e)).collect())];
    let mut inner: Vec<E> = vec![];
    for e in [vec![], vec![E::Int(1)], vec![s("x")], vec![E::Unit], vec![E::Int(1), s("x")], vec![E::Int(1), E::Int(2)], vec![E::Int(1), E::Unit], vec![tag("b", vec![], vec![])], vec![tag("b", vec![], vec![]), tag("p", vec![], vec![])], vec![E::Unit, s("x"), E::Int(1)], vec![v("fu")]] { inner.extend(parts(e)); }
    for k in 0..inner.len().min(12) { inner.extend(parts(vec![inner[k].clone()])); if k % 2 == 0 { inner.extend(parts(vec![inner[k].clone(), E::Int(1)])); inner.extend(parts(vec![inner[k].clone(), inner[(k + 3) % 12].clone()])); } }
    let ni = inner.len() as u64;
    rep.absorb(explore(cfg, ni * ni * cfg.q(4, ni), |w, i| {
        let d = digits(i, &[ni, ni, cfg.q(4, ni)]);
        let (x, y, z) = (inner[d[0]].clone(), inner[d[1]].clone(), if cfg.quick() { [None, Some(list(vec![])), Some(inner[(d[0] * 5 + d[1] * 3) % ni as usize].clone()), Some(x_of(&inner, d[0]))][d[2]].clone() } else { Some(inner[d[2]].clone()) });
        let mut l = vec![x, y];
        l.extend(z);
        check(w, &doc(vec![A::E(call("typeof", vec![], list(l.clone()))), A::E(call("typeof", vec![], dict(l.into_iter().zip(["a", "b", "c"]).map(|(e, k)| (k, e)).collect())))]));
    }));
    // long lists and dicts: all items of one kind, but for one at any position
    let lens: &[usize] = if cfg.quick() { &[6, 8, 9, 10, 16, 17, 18, 33, 65, 66, 129, 257] } else { &[5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 100, 128, 129, 130, 257] };
    let tys: Vec<Ty> = [Ty::Any, Ty::Html, Ty::Block, Ty::Inline, Ty::Bool, Ty::Int, Ty::Str, Ty::Func, Ty::Unit, Ty::Opt(Box::new(Ty::Int)), Ty::Opt(Box::new(Ty::Inline)), Ty::Int.list(), Ty::Any.list()].into_iter().collect();
    let at: Vec<(usize, usize)> = lens.iter().flat_map(|n| { let n = *n; (0..n).filter(move |p| n < 20 || *p < 3 || p + 3 > n || matches!(p % 16, 0 | 8 | 15)).map(move |p| (n, p)) }).collect();
    let step = cfg.q(2, 1);
    let b = [k, k, at.len() as u64, tys.len() as u64 * 2 * 4 / step];
    rep.absorb(explore(cfg, b.iter().product(), |w, i| {
        let d = digits(i, &b);
        let ((n, p), x) = (at[d[2]], d[3] * step as usize + if cfg.quick() { (d[0] + d[1] + d[2]) % 2 } else { 0 });
        let (ty, x) = (&tys[x % tys.len()], x / tys.len());
        let kinds = |j: usize| if j == p { ends[d[1]].clone() } else { ends[d[0]].clone() };
        // (of a dict, fewer)
        if cfg.quick() && (d[0] + d[1] * 3 + d[2] * 7 + d[3]) % 9 > 0 { return; }
        let (e, ty) = if x % 2 == 0 { (list((0..n).map(kinds).collect()), ty.clone().list()) } else {
            (call("dict::new", (0..n).map(|j| Arg::Named(format!("k{j}"), kinds(j))).collect(), E::Unit), ty.clone().dict())
        };
        check(w, &doc(match x / 2 { 0 => route(0, &e, &ty), 1 => route(2, &e, &ty), 2 => route(8, &e, &ty), _ => vec![A::E(let1("x", e, group(vec![A::E(call("typeof", vec![], v("x")))])))] }));
    }));
    // the types of values, of all pairs in a list, and conversion to html and str in templates and attributes
    let all: Vec<E> = v0.iter().chain(&v1).chain(&v2).chain(&given).cloned().collect();
    let n = all.len() as u64;
    rep.absorb(explore(cfg, n * 6, |w, i| {
        let e = &all[(i / 6) as usize];
        check(w, &doc(match i % 6 {
            0 => vec![A::E(let1("x", e.clone(), group(show("x"))))],
            1 => vec![A::E(let1("x", e.clone(), E::Tmpl(vec![Tp::Lit("<".into()), Tp::Var(name("x")), Tp::Lit(">".into())])))],
            2 => vec![A::E(tag("q", vec![At::Attr("a".into(), Some(e.clone()))], vec![]))],
            3 => vec![A::E(tag("q", vec![At::Opt("a".into(), e.clone())], vec![]))],
            4 => vec![A::E(let1("x", e.clone(), tag("q", vec![At::Spread(v("x"))], vec![])))],
            _ => vec![A::E(let1("x", e.clone(), group(vec![t("s"), A::E(v("x")), leaf("b", vec![A::E(v("x"))])])))],
        }));
    }));
    // the implicit parameter of a function of the library: an error if and only if the value is not wanted by its type
    rep.absorb(explore(cfg, n, |w, i| {
        let e = &all[i as usize];
        let with = |c: E| doc(vec![A::E(E::Let(true, vec![("language".into(), e.clone())], Box::new(c)))]);
        let p = Param::new("language", PK::Named).ty(Ty::Str).opt().imp();
        let Ok(want) = crate::sem::expect(&with(let1("f", func(vec![p.clone()], None, tag("b", vec![], vec![])), call("f", vec![], E::Unit)))) else { return };
        for name in ["code", "code_block"] {
            let src = print(&with(call(name, vec![], s("x"))));
            let out = w.compile(&src);
            w.stats.transitions += 1;
            w.stats.state(out.ok_html().unwrap_or("an error"));
            if out.panic.is_some() || (out.num_errors > 0) != want.is_none() {
                w.stats.violation(&src, format!("source:\n{src}\n\nexpected: {}\ncompiler: {}", if want.is_none() { "an error" } else { "no error" }, out.describe()));
            }
        }
    }));
    let m = v1.len().min(cfg.q(150, 1000)) as u64;
    let step = v1.len() / m as usize;
    rep.absorb(explore(cfg, m * m, |w, i| {
        let (a, b) = (&v1[(i / m) as usize * step], &v1[(i % m) as usize * step]);
        check(w, &doc(vec![A::E(call("typeof", vec![], list(vec![a.clone(), b.clone()])))]));
    }));
    rep.extra.insert("values".into(), n.to_string());
    rep.extra.insert("types".into(), types(cfg.q(2, 3)).len().to_string());
    rep
}
