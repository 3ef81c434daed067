//! C08: names resolve lexically, implicits dynamically, closures keep their scope.
use crate::ast::*;
use crate::engine::*;
use crate::prog::*;

/// a numbered literal, so that every binding has a value of its own
struct Cx { n: u32 }
impl Cx { fn lit(&mut self) -> E { self.n += 1; group(vec![t(&format!("L{}", self.n))]) } }

type Build = fn(&mut Cx, Vec<E>) -> E;
fn g(e: E) -> E { group(vec![A::E(e)]) }
fn fdef(n: &str, p: Vec<Param>, c: Option<Param>, mut a: Vec<E>) -> E {
    let rest = a.pop().unwrap();
    group(vec![def(n, p, c, a.pop().unwrap()), A::E(rest)])
}
fn lets(imp: bool, n: &str, mut a: Vec<E>) -> E { let b = a.pop().unwrap(); E::Let(imp, vec![(n.into(), a.pop().unwrap())], Box::new(g(b))) }
fn two(mut a: Vec<E>) -> (E, E) { let b = a.pop().unwrap(); (a.pop().unwrap(), b) }

/// (number of parts, how to build); the first few are enough for small programs
fn productions() -> Vec<(usize, Build)> {
    vec![
        (0, |c, _| c.lit()),
        (0, |_, _| v("x")),
        (0, |_, _| v("y")),
        (0, |_, _| v("f")),
        (0, |_, _| call("f", vec![], E::Unit)),
        (0, |_, _| call("x", vec![], E::Unit)),
        // functions
        (1, |_, mut a| func(vec![], None, a.pop().unwrap())),
        (1, |_, mut a| func(vec![], content("x"), a.pop().unwrap())),
        (1, |_, mut a| call("f", vec![], a.pop().unwrap())),
        (1, |_, mut a| call("f", vec![Arg::Named("x".into(), a.pop().unwrap())], E::Unit)),
        (2, |_, a| fdef("f", vec![], None, a)),
        (2, |_, a| fdef("f", vec![], content("x"), a)),
        (2, |_, a| fdef("f", vec![Param::new("x", PK::Named).imp()], None, a)),
        (2, |_, mut a| { let (x, b) = (a.remove(0), a.pop().unwrap()); fdef("f", vec![Param::new("x", PK::Named).def(x)], None, vec![group(vec![t("D"), A::E(v("x")), A::E(v("y"))]), b]) }),
        // bindings
        (2, |_, a| lets(false, "x", a)),
        (2, |_, a| lets(false, "y", a)),
        (2, |_, a| lets(false, "f", a)),
        (2, |_, a| lets(true, "x", a)),
        (2, |c, a| { let (x, b) = two(a); let l = c.lit(); E::Let(false, vec![("x".into(), x), ("y".into(), v("x")), ("z".into(), l)], Box::new(g(b))) }),
        (2, |_, a| { let (x, b) = two(a); E::Match(Box::new(x), vec![(Pat::Var("x".into()), b)]) }),
        (2, |_, a| { let (x, b) = two(a); E::Match(Box::new(list(vec![x, v("y")])), vec![
            // the first branch binds and then fails
            (Pat::List(vec![Pat::Var("x".into()), Pat::Eq(group(vec![t("no")]))], None), s("bad")),
            (Pat::List(vec![Pat::Ignore, Pat::Var("y".into())], None), b),
        ]) }),
        (2, |_, a| { let (x, b) = two(a); group(vec![A::E(x), A::E(b)]) }),
    ]
}

struct Gram { p: Vec<(usize, Build)>, counts: Vec<u64> }
impl Gram {
    fn new(max: usize) -> Gram {
        let mut g = Gram {p: productions(), counts: vec![0]};
        for n in 1..=max { let c = g.p.iter().map(|p| g.ways(p.0, n)).sum(); g.counts.push(c); }
        g
    }
    fn ways(&self, arity: usize, n: usize) -> u64 {
        match arity {
            0 => (n == 1) as u64,
            1 => if n >= 2 { self.counts[n - 1] } else { 0 },
            _ => (1..n.saturating_sub(1)).map(|a| self.counts[a] * self.counts[n - 1 - a]).sum(),
        }
    }
    fn nth(&self, n: usize, mut i: u64, cx: &mut Cx) -> E {
        for (arity, b) in &self.p {
            let w = self.ways(*arity, n);
            if i >= w { i -= w; continue; }
            let parts = match arity {
                0 => vec![],
                1 => vec![self.nth(n - 1, i, cx)],
                _ => {
                    let mut r = None;
                    for a in 1..n - 1 {
                        let (ca, cb) = (self.counts[a], self.counts[n - 1 - a]);
                        if i < ca * cb { let x = self.nth(a, i / cb, cx); let y = self.nth(n - 1 - a, i % cb, cx); r = Some(vec![x, y]); break; }
                        i -= ca * cb;
                    }
                    r.unwrap()
                },
            };
            return b(cx, parts);
        }
        unreachable!()
    }
}

/// the scope in which the program stands
fn wrap(k: u64, e: E) -> Vec<A> {
    let fxy = || group(vec![t("F"), A::E(v("x")), A::E(v("y"))]);
    match k {
        0 => vec![A::E(e)],
        1 => vec![def("x", vec![], None, s("X1")), A::E(E::Let(false, vec![("x".into(), s("X2")), ("y".into(), s("Y2"))], Box::new(group(vec![def("f", vec![], None, fxy()), A::E(e)])))), A::Sp, A::E(call("x", vec![], E::Unit))],
        2 => vec![def("f", vec![Param::new("x", PK::Named).imp(), Param::new("y", PK::Named).opt()], None, fxy()), A::E(E::Let(true, vec![("x".into(), s("X1"))], Box::new(E::Let(false, vec![("y".into(), s("Y1"))], Box::new(g(e))))))],
        // the same names after the program
        _ => vec![A::E(tag("div", vec![], vec![def("f", vec![], content("x"), group(vec![t("G"), A::E(v("x"))])), A::E(E::Match(Box::new(list(vec![s("X1"), s("Y1")])), vec![(Pat::List(vec![Pat::Var("x".into()), Pat::Var("y".into())], None), e)])), A::Sp, A::E(call("f", vec![], s("end")))]))],
    }
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every program up to a size over bindings, implicits, functions, closures, calls, branches and groups with few names, in every surrounding scope, compared with the reference interpreter; written with braces and with ...");
    let max = cfg.q(6, 7);
    let gram = Gram::new(max);
    for n in 1..=max {
        let total = gram.counts[n];
        rep.extra.insert(format!("programs of size {n}"), total.to_string());
        // the largest size in two of the scopes only
        let ks: &[u64] = if n == max { &[1, 2] } else { &[0, 1, 2, 3] };
        rep.absorb(explore(cfg, total * ks.len() as u64, |w, i| {
            let e = gram.nth(n, i / ks.len() as u64, &mut Cx {n: 0});
            let d = wrap(ks[(i % ks.len() as u64) as usize], e);
            if n < 5 { check2(w, &d); } else { check(w, &d); }
        }));
    }
    deep(cfg, &mut rep);
    callbacks(cfg, &mut rep);
    exports(cfg, &mut rep);
    rep
}

/// One level of a deep program: what it does to the scope around the program.
fn level(k: usize, j: usize, e: E) -> E {
    let n = |c: &str| s(&format!("{c}{j}"));
    let x = || A::E(v("x"));
    match k {
        0 => let1("x", n("L"), e),
        1 => E::Let(true, vec![("y".into(), n("I"))], Box::new(e)),
        2 => group(vec![def("f", vec![], content("x"), group(vec![t("("), x(), t(")")])), A::E(call("f", vec![], n("C"))), A::E(e)]),
        3 => group(vec![def("f", vec![Param::new("y", PK::Named).imp().opt()], None, group(vec![x(), A::E(v("y"))])), A::E(e)]),
        4 => E::Match(Box::new(list(vec![n("M"), E::Int(1)])), vec![(Pat::List(vec![Pat::Var("x".into()), Pat::Eq(E::Int(2))], None), E::Unit), (Pat::List(vec![Pat::Var("x".into()), Pat::Ignore], None), e)]),
        5 => call("list::map", vec![Arg::Pos(func(vec![], content("x"), e))], list(vec![n("A"), n("B")])),
        6 => let1("f", func(vec![], None, e), group(vec![A::E(let1("x", n("D"), call("f", vec![], E::Unit)))])),
        7 => group(vec![x(), A::E(let1("x", n("S"), group(vec![x()]))), A::E(e), x()]),
        8 => let1("x", group(vec![t("q"), x(), t("q")]), e),
        9 => E::Let(true, vec![("x".into(), n("J"))], Box::new(e)),
        // a function of the name of an implicit, in the same scope
        k => group(vec![def(if k == 10 { "y" } else { "x" }, vec![], None, n("Y")), A::E(e)]),
    }
}
const LEVELS: u64 = 12;
/// Programs whose scopes are nested deeply.
fn deep(cfg: &Cfg, rep: &mut Report) {
    let lens: &[usize] = if cfg.quick() { &[4, 5, 7, 9, 12] } else { &[4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24] };
    let period = 4;
    rep.absorb(explore(cfg, num_periodic(LEVELS, period, lens) * 2, |w, i| {
        let q = nth_periodic(i / 2, LEVELS, period, lens);
        // calls for each item of a list multiply
        if q.iter().filter(|k| **k == 5).count() > 6 { return; }
        let mut e = group(vec![A::E(v("x")), A::E(call("f", vec![], E::Unit))]);
        for (j, k) in q.iter().enumerate() { e = level(*k, j, e); }
        check(w, &wrap(1 + i % 2, e));
    }));
}
/// A function with implicit parameters, called by a function of the library or by another.
fn callbacks(cfg: &Cfg, rep: &mut Report) {
    let imp = || Param::new("x", PK::Named).imp();
    let bs = [4, 3, 10, 9, 3];
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| {
        let d = digits(i, &bs);
        let params = match d[0] { 0 => vec![imp().opt()], 1 => vec![imp()], 2 => vec![imp().ty(Ty::Str).opt()], _ => vec![Param::new("y", PK::Named).def(s("Y0")), imp().opt(), Param::new("z", PK::Named).imp().opt()] };
        let is = |x: E, k: &str| E::Match(Box::new(x), vec![(Pat::Eq(s(k)), E::Bool(true)), (Pat::Ignore, E::Bool(false))]);
        let show = if d[0] == 3 { group(vec![t("D"), A::E(v("x")), A::E(v("y")), A::E(v("z")), A::E(v("c"))]) } else { group(vec![t("D"), A::E(v("x")), A::E(v("c"))]) };
        // what the function gives depends on the implicit one
        let body = match d[2] { 1..=4 => is(v("x"), "I"), 5 => E::Match(Box::new(v("x")), vec![(Pat::Eq(s("I")), s("k")), (Pat::Ignore, v("c"))]), _ => show };
        let df = def("f", params, content("c"), body);
        let fv = |bound: bool| if bound { call("function::bind", vec![Arg::Pos(v("f")), Arg::Named("x".into(), s("I"))], E::Unit) } else { v("f") };
        let l = || list(vec![s("b"), s("a")]);
        let bound = d[4] == 1;
        let with = |n: &str| call(n, vec![Arg::Pos(fv(bound))], l());
        let shown = |e: E| call("typeof", vec![], e);
        let use_ = match d[2] {
            0 => with("list::map"),
            1 => with("list::filter"),
            2 => let1("q", with("list::any"), E::Tmpl(vec![Tp::Var(name("q"))])),
            3 => let1("q", with("list::all"), E::Tmpl(vec![Tp::Var(name("q"))])),
            4 => shown(with("list::find")),
            5 => call("list::sorted", vec![Arg::Named("key".into(), fv(bound))], l()),
            6 => call("function::call", vec![Arg::Pos(fv(bound))], s("b")),
            7 => let1("g", fv(bound), call("g", vec![], s("b"))),
            8 => call("list::map", vec![Arg::Pos(func(vec![], content("c"), let1("g", fv(bound), call("g", vec![], v("c")))))], l()),
            _ => let1("g", call("function::bind", vec![Arg::Pos(fv(bound))], s("b")), call("g", vec![], E::Unit)),
        };
        let use_ = if d[4] == 2 { group(vec![def("h", vec![], None, use_), A::E(call("h", vec![], E::Unit))]) } else { use_ };
        let bind = |imp: bool, n: &str, b: Vec<A>| A::E(E::Let(imp, vec![(n.into(), s("I"))], Box::new(group(b))));
        let us = A::E(use_);
        let body = match d[3] {
            0 => vec![df, us],
            1 => vec![df, bind(true, "x", vec![us])],
            2 => vec![bind(true, "x", vec![df, us])],
            3 => vec![df, bind(false, "x", vec![us])],
            4 => vec![bind(false, "x", vec![df, us])],
            5 => vec![df, bind(true, "z", vec![us])],
            6 => vec![df, def("k", vec![], None, group(vec![us])), bind(true, "x", vec![A::E(call("k", vec![], E::Unit))])],
            7 => vec![df, bind(true, "x", vec![bind(false, "x", vec![us])])],
            _ => vec![df, bind(false, "x", vec![bind(true, "x", vec![us])])],
        };
        let doc = match d[1] { 0 => body, 1 => vec![A::E(tag("div", vec![], body))], _ => vec![def("m", vec![], None, group(body)), A::E(E::Let(true, vec![("x".into(), s("O"))], Box::new(call("m", vec![], E::Unit))))] };
        check(w, &doc);
    }));
}
/// Places where an export can stand, alone or within each other.
fn place(k: usize, d: Vec<A>) -> Vec<A> {
    let q = || group(d.clone());
    match k {
        0 => d.clone(),
        1 => vec![A::E(q())],
        2 => vec![A::E(let1("x", s("X2"), q()))],
        3 => vec![A::E(E::Let(true, vec![("x".into(), s("X3"))], Box::new(q())))],
        4 => vec![A::E(E::Match(Box::new(s("X4")), vec![(Pat::Var("x".into()), q())]))],
        5 => vec![def("h", vec![], None, q()), A::E(call("h", vec![], E::Unit))],
        6 => vec![def("h", vec![], None, q())],
        7 => vec![def("h", vec![], content("x"), q()), A::E(call("h", vec![], s("X7"))), A::E(call("h", vec![], s("X8")))],
        8 => vec![A::E(tag("div", vec![], d.clone()))],
        9 => vec![A::E(call("list::map", vec![Arg::Pos(func(vec![Param::new("_x", PK::Pos)], None, q()))], list(vec![E::Int(1)])))],
        10 => vec![A::ExportNames(vec![("u".into(), q())])],
        11 => vec![A::E(E::Match(Box::new(E::Int(1)), vec![(Pat::Eq(E::Int(2)), q()), (Pat::Ignore, E::Unit)]))],
        _ => vec![def("h", vec![Param::new("k", PK::Named).def(q())], None, v("k")), A::E(call("h", vec![], E::Unit))],
    }
}
const PLACES: u64 = 13;
/// What is exported.
fn export(k: usize) -> Vec<A> {
    let f = |n: &str, body: E| std::sync::Arc::new(FnDef {name: Some(n.into()), params: vec![], content: None, body});
    match k {
        0 => vec![A::ExportNames(vec![("v".into(), s("V")), ("w".into(), s("W"))])],
        1 => vec![A::ExportNames(vec![("v".into(), v("x"))])],
        2 => vec![A::ExportDef(f("v", group(vec![t("F"), A::E(v("x"))])))],
        3 => vec![A::ExportLet(vec![("v".into(), s("V")), ("w".into(), v("v"))], E::Unit)],
        4 => vec![A::ExportLet(vec![("x".into(), s("V"))], group(vec![A::E(v("x")), A::ExportNames(vec![("v".into(), v("x"))])]))],
        // the name exported is visible, or not, where it stands
        5 => vec![A::ExportNames(vec![("v".into(), s("V"))]), A::E(v("v"))],
        6 => vec![A::ExportDef(f("v", s("F"))), A::E(call("v", vec![], E::Unit))],
        _ => vec![A::ExportNames(vec![("v".into(), s("V"))]), A::ExportNames(vec![("v".into(), s("W"))])],
    }
}
const EXPORTS: u64 = 8;
fn exports(cfg: &Cfg, rep: &mut Report) {
    use crate::c12::Tree;
    let root = scratch(cfg);
    rep.absorb(explore(cfg, PLACES * PLACES * EXPORTS * 2 * 7, |w, i| {
        let d = digits(i, &[PLACES, PLACES, EXPORTS, 2, 7]);
        let mut m = place(d[0], place(d[1], export(d[2])));
        if d[3] == 1 { m.insert(0, def("x", vec![], None, s("X1"))); }
        let got = |n: &str| A::E(E::Match(Box::new(v("k")), vec![(Pat::Dict(vec![(n.into(), Pat::Var("q".into()))], Some(Box::new(Pat::Ignore))), call("typeof", vec![], v("q"))), (Pat::Ignore, s("none"))]));
        let k = |body: E| vec![A::E(let1("k", call("import", vec![], s("m")), body))];
        let main = match d[4] {
            0 => k(group(vec![A::E(call("dict::keys", vec![], v("k")))])),
            1 => k(group(["v", "w", "x", "u", "h", "f"].map(got).to_vec())),
            2 => k(v("k::v")),
            3 => k(call("k::v", vec![], E::Unit)),
            // where it is included, with a name of its own around it
            4 => vec![A::E(let1("x", s("MX"), group(vec![A::E(call("include", vec![], s("m"))), t("/"), A::E(v("v"))])))],
            5 => vec![A::E(call("include", vec![], s("m"))), t("/"), A::E(call("v", vec![], E::Unit))],
            _ => vec![A::E(call("include", vec![], s("m"))), t("/"), A::E(v("x"))],
        };
        crate::c12::judge(w, &root, &Tree::default().file("main.papyri", main).file("m.papyri", m));
    }));
    // at every depth: in one kind of place, and in two in turn
    let lens: &[usize] = if cfg.quick() { &[3, 4, 5, 6, 8, 12] } else { &[3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 30] };
    rep.absorb(explore(cfg, num_periodic(PLACES, 2, lens) * EXPORTS * 5, |w, i| {
        let d = digits(i, &[EXPORTS, 5]);
        let q = nth_periodic(i / EXPORTS / 5, PLACES, 2, lens);
        // bodies which are called twice multiply
        if q.iter().filter(|k| **k == 7).count() > 4 { return; }
        let m = q.iter().fold(export(d[0]), |m, k| place(*k, m));
        let k = |body: E| vec![A::E(let1("k", call("import", vec![], s("m")), body))];
        let inc = |e: E| vec![A::E(call("include", vec![], s("m"))), t("/"), A::E(e)];
        let main = match d[1] { 0 => k(group(vec![A::E(call("dict::keys", vec![], v("k")))])), 1 => k(v("k::v")), 2 => k(call("k::v", vec![], E::Unit)), 3 => inc(v("v")), _ => inc(call("v", vec![], E::Unit)) };
        crate::c12::judge(w, &root, &Tree::default().file("main.papyri", main).file("m.papyri", m));
    }));
    remove_scratch(&root);
}
