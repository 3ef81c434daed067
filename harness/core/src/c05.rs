//! C05: HTML values have one normal form.
use crate::ast::*;
use crate::engine::*;
use crate::prog::*;
use crate::sem;

fn leaf(n: &str, c: Vec<A>) -> A { A::E(tag(n, vec![], c)) }

/// items of content, as flow items; `inline` only or with blocks
fn alphabet() -> Vec<A> {
    vec![
        t("x"), t("y"), A::Sp, leaf("b", vec![t("z")]), A::E(group(vec![])), leaf("b", vec![]), A::E(call("e", vec![], E::Unit)), A::E(call("q", vec![], E::Unit)),
        leaf("p", vec![t("z")]), leaf("li", vec![t("z")]), A::E(E::Let(false, vec![("k".into(), E::Int(-3))], Box::new(v("k")))), A::Para,
    ]
}

fn leaf_section(c: Vec<A>) -> A { leaf("section", c) }
/// a bracketing of a sequence
#[derive(Clone, Debug)]
enum Tr { Leaf(usize), Node(Vec<Tr>) }
/// all ways to bracket `a..b` into at least two parts (or one leaf)
fn trees(a: usize, b: usize) -> Vec<Tr> {
    if b - a == 1 { return vec![Tr::Leaf(a)]; }
    forests(a, b).into_iter().filter(|f| f.len() > 1).map(Tr::Node).collect()
}
fn forests(a: usize, b: usize) -> Vec<Vec<Tr>> {
    if a == b { return vec![vec![]]; }
    let mut out = vec![];
    for m in a + 1..=b {
        let first = if (a, m) == (a, b) { 
            // the whole: only as a leaf, or as one inner bracket (handled by the caller)
            if m - a == 1 { vec![Tr::Leaf(a)] } else { vec![] }
        } else { trees(a, m) };
        for f in first { for mut r in forests(m, b) { r.insert(0, f.clone()); out.push(r); } }
    }
    out
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Route { Group, Let, Call, Join, JoinMap, Splat, Nodes, Match }
const ROUTES: &[Route] = &[Route::Group, Route::Let, Route::Call, Route::Join, Route::JoinMap, Route::Splat, Route::Nodes, Route::Match];

/// The item as an expression, for routes which need expressions.
fn as_expr(a: &A) -> E {
    match a { A::E(e) => e.clone(), A::Text(x) => s(x), A::Sp => s(" "), a => group(vec![a.clone()]) }
}
/// A flow item which stands for the tree built by the route.
fn build(tr: &Tr, it: &[A], r: Route) -> A {
    match tr {
        Tr::Leaf(k) => it[*k].clone(),
        Tr::Node(c) => {
            let parts: Vec<A> = c.iter().map(|c| build(c, it, r)).collect();
            let ex: Vec<E> = parts.iter().map(as_expr).collect();
            A::E(if parts.is_empty() { group(vec![]) } else { match r {
                Route::Group => group(parts),
                Route::Let => {
                    let vars: Vec<(String, E)> = ex.into_iter().enumerate().map(|(i, e)| (format!("v{i}"), e)).collect();
                    let names = vars.iter().map(|(n, _)| A::E(v(n))).collect();
                    E::Let(false, vars, Box::new(group(names)))
                },
                Route::Call => call("id", vec![], group(parts)),
                Route::Join => call("list::join", vec![], list(ex)),
                Route::JoinMap => call("list::join", vec![], call("list::map", vec![Arg::Pos(v("id"))], list(ex))),
                // through an element: content matched back out
                Route::Splat => E::Match(Box::new(tag("div", vec![], parts)), vec![(Pat::Tag(PName::Any, vec![], None, Box::new(Pat::Var("c".into()))), v("c"))]),
                Route::Nodes => call("list::join", vec![], call("list::html_nodes", vec![], group(parts))),
                Route::Match => E::Match(Box::new(group(parts)), vec![(Pat::Seq(vec![Pat::Var("h".into())], Some(0)), v("h")), (Pat::Var("h".into()), v("h"))]), }
            })
        },
    }
}
fn prelude() -> Vec<A> {
    vec![def("e", vec![], None, E::Unit), def("q", vec![], None, s("s")), def("id", vec![], content("c"), v("c"))]
}
fn typ(e: E) -> A { A::E(call("typeof", vec![], e)) }

/// observations of the value `w`
fn observe(k: usize) -> Vec<A> {
    let var = |n: &str| Pat::Var(n.into());
    let b = |e: A| leaf("li", vec![e]);
    match k {
        0 => vec![A::E(v("w"))],
        1 => vec![b(typ(v("w"))), b(A::E(call("bool::from", vec![], v("w")))), A::E(list(vec![v("w")]))],
        // the nodes, one by one, with their types
        2 => vec![A::E(call("list::map", vec![Arg::Pos(func(vec![], content("n"), group(vec![typ(v("n")), t("n"), A::E(v("n"))])))], call("list::html_nodes", vec![], v("w"))))],
        _ => vec![A::E(E::Match(Box::new(v("w")), vec![
            (Pat::None, s("none")),
            (Pat::Seq(vec![var("a")], None), list(vec![v("a")])),
            (Pat::Seq(vec![var("a"), var("b")], None), list(vec![v("a"), v("b")])),
            (Pat::Seq(vec![var("a"), var("r"), var("z")], Some(1)), list(vec![v("a"), v("r"), v("z"), call("list::html_nodes", vec![], v("r"))])),
            (Pat::Ignore, s("other")),
        ]))],
    }
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every content sequence up to the bound x every bracketing x every construction route x every observation, compared with the reference normal form; equality of all pairs of small contents");
    let n = alphabet().len() as u64;
    let max = cfg.q(3, 4);
    let all_trees: Vec<Vec<Tr>> = (0..=max + 1).map(|k| {
        let mut f: Vec<Tr> = if k == 0 { vec![Tr::Node(vec![])] } else { trees(0, k).into_iter().collect() };
        // a leaf or tree in a bracket of its own
        let more: Vec<Tr> = f.iter().map(|t| Tr::Node(vec![t.clone()])).collect();
        f.extend(more);
        f
    }).collect();
    // the full alphabet, and a smaller one for one item more
    let small: Vec<usize> = vec![0, 2, 3, 4, 7, 8];
    let mut rounds: Vec<(usize, Vec<usize>)> = (0..=max).map(|l| (l, (0..n as usize).collect())).collect();
    rounds.push((max + 1, small));
    for (len, letters) in rounds {
        let ts = &all_trees[len];
        let seqs = (letters.len() as u64).pow(len as u32);
        let total = seqs * ts.len() as u64 * ROUTES.len() as u64;
        rep.absorb(explore(cfg, total, |w, i| {
            thread_local! { static IT: Vec<A> = alphabet(); }
            let d = digits(i, &[seqs, ts.len() as u64, ROUTES.len() as u64]);
            let seq: Vec<A> = IT.with(|it| nth_seq(d[0] as u64, letters.len() as u64, len, len).into_iter().map(|k| it[letters[k]].clone()).collect());
            let r = ROUTES[d[2]];
            let A::E(e) = build(&ts[d[1]], &seq, r) else { 
                let mut doc = prelude();
                doc.push(leaf("div", vec![t("a"), build(&ts[d[1]], &seq, r), t("b")]));
                check(w, &doc);
                return;
            };
            // one program with all observations; then each alone if it is an error
            let mut doc = prelude();
            let obs = |k: usize| leaf("section", observe(k));
            doc.push(A::E(let1("w", e.clone(), group((0..4).map(obs).collect()))));
            let mut all_ok = true;
            if sem::expect(&doc) == Ok(None) { all_ok = false; }
            if all_ok { check(w, &doc); } else {
                for k in 0..4 {
                    let mut doc = prelude();
                    doc.push(A::E(let1("w", e.clone(), group(vec![obs(k)]))));
                    check(w, &doc);
                }
            }
        }));
    }
    // long contents
    let lens: &[usize] = if cfg.quick() { &[7, 8, 9, 17, 33] } else { &[6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65, 129] };
    let per = num_periodic(n, 2, lens);
    rep.absorb(explore(cfg, per * ROUTES.len() as u64 * 4, |w, i| {
        thread_local! { static IT: Vec<A> = alphabet(); }
        let d = digits(i, &[4, ROUTES.len() as u64, per]);
        if cfg.quick() && d[0] > 1 && (d[1] + d[2]) % 3 > 0 { return; }
        let seq: Vec<A> = IT.with(|it| nth_periodic(d[2] as u64, n, 2, lens).into_iter().map(|k| it[k].clone()).collect());
        let (m, leaf) = (seq.len(), |a: usize, b: usize| (a..b).map(Tr::Leaf).collect::<Vec<_>>());
        let tr = match d[0] {
            0 => Tr::Node(leaf(0, m)),
            1 => Tr::Node(vec![Tr::Node(leaf(0, m / 2)), Tr::Node(leaf(m / 2, m))]),
            2 => (1..m).fold(Tr::Leaf(0), |t, k| if k % 4 == 0 { Tr::Node(vec![t, Tr::Leaf(k)]) } else { match t { Tr::Node(mut c) => { c.push(Tr::Leaf(k)); Tr::Node(c) }, t => Tr::Node(vec![t, Tr::Leaf(k)]) } }),
            _ => Tr::Node((0..m).map(|k| if k % 3 == 1 { Tr::Node(vec![Tr::Leaf(k)]) } else { Tr::Leaf(k) }).collect()),
        };
        let mut doc = prelude();
        let A::E(x) = build(&tr, &seq, ROUTES[d[1]]) else { return };
        doc.push(A::E(let1("w", x, group((0..4).map(|k| leaf_section(observe(k))).collect()))));
        if sem::expect(&doc) == Ok(None) { doc.pop(); let A::E(x) = build(&tr, &seq, ROUTES[d[1]]) else { return }; doc.push(A::E(let1("w", x, group(vec![leaf_section(observe(2))])))); }
        check(w, &doc);
    }));
    // very long text, in pieces
    let lens: &[usize] = if cfg.quick() { &[257, 1030, 2100] } else { &[255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10001] };
    let units: Vec<Vec<A>> = vec![vec![t("x"), A::Sp, t("y")], vec![t("x"), t("y")], vec![t("x"), A::Sp], vec![A::E(call("q", vec![], E::Unit)), A::Sp], vec![t("x"), A::E(call("e", vec![], E::Unit))], vec![A::E(call("str::from", vec![], s("a b")))], vec![t("x"), A::Sp, leaf("b", vec![t("z")])]];
    let units = &units;
    rep.absorb(explore(cfg, (lens.len() * units.len() * ROUTES.len()) as u64 * 4, |w, i| {
        let d = digits(i, &[lens.len() as u64, units.len() as u64, ROUTES.len() as u64, 4]);
        let m = lens[d[0]];
        let seq: Vec<A> = units[d[1]].iter().cycle().take(m).cloned().collect();
        let A::E(x) = build(&Tr::Node((0..m).map(Tr::Leaf).collect()), &seq, ROUTES[d[2]]) else { return };
        let mut doc = prelude();
        doc.push(A::E(let1("w", x, group(vec![leaf_section(observe(d[3]))]))));
        check(w, &doc);
    }));
    // strings of white space, line ends and text beside each other, as values
    let pieces = ["\n", " ", "a", "a\n", "\n\n", " \n", "\nb", "", "\t", "\u{a0}"];
    let k = pieces.len() as u64;
    let lens = cfg.q(3, 4);
    let seqs = num_seqs(k, 1, lens);
    let strs = [Route::Group, Route::Let, Route::Call, Route::Join, Route::JoinMap, Route::Splat, Route::Nodes];
    rep.absorb(explore(cfg, seqs * strs.len() as u64 * 4, |w, i| {
        let d = digits(i, &[strs.len() as u64, 4, seqs]);
        let it: Vec<A> = nth_seq(d[2] as u64, k, 1, lens).into_iter().map(|j| A::E(call(&format!("n{j}"), vec![], E::Unit))).collect();
        let m = it.len();
        let leaves = |a: usize, b: usize| (a..b).map(Tr::Leaf).collect::<Vec<_>>();
        let tr = match d[1] { 0 => Tr::Node(leaves(0, m)), 1 => (1..m).fold(Tr::Node(vec![Tr::Leaf(0)]), |t, k| Tr::Node(vec![t, Tr::Leaf(k)])), 2 => (0..m - 1).rev().fold(Tr::Node(vec![Tr::Leaf(m - 1)]), |t, k| Tr::Node(vec![Tr::Leaf(k), t])), _ => Tr::Node(vec![Tr::Node(leaves(0, m.div_ceil(2))), Tr::Node(leaves(m.div_ceil(2), m))]) };
        let A::E(x) = build(&tr, &it, strs[d[0]]) else { return };
        let mut doc = prelude();
        doc.extend(pieces.iter().enumerate().map(|(j, x)| def(&format!("n{j}"), vec![], None, s(x))));
        let html = |e: E| call("inline::from", vec![], e);
        doc.push(A::E(let1("w", x.clone(), group((0..4).map(|k| leaf_section(observe(k))).chain([leaf_section(vec![A::E(html(call("str::escape_html", vec![], v("w"))))])]).collect()))));
        if sem::expect(&doc) == Ok(None) { doc.pop(); doc.push(A::E(let1("w", x, group((0..3).map(|k| leaf_section(observe(k))).collect())))); }
        check(w, &doc);
    }));
    // equality: two contents, each built by one of the routes, as a pattern and as list elements
    let all: &[(Route, Route)] = &[(Route::Group, Route::Join), (Route::Let, Route::Splat)];
    let rs: Vec<(Route, Route)> = if cfg.quick() { all.to_vec() } else { ROUTES.iter().flat_map(|a| ROUTES.iter().map(move |b| (*a, *b))).collect() };
    equality(cfg, &mut rep, alphabet, 2, &rs);
    equality(cfg, &mut rep, elements, 2, if cfg.quick() { &all[..1] } else { &rs });
    equality(cfg, &mut rep, few, if cfg.quick() { 4 } else { 5 }, if cfg.quick() { &all[..1] } else { all });
    // long contents, of which one is changed in one place, or has one thing more or less
    let lens: &[usize] = if cfg.quick() { &[3, 4, 5, 8, 9, 16, 17, 33] } else { &[3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 31, 32, 33, 64, 65, 100, 129] };
    let at: Vec<(usize, usize)> = lens.iter().flat_map(|n| (0..=*n).map(move |p| (*n, p))).collect();
    // (text beside text would be one node)
    let base = |j: usize| match j % 4 { 0 => leaf("b", vec![t("z")]), 1 => t("x"), 2 => leaf("i", vec![]), _ => leaf("b", vec![leaf("i", vec![t("q")]), t("y")]) };
    let news: Vec<Option<A>> = vec![None, Some(leaf("b", vec![t("z")])), Some(t("z")), Some(leaf("u", vec![])), Some(leaf("b", vec![leaf("i", vec![t("Q")]), t("y")])), Some(A::Sp)];
    let (base, news) = (&base, &news);
    rep.absorb(explore(cfg, at.len() as u64 * news.len() as u64 * 2 * rs.len().min(6) as u64, |w, i| {
        let d = digits(i, &[at.len() as u64, news.len() as u64, 2, rs.len().min(6) as u64]);
        let ((n, p), insert, (ra, rb)) = (at[d[0]], d[2] == 1, rs[d[3]]);
        let one: Vec<A> = (0..n).map(base).collect();
        let mut other = one.clone();
        if !insert && p == n { return; }
        if insert { if let Some(x) = &news[d[1]] { other.insert(p, x.clone()); } } else { match &news[d[1]] { Some(x) => other[p] = x.clone(), None => { other.remove(p); } } }
        let make = |seq: &[A], r: Route| as_expr(&build(&Tr::Node((0..seq.len()).map(Tr::Leaf).collect()), seq, r));
        let mut doc = prelude();
        doc.push(A::E(E::Let(false, vec![("a".into(), make(&one, ra)), ("b".into(), make(&other, rb))], Box::new(group(vec![
            A::E(E::Match(Box::new(v("a")), vec![(Pat::Eq(v("b")), s("same")), (Pat::Ignore, s("different"))])), A::Sp,
            A::E(E::Match(Box::new(tag("p", vec![], vec![A::E(v("b"))])), vec![(Pat::Eq(tag("p", vec![], vec![A::E(v("a"))])), s("same")), (Pat::Ignore, s("different"))])), A::Sp,
            A::E(call("list::contains", vec![Arg::Pos(v("a"))], list(vec![E::Int(1), v("b")]))),
        ])))));
        check(w, &doc);
    }));
    rep
}
/// Elements which differ in one thing, names and attributes with and without values.
fn elements() -> Vec<A> {
    let e = |n: &str, at: Vec<At>, c: Vec<A>| A::E(tag(n, at, c));
    let at = |n: &str, x: &str| At::Attr(n.into(), Some(s(x)));
    let no = |n: &str| At::Attr(n.into(), None);
    let z = || vec![t("z")];
    vec![
        e("b", vec![], z()), e("b", vec![], vec![]), e("b", vec![], vec![t("Z")]), e("i", vec![], z()),
        e("b", vec![no("x")], z()), e("b", vec![no("y")], z()), e("b", vec![no("x"), no("y")], z()),
        e("b", vec![at("x", "")], z()), e("b", vec![at("x", "1")], z()), e("b", vec![at("x", "2")], z()), e("b", vec![at("y", "1")], z()),
        e("b", vec![at("x", "1"), no("y")], z()), e("b", vec![no("y"), at("x", "1")], z()), e("b", vec![no("x"), at("y", "1")], z()), e("b", vec![at("x", "1"), at("y", "1")], z()),
        e("b", vec![], vec![e("i", vec![], z())]), e("b", vec![], vec![e("i", vec![no("x")], z())]), e("b", vec![], vec![t("z"), e("i", vec![], vec![])]),
        t("z"),
    ]
}
fn few() -> Vec<A> { vec![leaf("b", vec![t("z")]), leaf("i", vec![t("z")]), t("z"), A::E(call("e", vec![], E::Unit))] }
fn equality(cfg: &Cfg, rep: &mut Report, alphabet: fn() -> Vec<A>, len: usize, rs: &[(Route, Route)]) {
    let n = alphabet().len() as u64;
    let seqs = num_seqs(n, 0, len);
    rep.absorb(explore(cfg, seqs * seqs * rs.len() as u64, |w, i| {
        let it = alphabet();
        let d = digits(i, &[seqs, seqs, rs.len() as u64]);
        let (ra, rb) = rs[d[2]];
        let make = |k: usize, r: Route| -> E {
            let seq: Vec<A> = nth_seq(k as u64, n, 0, len).into_iter().map(|k| it[k].clone()).collect();
            let tr = Tr::Node((0..seq.len()).map(Tr::Leaf).collect());
            as_expr(&build(&tr, &seq, r))
        };
        let (a, b) = (make(d[0], ra), make(d[1], rb));
        let mut doc = prelude();
        doc.push(A::E(E::Let(false, vec![("a".into(), a), ("b".into(), b)], Box::new(group(vec![
            A::E(E::Match(Box::new(v("a")), vec![(Pat::Eq(v("b")), s("same")), (Pat::Ignore, s("different"))])),
            A::Sp,
            A::E(call("list::contains", vec![Arg::Pos(v("a"))], list(vec![E::Int(1), v("b")]))),
        ])))));
        check(w, &doc);
    }));
}
