//! C09: pattern matching takes the first matching branch and binds its parts.
use crate::ast::*;
use crate::engine::*;
use crate::prog::*;

fn b<T>(t: T) -> Box<T> { Box::new(t) }
fn var(n: &str) -> Pat { Pat::Var(n.into()) }
fn el(n: &str, at: Vec<At>, c: Vec<A>) -> E { tag(n, at, c) }
fn at(n: &str, x: &str) -> At { At::Attr(n.into(), Some(s(x))) }

/// values: simple ones, and those which have parts
fn simple() -> Vec<E> { vec![E::Unit, E::Bool(true), E::Int(1), E::Int(2), s("a"), s("ab"), s(""), v("fu")] }
fn tags() -> Vec<E> {
    vec![
        el("b", vec![], vec![t("a")]), el("b", vec![], vec![]), el("p", vec![], vec![A::E(el("b", vec![], vec![t("a")]))]), el("br", vec![], vec![]),
        el("i", vec![at("k", "a")], vec![t("a")]), el("i", vec![at("k", "b"), at("j", "a")], vec![]), el("i", vec![At::Attr("k".into(), None)], vec![t("a"), A::E(el("b", vec![], vec![]))]),
        el("i", vec![at("j", "a")], vec![A::E(el("b", vec![], vec![t("a")]))]),
    ]
}
fn seqs() -> Vec<E> {
    let bt = || A::E(el("b", vec![], vec![]));
    let pt = |x: &str| A::E(el("p", vec![], vec![t(x)]));
    vec![group(vec![t("a"), bt()]), group(vec![bt(), t("a")]), group(vec![bt(), A::Sp, bt()]), group(vec![t("a"), bt(), t("ab"), bt()]), group(vec![pt("a"), pt("ab")]), group(vec![t("a"), A::Para, t("ab"), A::Para, t("a")]), group(vec![bt(), bt()])]
}
fn composite(l: &[E], thorough: bool) -> Vec<E> {
    let mut out = vec![list(vec![]), dict(vec![])];
    for a in l {
        out.push(list(vec![a.clone()]));
        out.push(dict(vec![("k", a.clone())]));
        out.push(dict(vec![("j", a.clone())]));
        for c in l.iter().step_by(if thorough { 1 } else { 2 }) { out.push(list(vec![a.clone(), c.clone()])); out.push(dict(vec![("k", a.clone()), ("j", c.clone())])); }
    }
    let few: Vec<&E> = l.iter().step_by(if thorough { 2 } else { 3 }).collect();
    for a in &few { for c in &few { for d in &few {
        out.push(list(vec![(*a).clone(), (*c).clone(), (*d).clone()]));
        out.push(dict(vec![("k", (*a).clone()), ("j", (*c).clone()), ("h", (*d).clone())]));
    } } }
    out
}
fn nested() -> Vec<E> {
    let parts = [list(vec![]), list(vec![E::Int(1)]), list(vec![s("a"), E::Int(1)]), dict(vec![("k", s("a"))]), dict(vec![("k", list(vec![E::Int(1)]))]), el("b", vec![], vec![t("a")]), E::Int(1)];
    let mut out = vec![];
    for a in &parts { out.push(list(vec![a.clone()])); out.push(dict(vec![("k", a.clone())])); for c in &parts { out.push(list(vec![a.clone(), c.clone()])); } }
    out
}

/// patterns without parts
fn atoms() -> Vec<Pat> {
    vec![
        Pat::Ignore, Pat::None, var("x"), var("y"), Pat::Eq(E::Bool(true)), Pat::Eq(E::Int(1)), Pat::Eq(s("a")), Pat::Tmpl(vec![Tp::Lit("a".into()), Tp::Var(name("y"))]),
        Pat::Eq(v("n")), Pat::Eq(list(vec![E::Int(1)])), Pat::Eq(el("b", vec![], vec![t("a")])), Pat::Typed(Ty::Int), Pat::Typed(Ty::Str), Pat::Typed(Ty::Any.list()), Pat::Typed(Ty::Html), Pat::Typed(Ty::Int.opt()),
        Pat::TypeOf("y".into()), Pat::And(b(Pat::Typed(Ty::Int)), b(var("x"))), Pat::And(b(Pat::TypeOf("y".into())), b(var("x"))), Pat::Tmpl(vec![Tp::Lit("a".into())]), Pat::Eq(v("out")),
    ]
}
fn with_parts(sub: &[Pat], three: &[Pat]) -> Vec<Pat> {
    let mut out = vec![];
    let seq = |ps: Vec<Pat>, out: &mut Vec<Pat>| {
        for sp in std::iter::once(None).chain((0..ps.len()).map(Some)) { out.push(Pat::List(ps.clone(), sp)); out.push(Pat::Seq(ps.clone(), sp)); }
    };
    seq(vec![], &mut out);
    for a in sub {
        seq(vec![a.clone()], &mut out);
        out.push(Pat::Dict(vec![("k".into(), a.clone())], None));
        out.push(Pat::Dict(vec![], Some(b(a.clone()))));
        for n in [PName::Any, PName::Lit("i".into()), PName::Lit("B".into()), PName::Var("z".into())] {
            out.push(Pat::Tag(n.clone(), vec![], None, b(a.clone())));
            out.push(Pat::Tag(n.clone(), vec![], Some(b(Pat::Ignore)), b(a.clone())));
            out.push(Pat::Tag(n.clone(), vec![], Some(b(a.clone())), b(Pat::Ignore)));
            out.push(Pat::Tag(n.clone(), vec![("k".into(), Some(a.clone()))], None, b(Pat::Ignore)));
            out.push(Pat::Tag(n, vec![("k".into(), None)], Some(b(a.clone())), b(Pat::None)));
        }
        for c in sub {
            seq(vec![a.clone(), c.clone()], &mut out);
            out.push(Pat::Dict(vec![("k".into(), a.clone()), ("j".into(), c.clone())], None));
            out.push(Pat::Dict(vec![("k".into(), a.clone())], Some(b(c.clone()))));
            out.push(Pat::And(b(a.clone()), b(c.clone())));
            out.push(Pat::Or(b(a.clone()), b(c.clone())));
            out.push(Pat::Tag(PName::Any, vec![("k".into(), Some(a.clone()))], Some(b(Pat::Ignore)), b(c.clone())));
            out.push(Pat::Tag(PName::Lit("i".into()), vec![("k".into(), Some(a.clone())), ("j".into(), Some(c.clone()))], None, b(Pat::None)));
        }
    }
    for a in three { for c in three { for d in three { seq(vec![a.clone(), c.clone(), d.clone()], &mut out); } } }
    out
}
/// alternatives and conjunctions of patterns which bind and fail
fn logical() -> Vec<Pat> {
    let leaf = [var("x"), var("y"), Pat::Eq(E::Int(1)), Pat::Typed(Ty::Str), Pat::List(vec![var("x"), Pat::Eq(E::Int(1))], None), Pat::List(vec![var("y"), var("x")], None)];
    let mut two = vec![];
    for a in &leaf { for c in &leaf { two.push(Pat::And(b(a.clone()), b(c.clone()))); two.push(Pat::Or(b(a.clone()), b(c.clone()))); } }
    let mut out = vec![];
    for p in &two { for c in &leaf {
        out.push(Pat::Or(b(p.clone()), b(c.clone())));
        // there are no parentheses in patterns: `a & b | c` is `(a & b) | c`
        out.push(Pat::List(vec![p.clone(), c.clone()], None));
        out.push(Pat::List(vec![c.clone(), p.clone()], Some(1)));
        out.push(Pat::Dict(vec![("k".into(), p.clone())], Some(b(c.clone()))));
        if matches!(p, Pat::And(..)) { out.push(Pat::And(b(p.clone()), b(c.clone()))); out.push(Pat::Or(b(c.clone()), b(p.clone()))); }
    } }
    out
}
/// patterns in every place of another pattern
fn nested_pats() -> Vec<Pat> {
    let inner = vec![
        var("x"), Pat::Ignore, Pat::None, Pat::Eq(E::Int(1)), Pat::List(vec![], None), Pat::List(vec![var("x")], None), Pat::List(vec![Pat::Eq(s("a")), var("y")], Some(1)), Pat::Dict(vec![], None), Pat::Dict(vec![("j".into(), var("x"))], None),
        Pat::Dict(vec![("j".into(), Pat::Eq(E::Int(1)))], None), Pat::Dict(vec![], Some(b(var("y")))), Pat::Dict(vec![("j".into(), Pat::Ignore), ("h".into(), var("y"))], None), Pat::Dict(vec![("j".into(), var("x"))], Some(b(Pat::Ignore))), Pat::Typed(Ty::Any.dict()), Pat::Typed(Ty::Int.dict()), Pat::Typed(Ty::Str.list()),
        Pat::Tag(PName::Lit("b".into()), vec![], None, b(var("x"))), Pat::And(b(var("x")), b(Pat::Typed(Ty::Any.dict()))), Pat::And(b(Pat::Dict(vec![("j".into(), var("x"))], None)), b(var("y"))), Pat::Or(b(Pat::Dict(vec![("j".into(), var("x"))], None)), b(Pat::Dict(vec![("h".into(), var("y"))], None))), Pat::Tmpl(vec![Tp::Lit("a".into()), Tp::Var(name("y"))]), Pat::Seq(vec![var("x"), Pat::Ignore], Some(1)), Pat::TypeOf("y".into()),
    ];
    let mut out = vec![];
    for p in &inner {
        let bp = || b(p.clone());
        out.push(Pat::List(vec![p.clone()], None));
        out.push(Pat::List(vec![p.clone()], Some(0)));
        for q in [var("z"), Pat::Ignore, Pat::Eq(E::Int(1))] {
            for sp in [None, Some(0), Some(1)] { out.push(Pat::List(vec![p.clone(), q.clone()], sp)); out.push(Pat::List(vec![q.clone(), p.clone()], sp)); }
            out.push(Pat::Dict(vec![("k".into(), q.clone())], Some(bp())));
            out.push(Pat::Dict(vec![("k".into(), p.clone())], Some(b(q.clone()))));
            out.push(Pat::Dict(vec![("k".into(), p.clone()), ("j".into(), q.clone())], None));
            out.push(Pat::Dict(vec![("j".into(), q.clone()), ("k".into(), p.clone())], None));
        }
        out.push(Pat::Dict(vec![("k".into(), Pat::Ignore), ("j".into(), Pat::Ignore)], Some(bp())));
        out.push(Pat::Dict(vec![], Some(bp())));
        out.push(Pat::Seq(vec![p.clone(), Pat::Ignore], None));
        out.push(Pat::Seq(vec![p.clone(), Pat::Ignore], Some(0)));
        out.push(Pat::Tag(PName::Any, vec![], Some(bp()), b(Pat::Ignore)));
        out.push(Pat::Tag(PName::Any, vec![("k".into(), Some(Pat::Ignore))], Some(bp()), b(Pat::Ignore)));
        out.push(Pat::Tag(PName::Any, vec![("k".into(), Some(p.clone()))], None, b(Pat::Ignore)));
        out.push(Pat::Tag(PName::Var("z".into()), vec![], Some(b(Pat::Ignore)), bp()));
        out.push(Pat::And(bp(), b(Pat::Ignore)));
        out.push(Pat::And(b(Pat::Ignore), bp()));
    }
    out
}
fn has_or(p: &Pat) -> bool { matches!(p, Pat::Or(..)) }
/// whether the written form means this pattern
fn writable(p: &Pat) -> bool {
    match p {
        Pat::And(x, y) => !has_or(x) && !has_or(y) && !matches!(**y, Pat::And(..)) && writable(x) && writable(y),
        Pat::Or(x, y) => !has_or(y) && writable(x) && writable(y),
        Pat::List(l, _) | Pat::Seq(l, _) => l.iter().all(writable),
        Pat::Dict(l, sp) => l.iter().all(|x| writable(&x.1)) && sp.as_ref().map_or(true, |p| writable(p)),
        Pat::Tag(n, l, sp, c) => {
            // the pattern of an attribute stands before a space or `>`, and so does a rest
            l.iter().all(|x| x.1.as_ref().map_or(true, writable)) && sp.as_ref().map_or(true, |p| writable(p)) && writable(c) && !matches!((n, &**c), (PName::Lit(n), c) if VOID.contains(&n.as_str()) && !matches!(c, Pat::None))
        },
        _ => true,
    }
}

/// all variables, and the types of those which the pattern binds
fn show(k: usize, p: &Pat) -> E {
    let mut names = vec![];
    crate::sem::names_of(p, &mut names);
    let mut c = vec![t(&format!("R{k}")), A::E(let1("l", list(vec![v("x"), v("y"), v("z")]), v("l")))];
    for n in ["x", "y", "z"] { if names.iter().any(|m| m == n) { c.push(A::E(call("typeof", vec![], v(n)))); } }
    group(c)
}
/// the match with the given branches
fn doc(e: &E, ps: Vec<Pat>, rest: bool) -> Vec<A> {
    let mut bs: Vec<(Pat, E)> = ps.into_iter().enumerate().map(|(k, p)| { let e = show(k, &p); (p, e) }).collect();
    if rest { bs.push((Pat::Ignore, show(9, &Pat::Ignore))); }
    vec![
        def("fu", vec![], None, E::Int(1)),
        A::E(E::Let(false, vec![("x".into(), s("OX")), ("y".into(), s("OY")), ("z".into(), s("OZ")), ("n".into(), E::Int(1)), ("out".into(), s("ab"))], b(E::Match(b(e.clone()), bs)))),
    ]
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every value x every pattern (and every pair of branches), compared with a reference matcher: the branch which is taken, and the value and type of every variable in it");
    let th = !cfg.quick();
    let at = atoms();
    let mut vals: Vec<E> = simple();
    vals.extend(tags());
    vals.extend(seqs());
    vals.extend(composite(&[simple(), tags()[..2].to_vec()].concat(), th));
    vals.extend(nested());
    // white space is a value, and a node
    for x in [" ", "\n", "  ", " \n"] {
        let f = || call("str::from", vec![], s(x));
        let bt = || A::E(el("b", vec![], vec![]));
        vals.extend([s(x), list(vec![s(x)]), group(vec![bt(), A::E(f()), bt()]), group(vec![A::E(f()), bt()]), group(vec![bt(), A::E(f())]), el("b", vec![], vec![A::E(f())]), el("p", vec![], vec![bt(), A::E(f()), bt()])]);
    }
    let sub: Vec<Pat> = if th { at[..18].to_vec() } else { at[..9].to_vec() };
    let three: Vec<Pat> = at[..if th { 8 } else { 5 }].to_vec();
    let mut pats = at.clone();
    pats.extend(with_parts(&sub, &three));
    pats.retain(writable);
    let mut logi = logical();
    logi.extend(nested_pats());
    // alternatives: of every pattern which binds something, the variables are observed when the other alternative is taken
    let binding: Vec<Pat> = with_parts(&at[..4], &[var("x")]).into_iter().chain(nested_pats()).filter(|p| { let mut n = vec![]; crate::sem::names_of(p, &mut n); !n.is_empty() }).collect();
    for p in &binding {
        logi.push(Pat::Or(b(p.clone()), b(Pat::Ignore)));
        if th { logi.push(Pat::Or(b(Pat::None), b(p.clone()))); logi.push(Pat::Or(b(p.clone()), b(var("z")))); logi.push(Pat::List(vec![Pat::Or(b(p.clone()), b(Pat::Ignore))], None)); }
    }
    logi.retain(writable);
    rep.extra.insert("values".into(), vals.len().to_string());
    rep.extra.insert("patterns".into(), (pats.len() + logi.len()).to_string());
    // 1. one pattern
    let all: Vec<&Pat> = pats.iter().chain(&logi).collect();
    let n = all.len() as u64;
    rep.absorb(explore(cfg, n * vals.len() as u64, |w, i| {
        let (p, e) = (all[(i % n) as usize], &vals[(i / n) as usize]);
        check(w, &doc(e, vec![p.clone()], true));
    }));
    // long ones: lists and rests, names of dicts, attributes, branches, alternatives
    let long = cfg.q(10usize, 18);
    rep.absorb(explore(cfg, ((long + 1) * (long + 2) * (long + 3) * 4) as u64, |w, i| {
        let d = digits(i, &[long as u64 + 1, long as u64 + 2, long as u64 + 3, 4]);
        let (n, spread, m) = (d[0], d[1], d[2]);
        if spread > n { return; }
        let value = list((0..m).map(|k| if d[3] == 3 { s("a") } else { E::Int(k as i64) }).collect());
        let mut ps: Vec<Pat> = (0..n).map(|k| match d[3] { 0 => Pat::Ignore, 1 => Pat::Eq(E::Int(if k < spread { k } else { (m + k).wrapping_sub(n) } as i64)), 2 => if k == 0 { var("x") } else if k + 1 == n { var("z") } else { Pat::Typed(Ty::Int) }, _ => if k + 1 == n { Pat::Eq(s("b")) } else { Pat::Eq(s("a")) } }).collect();
        let sp = (spread < n).then_some(spread);
        if let Some(k) = sp { ps[k] = var("y"); }
        check(w, &doc(&value, vec![Pat::List(ps, sp)], true));
    }));
    rep.absorb(explore(cfg, ((long + 1) * (long + 1) * 6 * 3) as u64, |w, i| {
        let d = digits(i, &[long as u64 + 1, long as u64 + 1, 6, 3]);
        let (n, m, kn) = (d[0], d[1], |k: usize| format!("k{}", (k * 7) % (long + 1)));
        // m names in the value, n in the pattern; the last one may have another value
        let names: Vec<String> = (0..m).map(kn).collect();
        let val = |k: usize| E::Int(if d[2] % 2 == 1 && k + 1 == m { -1 } else { 1 });
        let pat = |k: usize| if k == 0 { var("x") } else { Pat::Eq(E::Int(1)) };
        let rest = match d[3] { 0 => None, 1 => Some(b(Pat::Ignore)), _ => Some(b(var("y"))) };
        let entries: Vec<(String, Pat)> = (0..n).map(|k| (kn(k), pat(k))).collect();
        let (e, p) = match d[2] / 2 {
            0 => (dict(names.iter().enumerate().map(|(k, x)| (x.as_str(), val(k))).collect()), Pat::Dict(entries, rest)),
            1 => (tag("b", names.iter().enumerate().map(|(k, x)| At::Attr(x.clone(), Some(val(k)))).collect(), vec![]), Pat::Tag(PName::Any, entries.into_iter().map(|(k, p)| (k, Some(match p { Pat::Eq(_) => Pat::Eq(s("1")), p => p }))).collect(), rest, b(Pat::None))),
            // n branches for the same value; the m-th matches
            _ => { let all = (0..n).map(|k| Pat::List(vec![var(["x", "y", "z"][k % 3]), Pat::Eq(E::Int(k as i64))], None)).collect(); check(w, &doc(&list(vec![s("v"), E::Int(m as i64)]), all, d[3] > 0)); return; },
        };
        check(w, &doc(&e, vec![p], true));
    }));
    rep.absorb(explore(cfg, ((long + 1) * (long + 1) * 4) as u64, |w, i| {
        let d = digits(i, &[long as u64 + 1, long as u64 + 1, 4]);
        let (n, m) = (d[0] + 1, d[1]);
        // alternatives, conjunctions, templates and sequences of n parts
        let eq = |k: usize| Pat::Eq(E::Int(k as i64));
        match d[2] {
            0 => check(w, &doc(&list(vec![E::Int(m as i64), s("w")]), vec![(1..n).fold(Pat::List(vec![eq(0), var("x")], None), |p, k| Pat::Or(b(p), b(Pat::List(vec![eq(k), var("x")], None))))], true)),
            1 => check(w, &doc(&E::Int(m as i64), vec![(1..n).fold(var("x"), |p, k| Pat::And(b(p), b(if k == m { Pat::Typed(Ty::Str) } else { Pat::Typed(Ty::Int) })))], true)),
            2 => check(w, &doc(&s(&"ab".repeat(m)), vec![Pat::Tmpl((0..n).flat_map(|k| [Tp::Lit("a".into()), if k == 0 { Tp::Var(name("x")) } else { Tp::Lit("b".into()) }]).collect())], true)),
            _ => { let parts: Vec<A> = (0..m).map(|k| if k % 2 == 0 { A::E(tag("b", vec![], vec![t("q")])) } else { t("w") }).collect(); let mut ps: Vec<Pat> = (0..n).map(|k| if k % 2 == 0 { Pat::Tag(PName::Lit("b".into()), vec![], None, b(Pat::Ignore)) } else { Pat::Eq(s("w")) }).collect(); let sp = (m % 3 > 0).then_some(n / 2); if let Some(k) = sp { ps[k] = var("y"); } check(w, &doc(&group(parts), vec![Pat::Seq(ps, sp)], true)) },
        };
    }));
    // the rest of a rest of a rest
    let most = cfg.q(6usize, 9);
    let cut = cfg.q(3usize, 4);
    let nc = (cut * cut) as u64;
    rep.absorb(explore(cfg, (most as u64 + 1) * nc * nc * nc * 2 * 2, |w, i| {
        let d = digits(i, &[most as u64 + 1, nc, nc, nc, 2, 2]);
        let (n, html) = (d[0], d[4] == 1);
        let item = |k: usize| if html { tag(["b", "i", "u", "q"][k % 4], vec![], vec![t(&format!("h{k}"))]) } else { E::Int(k as i64) };
        let value = if html { group((0..n).map(|k| A::E(item(k))).collect()) } else { list((0..n).map(item).collect()) };
        let names = ["x", "y", "z"];
        let see = |n: &str| -> Vec<A> {
            let nodes = if html { call("list::html_nodes", vec![], v(n)) } else { v(n) };
            vec![A::E(call("typeof", vec![], v(n))), t(":"), A::E(call("list::len", vec![], nodes.clone())), A::E(list(vec![v(n), call("list::reversed", vec![], nodes)]))]
        };
        let mut e = group(names.iter().flat_map(|n| see(n)).collect());
        for k in (0..3).rev() {
            let (p, q) = (d[1 + k] % cut, d[1 + k] / cut);
            // the items beside the rest are any, or those which are expected there
            let (mut before, mut after) = (0, 0);
            for j in 0..k { before += d[1 + j] % cut; after += d[1 + j] / cut; }
            let ps: Vec<Pat> = (0..=p + q).map(|j| if j == p { var(names[k]) } else if d[5] == 0 { Pat::Ignore } else if j < p { Pat::Eq(item(before + j)) } else { Pat::Eq(item((n + j).wrapping_sub(after + p + q + 1) % 100)) }).collect();
            let pat = if html { Pat::Seq(ps, Some(p)) } else { Pat::List(ps, Some(p)) };
            e = E::Match(b(if k == 0 { v("out") } else { v(names[k - 1]) }), vec![(pat, e), (Pat::Ignore, group((0..k).flat_map(|j| see(names[j])).chain([t("none")]).collect()))]);
        }
        check(w, &[A::E(let1("out", value, e))]);
    }));
    // 2. two and three branches, with or without one for the rest
    let few: Vec<&Pat> = all.iter().step_by(cfg.q(47, 11)).copied().collect();
    let fv: Vec<&E> = vals.iter().step_by(cfg.q(5, 3)).collect();
    let m = few.len() as u64;
    rep.absorb(explore(cfg, m * m * fv.len() as u64, |w, i| {
        let (p, q, e) = (few[(i % m) as usize], few[(i / m % m) as usize], fv[(i / m / m) as usize]);
        check(w, &doc(e, vec![p.clone(), q.clone()], i % 3 == 0));
    }));
    let m = at.len() as u64;
    let sv: Vec<E> = simple().into_iter().chain([list(vec![E::Int(1)]), el("b", vec![], vec![t("a")])]).collect();
    rep.absorb(explore(cfg, m * m * m * sv.len() as u64, |w, i| {
        let (p, q, r, e) = (&at[(i % m) as usize], &at[(i / m % m) as usize], &at[(i / m / m % m) as usize], &sv[(i / m / m / m) as usize]);
        check(w, &doc(e, vec![p.clone(), q.clone(), r.clone()], false));
    }));
    // 3. templates
    let pieces = [Tp::Lit("a".into()), Tp::Lit("b".into()), Tp::Sp, Tp::Var(name("x")), Tp::Var(name("y")), Tp::Lit(".".into()), Tp::Lit("\n".into())];
    let abc = ['a', 'b', ' ', '\n', '.'];
    let (k, l) = (pieces.len() as u64, abc.len() as u64);
    let (mt, ms) = (cfg.q(3, 4), cfg.q(4, 5));
    let (nt, ns) = (num_seqs(k, 0, mt), num_seqs(l, 0, ms));
    rep.absorb(explore(cfg, nt * ns, |w, i| {
        let ps: Vec<Tp> = nth_seq(i % nt, k, 0, mt).into_iter().map(|j| pieces[j].clone()).collect();
        // two spaces are one
        if ps.windows(2).any(|x| matches!(x, [Tp::Sp, Tp::Sp])) { return; }
        let st: String = nth_seq(i / nt, l, 0, ms).into_iter().map(|j| abc[j]).collect();
        check(w, &doc(&s(&st), vec![Pat::Tmpl(ps)], true));
    }));
    // every character as itself, and in the value of a variable
    let specials: Vec<char> = (0x20..0x7fu8).map(|c| c as char).chain("\u{a0}\u{e9}\u{2060}\u{1f600}\n\t\r\x0c\u{85}\u{2028}".chars()).collect();
    let n = specials.len() as u64;
    rep.absorb(explore(cfg, n * n * 3, |w, i| {
        let (c, d) = (specials[(i % n) as usize], specials[(i / n % n) as usize]);
        let e = match i / n / n { 0 => s(&format!("{c}{d}")), 1 => s(&format!("{d}{c}{c}")), _ => s(&format!("{c}{d}{c}")) };
        check(w, &doc(&e, vec![Pat::Tmpl(vec![Tp::Lit(c.to_string()), Tp::Var(name("x")), Tp::Lit(c.to_string())]), Pat::Tmpl(vec![Tp::Lit(c.to_string()), Tp::Lit(d.to_string())]), Pat::Tmpl(vec![Tp::Var(name("y")), Tp::Sp, Tp::Var(name("x"))])], true));
    }));
    rep
}
