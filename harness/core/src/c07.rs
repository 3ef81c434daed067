//! C07: calls bind every argument to the right parameter, or report an error.
use crate::ast::*;
use crate::engine::*;
use crate::prog::*;

#[derive(Clone)]
struct Sg { params: Vec<Param>, content: Option<Param>, names: Vec<String>, implicit: bool }

fn ps(n: &str, k: usize, ty: Option<Ty>) -> Param {
    let kind = if n.starts_with('_') { PK::Pos } else { PK::Named };
    let p = Param {ty, ..Param::new(n, kind)};
    match k { 0 => p, 1 => p.opt(), 2 => p.def(E::Int(if n.ends_with(['a', 'x']) { 41 } else { 42 })), _ => p.imp() }
}
/// all signatures with the given numbers of positional and named parameters
fn signatures(max_pos: usize, max_named: usize, tys: &[Option<Ty>]) -> Vec<Sg> {
    let mut out = vec![];
    for ty in tys {
        for np in 0..=max_pos { for pk in 0..3usize.pow(np as u32) { for spread in 0..2 {
            for nn in 0..=max_named { for nk in 0..4usize.pow(nn as u32) { for nspread in 0..2 { for c in 0..3 {
                let mut params = vec![];
                let mut k = pk;
                for i in 0..np { params.push(ps(["_a", "_b", "_c"][i], k % 3, ty.clone())); k /= 3; }
                if spread == 1 { params.push(Param {ty: ty.clone().map(|t| t.list()), ..Param::new("_s", PK::Spread)}); }
                let mut k = nk;
                let mut implicit = false;
                for i in 0..nn { implicit |= k % 4 == 3; params.push(ps(["x", "y", "z"][i], k % 4, ty.clone())); k /= 4; }
                if nspread == 1 { params.push(Param {ty: ty.clone().map(|t| t.dict()), ..Param::new("k", PK::NSpread)}); }
                let content = match c { 0 => None, 1 => Some(Param {ty: ty.clone(), ..Param::new("c", PK::Named)}), _ => Some(Param {ty: ty.clone(), ..Param::new("c", PK::Named)}.opt()) };
                let mut names: Vec<String> = params.iter().map(|p| p.name.clone()).collect();
                if let Some(c) = &content { names.push(c.name.clone()); }
                out.push(Sg {params, content, names, implicit});
            } } } }
        } } }
    }
    out
}
/// a call: positional arguments, how many of them through a list; named ones, through a dict or not; content
#[derive(Clone)]
struct Cl { pos: usize, via_list: usize, named: Vec<&'static str>, via_dict: usize, content: bool }
fn calls(max_pos: usize, max_named: usize) -> Vec<Cl> {
    let names = ["x", "y", "w", "c", "_a"];
    let mut sets: Vec<Vec<&'static str>> = vec![vec![]];
    for i in 0..names.len() {
        sets.push(vec![names[i]]);
        if max_named > 1 { for j in 0..names.len() { if i < 4 && j < 4 && i != j { sets.push(vec![names[i], names[j]]); } } }
    }
    let mut out = vec![];
    for pos in 0..=max_pos { for via_list in 0..=pos.min(2) { for s in &sets { for via_dict in 0..=s.len() { for content in [false, true] {
        if s.len() == 2 && s[0] > s[1] && via_dict != 1 { continue; }
        out.push(Cl {pos, via_list, named: s.clone(), via_dict, content});
    } } } } }
    out
}
fn val(k: usize) -> E { [E::Int(1), s("2"), E::Int(3), s("t4"), E::Int(5)][k].clone() }
fn nval(n: &str) -> E { match n { "x" => E::Int(11), "y" => s("12"), "w" => E::Int(13), "c" => E::Int(14), _ => E::Int(15) } }
fn args(c: &Cl) -> Vec<Arg> {
    let mut a = vec![];
    for i in 0..c.pos - c.via_list { a.push(Arg::Pos(val(i))); }
    if c.via_list > 0 { a.push(Arg::Spread(list((c.pos - c.via_list..c.pos).map(val).collect()))); }
    let split = c.named.len() - c.via_dict;
    for n in &c.named[..split] { a.push(Arg::Named(n.to_string(), nval(n))); }
    if c.via_dict > 0 { a.push(Arg::NSpread(dict(c.named[split..].iter().map(|n| (*n, nval(n))).collect()))); }
    a
}
fn cont(c: bool) -> E { if c { E::Int(9) } else { E::Unit } }
/// shows every parameter with its type
fn body(g: &Sg) -> E {
    let l: Vec<E> = g.names.iter().map(|n| list(vec![s(n), v(n), call("typeof", vec![], v(n))])).collect();
    let1("l", list(l), v("l"))
}
fn fdef(g: &Sg) -> E { func(g.params.clone(), g.content.clone(), body(g)) }
fn in_scope(mode: usize, e: E) -> E {
    match mode {
        0 => e,
        1 => E::Let(true, vec![("x".into(), E::Int(91)), ("y".into(), s("92"))], Box::new(e)),
        2 => E::Let(true, vec![("y".into(), E::Int(92))], Box::new(E::Let(false, vec![("x".into(), E::Int(93))], Box::new(e)))),
        _ => E::Let(true, vec![("x".into(), E::Int(91))], Box::new(E::Let(true, vec![("x".into(), s("94")), ("y".into(), s("95"))], Box::new(e)))),
    }
}
fn one(w: &mut Worker, e: E) { check(w, &[A::E(e)]); }

/// all single parameters as written, right and wrong ones
fn forms() -> Vec<Param> {
    let n = Param::new;
    vec![
        n("_a", PK::Pos), n("_b", PK::Pos), n("_a", PK::Pos).opt(), n("_b", PK::Pos).def(E::Int(1)), n("_a", PK::Pos).imp(), n("_s", PK::Spread), n("s", PK::Spread), n("_s", PK::Spread).def(E::Int(1)), n("_t", PK::Spread),
        n("x", PK::Named), n("y", PK::Named), n("x", PK::Named).opt(), n("y", PK::Named).def(E::Int(1)), n("x", PK::Named).imp(), n("y", PK::Named).imp().def(E::Int(1)), n("k", PK::NSpread), n("_k", PK::NSpread), n("c", PK::Named), n("m", PK::NSpread),
        n("y", PK::Named).imp().opt(), n("_s", PK::Spread).ty(Ty::Int.list()), n("k", PK::NSpread).ty(Ty::Int.dict()),
    ]
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every signature x every call x implicits in scope x stages, compared with the reference binder");
    // 1. signatures x calls
    let rounds = if cfg.quick() {
        vec![(signatures(2, 1, &[None]), calls(3, 1)), (signatures(1, 2, &[None]), calls(2, 2)), (signatures(1, 1, &[Some(Ty::Int), Some(Ty::Str)]), calls(2, 1))]
    } else {
        vec![(signatures(2, 2, &[None, Some(Ty::Int)]), calls(3, 2)), (signatures(3, 1, &[None]), calls(4, 1)), (signatures(2, 1, &[Some(Ty::Str), Some(Ty::Int), Some(Ty::Html)]), calls(3, 1))]
    };
    for (sigs, cls) in &rounds {
        let modes = 4;
        let b = [cls.len() as u64, sigs.len() as u64, modes];
        rep.absorb(explore(cfg, b.iter().product(), |w, i| {
            let d = digits(i, &b);
            let (g, c) = (&sigs[d[1]], &cls[d[0]]);
            if d[2] > 0 && !g.implicit { return; }
            one(w, let1("f", fdef(g), in_scope(d[2], call("f", args(c), cont(c.content)))));
        }));
    }
    // 2. stages of partial application
    let (sigs, cls) = if cfg.quick() { (signatures(1, 1, &[None, Some(Ty::Int)]), calls(2, 1)) } else { (signatures(2, 2, &[None, Some(Ty::Str)]), calls(3, 2)) };
    const SPLITS: u64 = 3 * 2 * 2 * 4;
    let b = [cls.len() as u64, sigs.len() as u64, SPLITS];
    rep.absorb(explore(cfg, b.iter().product(), |w, i| {
        let d = digits(i, &b);
        let (g, c) = (&sigs[d[1]], &cls[d[0]]);
        let q = digits(d[2] as u64, &[3, 2, 2, 4]);
        let (np, named_first, content_first, how) = (q[0].min(c.pos), q[1] == 1, q[2] == 1, q[3]);
        if q[0] > c.pos || (c.named.is_empty() && named_first) || (!c.content && content_first) || c.via_list > 0 || c.via_dict > 0 { return; }
        let all = args(c);
        let (mut first, mut rest): (Vec<Arg>, Vec<Arg>) = (vec![], vec![]);
        for (k, a) in all.into_iter().enumerate() {
            let to_first = if matches!(a, Arg::Pos(_)) { k < np } else { named_first };
            if to_first { first.push(a) } else { rest.push(a) }
        }
        let bind = |f: &str, first: Vec<Arg>, content: E| {
            let mut a = vec![Arg::Pos(v(f))];
            a.extend(first);
            call("function::bind", a, content)
        };
        let (c1, c2) = (cont(c.content && content_first), cont(c.content && !content_first));
        one(w, let1("f", fdef(g), match how {
            0 => let1("g", bind("f", first, c1), call("g", rest, c2)),
            // as a method of the function
            1 => let1("g", call("f::bind", first, c1), call("g", rest, c2)),
            // in as many steps as there are arguments
            2 => {
                let mut e = call("f", vec![], E::Unit);
                let mut steps: Vec<(Vec<Arg>, E)> = first.into_iter().chain(rest).map(|a| (vec![a], E::Unit)).collect();
                steps.push((vec![], cont(c.content)));
                if content_first { steps.rotate_right(1); }
                for (a, c) in steps.into_iter().rev() { e = let1("f", bind("f", a, c), e); }
                e
            },
            // the bound function is called by another one
            _ => let1("g", bind("f", first, c1), { let mut a = vec![Arg::Pos(v("g"))]; a.extend(rest); call("function::call", a, c2) }),
        }));
        // the function itself is not changed by being bound
        if how == 0 {
            let mut a = vec![Arg::Pos(v("f"))];
            a.push(Arg::Pos(E::Int(77)));
            one(w, let1("f", fdef(g), let1("g", call("function::bind", a, E::Int(78)), call("f", args(c), cont(c.content)))));
        }
    }));
    // every value as an argument, which is bound or not; values which look like no argument at all
    let vs: Vec<fn() -> E> = vec![|| E::Unit, || s(""), || list(vec![]), || dict(vec![]), || E::Bool(false), || E::Int(0), || tag("b", vec![], vec![]), || v("f")];
    let sigs: Vec<Sg> = signatures(2, 1, &[None]).into_iter().chain(signatures(1, 1, &[Some(Ty::Int.opt()), Some(Ty::Html)])).collect();
    let cls: Vec<Cl> = calls(3, 1).into_iter().filter(|c| c.pos + c.named.len() > 0 && c.named.first().map_or(true, |n| "xyc".contains(n))).collect();
    let bs = [cls.len() as u64, sigs.len() as u64, vs.len() as u64, 4, 3];
    let step = cfg.q(29, 2);
    rep.absorb(explore(cfg, bs.iter().product::<u64>() / step, |w, i| {
        let d = digits(i * step, &bs);
        let (g, c) = (&sigs[d[1]], &cls[d[0]]);
        let val = || vs[d[2]]();
        // the first, the last, or all of them
        let k = c.pos + c.named.len();
        let mut j = 0;
        let mut put = |x: E| { j += 1; if d[4] == 2 || d[4] == 0 && j == 1 || d[4] == 1 && j == k { val() } else { x } };
        let a: Vec<Arg> = args(c).into_iter().map(|a| match a {
            Arg::Pos(x) => Arg::Pos(put(x)),
            Arg::Named(n, x) => Arg::Named(n, put(x)),
            Arg::Spread(E::List(l)) => Arg::Spread(E::List(l.into_iter().map(|(x, s)| (put(x), s)).collect())),
            other => other,
        }).collect();
        let content = cont(c.content);
        one(w, let1("f", fdef(g), match d[3] {
            0 => call("f", a, content),
            1 => let1("g", { let mut x = vec![Arg::Pos(v("f"))]; x.extend(a); call("function::bind", x, content) }, call("g", vec![], E::Unit)),
            2 => { let mut x = vec![Arg::Pos(v("f"))]; x.extend(a); call("function::call", x, content) },
            _ => { let mut a = a; let first = a.remove(0); let1("g", call("f::bind", vec![first], E::Unit), call("g", a, content)) },
        }));
    }));
    // 3. callbacks
    let sigs = signatures(cfg.q(1, 2), cfg.q(1, 2), &[None, Some(Ty::Int), Some(Ty::Str)]);
    rep.absorb(explore(cfg, sigs.len() as u64 * 4 * 3, |w, i| {
        let d = digits(i, &[4, 3, sigs.len() as u64]);
        let g = &sigs[d[2]];
        let l = || list(vec![E::Int(1), s("q"), E::Unit]);
        let e = match d[1] {
            0 => call("list::map", vec![Arg::Pos(v("f"))], l()),
            1 => let1("g", call("function::bind", vec![Arg::Pos(v("f")), Arg::Pos(E::Int(5))], E::Unit), call("list::map", vec![Arg::Pos(v("g"))], l())),
            _ => let1("g", call("function::bind", vec![Arg::Pos(v("f")), Arg::Named("x".into(), E::Int(5))], E::Unit), call("list::map", vec![Arg::Pos(v("g"))], l())),
        };
        one(w, let1("f", fdef(g), in_scope(d[0], e)));
    }));
    // 4. which lists of parameters are signatures at all
    let fm = forms();
    let n = fm.len() as u64;
    let max = cfg.q(3, 4);
    let per = num_seqs(n, 0, max);
    rep.absorb(explore(cfg, per * 3, |w, i| {
        let c = [None, Some(Param::new("c", PK::Named)), Some(Param::new("c", PK::Named).def(E::Int(1)))][(i % 3) as usize].clone();
        let params: Vec<Param> = nth_seq(i / 3, n, 0, max).into_iter().map(|k| fm[k].clone()).collect();
        check(w, &[def("f", params, c, E::Int(1)), t("ok")]);
    }));
    // 7. many parameters and arguments
    let (mp, ma) = (cfg.q(8, 11), cfg.q(10, 13));
    let b = [mp as u64 + 1, mp as u64 + 1, 2, ma as u64 + 1, 4];
    rep.absorb(explore(cfg, b.iter().product(), |w, i| {
        let d = digits(i, &b);
        let (np, req, given) = (d[0], d[1], d[3]);
        if req > np { return; }
        let mut params: Vec<Param> = (0..np).map(|j| ps(&format!("_p{j}"), if j < req { 0 } else { 2 }, None)).collect();
        if d[2] == 1 { params.push(Param::new("_s", PK::Spread)); }
        let g = Sg {names: params.iter().map(|p| p.name.clone()).collect(), params, content: None, implicit: false};
        let arg = |j: usize| Arg::Pos(E::Int(100 + j as i64));
        one(w, let1("f", fdef(&g), match d[4] {
            0 => call("f", (0..given).map(arg).collect(), E::Unit),
            1 => call("f", vec![Arg::Spread(list((0..given).map(|j| E::Int(j as i64)).collect()))], E::Unit),
            2 => { let mut a = vec![arg(90)]; a.push(Arg::Spread(list((0..given).map(|j| E::Int(j as i64)).collect()))); let mut f = vec![Arg::Pos(v("f"))]; f.extend(a); let1("g", call("function::bind", f, E::Unit), call("g", vec![arg(91)], E::Unit)) },
            _ => {
                let mut e = call("f", vec![], E::Unit);
                for j in (0..given).rev() { e = let1("f", call("function::bind", vec![Arg::Pos(v("f")), arg(j)], E::Unit), e); }
                e
            },
        }));
    }));
    let b = [mp as u64 + 1, mp as u64 + 1, 2, ma as u64 + 1, 4];
    rep.absorb(explore(cfg, b.iter().product(), |w, i| {
        let d = digits(i, &b);
        let (nn, req, given) = (d[0], d[1], d[3]);
        if req > nn { return; }
        // required and optional ones alternate
        let mut params: Vec<Param> = (0..nn).map(|j| ps(&format!("p{j}"), if (j * 5) % nn.max(1) < req { 0 } else { 2 }, None)).collect();
        if d[2] == 1 { params.push(Param::new("k", PK::NSpread)); }
        let g = Sg {names: params.iter().map(|p| p.name.clone()).collect(), params, content: None, implicit: false};
        let nv = |j: usize| (format!("p{j}"), E::Int(100 + j as i64));
        let arg = |j: usize| { let (n, e) = nv(j); Arg::Named(n, e) };
        let all: Vec<usize> = (0..given).map(|j| if d[4] % 2 == 0 { j } else { given - 1 - j }).collect();
        one(w, let1("f", fdef(&g), match d[4] {
            0 | 1 => call("f", all.into_iter().map(arg).collect(), E::Unit),
            2 => call("f", vec![Arg::NSpread(E::Call(name("dict::new"), all.into_iter().map(arg).collect(), Box::new(E::Unit)))], E::Unit),
            _ => {
                let mut e = call("f", vec![], E::Unit);
                for j in all { e = let1("f", call("function::bind", vec![Arg::Pos(v("f")), arg(j)], E::Unit), e); }
                e
            },
        }));
    }));
    // 6. every value as a default, for every kind of parameter, alone and with another one after it
    let defaults: Vec<fn() -> E> = vec![|| E::Unit, || E::Bool(false), || E::Int(0), || s(""), || s("d"), || E::Bare("w".into()), || list(vec![]), || dict(vec![]), || group(vec![]), || group(vec![t("g")]), || tag("b", vec![], vec![]), || v("outer"), || call("str::unique_id", vec![], s("u")), || func(vec![], None, E::Int(1)), || v("none"), || call("raise", vec![], s("r"))];
    let tys = [None, Some(Ty::Any), Some(Ty::Html), Some(Ty::Int), Some(Ty::Str.opt()), Some(Ty::Unit), Some(Ty::Int.list())];
    let b = [defaults.len() as u64, tys.len() as u64, 3, 5, 2];
    rep.absorb(explore(cfg, b.iter().product(), |w, i| {
        let d = digits(i, &b);
        let (n, k) = [("_a", PK::Pos), ("x", PK::Named), ("x", PK::Named)][d[2]];
        let mut p = Param {ty: tys[d[1]].clone(), ..Param::new(n, k)};
        if d[2] == 2 { p = p.opt(); }
        p = p.def(defaults[d[0]]());
        let second = if d[4] == 0 { vec![] } else { vec![Param::new("y", PK::Named).def(v("outer"))] };
        let g = Sg {names: std::iter::once(n).chain(second.iter().map(|_| "y")).map(String::from).collect(), params: std::iter::once(p).chain(second).collect(), content: content("c").map(|c| c.opt()), implicit: false};
        let given = |e: E| if d[2] == 0 { Arg::Pos(e) } else { Arg::Named("x".into(), e) };
        one(w, E::Let(false, vec![("outer".into(), s("o")), ("none".into(), E::Unit)], Box::new(let1("f", fdef(&g), match d[3] {
            0 => call("f", vec![], E::Unit),
            1 => call("f", vec![given(E::Unit)], E::Unit),
            2 => call("f", vec![given(E::Int(6))], E::Unit),
            3 => let1("h", call("function::bind", vec![Arg::Pos(v("f"))], E::Int(3)), call("h", vec![], E::Unit)),
            // the default does not change between calls, and is not taken from where the function is called
            _ => let1("outer", s("other"), list(vec![call("f", vec![], E::Unit), call("f", vec![given(E::Int(6))], E::Unit), call("f", vec![], E::Unit)])),
        }))));
    }));
    // 5. which lists of arguments are
    let forms: Vec<fn() -> Arg> = vec![|| Arg::Pos(E::Int(1)), || Arg::Pos(s("p")), || Arg::Spread(list(vec![E::Int(2), E::Int(3)])), || Arg::Spread(list(vec![])), || Arg::Named("x".into(), E::Int(4)), || Arg::Named("y".into(), E::Int(5)),
        || Arg::NSpread(dict(vec![("x", E::Int(6))])), || Arg::NSpread(dict(vec![("y", E::Int(7)), ("z", E::Int(8))])), || Arg::NSpread(dict(vec![])), || Arg::Spread(dict(vec![])), || Arg::NSpread(list(vec![])), || Arg::Spread(E::Unit), || Arg::NSpread(E::Unit)];
    let n = forms.len() as u64;
    let max = cfg.q(3, 4);
    let per = num_seqs(n, 0, max);
    rep.absorb(explore(cfg, per * 3, |w, i| {
        let a: Vec<Arg> = nth_seq(i / 3, n, 0, max).into_iter().map(|k| forms[k]()).collect();
        let g = match i % 3 {
            0 => Sg {params: vec![Param::new("_s", PK::Spread), Param::new("k", PK::NSpread)], content: None, names: vec!["_s".into(), "k".into()], implicit: false},
            1 => Sg {params: vec![ps("_a", 0, None), ps("_b", 1, None), ps("x", 0, None), ps("y", 2, None)], content: content("c"), names: ["_a", "_b", "x", "y", "c"].map(String::from).to_vec(), implicit: false},
            _ => Sg {params: vec![ps("_a", 0, None), Param::new("_s", PK::Spread).ty(Ty::Int.list()), ps("x", 1, None), Param::new("k", PK::NSpread).ty(Ty::Str.dict())], content: content("c").map(|c| c.opt()), names: ["_a", "_s", "x", "k", "c"].map(String::from).to_vec(), implicit: false},
        };
        one(w, let1("f", fdef(&g), call("f", a, E::Unit)));
    }));
    rep
}
