//! C10: library functions compute what they say on every input.
use crate::ast::*;
use crate::engine::*;
use crate::prog::{check, show};

fn b<T>(t: T) -> Box<T> { Box::new(t) }
fn pos(e: E) -> Arg { Arg::Pos(e) }
fn nm(n: &str, e: E) -> Arg { Arg::Named(n.into(), e) }
fn tup(v: Vec<E>) -> E { list(v) }

/// shows the result with its type, and the argument afterwards
fn shown(f: &str, args: Vec<Arg>, content: E) -> Vec<A> {
    vec![A::E(E::Let(false, vec![("v".into(), content), ("r".into(), call(f, args, v("v")))], b(group(vec![A::E(call("typeof", vec![], v("r"))), A::E(let1("l", list(vec![v("r"), v("v")]), v("l")))]))))]
}
fn prelude() -> Vec<A> {
    let m = |p: Vec<(Pat, E)>| E::Match(b(v("x")), p);
    vec![
        def("fst", vec![], content("x"), m(vec![(Pat::List(vec![Pat::Var("a".into()), Pat::Ignore], None), v("a"))])),
        def("isone", vec![], content("x"), m(vec![(Pat::Eq(E::Int(1)), E::Bool(true)), (Pat::Ignore, E::Bool(false))])),
        def("notone", vec![], content("x"), m(vec![(Pat::Eq(E::Int(1)), E::Bool(false)), (Pat::Eq(E::Int(9)), s("no bool")), (Pat::Ignore, E::Bool(true))])),
        def("pair", vec![], content("x"), list(vec![v("x"), v("x")])),
        def("boom", vec![], content("x"), m(vec![(Pat::Eq(E::Int(1)), call("raise", vec![], s("boom"))), (Pat::Ignore, v("x"))])),
        def("noarg", vec![], None, E::Bool(true)),
        def("tagit", vec![], content("x"), tag("b", vec![], vec![A::E(v("x"))])),
        def("typ", vec![], content("x").map(|p| p.ty(Ty::Int)), E::Bool(true)),
    ]
}
/// the function called by name, and as a method of its subject
fn both(w: &mut Worker, f: &str, args: Vec<Arg>, content: E) {
    let with = |body: Vec<A>| { let mut d = prelude(); d.extend(body); d };
    check(w, &with(shown(f, args.clone(), content.clone())));
    let m = f.split("::").nth(1).unwrap_or(f);
    // which argument is the subject depends on the function; the reference interpreter knows
    check(w, &with(vec![A::E(E::Let(false, vec![("v".into(), content)], b(E::Let(false, vec![("r".into(), call(&format!("v::{m}"), args.clone(), E::Unit))], b(group(vec![A::E(call("typeof", vec![], v("r"))), A::E(let1("l", list(vec![v("r"), v("v")]), v("l")))]))))))]));
    if let Some((Arg::Pos(e), rest)) = args.split_first() {
        check(w, &with(vec![A::E(E::Let(false, vec![("v".into(), e.clone())], b(E::Let(false, vec![("r".into(), call(&format!("v::{m}"), rest.to_vec(), E::Unit))], b(let1("l", list(vec![v("r"), v("v")]), v("l")))))))]));
    }
}
fn just(w: &mut Worker, f: &str, args: Vec<Arg>, content: E) { let mut d = prelude(); d.extend(shown(f, args, content)); check(w, &d); }

const INTS: [i64; 13] = [i64::MIN, i64::MIN + 1, -4611686018427387905, -2, -1, 0, 1, 2, 10, 4611686018427387904, 4611686018427387903, i64::MAX - 1, i64::MAX];
fn ints(n: usize) -> Vec<E> { (0..n).map(|k| E::Int(k as i64 + 1)).collect() }

/// values of all kinds for arguments of every parameter of every function
fn any_values() -> Vec<E> {
    vec![
        E::Unit, E::Bool(true), E::Bool(false), E::Int(0), E::Int(-1), E::Int(1), s(""), s("a b"), s("ab"), s("a"), v("isone"), v("noarg"), v("list::len"), call("regex::compile", vec![], s("a")),
        tag("b", vec![], vec![t("i")]), tag("br", vec![], vec![]), group(vec![t("g"), A::E(tag("b", vec![], vec![]))]), tag("ul", vec![At::Attr("class".into(), Some(s("k"))), At::Attr("style".into(), Some(s("z")))], vec![]),
        list(vec![]), list(ints(2)), list(vec![s("b"), s("a")]), list(vec![list(vec![E::Int(1)]), E::Unit]), list(vec![tag("b", vec![], vec![]), s("x")]), dict(vec![]), dict(vec![("a", E::Int(1)), ("class", E::Unit)]), dict(vec![("id", s("a"))]),
    ]
}
const NAMES: &[&str] = &["bool::and", "bool::or", "bool::from", "bool::negate", "int::add", "int::negate", "int::parse", "str::ends_with", "str::starts_with", "str::from", "str::split", "str::escape_html", "str::is_empty", "str::is_whitespace", "str::len", "str::lower", "str::trim", "str::upper",
    "regex::compile", "regex::count", "regex::find", "regex::find_all", "regex::split", "regex::test", "function::bind", "function::name", "function::call", "html::escape_html", "html::is_empty", "html::is_whitespace", "html::tag_name", "inline::from", "block::from",
    "list::all", "list::any", "list::find", "list::map", "list::filter", "list::contains", "list::enumerate", "list::flat", "list::is_empty", "list::len", "list::get", "list::html_nodes", "list::join", "list::slice", "list::sorted", "list::reversed",
    "dict::get", "dict::new", "dict::is_empty", "dict::items", "dict::keys", "dict::len", "dict::values", "raise", "typeof", "attributes", "class", "style",
    "b", "blockquote", "bold", "cite", "dfn", "emph", "href", "i", "image", "kbd", "quote", "samp", "span", "sub", "sup", "strikethrough", "underline", "h1", "h2", "h3", "h4", "h5", "h6", "numbered", "footnote"];

fn strings(alphabet: &[char], max: usize) -> Vec<String> {
    let k = alphabet.len() as u64;
    (0..num_seqs(k, 0, max)).map(|i| nth_seq(i, k, 0, max).into_iter().map(|j| alphabet[j]).collect()).collect()
}
fn bases(v: &[usize]) -> Vec<u64> { v.iter().map(|x| *x as u64).collect() }
fn grid(cfg: &Cfg, rep: &mut Report, sizes: &[usize], f: impl Fn(&mut Worker, &[usize]) + Sync) {
    let bs = bases(sizes);
    rep.absorb(explore(cfg, bs.iter().product(), |w, i| f(w, &digits(i, &bs))));
}

thread_local! { static MANY: std::cell::RefCell<Vec<&'static str>> = const { std::cell::RefCell::new(vec![]) }; }
/// one of many names
fn name_of(k: usize) -> &'static str { MANY.with(|n| { let mut n = n.borrow_mut(); while n.len() <= k { let x = Box::leak(format!("n{}", n.len()).into_boxed_str()); n.push(x); } n[k] }) }

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every library function on every combination of arguments of a bounded domain, by name and as a method, compared with reference definitions; result, type, error, and that the argument is unchanged");
    // 1. every function x every kind of value for its first two arguments and its content
    let vals = any_values();
    let n = vals.len();
    let step = cfg.q(3, 1);
    grid(cfg, &mut rep, &[NAMES.len(), n, n + 1], |w, d| {
        let f = NAMES[d[0]];
        let args: Vec<Arg> = if d[2] == n { vec![] } else { vec![pos(vals[d[2]].clone())] };
        both(w, f, args, vals[d[1]].clone());
    });
    let two: Vec<&str> = vec!["bool::and", "bool::or", "int::add", "str::ends_with", "str::starts_with", "list::slice", "function::bind", "function::call", "str::split", "list::get"];
    grid(cfg, &mut rep, &[two.len(), n, n.div_ceil(step), n.div_ceil(step)], |w, d| just(w, two[d[0]], vec![pos(vals[d[1]].clone()), pos(vals[d[2] * step].clone())], vals[d[3] * step].clone()));
    // named arguments of the functions which have them
    let named = [("list::sorted", "key"), ("list::sorted", "reversed"), ("list::enumerate", "from"), ("attributes", "id"), ("attributes", "class"), ("image", "alt"), ("blockquote", "cite"), ("dict::new", "k"), ("function::bind", "x"), ("list::join", "sep")];
    grid(cfg, &mut rep, &[named.len(), n, n], |w, d| just(w, named[d[0]].0, vec![nm(named[d[0]].1, vals[d[1]].clone())], vals[d[2]].clone()));

    // 2. integers
    let ni = INTS.len();
    grid(cfg, &mut rep, &[ni, ni, ni + 1], |w, d| {
        let mut a = vec![E::Int(INTS[d[0]]), E::Int(INTS[d[1]])];
        if d[2] < ni { a.push(E::Int(INTS[d[2]])); }
        check(w, &shown("int::add", a.into_iter().map(pos).collect(), E::Unit));
    });
    grid(cfg, &mut rep, &[ni, 6], |w, d| match d[1] {
        0 => both(w, "int::negate", vec![], E::Int(INTS[d[0]])),
        1 => both(w, "bool::from", vec![], E::Int(INTS[d[0]])),
        2 => both(w, "str::from", vec![], E::Int(INTS[d[0]])),
        3 => both(w, "list::enumerate", vec![nm("from", E::Int(INTS[d[0]]))], list(ints(3))),
        4 => both(w, "list::get", vec![pos(E::Int(INTS[d[0]]))], list(ints(3))),
        _ => both(w, "int::parse", vec![], s(&INTS[d[0]].to_string())),
    });
    let digs = strings(&['-', '+', '0', '1', '9', ' ', '.', '\u{661}'], cfg.q(4, 5));
    grid(cfg, &mut rep, &[digs.len()], |w, d| just(w, "int::parse", vec![], s(&digs[d[0]])));
    let near: Vec<String> = ["9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551616", "99999999999999999999999999", "0009223372036854775807"].iter().flat_map(|x| ["", "-", "+", " ", "--"].map(|p| format!("{p}{x}"))).collect();
    grid(cfg, &mut rep, &[near.len()], |w, d| just(w, "int::parse", vec![], s(&near[d[0]])));
    grid(cfg, &mut rep, &[2, 2, 2], |w, d| both(w, ["bool::and", "bool::or"][d[2]], vec![pos(E::Bool(d[0] == 1)), pos(E::Bool(d[1] == 1))], E::Unit));

    // 3. strings
    let st = strings(&['a', 'B', ' ', '\n', '<', '\u{df}', '\u{a0}', '\u{1c5}'], cfg.q(3, 4));
    let sf = ["str::escape_html", "str::is_empty", "str::is_whitespace", "str::len", "str::lower", "str::trim", "str::upper", "html::escape_html", "html::is_whitespace", "bool::from", "typeof"];
    grid(cfg, &mut rep, &[st.len(), sf.len()], |w, d| both(w, sf[d[1]], vec![], s(&st[d[0]])));
    // every character
    let chunk = 64;
    grid(cfg, &mut rep, &[0x110000 / chunk, 3], |w, d| {
        let mut l = vec![];
        for c in (d[0] * chunk..(d[0] + 1) * chunk).filter_map(|c| char::from_u32(c as u32)) {
            if matches!(c, '`' | '\r' | '\n') { continue; }
            l.push(s(&c.to_string()));
        }
        if l.is_empty() { return; }
        check(w, &[A::E(let1("r", call("list::map", vec![pos(v(["str::lower", "str::upper", "str::trim"][d[1]]))], list(l.clone())), v("r"))),
            A::E(let1("r", call("list::map", vec![pos(v(["str::len", "str::is_whitespace", "str::escape_html"][d[1]]))], list(l)), v("r")))]);
    });
    // characters whose upper or lower form depends on their neighbours, or has another length
    let ca = strings(&['a', '\u{3a3}', ' ', '\'', '\u{130}', '\u{df}', '\u{301}', '\u{1c5}', '\u{149}', '.'], cfg.q(4, 5));
    grid(cfg, &mut rep, &[ca.len().div_ceil(8), 3], |w, d| {
        let l: Vec<E> = ca[d[0] * 8..].iter().take(8).map(|x| s(x)).collect();
        check(w, &[A::E(let1("r", call("list::map", vec![pos(v(["str::lower", "str::upper", "str::trim"][d[1]]))], list(l)), v("r")))]);
    });
    let (subj, seps) = (strings(&['a', 'b', ','], cfg.q(5, 7)), strings(&['a', 'b', ','], 2));
    grid(cfg, &mut rep, &[subj.len(), seps.len(), 3], |w, d| match d[2] {
        0 => just(w, "str::split", vec![pos(s(&seps[d[1]]))], s(&subj[d[0]])),
        k => just(w, ["", "str::starts_with", "str::ends_with"][k], vec![pos(s(&subj[d[0]])), pos(s(&seps[d[1]]))], E::Unit),
    });
    let (subj, seps) = (strings(&['\u{e9}', '\u{1f600}', 'x'], 4), strings(&['\u{e9}', '\u{1f600}', 'x'], 2));
    grid(cfg, &mut rep, &[subj.len(), seps.len(), 3], |w, d| match d[2] {
        0 => both(w, "str::split", vec![pos(s(&seps[d[1]]))], s(&subj[d[0]])),
        k => both(w, ["", "str::starts_with", "str::ends_with"][k], vec![pos(s(&subj[d[0]])), pos(s(&seps[d[1]]))], E::Unit),
    });

    // 4. regular expressions
    let toks = ["a", "b", ".", "*", "+", "?", "|", "(", ")", "(?:", "(?P<n>", "(?P<m>", "^", "$", "[ab]", "[^a]", "\\.", "+?"];
    let nt = toks.len() as u64;
    let mt = cfg.q(3, 4);
    let pats: Vec<String> = (0..num_seqs(nt, 0, mt)).map(|i| nth_seq(i, nt, 0, mt).into_iter().map(|j| toks[j]).collect::<String>()).chain(
        ["(a)(b)", "(a)|(b)", "(a*)(b*)", "(?P<n>a)(?P<m>b)", "(?P<n>a)|(?P<m>b)", "(?P<n>a)(b)", "(a)(?P<n>b)", "(?P<n>a)(?P<n>b)", "(a|b)*", "(a|ab)(b|)", "a*?b", "(a*)*", "(?P<_x>a)", "(?P<x1>a)", "(?P<n>a(?P<m>b?))", "((a)b)", "(a)?b", "a??b"].iter().map(|x| x.to_string())).collect();
    let subj = strings(&['a', 'b', '\n'], cfg.q(3, 4));
    let rf = ["count", "find", "find_all", "split", "test"];
    rep.extra.insert("regular expressions".into(), pats.len().to_string());
    // all functions and all strings in one program for each expression
    grid(cfg, &mut rep, &[pats.len(), subj.len().div_ceil(8)], |w, d| {
        let p = &pats[d[0]];
        let mut l = vec![];
        for x in subj.iter().skip(d[1] * 8).take(8) { for f in rf { l.push(call(&format!("regex::{f}"), vec![pos(v("r"))], s(x))); } l.push(call("r::find", vec![], s(x))); }
        // a repetition of a group which can be empty is matched in different ways by different engines
        if let Some(r) = crate::rx::parse(p) { if crate::rx::odd(&r.x) { w.stats.count("skipped: nested repetition"); return; }
            if crate::rx::anchored_alternative(&r.x) { w.stats.count("skipped: anchored alternative"); return; } }
        check(w, &[A::E(let1("r", call("regex::compile", vec![], s(p)), E::Let(false, vec![("l".into(), list(l))], b(v("l")))))]);
    });

    // a defect of the regex crate: after the first match, `^` matches where the search goes on
    rep.absorb(explore(cfg, 1, |w, _| {
        let d = [A::E(let1("r", call("regex::compile", vec![], s("^b|$")), let1("l", call("regex::find_all", vec![pos(v("r"))], s("bb")), v("l"))))];
        let out = w.compile(&print(&d));
        let want = crate::sem::expect(&d).unwrap();
        if out.ok_html() != want.as_deref() { w.stats.violation("regex-anchored-alternative", format!("{}\nexpected {}\ncompiler: {}", print(&d), show(&want), out.describe())); }
    }));

    // 5. lists
    let m = cfg.q(4, 5);
    let idx: Vec<i64> = (-(m as i64) - 2..=m as i64 + 2).chain([i64::MIN, i64::MIN + 1, i64::MAX, 4294967295, 4294967296, -4294967296]).collect();
    grid(cfg, &mut rep, &[m + 1, idx.len(), idx.len() + 1], |w, d| {
        let l = list(ints(d[0]));
        let mut a = vec![pos(E::Int(idx[d[1]]))];
        if d[2] == idx.len() { both(w, "list::get", a.clone(), l.clone()); } else { a.push(pos(E::Int(idx[d[2]]))); }
        both(w, "list::slice", a, l);
    });
    // slices of slices, and as names
    grid(cfg, &mut rep, &[5, 7, 7, 7, 7], |w, d| {
        let i = |k: usize| pos(E::Int(d[k] as i64 - 3));
        check(w, &[A::E(E::Let(false, vec![("l".into(), list(ints(d[0]))), ("m".into(), call("l::slice", vec![i(1), i(2)], E::Unit)), ("n".into(), call("m::slice", vec![i(3), i(4)], E::Unit)), ("r".into(), list(vec![v("l"), v("m"), v("n"), call("list::reversed", vec![], v("n")), call("n::len", vec![], E::Unit)]))], b(v("r"))))]);
    });
    grid(cfg, &mut rep, &[m + 1, 2 * m + 5], |w, d| {
        let i = d[1] as i64 - m as i64 - 2;
        for c in [false, true] { check(w, &[A::E(let1("l", list(ints(d[0])), let1("r", E::Var(Name::Index(b(name("l")), c, i)), v("r"))))]); }
    });
    // indices at the ends of the range, into every kind of value
    grid(cfg, &mut rep, &[ni + 4, n, 2], |w, d| {
        let i = if d[0] < ni { INTS[d[0]] } else { [4294967295, 4294967296, -4294967296, -2147483648][d[0] - ni] };
        check(w, &[def("isone", vec![], content("x"), v("x")), def("noarg", vec![], None, E::Bool(true)), A::E(let1("l", vals[d[1]].clone(), let1("r", E::Var(Name::Index(b(name("l")), d[2] == 1, i)), let1("z", list(vec![v("r")]), v("z")))))]);
    });
    // functions of lists: every list up to a length
    let items = [E::Int(1), E::Int(2), s("a"), E::Unit, E::Bool(true), list(vec![E::Int(1), E::Int(2)]), list(vec![]), tag("b", vec![], vec![t("x")]), E::Int(9)];
    let k = items.len() as u64;
    let lm = cfg.q(3, 4);
    let nl = num_seqs(k, 0, lm);
    let funs: Vec<(&str, Vec<Arg>)> = vec![
        ("list::all", vec![pos(v("isone"))]), ("list::all", vec![pos(v("notone"))]), ("list::any", vec![pos(v("isone"))]), ("list::any", vec![pos(v("notone"))]), ("list::find", vec![pos(v("isone"))]), ("list::find", vec![pos(v("notone"))]), ("list::filter", vec![pos(v("isone"))]), ("list::filter", vec![pos(v("notone"))]), ("list::filter", vec![]),
        ("list::map", vec![pos(v("pair"))]), ("list::map", vec![pos(v("tagit"))]), ("list::map", vec![pos(v("boom"))]), ("list::any", vec![pos(v("typ"))]), ("list::all", vec![pos(v("noarg"))]), ("list::contains", vec![pos(E::Int(1))]), ("list::contains", vec![pos(s("a"))]), ("list::contains", vec![pos(list(vec![]))]), ("list::contains", vec![pos(tag("b", vec![], vec![t("x")]))]),
        ("list::enumerate", vec![]), ("list::flat", vec![]), ("list::is_empty", vec![]), ("list::len", vec![]), ("list::reversed", vec![]), ("list::sorted", vec![]), ("list::join", vec![]), ("list::join", vec![pos(s(", "))]), ("list::join", vec![pos(tag("br", vec![], vec![]))]), ("list::join", vec![pos(group(vec![t("-"), A::E(tag("b", vec![], vec![]))]))]), ("bool::from", vec![]),
    ];
    rep.absorb(explore(cfg, nl * funs.len() as u64, |w, i| {
        let (f, a) = &funs[(i % funs.len() as u64) as usize];
        let l = list(nth_seq(i / funs.len() as u64, k, 0, lm).into_iter().map(|j| items[j].clone()).collect());
        just(w, f, a.clone(), l);
    }));
    // sorting: keys and items which can be told apart; stable in both directions
    let sm = cfg.q(5, 7);
    let keys: Vec<Vec<E>> = vec![vec![E::Int(1), E::Int(2), E::Int(-1)], vec![s("a"), s("B"), s("ab")], vec![E::Int(1), E::Int(10)], vec![s(""), s("\u{e9}"), s("z")], vec![E::Int(1), s("a")], vec![E::Bool(true), E::Bool(false)]];
    let ns = num_seqs(3, 0, sm);
    rep.absorb(explore(cfg, ns * keys.len() as u64 * 4, |w, i| {
        let d = digits(i, &[4, keys.len() as u64, ns]);
        let ks = &keys[d[1]];
        let q: Vec<usize> = nth_seq(d[2] as u64, 3, 0, sm);
        if q.iter().any(|j| *j >= ks.len()) { return; }
        let rev = Arg::Named("reversed".into(), E::Bool(d[0] % 2 == 1));
        if d[0] < 2 { just(w, "list::sorted", vec![rev], list(q.iter().map(|j| ks[*j].clone()).collect())); }
        else { just(w, "list::sorted", vec![nm("key", v("fst")), rev], list(q.iter().enumerate().map(|(p, j)| tup(vec![ks[*j].clone(), E::Int(p as i64)])).collect())); }
    }));
    // longer lists, where other algorithms take over: patterns of keys which can be told apart
    let lens: Vec<usize> = if cfg.quick() { vec![16, 20, 21, 22, 33, 50, 64, 65, 130] } else { (8..=80).chain([127, 128, 129, 255, 300, 513, 1000]).collect() };
    let pats: [fn(usize, usize) -> usize; 9] = [|k, _| k % 2, |k, _| k % 3, |_, _| 0, |k, n| k * 2 / n, |k, n| 1 - k * 2 / n, |k, _| (k * k) % 3, |k, _| (k * 7 + k / 5) % 3, |k, n| (n - k) % 3, |k, _| (k.trailing_zeros() as usize) % 3];
    let kinds = [vec![E::Int(1), E::Int(2), E::Int(-1)], vec![s("a"), s("B"), s("ab")]];
    grid(cfg, &mut rep, &[lens.len(), pats.len(), 2, 4], |w, d| {
        let n = lens[d[0]];
        let ks: Vec<E> = (0..n).map(|k| kinds[d[2]][pats[d[1]](k, n)].clone()).collect();
        let rev = Arg::Named("reversed".into(), E::Bool(d[3] % 2 == 1));
        if d[3] < 2 { just(w, "list::sorted", vec![rev], list(ks)); } else { just(w, "list::sorted", vec![nm("key", v("fst")), rev], list(ks.into_iter().enumerate().map(|(p, k)| tup(vec![k, E::Int(p as i64)])).collect())); }
    });
    // equality of all pairs: of values of every kind, of parts of one list, of lists and dicts which differ in one place
    let mut eqs = any_values();
    eqs.extend([call("regex::compile", vec![], s("A")), call("regex::compile", vec![], s("(a)")), call("regex::compile", vec![], s("a")), s("A"), s("1"), s("True"), s("\u{e9}"), s("e\u{301}"), E::Int(i64::MAX), E::Int(i64::MIN), E::Int(i64::MAX - 1), E::Int(4294967296 + 1),
        dict(vec![("class", E::Unit), ("a", E::Int(1))]), dict(vec![("a", E::Int(1))]), dict(vec![("a", E::Int(1)), ("class", E::Int(1))]), dict(vec![("a", E::Int(1)), ("b", E::Unit)]), list(vec![E::Unit]), list(vec![list(vec![])]), list(vec![dict(vec![])]), list(vec![dict(vec![("a", s("x"))])]), list(vec![s("1"), E::Int(2)]), list(vec![E::Int(2), E::Int(1)]), group(vec![t("a")]), tag("i", vec![], vec![t("i")]), tag("b", vec![], vec![t("j")])]);
    for i in 0..4 { for j in 0..5 { eqs.push(call("list::slice", vec![pos(E::Int(i)), pos(E::Int(j))], v("base"))); } }
    for n in [8usize, 9, 17, 33] { for k in 0..=n { eqs.push(list((0..n).map(|j| if j == k { s("d") } else { E::Int(j as i64) }).collect())); } eqs.push(list(ints(n))); eqs.push(dict((0..n).map(|j| (["k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9", "l0", "l1", "l2", "l3", "l4", "l5", "l6"].get(j).copied().unwrap_or("m"), E::Int(j as i64))).take(17).collect())); }
    let ne = eqs.len();
    grid(cfg, &mut rep, &[ne, ne], |w, d| {
        if cfg.quick() && d[0] > 70 && d[1] > 70 && (d[0] + 3 * d[1]) % 5 != 0 && d[0] != d[1] { return; }
        check(w, &[A::E(E::Let(false, vec![("base".into(), list(vec![E::Int(1), E::Int(2), E::Int(1), E::Int(2)]))], b(E::Let(false, vec![("x".into(), eqs[d[0]].clone()), ("y".into(), eqs[d[1]].clone())], b(group(vec![
            A::E(call("list::contains", vec![pos(v("x"))], list(vec![v("y")]))), A::Sp,
            A::E(E::Match(b(v("x")), vec![(Pat::Eq(v("y")), s("same")), (Pat::Ignore, s("other"))])),
            A::E(E::Match(b(v("y")), vec![(Pat::Eq(v("x")), s("same")), (Pat::Ignore, s("other"))])),
        ]))))))]);
    });
    // two parts of one list, which share its items
    let most = cfg.q(4, 6);
    let lists = num_seqs(2, 0, most);
    let cuts: Vec<(usize, usize)> = (0..=most).flat_map(|p| (0..=most - p).map(move |q| (p, q))).collect();
    let nc = cuts.len() as u64;
    rep.absorb(explore(cfg, lists * nc * nc * 2, |w, i| {
        let d = digits(i, &[lists, nc, nc, 2]);
        let l = nth_seq(d[0] as u64, 2, 0, most);
        let ((p, q), (r, z)) = (cuts[d[1]], cuts[d[2]]);
        if p + q > l.len() || r + z > l.len() { return; }
        let part = |p: usize, q: usize, n: &str| Pat::List((0..=p + q).map(|k| if k == p { Pat::Var(n.into()) } else { Pat::Ignore }).collect(), Some(p));
        let same = |x: E, y: E| E::Match(b(x), vec![(Pat::Eq(y), s("same")), (Pat::Ignore, s("other"))]);
        let see = group(vec![A::E(v("a")), A::E(v("b")), A::E(same(v("a"), v("b"))), A::Sp, A::E(same(list(vec![v("a")]), list(vec![v("b")]))), A::Sp, A::E(same(dict(vec![("k", v("b"))]), dict(vec![("k", v("a"))]))), A::Sp, A::E(same(v("l"), v("a"))), A::Sp, A::E(same(v("b"), v("l"))), A::Sp, A::E(call("list::contains", vec![pos(v("b"))], list(vec![E::Unit, v("a")])))]);
        let value = list(l.iter().map(|k| E::Int(*k as i64 + 1)).collect());
        let body = if d[3] == 0 { E::Match(b(v("l")), vec![(Pat::And(b(part(p, q, "a")), b(part(r, z, "b"))), see), (Pat::Ignore, s("none"))]) }
            else { if p + q + r + z > l.len() { return; } E::Match(b(v("l")), vec![(part(p, q, "a"), E::Match(b(v("a")), vec![(part(r, z, "b"), see), (Pat::Ignore, s("none"))])), (Pat::Ignore, s("none"))]) };
        check(w, &[A::E(let1("l", value, body))]);
    }));
    // every function of lists, on lists of every length
    let longest = cfg.q(24, 80);
    let froms = [-9i64, -1, 0, 1, 7, i64::MAX - 5, i64::MIN];
    let extra: Vec<(&str, Vec<Arg>)> = funs.iter().cloned().chain(froms.iter().map(|n| ("list::enumerate", vec![nm("from", E::Int(*n))]))).chain([-30i64, -12, -3, 0, 5, 11, 23].iter().flat_map(|n| [("list::get", vec![pos(E::Int(*n))]), ("list::slice", vec![pos(E::Int(*n))]), ("list::slice", vec![pos(E::Int(2)), pos(E::Int(*n))])])).collect();
    grid(cfg, &mut rep, &[longest + 1, extra.len(), 4], |w, d| {
        let n = d[0];
        let l: Vec<E> = (0..n).map(|k| match d[2] {
            0 => E::Int(k as i64 + 2),
            1 => s(&format!("s{}", (k * 7) % 10)),
            // one item differs, at the end or in the middle
            2 => if k + 1 == n { s("a") } else { E::Int(1) },
            _ => if k == n / 2 { list(vec![]) } else { list(vec![E::Int(k as i64), s("b")]) },
        }).collect();
        just(w, extra[d[1]].0, extra[d[1]].1.clone(), list(l));
    });
    // every function of strings, on strings of every length
    let longest = cfg.q(70, 300);
    let cuts: Vec<(&str, Vec<Arg>)> = sf.iter().map(|f| (*f, vec![])).chain(["a", " ", "ab", "", "\u{e9}", "b a"].iter().flat_map(|x| [("str::split", vec![pos(s(x))]), ("regex::split", vec![pos(call("regex::compile", vec![], s(x)))]), ("regex::find_all", vec![pos(call("regex::compile", vec![], s(x)))])])).chain([("str::from", vec![]), ("list::html_nodes", vec![]), ("code", vec![])]).collect();
    grid(cfg, &mut rep, &[longest + 1, cuts.len(), 5], |w, d| {
        let x: String = (0..d[0]).map(|k| match d[2] { 0 => 'a', 1 => [' ', 'a', 'b'][k % 3], 2 => if k + 1 == d[0] { '\u{e9}' } else { 'a' }, 3 => if k == 0 || k + 1 == d[0] { ' ' } else { 'B' }, _ => ['\u{1f600}', '<', 'a', '\u{df}'][k % 4] }).collect();
        just(w, cuts[d[1]].0, cuts[d[1]].1.clone(), s(&x));
    });
    // and on long strings and lists, of lengths around the powers of two
    let lens: &[usize] = if cfg.quick() { &[127, 128, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 2049, 4095, 4096, 4097] } else { &[127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16385, 32767, 32768, 32769, 65535, 65536, 65537] };
    grid(cfg, &mut rep, &[lens.len(), cuts.len(), 4], |w, d| {
        let n = lens[d[0]];
        if n > 600 && d[2] > 1 && cfg.quick() { return; }
        let x: String = (0..n).map(|k| match d[2] { 0 => 'a', 1 => [' ', 'a', 'b'][k % 3], 2 => if k + 1 == n { '\u{e9}' } else { 'a' }, _ => ['\u{1f600}', '<', 'a', '\u{df}'][k % 4] }).collect();
        just(w, cuts[d[1]].0, cuts[d[1]].1.clone(), s(&x));
    });
    grid(cfg, &mut rep, &[lens.len(), extra.len(), 2], |w, d| {
        let n = lens[d[0]];
        if n > 600 && (d[0] + d[1]) % 3 > 0 && cfg.quick() { return; }
        just(w, extra[d[1]].0, extra[d[1]].1.clone(), list((0..n).map(|k| if d[2] == 0 { E::Int((k * 7919 % n) as i64) } else { s(["q", "r", "q"][k % 3]) }).collect()));
    });
    // and of dicts, with every number of entries
    grid(cfg, &mut rep, &[cfg.q(24, 60) + 1, 9], |w, d| {
        let e = dict((0..d[0]).map(|k| (["a", "len", "b", "c", "get", "keys", "x1", "x2", "x3", "x4", "x5", "y1", "y2", "y3", "y4", "y5", "z1", "z2", "z3", "z4", "z5", "z6", "z7", "z8", "z9"].get(k).copied().unwrap_or_else(|| Box::leak(format!("k{k}").into_boxed_str())), E::Int(k as i64))).collect());
        match d[1] { 6 => just(w, "dict::get", vec![pos(s("z3"))], e), 7 => just(w, "dict::new", vec![Arg::NSpread(e)], E::Unit), 8 => just(w, "typeof", vec![], e), k => just(w, ["dict::is_empty", "dict::items", "dict::keys", "dict::len", "dict::values", "bool::from"][k], vec![], e) }
    });
    // long dicts and texts with many names
    grid(cfg, &mut rep, &[lens.len(), 6], |w, d| {
        let n = lens[d[0]].min(9000);
        let keys: Vec<&'static str> = (0..n).map(|k| name_of(k)).collect();
        let e = dict(keys.iter().enumerate().map(|(k, x)| (*x, E::Int(k as i64))).collect());
        match d[1] { 0 => just(w, "dict::len", vec![], e), 1 => just(w, "dict::keys", vec![], e), 2 => just(w, "dict::get", vec![pos(s(keys[n - 1]))], e), 3 => just(w, "dict::get", vec![pos(s(keys[0]))], e), 4 => just(w, "dict::get", vec![pos(s("no_such_key"))], e),
            _ => { check(w, &[A::E(E::Let(false, keys.iter().enumerate().map(|(k, x)| (x.to_string(), E::Int(k as i64))).collect(), b(group(vec![A::E(v(keys[0])), A::Sp, A::E(v(keys[n / 2])), A::Sp, A::E(v(keys[n - 1]))]))))]); } }
    });
    // html nodes and joining
    let hs = [t("a"), A::E(tag("b", vec![], vec![t("x")])), A::E(tag("br", vec![], vec![])), A::Sp, A::E(tag("p", vec![], vec![t("y")])), A::Char('\u{e9}')];
    let nh = num_seqs(hs.len() as u64, 0, cfg.q(4, 5));
    rep.absorb(explore(cfg, nh, |w, i| {
        let h = group(nth_seq(i, hs.len() as u64, 0, 5).into_iter().map(|j| hs[j].clone()).collect());
        just(w, "list::html_nodes", vec![], h.clone());
        both(w, "html::is_empty", vec![], h.clone());
        both(w, "html::is_whitespace", vec![], h.clone());
        both(w, "html::escape_html", vec![], h.clone());
        check(w, &[A::E(let1("l", call("list::html_nodes", vec![], h), call("l::join", vec![], E::Unit)))]);
    }));

    // 6. dicts
    let dk = ["a", "b", "len", "get", "keys", "c"];
    let dv = [E::Int(1), E::Unit, s("x"), list(vec![E::Int(1)])];
    let nd = num_seqs((3 * dv.len()) as u64, 0, 3);
    let df = ["dict::is_empty", "dict::items", "dict::keys", "dict::len", "dict::values", "bool::from", "dict::new"];
    rep.absorb(explore(cfg, nd, |w, i| {
        let q = nth_seq(i, (3 * dv.len()) as u64, 0, 3);
        let es: Vec<(&str, E)> = q.iter().map(|j| (["a", "len", "b"][j / dv.len()], dv[j % dv.len()].clone())).collect();
        for f in &df[..6] { just(w, f, vec![], dict(es.clone())); }
        for k in dk {
            just(w, "dict::get", vec![pos(s(k))], dict(es.clone()));
            for c in [false, true] { check(w, &[A::E(E::Let(false, vec![("d".into(), dict(es.clone())), ("r".into(), E::Var(Name::Attr(b(name("d")), c, k.into()))), ("l".into(), list(vec![v("r")]))], b(v("l"))))]); }
        }
        // a new dict of parts of two
        let (x, y) = es.split_at(es.len() / 2);
        check(w, &[A::E(let1("r", call("dict::new", vec![Arg::NSpread(dict(x.to_vec())), Arg::NSpread(dict(y.to_vec()))], E::Unit), v("r")))]);
    }));

    // keys which are not the name of an entry, but look like one
    let bases = ["a", "len", "a b", "_a", "0", "\u{e9}", ""];
    let edits = 16usize;
    grid(cfg, &mut rep, &[bases.len(), edits, 4], |w, d| {
        let x = bases[d[0]];
        let key = match d[1] {
            0 => x.into(), 1 => format!(" {x}"), 2 => format!("{x} "), 3 => x.to_uppercase(), 4 => format!("_{x}"), 5 => format!("{x}_"), 6 => format!("{x}\n"), 7 => format!("\t{x}"), 8 => format!("`{x}`"), 9 => format!("\"{x}\""), 10 => format!("${x}"), 11 => format!("{x}\u{301}"),
            12 => format!("{x}\0"), 13 => format!("{x}::a"), 14 => format!("\u{feff}{x}"), _ => format!("\u{a0}{x}"),
        };
        let e = dict([vec![("a", E::Int(1))], vec![("a", s("x")), ("len", E::Int(2))], vec![("A", E::Int(3)), ("a_", E::Int(5)), ("a", E::Int(4))], vec![]][d[2]].clone());
        both(w, "dict::get", vec![pos(s(&key))], e);
    });

    let dv = [E::Int(0), E::Unit, s(""), s("x"), list(vec![]), list(vec![E::Unit]), dict(vec![]), dict(vec![("a", E::Int(1))]), E::Bool(false), tag("b", vec![], vec![]), group(vec![]), v("df")];
    let k = dv.len() as u64;
    grid(cfg, &mut rep, &[k as usize, k as usize, k as usize, cfg.q(2, k as usize), 8], |w, d| {
        // of five entries, the fifth is as the first
        let keys = ["a", "b", "len", "get", "x"];
        let e = dict((0..if d[3] == 0 { 3 } else { 5 }).map(|j| (keys[j], dv[match j { 3 => (d[0] + d[1] + d[3]) % k as usize, 4 => d[0], j => d[j] }].clone())).collect());
        let l = || list(vec![v("r"), call("typeof", vec![], v("r"))]);
        let c = match d[4] { 0 => call("dict::values", vec![], e), 1 => call("dict::items", vec![], e), 2 => call("dict::get", vec![pos(s("len"))], e), 3 => call("dict::len", vec![], e), 4 => call("dict::keys", vec![], e), 5 => call("dict::new", vec![Arg::NSpread(e)], E::Unit), 6 => call("dict::is_empty", vec![], e), _ => call("list::map", vec![Arg::Pos(v("typeof"))], call("dict::values", vec![], e)) };
        check(w, &[def("df", vec![], None, E::Int(1)), A::E(let1("r", c, let1("l", l(), v("l"))))]);
    });
    // 7. functions of tags in the standard library: with every combination of attributes
    let an = ["class", "style", "id", "k"];
    let names = ["b", "p", "ul", "br", "ol", "a"];
    grid(cfg, &mut rep, &[names.len(), 3usize.pow(4), 9], |w, d| {
        let mut at = vec![];
        let mut k = d[1];
        for n in an { match k % 3 { 1 => at.push(At::Attr(n.into(), Some(s(&format!("{n}1"))))), 2 => at.push(At::Attr(n.into(), None)), _ => {} } k /= 3; }
        let c = || if names[d[0]] == "br" { vec![] } else if matches!(names[d[0]], "ul" | "ol") { vec![A::E(tag("li", vec![], vec![t("x")]))] } else { vec![t("x")] };
        let (f, a): (&str, Vec<Arg>) = match d[2] {
            0 => ("class", vec![pos(s("n w"))]), 1 => ("style", vec![pos(s("q:1;"))]), 2 => ("attributes", vec![nm("id", s("new"))]), 3 => ("attributes", vec![nm("class", s("new")), nm("j", E::Unit)]), 4 => ("numbered", vec![]), 5 => ("html::tag_name", vec![]), 6 => ("footnote", vec![]),
            7 => ("attributes", vec![Arg::NSpread(dict(vec![("j", s("1")), ("h", E::Int(2))]))]), _ => ("attributes", vec![]),
        };
        just(w, f, a, tag(names[d[0]], at, c()));
    });
    // whole pages
    let hv: Vec<Option<E>> = vec![None, Some(E::Unit), Some(s("t")), Some(tag("b", vec![], vec![t("i")])), Some(tag("style", vec![], vec![t("q")])), Some(group(vec![A::E(tag("meta", vec![], vec![])), A::E(tag("meta", vec![], vec![]))])), Some(E::Int(1)), Some(tag("p", vec![], vec![t("x")])), Some(group(vec![t("x"), A::Para, t("y")])), Some(v("isone"))];
    let roots = [None, Some(""), Some("/"), Some("r"), Some("r/"), Some("r//"), Some("/r/s/")];
    let cs = [E::Unit, s("c"), group(vec![t("c"), A::Para, t("d")]), tag("p", vec![], vec![]), list(vec![E::Int(1)]), tag("b", vec![], vec![])];
    let titles = [None, Some(s("T")), Some(s("")), Some(s("<&>")), Some(E::Int(5)), Some(tag("b", vec![], vec![]))];
    let page = |w: &mut Worker, title: &Option<E>, root: Option<&str>, hs: [&Option<E>; 3], c: &E| {
        let mut a = vec![];
        if let Some(e) = title { a.push(nm("title", e.clone())); }
        if let Some(r) = root { a.push(nm("web_root", s(r))); }
        for (n, h) in ["head", "header", "footer"].iter().zip(hs) { if let Some(e) = h { a.push(nm(n, e.clone())); } }
        let mut d = prelude();
        d.push(A::E(call("page", a, c.clone())));
        check(w, &d);
    };
    grid(cfg, &mut rep, &[titles.len(), roots.len(), cs.len()], |w, d| page(w, &titles[d[0]], roots[d[1]], [&None, &None, &None], &cs[d[2]]));
    grid(cfg, &mut rep, &[hv.len(), hv.len(), hv.len(), 2], |w, d| page(w, &titles[1], roots[d[3]], [&hv[d[0]], &hv[d[1]], &hv[d[2]]], &cs[1]));
    rep
}
