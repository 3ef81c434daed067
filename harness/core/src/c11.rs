//! C11: unique IDs. Explores every request history up to a length.
use crate::engine::*;

#[derive(Clone, Copy)]
struct Req<'a> { base: &'a str, max: Option<i64> }

/// deunicode-independent part of the model: a base which is a lowercase identifier.
fn is_lower_ident(s: &str) -> bool {
    let mut c = s.chars();
    matches!(c.next(), Some(c) if c.is_ascii_lowercase() || c == '_') && c.all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_')
}

fn bt(s: &str) -> String { format!("`{s}`") }

/// Runs one history as a single document and checks the answers.
fn check_history(w: &mut Worker, hist: &[Req<'_>], via: usize) {
    let mut src = String::new();
    for (i, r) in hist.iter().enumerate() {
        let f = match via { 0 => "@str::unique_id", 1 => "@u", _ => "@let(q=0) @str::unique_id" };
        if i == 0 && via == 1 { src += "@let(x=@str::unique_id) @fn dummy . -> .\n@fn u($max_length = 128) $s -> @str::unique_id(max_length=$max_length) $s\n"; }
        let args = r.max.map_or(String::new(), |m| format!("(max_length={m})"));
        src += &format!("{{{f}{args} {}}}/", bt(r.base));
    }
    let out = w.compile(&src);
    let key = || format!("history {:?}", hist.iter().map(|r| (r.base, r.max)).collect::<Vec<_>>());
    let Some(html) = out.ok_html() else {
        w.stats.violation(key(), format!("source: {src}\nexpected {} ids\n{}", hist.len(), out.describe()));
        return;
    };
    let inner = html.trim().trim_start_matches("<p>").trim_end_matches("</p>");
    let ids: Vec<&str> = inner.split('/').take(hist.len()).map(str::trim).collect();
    let mut bad = vec![];
    if inner.split('/').count() != hist.len() + 1 { bad.push(format!("expected {} ids", hist.len())); }
    for (i, id) in ids.iter().enumerate() {
        let r = &hist[i];
        let max = r.max.unwrap_or(128) as usize;
        if !is_lower_ident(id) { bad.push(format!("id #{i} {id:?} is not a lowercase identifier")); }
        if ids[..i].contains(id) { bad.push(format!("id #{i} {id:?} repeats an earlier id")); }
        let fits = is_lower_ident(r.base) && r.base.len() <= max;
        if fits && !ids[..i].contains(&r.base) && *id != r.base {
            bad.push(format!("id #{i}: base {:?} was free but {id:?} was issued", r.base));
        }
        // when no identifier of the form base_n fits, one base character (or, with a
        // limit too short for any suffix, at most `max` of them) and the suffix remain
        let digits = (i + 2).to_string().len();
        let need = if i == 0 { 1 } else if max < 3 { max + 1 + digits } else { 2 + digits };
        if id.len() > max.max(need) { bad.push(format!("id #{i} {id:?} is longer than {max}")); }
        if i < 200 || i % 100 == 0 { w.stats.state(&ids[..=i]); }
    }
    if !bad.is_empty() {
        w.stats.violation(key(), format!("source: {src}\nids: {ids:?}\n{}", bad.join("\n")));
    }
    w.stats.transitions += hist.len() as u64;
    if ids.len() >= 2 { w.stats.nontriv(&ids); }
    w.sample(|| format!("{src}  =>  {ids:?}"));
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every history of ID requests up to the bound over the base/limit alphabet; a state is a distinct list of IDs issued so far, a transition one request; non-trivial: at least two requests");
    let bases = ["a", "A", "a_2", "a b", "ab", "é", "_", "1", "a_", "a-2", "aB_2"];
    let mut reqs: Vec<Req> = vec![];
    for b in bases { reqs.push(Req {base: b, max: None}); }
    for (b, m) in [("a", 3), ("ab", 1), ("ab", 2), ("abcd", 3), ("abcd", 4), ("ABCDE", 4), ("a_2", 3), ("héllo wörld", 5), ("日本語", 4), ("a__b", 3), ("a\u{1F600}b", 6), ("___a", 2)] {
        reqs.push(Req {base: b, max: Some(m)});
    }
    let k = reqs.len() as u64;
    let n = cfg.q(4, 5);
    let total = num_seqs(k, 1, n);
    rep.absorb(explore(cfg, total, |w, i| {
        let h: Vec<Req> = nth_seq(i, k, 1, n).into_iter().map(|d| reqs[d]).collect();
        check_history(w, &h, 0);
    }));
    // long histories of few requests: suffix counters cross 9/10, 99/100 and the length limit
    let pairs: Vec<(Req, Req)> = reqs.iter().flat_map(|a| reqs.iter().map(move |b| (*a, *b))).collect();
    let len = cfg.q(24, 120);
    rep.absorb(explore(cfg, pairs.len() as u64 * 3, |w, i| {
        let (a, b) = pairs[(i / 3) as usize];
        let h: Vec<Req> = (0..len).map(|j| match i % 3 { 0 => if j % 2 == 0 { a } else { b }, 1 => if j < len / 2 { a } else { b }, _ => if j % 7 == 6 { b } else { a } }).collect();
        check_history(w, &h, 0);
    }));
    // every limit x base length, repeated
    let names: Vec<&'static str> = vec!["abcdefghijklmnopqrstuvwxyz", "Abcdefghijkl Mnop", "a", "é€日 x", "x9999999", "_", "AAAAAAAAAAAAAAAAAAAA", "____________a", "a_________", "-_-_-_-_-", "__9_9_9_9_9", "_9999", "\u{e9}_\u{e9}_", "          "];
    // and all short bases over few characters
    let small: Vec<char> = vec!['a', 'Z', '_', '9', '-', '\u{e9}', '\u{1F600}', ' '];
    let nb = num_seqs(8, 1, 4);
    let small = &small;
    rep.absorb(explore(cfg, nb * 5, |w, i| {
        let base: String = nth_seq(i / 5, 8, 1, 4).into_iter().map(|k| small[k]).collect();
        let max = i as i64 % 5 + 1;
        let base = base.as_str();
        check_history(w, &[Req {base, max: Some(max)}, Req {base, max: None}, Req {base, max: Some(max)}, Req {base, max: Some(max)}], 0);
    }));
    let maxes = [1i64, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 25, 26, 27, 127, 128, 129, i64::MAX];
    rep.absorb(explore(cfg, (names.len() * maxes.len()) as u64, |w, i| {
        let d = digits(i, &[names.len() as u64, maxes.len() as u64]);
        for reps in [1usize, 2, 9, 10, 11, 12, 101] {
            if reps > 12 && cfg.quick() && d[1] % 3 != 0 { continue; }
            let h = vec![Req {base: names[d[0]], max: Some(maxes[d[1]])}; reps];
            check_history(w, &h, 0);
        }
    }));
    // many IDs in one document, of one base and of two; some already given
    let counts: Vec<usize> = if cfg.quick() { vec![300, 1040, 5100] } else { vec![300, 520, 1040, 1100, 2100, 4200, 5100, 8200, 10100] };
    let some = [Req {base: "x", max: None}, Req {base: "x_1001", max: None}, Req {base: "X y", max: None}, Req {base: "x_256", max: None}, Req {base: "x", max: Some(6)}, Req {base: "ab", max: Some(5)}];
    let ns = some.len() as u64;
    rep.absorb(explore(cfg, counts.len() as u64 * ns * ns * 2, |w, i| {
        let d = digits(i, &[ns, ns, 2, counts.len() as u64]);
        if cfg.quick() && (d[0] + d[1] + d[2]) % if d[3] == 2 { 6 } else { 3 } > 0 { return; }
        let h: Vec<Req> = (0..counts[d[3]]).map(|j| if d[2] == 0 { if j == 3 { some[d[1]] } else { some[d[0]] } } else if j % 2 == 0 { some[d[0]] } else { some[d[1]] }).collect();
        check_history(w, &h, 0);
    }));
    // non-positive limits are errors
    rep.absorb(explore(cfg, 4, |w, i| {
        let m = [0i64, -1, i64::MIN, -128][i as usize];
        let src = format!("@str::unique_id(max_length={m}) `a`");
        let out = w.compile(&src);
        if out.ok() || out.panic.is_some() { w.stats.violation(format!("max_length={m}"), format!("{src}\nexpected an error\n{}", out.describe())); }
    }));
    // a new document starts afresh
    rep.absorb(explore(cfg, reqs.len() as u64, |w, i| {
        let r = reqs[i as usize];
        let args = r.max.map_or(String::new(), |m| format!("(max_length={m})"));
        let src = format!("@str::unique_id{args} `{}`", r.base);
        let a = w.compile(&src);
        let b = w.compile(&src);
        w.fresh();
        let c = w.compile(&src);
        if a.html != b.html || a.html != c.html || !a.ok() { w.stats.violation(format!("afresh {:?}", r.base), format!("{src}\nfirst: {}\nsecond document: {}\nnew context: {}", a.describe(), b.describe(), c.describe())); }
    }));
    rep
}
