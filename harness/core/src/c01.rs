//! C01: totality, and unclosed delimiters are errors.
use crate::engine::*;
use crate::html::is_void;
use crate::lex::*;

/// A necessary condition for a source without errors: every delimiter is closed
/// by its partner. `Err` says what is not closed.
pub fn balanced(src: &str) -> Result<(), String> {
    let toks: Vec<T> = lex(src).into_iter().map(|t| t.0).filter(|t| *t != T::Comment).collect();
    let has_quotes = toks.iter().any(|t| matches!(t, T::Quote(_)));
    #[derive(Debug, PartialEq)]
    enum Open { Brace, Sqb, InTag(Option<String>), El(Option<String>) }
    let mut st: Vec<Open> = vec![];
    for (k, t) in toks.iter().enumerate() {
        match t {
            T::Verb(_, s, false) => return Err(format!("string {s:?}")),
            T::Esc(None) => return Err("escape".into()),
            T::Ent(None) => return Err("entity".into()),
            T::BadClose if !has_quotes => return Err("malformed closing tag".into()),
            T::LBrace => st.push(Open::Brace),
            T::RBrace => if st.pop() != Some(Open::Brace) { return Err("}".into()) },
            T::LSqb if !has_quotes => st.push(Open::Sqb),
            T::RSqb if !has_quotes => if st.pop() != Some(Open::Sqb) { return Err("]".into()) },
            T::LAngle if !has_quotes => match toks.get(k + 1) {
                Some(T::Name(s)) => st.push(Open::InTag(Some(s.clone()))),
                Some(T::Var(_)) => st.push(Open::InTag(None)),
                Some(T::Excl) => st.push(Open::InTag(Some("!DOCTYPE".into()))),
                _ => {},
            },
            T::RAngle(self_closing) if !has_quotes => if let Some(Open::InTag(_)) = st.last() {
                let Some(Open::InTag(name)) = st.pop() else { unreachable!() };
                let void = name.as_ref().map_or(false, |n| is_void(n));
                if !self_closing && !void { st.push(Open::El(name)); }
            },
            T::Close(name) if !has_quotes => match st.pop() {
                Some(Open::El(n)) if name.is_empty() || n.as_ref().map_or(false, |n| n.eq_ignore_ascii_case(name)) => {},
                _ => return Err(format!("</{name}>")),
            },
            _ => {},
        }
    }
    if st.is_empty() { Ok(()) } else { Err(format!("unclosed {:?}", st)) }
}

pub fn check(w: &mut Worker, src: &str) {
    let out = w.compile(src);
    let mut bad = None;
    if out.panic.is_some() { bad = Some("the compiler panicked".to_string()); }
    else if out.num_errors > 0 && !out.diag.contains('<') { bad = Some("an error without a printable diagnostic".into()); }
    else if out.num_errors == 0 {
        if let Err(e) = balanced(src) { bad = Some(format!("not closed, but no error: {e}")); }
    }
    if out.num_errors == 0 { w.stats.count("compiled_without_errors"); w.stats.nontriv(src); } else { w.stats.count("diagnosed"); w.stats.nontriv(&out.diag); }
    if let Some(b) = bad { w.stats.violation(format!("source {src:?}"), format!("source: {src:?}\n{b}\n{}", out.describe())); }
    if src.len() > 9 { w.sample(|| format!("{src:?} => {} errors", out.num_errors)); }
}

/// All parts of the grammar; the first ones also in longer sequences.
pub const FRAGS: &[&str] = &[
    "{", "}", "<b>", "</b>", "\"", "$x", "(", ")", "[", "]", "@f", " ", ",", "<b", ">", "x=1", ".", "...", "->", "@let(", "@match $x {", "_", "`", "<$x", "\\", "é", "\n\n",
    "@fn ", "@fn f($x) $y -> ", "@export", "@implicit(x=1)", "*", "**", ":", "::", "?::", "|", "&", "=", "!", "/>", "<!DOCTYPE", "<br>", "<!--", "-->", "#", "\n", "-1", "9223372036854775808",
    "a", "True", "'", "```", "`v`", "\\x4", "\\u00e9", "\\", "&amp;", "&#x41;", "&a", ";", "?", "$_y: int", "$c: str list?", "@implicit str", "</", "</>", "<p id=`a`>", "\u{2028}", "\0", "日本", "\u{1F600}",
    "@list::map(", "$x::0", "@raise ", "@import `q`", "@code_block ", "@dict::new(a=1)", "@regex::compile `(`", "@str::unique_id", "@html::parse ",
];

/// Alphabets, with the lengths.
const LEXICAL: &[(&[&str], usize, usize)] = &[
    (&["\\", "u", "x", "U", "D8", "00", "0", "g", "é", "\"", "DC", "11"], 5, 6),
    (&["&", "#", "x", "9", "D8", "00", ";", "a", "amp", "é", "11"], 5, 6),
    (&["<", "!", "-", ">", "a", "#", "\n", "--", "/", "é"], 5, 6),
    (&["<b", "</", ">", "/", " ", "=", "`", "\"", "b", "é", "$x"], 5, 6),
    (&[".", "-", ">", ":", "?", "1", "$", "a", "@", "é", "_"], 5, 6),
    (&["\"", "'", "`", "{", "}", "$a", "\n", "\\", "a", "#", "<!--", "-->"], 5, 6),
    (&["<b>", "<bb>", "<a>", "<B", "</b>", "</bb>", "</B>", "</a>", "</>", "<br>", "</br>", "<$x>", "</$x>", "<b/>", "x"], 4, 5),
    (&["9", "0", "-", "223372036854775807", "a", ".", "(", ")", "@f", " "], 4, 6),
];

/// Valid programs; every prefix, every deletion and every insertion of a fragment is tried.
pub const SEEDS: &[&str] = &[
    "@fn f($_a: int, *$_b: str list, $c?: html = {x}, **$d: int dict) $e: inline? -> {<b class=\"$_a `x`\">$e</b>}\n@f(1, `q`, c=<i>y</i>, z=2) w",
    "@match [1, {a}, (b)] {[$x, *$y] -> $x, (a=$z, **_) | <t id=_ ...>{$q *$r}</t> -> ., \"a$b c\" & _: str? -> $b, _: $t -> $t}",
    "@let(x=@dict::new(a=[1,2], b=`c`), y=$x::a::-1)... $y 'tis \"q\" \\x41&amp;&#65; --- a -> b\n\nnext # comment\n<!-- c -->``a`b`` $x?::b",
    "<ul><li>a</li>b</ul><table><tr><td>x</></></table><br/><!DOCTYPE html><p q?=. r=$s **$t>é日\u{1F600}</p>",
    "```python\n  x = \"\"\"é\"\"\" # c\n```\n@code(language=`rust`) `fn main() { \"a\" }` @export(a=1, b=[]). @export @fn g . -> . @export @let(z=1) {.}",
    "@list::sorted(key=@fn $x -> $x, reversed=True) [3, 1, 2] @implicit(lang=`a`) {@fn h($lang: @implicit str) . -> $lang} @h .",
];

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("exploration", "every sequence of grammar fragments up to the bound, every prefix / deletion / insertion / duplication edit of a set of seed programs, and every character at every place of short contexts; non-trivial: distinct sources that compile or distinct diagnostics");
    let k = FRAGS.len() as u64;
    let n = cfg.q(3, 4);
    rep.absorb(explore(cfg, num_seqs(k, 0, n), |w, i| {
        let s: String = nth_seq(i, k, 0, n).into_iter().map(|d| FRAGS[d]).collect();
        check(w, &s);
    }));
    let core = cfg.q(12u64, 18);
    let m = cfg.q(6, 6);
    rep.absorb(explore(cfg, num_seqs(core, n + 1, m), |w, i| {
        let s: String = nth_seq(i, core, n + 1, m).into_iter().map(|d| FRAGS[d]).collect();
        check(w, &s);
    }));
    // edits of seed programs: one edit (thorough: two, the second a truncation)
    for seed in SEEDS {
        let cut: Vec<usize> = (0..=seed.len()).filter(|&i| seed.is_char_boundary(i)).collect();
        let nc = cut.len() as u64;
        let kinds = k + 14;
        let second = cfg.q(1u64, 9);
        rep.absorb(explore(cfg, nc * kinds * second, |w, i| {
            let d = digits(i, &[nc, kinds, second]);
            let at = cut[d[0]];
            let (a, b) = seed.split_at(at);
            let mut s = if d[1] < FRAGS.len() { format!("{a}{}{b}", FRAGS[d[1]]) } else {
                match d[1] - FRAGS.len() {
                    0 => a.to_string(),
                    1 => b.to_string(),
                    2 => format!("{b}{a}"),
                    3 => format!("{a}{a}"),
                    n => { let n = n - 3; let c: String = b.chars().skip(n).collect(); format!("{a}{c}") },
                }
            };
            if d[2] > 0 {
                let cs: Vec<char> = s.chars().collect();
                let keep = cs.len() * d[2] / 9;
                s = cs[..keep].iter().collect();
            }
            check(w, &s);
        }));
    }
    // strings over the characters of one part of the lexical grammar
    for (al, quick, thorough) in LEXICAL {
        let k = al.len() as u64;
        let m = cfg.q(*quick, *thorough);
        for (pre, post) in [("", ""), ("\"", ""), ("@f(", ")")].iter().take(cfg.q(1, 3)) {
            rep.absorb(explore(cfg, num_seqs(k, 1, m), |w, i| {
                let s: String = nth_seq(i, k, 1, m).into_iter().map(|d| al[d]).collect();
                check(w, &format!("{pre}{s}{post}"));
            }));
        }
    }
    // numbers in escapes and entities: every string of the digits that matter
    let digits_of = |al: &[&'static str], i: u64, n: usize| { let mut i = i; let mut s = String::new(); for _ in 0..n { s += al[(i % al.len() as u64) as usize]; i /= al.len() as u64; } s };
    let al: &[&str] = if cfg.quick() { &["0", "1", "8", "F"] } else { &["0", "1", "7", "8", "D", "f"] };
    let k = al.len() as u64;
    rep.absorb(explore(cfg, k.pow(8) + k.pow(4) * 2, |w, i| {
        let s = if i < k.pow(8) { format!("\\U{}", digits_of(al, i, 8)) } else { let i = i - k.pow(8); if i % 2 == 0 { format!("\\u{}", digits_of(al, i / 2, 4)) } else { format!("\\x{} \\x{}", digits_of(al, i / 2, 2), digits_of(al, i / 2 / k / k, 2)) } };
        check(w, &s);
    }));
    let al: &[&str] = if cfg.quick() { &["0", "1", "9"] } else { &["0", "1", "4", "9"] };
    let k = al.len() as u64;
    let most = cfg.q(8, 9);
    rep.absorb(explore(cfg, num_seqs(k, 1, most) + num_seqs(k + 1, 1, most), |w, i| {
        let s = if i < num_seqs(k, 1, most) { nth_seq(i, k, 1, most).into_iter().map(|d| al[d]).collect::<String>() }
            else { format!("x{}", nth_seq(i - num_seqs(k, 1, most), k + 1, 1, most).into_iter().map(|d| if d == k as usize { "F" } else { al[d] }).collect::<String>()) };
        check(w, &format!("&#{s};"));
    }));
    // every number of digits
    rep.absorb(explore(cfg, 60 * 6, |w, i| {
        let d = digits(i, &[60, 6]);
        let n = ["0", "9", "F", "10", "7F", "x0"][d[1]].repeat(d[0]);
        for s in [format!("&#{n};"), format!("&#x{n};"), format!("\\x{n}"), format!("\\u{n}"), format!("\\U{n}"), format!("&#{n}41;"), format!("@f({n})"), format!("@f(-{n})")] { check(w, &s); }
    }));
    // every character in each lexical context
    let ctx = ["C", "\\C", "&C;", "&#C;", "`C`", "\"$x C\"", "<C>", "<b C=`x`>y</>", "$C", "@C", "#C", "<!--C-->", "@fn f($C) . -> .", "@match C {_ -> .}", "-C", "</C>", "\\xC0", "\\u0C00", "9C", "@match `a` {\"$xC\" -> .}", "@html::parse `<!DOCTYPE html><p a=C>C</p>`", "@regex::compile `C`", "```\nC\n```", "@code(language=`papyri`) `C`", "@code(language=`C`) `x`"];
    let hi = cfg.q(0x300u64, 0x110000);
    rep.absorb(explore(cfg, hi * ctx.len() as u64 / if cfg.quick() { 1 } else { 1 }, |w, i| {
        let d = digits(i, &[ctx.len() as u64, hi]);
        let Some(c) = char::from_u32(d[1] as u32) else { return };
        if d[1] > 0x3000 && d[1] % 61 != 0 { return; }
        check(w, &ctx[d[0]].replace('C', &c.to_string()));
    }));
    // many different names and values, in each place where they can be written
    let many: &[usize] = if cfg.quick() { &[64, 127, 128, 129, 255, 256, 257, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000] } else { &[64, 127, 128, 129, 255, 256, 257, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8193, 16385, 32769, 65535, 65536, 65537, 70000] };
    let places: &[(&str, &str, &str, &str)] = &[
        ("@let(", "nN=N", ", ", ") {$n0 $nL @dict::get(`nL`) @dict::new(nL=2). @dict::get(`new`) @dict::new(nL=2).}"), ("@dict::new(", "nN=N", ", ", ")."), ("@fn f(", "$_nN", ", ", ") . -> {$_n0 $_nL}"), ("@fn f(", "$nN?: int", ", ", ") . -> {$n0 $nL} @f(nL=1)."),
        ("", "@fn nN . -> N ", "", "@n0. @nL."), ("@export(", "nN=N", ", ", ")."), ("", "<b nN=`N`>N</b> ", "", ""), ("<b ", "nN=`N`", " ", ">x</b>"), ("", "<nN>N</nN> ", "", ""), ("[", "N", ", ", "]"), ("", "@str::unique_id `n` @str::unique_id `nN` ", "", ""),
        ("", "`nN` ", "", ""), ("", "$nN ", "", ""), ("", "@match N {N -> `nN`, _ -> .} ", "", ""), ("@match `n3` {", "`nN` -> `N`", ", ", "}"), ("@match [1] {[", "$nN", ", ", "] -> $n0, _ -> `none`}"), ("@match @dict::new(n1=1). {(", "nN=$nN", ", ", ") -> $n0, _ -> `none`}"),
        ("@implicit(", "nN=N", ", ", ") {$n0 @n.}"), ("", "@regex::compile `nN` ", "", ""), ("", "@regex::test(@regex::compile `nN`) `N` ", "", ""), ("@regex::compile `", "(?P<nN>N)", "|", "`"), ("", "@html::parse `<!DOCTYPE html><html><body><nN a_N=N>x</nN></body></html>`", "", ""), ("", "N\n\n", "", ""), ("", "# nN\n", "", "x"), ("", "<!-- N -->", "", "x"), ("", "&#N; ", "", ""), ("```nN\n", "nN N;", "\n", "\n```"), ("\"", "$nN", " ", "\""),
    ];
    let b = [many.len() as u64, places.len() as u64];
    rep.absorb(explore(cfg, b[0] * b[1], |w, i| {
        let d = digits(i, &b);
        let ((a, x, sep, z), n) = (places[d[1]], many[d[0]]);
        let fill = |s: &str, k: usize| s.replace('N', &k.to_string());
        check(w, &format!("{a}{}{}", (0..n).map(|k| fill(x, k)).collect::<Vec<_>>().join(sep), z.replace('L', &(n - 1).to_string())));
    }));
    // integers at the ends of the range (and beyond it), in every place of a number
    let num: Vec<String> = [0i128, 1, 2, 127, 128, 255, 256, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775806, 9223372036854775807, 9223372036854775808, 9223372036854775809, 18446744073709551615, 18446744073709551616, 99999999999999999999999999]
        .iter().flat_map(|n| [format!("{n}"), format!("-{n}"), format!("00{n}")]).collect();
    let put = ["@let(l=[1,2,3]) {$l::N}", "@let(l=[]) {$l?::N}", "@let(l=`é`) $l::N", "@let(l=[[1],2]) $l::N::M", "@let(l=[1,2,3]) {@list::get($l, N)}", "@list::get(N) [1,2]", "@list::slice(N) [1,2,3]", "@list::slice(N, M) [1,2,3]", "@list::slice(M, N) [1,2,3]", "@let(l=@list::slice(1) [1,2,3,4]) {@l::slice(N, M)}", "@list::enumerate(from=N) [1,2]", "@int::add(N, M) .", "@int::add(N, N, M) .",
        "@int::negate N", "@str::from N", "@int::parse `N`", "@code_block(first_line_no=N) ```text\na\nb\n```", "@code_block(first_line_no=N, language=`rust`) `é`", "@match N {M -> 1, -N -> 2, $x -> $x}", "@code_block(highlight_lines=[N, M]) `a`", "```N\nx\n```", "@typeof N", "N", "<p a=N b=M>x</p>", "@let(l=@dict::items @dict::new(a=1).) {$l::N::M}", "@match [1,2] {$x -> $x::N}", "\"$x N\"", "@bool::from N", "$xN::N", "@fN.", "@list::sorted [N, M, 1]", "@list::contains(N) [M, N]", "[N, M]", "@dict::new(a=N, b=[M])."];
    let b = [num.len() as u64, num.len() as u64, put.len() as u64];
    rep.absorb(explore(cfg, b.iter().product(), |w, i| {
        let d = digits(i, &b);
        if d[1] > 0 && (!put[d[2]].contains('M') || cfg.quick() && (d[1] + d[0]) % 4 > 0) { return; }
        check(w, &put[d[2]].replace('N', &num[d[0]]).replace('M', &num[d[1]]));
    }));
    // strings which mean something somewhere: with each character replaced, removed or followed by others, in every place of a string
    let special = ["!DOCTYPE", "!DOCTYPE html", "papyri", ".papyri", "x.papyri", "http://a", "https://", "file:///a", "none", "text", "True", "./", "../x", "/", "br", "script", "h1", "_x", "True?", "str list?", "rust", "python", "(?P<n>a)", "[a-z]", "a{2,3}", "\\u00e9", "&amp;", "&#65;", "<!--", "-->", "<!DOCTYPE html><p>a</p>", "<a b=c>", "</p>", "a::b", "0x1F", "-1", "{a}", "$a", "@f", "\"\"\"", "'", "//", "/*", "*/", "\r\n", "\u{feff}", " ", ""];
    let put = ["@let(x=S) <$x>a</>", "@let(x=S) <$x></>", "@let(x=S) <b $x=`a`>c</b>", "@let(x=S) <b k=$x j?=$x>c</b>", "@let(x=S) <b class=$x>c</b>", "@html::parse S", "@regex::compile S", "@regex::find(@regex::compile S) `aé`", "@regex::split(@regex::compile `a|é`) S", "@code(language=S) `é x`", "@code_block(language=S) `é\nx`", "@code S", "@code_block S", "@code(language=`papyri`) S", "@code(language=`rust`) S", "@code(language=`python`) S", "@import S", "@include S", "@file::read S", "@let(x=S) \"a $x b\"", "@match S {\"!$x\" -> $x, \"a$x é\" -> $x, S -> 1}",
        "@match S {\"$x\" -> $x}", "@str::split(S) S", "@str::split(`é`) S", "@str::starts_with(S, `é`).", "@str::escape_html S", "@html::escape_html S", "@str::upper S", "@str::trim S", "@int::parse S", "@raise S", "@str::unique_id S", "@str::unique_id(max_length=3) S", "@str::unique_id(max_length=0) S", "@str::slugify S", "@slugify S", "@href(S) S", "@image(S, alt=S).", "@page(title=S, web_root=S) S", "@dict::get(S) @dict::new(a=1).", "<p>S</p>", "{S S}", "@dict::new(**@dict::new(k=S).)", "@class(S) <p>x</p>", "@style(S) <p>x</p>", "@attributes(id=S) <p>x</p>", "@blockquote(cite=S) x", "@let(x=S) <script src=$x>a</script>"];
    let hex: Vec<String> = special.iter().map(|x| x.to_string()).collect();
    let ed = if cfg.quick() { &["", "\u{e9}", "\0", " ", "/"][..] } else { &["", "\u{e9}", "\u{1f600}", "\0", "\\", "\"", "\n", " ", "/", ":", "\u{301}"][..] };
    let longest = 24usize;
    let b = [special.len() as u64, longest as u64, ed.len() as u64, 3, put.len() as u64];
    rep.absorb(explore(cfg, b.iter().product(), |w, i| {
        let d = digits(i, &b);
        let cs: Vec<char> = hex[d[0]].chars().collect();
        if d[1] > cs.len() || cfg.quick() && d[3] == 0 && d[2] % 3 != 1 { return; }
        let (a, z): (String, String) = (cs[..d[1]].iter().collect(), cs[d[1]..].iter().skip(if d[3] == 1 { 1 } else { 0 }).collect());
        let x = format!("{a}{}{}", ed[d[2]], if d[3] == 2 { "" } else { &z });
        // every string can be written with escapes
        let lit: String = x.chars().map(|c| if c.is_ascii_alphanumeric() { c.to_string() } else { format!("\\U{:08x}", c as u32) }).collect();
        check(w, &put[d[4]].replace('S', &format!("\"{lit}\"")));
    }));
    // long runs of one fragment (bounded nesting)
    let depth = cfg.q(40usize, 200);
    rep.absorb(explore(cfg, k * 2, |w, i| {
        let f = FRAGS[(i / 2) as usize];
        for n in [1, 2, 5, 17, depth] {
            check(w, &if i % 2 == 0 { f.repeat(n) } else { format!("{f}a ").repeat(n) });
        }
    }));
    rep
}
