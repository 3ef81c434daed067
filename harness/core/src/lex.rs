//! An independent reference lexer for Papyri source text.

#[derive(Debug, Clone, PartialEq)]
pub enum T {
    Comment,
    Ws,
    Para,
    Esc(Option<char>),
    Ent(Option<char>),
    /// number of backticks, content, well-formed
    Verb(usize, String, bool),
    Name(String),
    Func(String),
    Var(String),
    LBrace, RBrace, LSqb, RSqb, LPar, RPar,
    LAngle,
    /// `>` or `/>`
    RAngle(bool),
    Close(String),
    BadClose,
    Quote(char),
    Ellipsis,
    Bar,
    Equals,
    Excl,
    /// anything else; one character of text (or one token of digits etc.)
    Text(String),
}

pub fn ident_start(c: char) -> bool { c.is_ascii_alphabetic() || c == '_' }
pub fn ident_cont(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }
pub fn ws(c: char) -> bool { matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c') }

fn entity(body: &str) -> Option<char> {
    if let Some(d) = body.strip_prefix('#') {
        let n = if let Some(h) = d.strip_prefix('x').or(d.strip_prefix('X')) { u32::from_str_radix(h, 16).ok() } else { d.parse().ok() };
        return n.and_then(char::from_u32);
    }
    Some(match body { "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "nbsp" => '\u{a0}', "eacute" => 'é', "copy" => '©', "hellip" => '…', _ => return None })
}

/// Tokens with their byte offset and length.
pub fn lex(src: &str) -> Vec<(T, usize, usize)> {
    let mut out = vec![];
    let mut i = 0;
    while i < src.len() {
        let s = &src[i..];
        let (t, n) = one(s);
        assert!(n > 0);
        out.push((t, i, n));
        i += n;
    }
    out
}

fn run(s: &str, f: impl Fn(char) -> bool) -> usize { s.char_indices().find(|&(_, c)| !f(c)).map_or(s.len(), |(i, _)| i) }

fn one(s: &str) -> (T, usize) {
    let c = s.chars().next().unwrap();
    let rest = &s[c.len_utf8()..];
    let id = if rest.starts_with(ident_start) { run(rest, ident_cont) } else { 0 };
    if c == '#' {
        let eol = s.find('\n').unwrap_or(s.len());
        let w = run(&s[eol..], ws);
        let para = s[eol..eol + w].matches('\n').count() >= 2;
        return (T::Comment, if para { eol } else { eol + w });
    }
    if s.starts_with("<!--") { return (T::Comment, s[4..].find("-->").map_or(s.len(), |k| k + 7)); }
    if ws(c) {
        let n = run(s, ws);
        return (if s[..n].matches('\n').count() >= 2 { T::Para } else { T::Ws }, n);
    }
    if ident_start(c) {
        let n = run(s, ident_cont);
        return match &s[..n] { "True" | "False" | "_" => (T::Text(s[..n].into()), n), w => (T::Name(w.into()), n) };
    }
    if c == '@' && id > 0 { return (T::Func(rest[..id].into()), 1 + id); }
    if c == '$' && id > 0 { return (T::Var(rest[..id].into()), 1 + id); }
    if c == '&' && rest.starts_with(|c: char| c.is_ascii_alphabetic() || c == '#') {
        let n = run(rest, |c| !ws(c) && c != ';');
        return if rest[n..].starts_with(';') { (T::Ent(entity(&rest[..n])), n + 2) } else { (T::Ent(None), n + 1) };
    }
    if c == '\\' {
        return match rest.chars().next() {
            None | Some('\n') => (T::Esc(None), 1),
            Some(k @ ('x' | 'u' | 'U')) => {
                let n = match k { 'x' => 2, 'u' => 4, _ => 8 };
                let h: String = rest[1..].chars().take(n).collect();
                if h.len() == n && h.chars().all(|c| c.is_ascii_hexdigit()) { (T::Esc(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32)), 2 + n) } else { (T::Esc(None), 2) }
            },
            Some('n') => (T::Esc(Some('\n')), 2),
            Some('t') => (T::Esc(Some('\t')), 2),
            Some(k) => (T::Esc(Some(k)), 1 + k.len_utf8()),
        };
    }
    if c == '`' {
        let n = run(s, |c| c == '`');
        let body = &s[n..];
        // the first run of at least n backticks
        let mut j = 0;
        loop {
            let Some(k) = body[j..].find('`') else { return (T::Verb(n, body.into(), false), s.len()) };
            let start = j + k;
            let m = run(&body[start..], |c| c == '`');
            if m >= n {
                let content = &body[..start];
                let ok = m == n && (n >= 3 || !content.contains('\n'));
                return (T::Verb(n, content.into(), ok), n + start + m);
            }
            j = start + m;
        }
    }
    if s.starts_with("</") {
        if s.starts_with("</>") { return (T::Close(String::new()), 3); }
        let r = &s[2..];
        let n = if r.starts_with(ident_start) { run(r, ident_cont) } else { 0 };
        if n == 0 { return (T::BadClose, 2); }
        return if r[n..].starts_with('>') { (T::Close(r[..n].into()), 3 + n) } else { (T::BadClose, 2 + n) };
    }
    if s.starts_with("...") { return (T::Ellipsis, 3); }
    if s.starts_with("->") { return (T::Text("->".into()), 2); }
    if s.starts_with("/>") { return (T::RAngle(true), 2); }
    let t = match c {
        '{' => T::LBrace, '}' => T::RBrace, '[' => T::LSqb, ']' => T::RSqb, '(' => T::LPar, ')' => T::RPar,
        '<' => T::LAngle, '>' => T::RAngle(false), '|' => T::Bar, '=' => T::Equals, '!' => T::Excl, '\'' | '"' => T::Quote(c),
        '0'..='9' => { let n = run(s, |c| c.is_ascii_digit()); return (T::Text(s[..n].into()), n) },
        c => T::Text(c.into()),
    };
    (t, c.len_utf8())
}

/// Symbol substitutions, leftmost-longest.
pub fn subs(s: &str) -> String {
    const TABLE: &[(&str, &str)] = &[
        ("<->", "\u{2194}"), ("---", "\u{2014}"), ("+/-", "\u{b1}"), ("(c)", "\u{a9}"),
        ("--", "\u{2013}"), ("<-", "\u{2190}"), ("->", "\u{2192}"), ("!=", "\u{2260}"), ("<=", "\u{2264}"), (">=", "\u{2265}"),
        ("~", "\u{a0}"),
    ];
    let mut o = String::new();
    let mut r = s;
    'o: while let Some(c) = r.chars().next() {
        for (a, b) in TABLE {
            if let Some(x) = r.strip_prefix(a) { o += b; r = x; continue 'o; }
        }
        if c == '-' && r[1..].starts_with(|c: char| c.is_ascii_digit()) { o.push('\u{2212}'); } else { o.push(c); }
        r = &r[c.len_utf8()..];
    }
    o
}

/// Removes the common indentation and surrounding blank space of code, as documented
/// for code blocks and inline code.
pub fn dedent(s: &str) -> String {
    let body = s.trim_end();
    let lines: Vec<&str> = body.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect();
    let Some(first) = lines.iter().position(|l| l.chars().any(|c| !c.is_whitespace())) else { return String::new() };
    let ind: String = lines[first].chars().take_while(|c| c.is_whitespace()).collect();
    if ind.is_empty() { return s.trim().to_string(); }
    lines[first..].iter().map(|l| l.strip_prefix(ind.as_str()).unwrap_or_else(|| l.trim_start())).collect::<Vec<_>>().join("\n")
}
