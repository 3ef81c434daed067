//! An independent, strict parser for the HTML that the compiler renders.

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Node {
    El(El),
    Text(String),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, Option<String>)>,
    pub children: Vec<Node>,
}

pub const VOID: &[&str] = &["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr", "command", "keygen", "menuitem", "!DOCTYPE"];

pub fn is_void(name: &str) -> bool { VOID.iter().any(|v| v.eq_ignore_ascii_case(name)) }

fn decode(s: &str, quote: bool) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out += &rest[..i];
        rest = &rest[i + 1..];
        let looks = matches!(rest.chars().next(), Some(c) if c.is_ascii_alphanumeric() || c == '#');
        if !looks { out.push('&'); continue; }
        let Some(j) = rest.find(';') else { return Err(format!("unescaped & in {s:?}")) };
        let name = &rest[..j];
        let c = match name {
            "lt" => '<', "gt" => '>', "amp" => '&', "quot" => '"', "apos" => '\'', "nbsp" => '\u{a0}',
            _ => {
                let n = if let Some(h) = name.strip_prefix("#x").or(name.strip_prefix("#X")) { u32::from_str_radix(h, 16).ok() }
                    else if let Some(d) = name.strip_prefix('#') { d.parse().ok() } else { None };
                match n.and_then(char::from_u32) { Some(c) => c, None => return Err(format!("unescaped & or unknown entity &{name}; in {s:?}")) }
            },
        };
        out.push(c);
        rest = &rest[j + 1..];
    }
    out += rest;
    let _ = quote;
    Ok(out)
}

fn name_char(c: char) -> bool { c.is_ascii_alphanumeric() || c == '-' || c == '_' || c == '!' || c == ':' }

/// Parses a rendered document fragment; `Err` if it is not well-formed.
pub fn parse(src: &str) -> Result<Vec<Node>, String> {
    let mut stack: Vec<El> = vec![El {name: String::new(), attrs: vec![], children: vec![]}];
    let mut s = src;
    while !s.is_empty() {
        if let Some(r) = s.strip_prefix("</") {
            let Some(j) = r.find('>') else { return Err("unterminated closing tag".into()) };
            let name = &r[..j];
            if stack.len() < 2 { return Err(format!("closing tag </{name}> without opening tag")); }
            let el = stack.pop().unwrap();
            if el.name != name { return Err(format!("</{name}> closes <{}>", el.name)); }
            if is_void(name) { return Err(format!("void element closed: {name}")); }
            stack.last_mut().unwrap().children.push(Node::El(el));
            s = &r[j + 1..];
        } else if let Some(r) = s.strip_prefix('<') {
            let nl = r.find(|c| !name_char(c)).unwrap_or(r.len());
            let name = &r[..nl];
            if name.is_empty() || !name.starts_with(|c: char| c.is_ascii_alphabetic() || c == '!' || c == '_') { return Err(format!("bad tag at {:?}", s.chars().take(20).collect::<String>())); }
            let mut r = &r[nl..];
            let mut attrs: Vec<(String, Option<String>)> = vec![];
            loop {
                if let Some(x) = r.strip_prefix('>') { r = x; break; }
                let Some(x) = r.strip_prefix(' ') else { return Err(format!("bad tag <{name} at {:?}", r.chars().take(20).collect::<String>())) };
                let al = x.find(|c| !name_char(c)).unwrap_or(x.len());
                let an = &x[..al];
                if an.is_empty() { return Err(format!("bad attribute in <{name}")); }
                r = &x[al..];
                let mut value = None;
                if let Some(x) = r.strip_prefix("=\"") {
                    let Some(j) = x.find('"') else { return Err("unterminated attribute value".into()) };
                    if x[..j].contains('<') { return Err(format!("unescaped < in attribute {an}")); }
                    value = Some(decode(&x[..j], true)?);
                    r = &x[j + 1..];
                }
                if attrs.iter().any(|(k, _)| k.eq_ignore_ascii_case(an)) { return Err(format!("duplicate attribute {an} in <{name}>")); }
                attrs.push((an.to_string(), value));
            }
            let el = El {name: name.to_string(), attrs, children: vec![]};
            if is_void(name) { stack.last_mut().unwrap().children.push(Node::El(el)); } else { stack.push(el); }
            // a newline directly after these start tags is not content
            if matches!(name, "pre" | "textarea" | "listing") { r = r.strip_prefix('\n').unwrap_or(r); }
            s = r;
        } else {
            let j = s.find('<').unwrap_or(s.len());
            let t = decode(&s[..j], false)?;
            stack.last_mut().unwrap().children.push(Node::Text(t));
            s = &s[j..];
        }
    }
    if stack.len() != 1 { return Err(format!("unclosed <{}>", stack.last().unwrap().name)); }
    Ok(stack.pop().unwrap().children)
}

/// Concatenated text content.
pub fn text_of(nodes: &[Node]) -> String {
    let mut s = String::new();
    for n in nodes { match n { Node::Text(t) => s += t, Node::El(e) => s += &text_of(&e.children) } }
    s
}

pub fn esc(s: &str, quotes: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o += "&lt;", '>' => o += "&gt;", '&' => o += "&amp;",
            '"' if quotes => o += "&quot;", '\'' if quotes => o += "&apos;",
            c => o.push(c),
        }
    }
    o
}

/// Merges adjacent text nodes and drops empty ones.
pub fn norm(nodes: &[Node]) -> Vec<Node> {
    let mut v: Vec<Node> = vec![];
    for n in nodes {
        match n {
            Node::Text(t) if t.is_empty() => {},
            Node::Text(t) => if let Some(Node::Text(p)) = v.last_mut() { *p += t } else { v.push(n.clone()) },
            Node::El(e) => v.push(Node::El(El {name: e.name.clone(), attrs: e.attrs.clone(), children: norm(&e.children)})),
        }
    }
    v
}
