//! Programs of the reference interpreter, and their source text.
use std::sync::Arc;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Ty { Unit, Any, Html, Block, Inline, Bool, Int, Str, Func, Regex, Dict(Box<Ty>), List(Box<Ty>), Opt(Box<Ty>) }
impl Ty {
    pub fn list(self) -> Ty { Ty::List(Box::new(self)) }
    pub fn dict(self) -> Ty { Ty::Dict(Box::new(self)) }
    pub fn unit_ok(&self) -> bool { matches!(self, Ty::Any | Ty::Html | Ty::Block | Ty::Inline | Ty::Unit | Ty::Opt(_)) }
    pub fn opt(self) -> Ty { if self.unit_ok() { self } else { Ty::Opt(Box::new(self)) } }
    pub fn show(&self) -> String {
        match self {
            Ty::Unit => "none".into(), Ty::Any => "any".into(), Ty::Html => "html".into(), Ty::Block => "block".into(), Ty::Inline => "inline".into(),
            Ty::Bool => "bool".into(), Ty::Int => "int".into(), Ty::Str => "str".into(), Ty::Func => "function".into(), Ty::Regex => "regex".into(),
            Ty::Dict(t) => format!("{} dict", t.show()), Ty::List(t) => format!("{} list", t.show()), Ty::Opt(t) => format!("{}?", t.show()),
        }
    }
    /// the type hint for the components of a list or dict of this type
    pub fn component(&self) -> Ty {
        match self { Ty::Dict(t) | Ty::List(t) => (**t).clone(), Ty::Opt(t) => t.component(), Ty::Block | Ty::Html => Ty::Html, _ => Ty::Any }
    }
}

#[derive(Debug, Clone)]
pub enum Name { Simple(String), Attr(Box<Name>, bool, String), Index(Box<Name>, bool, i64) }
#[derive(Debug, Clone)]
pub enum Tp { Lit(String), Var(Name), Sp }
#[derive(Debug, Clone)]
pub enum Arg { Pos(E), Named(String, E), Spread(E), NSpread(E) }
#[derive(Debug, Clone)]
pub enum At { Attr(String, Option<E>), Opt(String, E), Spread(E) }
#[derive(Debug, Clone)]
pub enum TName { Lit(String), Var(Name) }

#[derive(Debug, Clone)]
pub enum E {
    Unit, Bool(bool), Int(i64), Bare(String), Str(String),
    Var(Name),
    Call(Name, Vec<Arg>, Box<E>),
    Fn(Arc<FnDef>),
    Let(bool, Vec<(String, E)>, Box<E>),
    Match(Box<E>, Vec<(Pat, E)>),
    Group(Vec<A>),
    Tag(TName, Vec<At>, Vec<A>),
    List(Vec<(E, bool)>),
    Tmpl(Vec<Tp>),
    /// source text for an expression
    Raw(String, Box<E>),
}

/// flow content
#[derive(Debug, Clone)]
pub enum A { Raw(String, Vec<A>), Text(String), Char(char), Sp, Para, Code(String), E(E), Def(Arc<FnDef>), ExportNames(Vec<(String, E)>), ExportDef(Arc<FnDef>), ExportLet(Vec<(String, E)>, E) }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PK { Pos, Spread, Named, NSpread }
#[derive(Debug, Clone)]
pub struct Param { pub name: String, pub kind: PK, pub optional: bool, pub implicit: bool, pub ty: Option<Ty>, pub default: Option<E> }
impl Param {
    pub fn new(name: &str, kind: PK) -> Param { Param {name: name.into(), kind, optional: false, implicit: false, ty: None, default: None} }
    pub fn ty(mut self, t: Ty) -> Param { self.ty = Some(t); self }
    pub fn def(mut self, e: E) -> Param { self.default = Some(e); self }
    pub fn opt(mut self) -> Param { self.optional = true; self }
    pub fn imp(mut self) -> Param { self.implicit = true; self }
}
#[derive(Debug, Clone)]
pub struct FnDef { pub name: Option<String>, pub params: Vec<Param>, pub content: Option<Param>, pub body: E }

#[derive(Debug, Clone)]
pub enum Pat {
    Ignore, None, Var(String), Eq(E), And(Box<Pat>, Box<Pat>), Or(Box<Pat>, Box<Pat>),
    Typed(Ty), TypeOf(String),
    /// patterns and the index of a spread pattern
    List(Vec<Pat>, Option<usize>), Seq(Vec<Pat>, Option<usize>),
    Dict(Vec<(String, Pat)>, Option<Box<Pat>>),
    /// name (None = `_`), attributes, rest of attributes, content
    Tag(PName, Vec<(String, Option<Pat>)>, Option<Box<Pat>>, Box<Pat>),
    Tmpl(Vec<Tp>),
}
#[derive(Debug, Clone)]
pub enum PName { Any, Lit(String), Var(String) }

pub fn v(n: &str) -> E { E::Var(name(n)) }
pub fn s(x: &str) -> E { E::Str(x.into()) }
pub fn t(x: &str) -> A { A::Text(x.into()) }
pub fn name(n: &str) -> Name {
    let mut parts = n.split("::");
    let mut r = Name::Simple(parts.next().unwrap().into());
    for p in parts {
        r = match p.parse::<i64>() { Ok(i) => Name::Index(Box::new(r), false, i), Err(_) => Name::Attr(Box::new(r), false, p.into()) };
    }
    r
}
pub fn call(f: &str, args: Vec<Arg>, content: E) -> E { E::Call(name(f), args, Box::new(content)) }
pub fn let1(n: &str, e: E, body: E) -> E { E::Let(false, vec![(n.into(), e)], Box::new(body)) }
pub fn list(v: Vec<E>) -> E { E::List(v.into_iter().map(|e| (e, false)).collect()) }
pub fn dict(v: Vec<(&str, E)>) -> E { call("dict::new", v.into_iter().map(|(k, e)| Arg::Named(k.into(), e)).collect(), E::Unit) }
pub fn tag(n: &str, attrs: Vec<At>, c: Vec<A>) -> E { E::Tag(TName::Lit(n.into()), attrs, c) }
pub fn group(c: Vec<A>) -> E { E::Group(c) }
pub fn func(params: Vec<Param>, content: Option<Param>, body: E) -> E { E::Fn(Arc::new(FnDef {name: None, params, content, body})) }
pub fn content(n: &str) -> Option<Param> { Some(Param::new(n, PK::Named)) }
pub fn def(n: &str, params: Vec<Param>, content: Option<Param>, body: E) -> A { A::Def(Arc::new(FnDef {name: Some(n.into()), params, content, body})) }

pub const VOID: &[&str] = crate::html::VOID;

/// Prints programs; `ellipsis` writes the body of a trailing `@let` or call in a group after `...`.
pub struct Pr { pub out: String, pub ellipsis: bool }
impl Pr {
    fn p(&mut self, s: &str) {
        // an identifier or number must not run into the previous one
        if let (Some(a), Some(b)) = (self.out.chars().last(), s.chars().next()) {
            let id = |c: char| c.is_ascii_alphanumeric() || c == '_';
            if id(a) && (id(b)) { self.out += "<!---->"; }
        }
        self.out += s;
    }
    fn raw(&mut self, s: &str) { self.out += s; }
    pub fn name(&mut self, n: &Name) {
        match n {
            Name::Simple(s) => self.raw(s),
            Name::Attr(n, c, a) => { self.name(n); self.raw(if *c { "?::" } else { "::" }); self.raw(a); },
            Name::Index(n, c, i) => { self.name(n); self.raw(if *c { "?::" } else { "::" }); self.raw(&i.to_string()); },
        }
    }
    fn args(&mut self, args: &[Arg]) {
        if args.is_empty() { return; }
        self.raw("(");
        for (i, a) in args.iter().enumerate() {
            if i > 0 { self.raw(", "); }
            match a {
                Arg::Pos(e) => self.e(e),
                Arg::Named(n, e) => { self.raw(n); self.raw("="); self.e(e); },
                Arg::Spread(e) => { self.raw("*"); self.e(e); },
                Arg::NSpread(e) => { self.raw("**"); self.e(e); },
            }
        }
        self.raw(")");
    }
    fn vars(&mut self, v: &[(String, E)]) {
        self.raw("(");
        for (i, (n, e)) in v.iter().enumerate() {
            if i > 0 { self.raw(", "); }
            self.raw(n); self.raw("="); self.e(e);
        }
        self.raw(")");
    }
    fn param(&mut self, p: &Param) {
        self.raw(match p.kind { PK::Spread => "*", PK::NSpread => "**", _ => "" });
        self.raw("$"); self.raw(&p.name);
        if p.optional { self.raw("?"); }
        if p.implicit { self.raw(": @implicit "); self.raw(&p.ty.as_ref().map_or("any".into(), |t| t.show())); }
        else if let Some(t) = &p.ty { self.raw(": "); self.raw(&t.show()); }
        if let Some(d) = &p.default { self.raw(" = "); self.e(d); }
    }
    pub fn def(&mut self, d: &FnDef) {
        self.p("@fn ");
        if let Some(n) = &d.name { self.raw(n); self.raw(" "); }
        if !d.params.is_empty() {
            self.raw("(");
            for (i, p) in d.params.iter().enumerate() { if i > 0 { self.raw(", "); } self.param(p); }
            self.raw(") ");
        }
        match &d.content { Some(c) => self.param(c), None => self.raw(".") }
        self.raw(" -> ");
        self.e(&d.body);
    }
    pub fn tmpl(&mut self, ps: &[Tp]) {
        self.raw("\"");
        for p in ps {
            match p {
                Tp::Sp => self.raw(" "),
                Tp::Var(n) => { self.raw("$"); self.name(n); },
                Tp::Lit(s) => for (k, c) in s.chars().enumerate() {
                    if matches!(c, '"' | '\'' | '`' | '$' | '{' | '}' | '\\' | '&' | '#' | '@' | '<' | ':' | '?' | '(') || c.is_ascii_whitespace() {
                        self.raw(&match c { '\n' => "\\n".to_string(), '\t' => "\\t".into(), '\r' => "\\x0d".into(), '\x0c' => "\\x0c".into(), c => format!("\\{c}") });
                    } else if k == 0 { self.p(&c.to_string()); } else { self.out.push(c); }
                },
            }
        }
        self.raw("\"");
    }
    pub fn strlit(&mut self, s: &str) {
        let esc_only = s.contains('\n') || s.contains('\r');
        if s.contains('`') && !esc_only {
            if s.starts_with('`') || s.ends_with('`') || s.contains("``") { self.tmpl(&[Tp::Lit(s.into())]); return; }
            self.raw("``"); self.raw(s); self.raw("``");
        } else if esc_only || s.is_empty() {
            if s.is_empty() { self.raw("\"\""); } else { self.tmpl(&[Tp::Lit(s.into())]); }
        } else { self.raw("`"); self.raw(s); self.raw("`"); }
    }
    pub fn e(&mut self, e: &E) {
        match e {
            E::Unit => self.raw("."),
            E::Bool(b) => self.p(if *b { "True" } else { "False" }),
            E::Int(i) => self.p(&i.to_string()),
            E::Bare(s) => self.p(s),
            E::Str(s) => self.strlit(s),
            E::Var(n) => { self.raw("$"); self.name(n); },
            E::Call(f, args, c) => { self.raw("@"); self.name(f); self.args(args); self.raw(" "); self.e(c); },
            E::Fn(d) => self.def(d),
            E::Let(imp, vars, b) => { self.raw(if *imp { "@implicit" } else { "@let" }); self.vars(vars); self.raw(" "); self.e(b); },
            E::Match(v, bs) => {
                self.raw("@match "); self.e(v); self.raw(" {");
                for (i, (p, b)) in bs.iter().enumerate() { if i > 0 { self.raw(", "); } self.pat(p); self.raw(" -> "); self.e(b); }
                self.raw("}");
            },
            E::Group(c) => { self.raw("{"); self.items(c); self.raw("}"); },
            E::Tag(n, attrs, c) => {
                self.raw("<");
                match n { TName::Lit(n) => self.raw(n), TName::Var(n) => { self.raw("$"); self.name(n); } }
                for a in attrs {
                    self.raw(" ");
                    match a {
                        At::Attr(n, None) => self.raw(n),
                        At::Attr(n, Some(e)) => { self.raw(n); self.raw("="); self.e(e); },
                        At::Opt(n, e) => { self.raw(n); self.raw("?="); self.e(e); },
                        At::Spread(e) => { self.raw("**"); self.e(e); },
                    }
                }
                if matches!(n, TName::Lit(n) if VOID.iter().any(|v| v.eq_ignore_ascii_case(n))) { self.raw(">"); return; }
                if c.is_empty() && matches!(n, TName::Var(_)) { self.raw("/>"); return; }
                self.raw(">");
                self.items(c);
                match n { TName::Lit(n) => { self.raw("</"); self.raw(n); self.raw(">"); }, _ => self.raw("</>") }
            },
            E::List(v) => {
                self.raw("[");
                for (i, (e, sp)) in v.iter().enumerate() { if i > 0 { self.raw(", "); } if *sp { self.raw("*"); } self.e(e); }
                self.raw("]");
            },
            E::Tmpl(p) => self.tmpl(p),
            E::Raw(s, _) => self.p(s),
        }
    }
    pub fn items(&mut self, c: &[A]) {
        for (i, a) in c.iter().enumerate() {
            match a {
                A::Raw(s, _) => self.p(s),
                A::Text(s) => self.p(s),
                A::Char(c) => { let s = format!("\\U{:08x}", *c as u32); self.raw(&s); },
                A::Sp => self.raw(" "),
                A::Para => self.raw("\n\n"),
                A::Code(s) => { if self.out.ends_with('`') { self.raw("<!---->"); } self.raw("`"); self.raw(s); self.raw("`"); },
                A::E(E::Let(imp, vars, b)) if self.ellipsis && i + 1 == c.len() && matches!(**b, E::Group(ref g) if !g.is_empty()) => {
                    let E::Group(g) = &**b else { unreachable!() };
                    self.raw(if *imp { "@implicit" } else { "@let" }); self.vars(vars); self.raw("..."); self.items(g);
                },
                A::E(E::Call(f, args, b)) if self.ellipsis && i + 1 == c.len() && matches!(**b, E::Group(ref g) if !g.is_empty()) => {
                    let E::Group(g) = &**b else { unreachable!() };
                    self.raw("@"); self.name(f); self.args(args); self.raw("..."); self.items(g);
                },
                A::E(e) => self.e(e),
                A::Def(d) => self.def(d),
                A::ExportNames(v) => { self.raw("@export"); self.vars(v); self.raw("."); },
                A::ExportDef(d) => { self.raw("@export "); self.def(d); },
                A::ExportLet(v, b) => { self.raw("@export @let"); self.vars(v); self.raw(" "); self.e(b); },
            }
        }
    }
    pub fn pat(&mut self, p: &Pat) {
        match p {
            Pat::Ignore => self.raw("_"),
            Pat::None => self.raw("."),
            Pat::Var(n) => { self.raw("$"); self.raw(n); },
            Pat::Eq(e @ (E::Bool(_) | E::Int(_) | E::Str(_))) => self.e(e),
            Pat::Eq(e) => { self.raw("="); self.e(e); },
            Pat::And(a, b) => match (&**a, &**b) {
                (Pat::Typed(t), Pat::Var(n)) => { self.raw("$"); self.raw(n); self.raw(": "); self.raw(&t.show()); },
                (Pat::TypeOf(t), Pat::Var(n)) => { self.raw("$"); self.raw(n); self.raw(": $"); self.raw(t); },
                _ => { self.pat(a); self.raw(" & "); self.pat(b); },
            },
            Pat::Or(a, b) => { self.pat(a); self.raw(" | "); self.pat(b); },
            Pat::Typed(t) => { self.raw("_: "); self.raw(&t.show()); },
            Pat::TypeOf(n) => { self.raw("_: $"); self.raw(n); },
            Pat::List(ps, sp) | Pat::Seq(ps, sp) => {
                let list = matches!(p, Pat::List(..));
                self.raw(if list { "[" } else { "{" });
                for (i, q) in ps.iter().enumerate() {
                    if i > 0 { self.raw(if list { ", " } else { " " }); }
                    if *sp == Some(i) { if matches!(q, Pat::Ignore) { self.raw("..."); continue; } self.raw("*"); }
                    self.pat(q);
                }
                self.raw(if list { "]" } else { "}" });
            },
            Pat::Dict(ps, sp) => {
                self.raw("(");
                for (i, (n, q)) in ps.iter().enumerate() { if i > 0 { self.raw(", "); } self.raw(n); self.raw("="); self.pat(q); }
                if let Some(q) = sp { if !ps.is_empty() { self.raw(", "); } self.raw("**"); self.pat(q); }
                self.raw(")");
            },
            Pat::Tag(n, ps, sp, c) => {
                self.raw("<");
                match n { PName::Any => self.raw("_"), PName::Lit(n) => self.raw(n), PName::Var(n) => { self.raw("$"); self.raw(n); } }
                for (n, q) in ps { self.raw(" "); self.raw(n); if let Some(q) = q { self.raw("="); self.pat(q); } }
                if let Some(q) = sp { self.raw(" "); if matches!(**q, Pat::Ignore) { self.raw("..."); } else { self.raw("**"); self.pat(q); } }
                if matches!(n, PName::Lit(n) if VOID.contains(&n.as_str())) { self.raw(">"); return; }
                self.raw(">");
                if !matches!(**c, Pat::None) { self.pat(c); }
                self.raw("</>");
            },
            Pat::Tmpl(p) => self.tmpl(p),
        }
    }
}

pub fn print(doc: &[A]) -> String { let mut p = Pr {out: String::new(), ellipsis: false}; p.items(doc); p.out }
pub fn print_ellipsis(doc: &[A]) -> String { let mut p = Pr {out: String::new(), ellipsis: true}; p.items(doc); p.out }
