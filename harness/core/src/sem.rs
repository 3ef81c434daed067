//! The reference interpreter: an independent definition of what a program means.
//! A program has either an output or an error; warnings do not matter.
use crate::ast::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum N { Text(Rc<str>), Tag(Rc<TagN>) }
#[derive(Debug, Clone, Hash)]
pub struct TagN { pub name: Rc<str>, pub attrs: Vec<(Rc<str>, Option<Rc<str>>)>, pub content: Vec<N> }
impl PartialEq for TagN {
    fn eq(&self, o: &TagN) -> bool {
        self.name == o.name && self.content == o.content && self.attrs.len() == o.attrs.len()
            && self.attrs.iter().all(|a| o.attrs.contains(a))
    }
}
impl Eq for TagN {}

#[derive(Debug, Clone)]
pub enum V { Bool(bool), Int(i64), Str(Rc<str>), List(Rc<Vec<V>>), Dict(Rc<Vec<(Rc<str>, V)>>), Html(Rc<Vec<N>>), Func(Rc<F>), Regex(Rc<str>) }
thread_local! {
    static EMPTY: Rc<Vec<N>> = Rc::new(vec![]);
}
pub fn unit() -> V { V::Html(EMPTY.with(|e| e.clone())) }
pub fn vs(s: &str) -> V { V::Str(Rc::from(s)) }
pub fn vlist(v: Vec<V>) -> V { V::List(Rc::new(v)) }
pub fn vdict(v: Vec<(Rc<str>, V)>) -> V { V::Dict(Rc::new(v)) }

impl V {
    pub fn is_unit(&self) -> bool { matches!(self, V::Html(h) if h.is_empty()) }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Int(a), V::Int(b)) => a == b,
            (V::Str(a), V::Str(b)) | (V::Regex(a), V::Regex(b)) => a == b,
            (V::List(a), V::List(b)) => a == b,
            (V::Dict(a), V::Dict(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(l, w)| k == l && v == w)),
            (V::Html(a), V::Html(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Debug)]
pub struct P { pub name: Rc<str>, pub ty: Ty, pub implicit: bool, pub default: Option<V> }
#[derive(Debug)]
pub struct Sig { pub pos: Vec<P>, pub spread: Option<P>, pub named: Vec<P>, pub nspread: Option<P>, pub content: Option<P> }
#[derive(Debug)]
pub enum F { User {name: Rc<str>, frame: Rc<Frame>, sig: Rc<Sig>, def: std::sync::Arc<FnDef>}, Native(Rc<str>, Rc<str>, Rc<Sig>), Bound(Rc<F>, Part) }
#[derive(Debug, Clone, Default)]
pub struct Part { count: usize, spread: Vec<V>, nspread: Vec<(Rc<str>, V)>, map: Vec<(Rc<str>, V)> }

#[derive(Debug)]
pub struct Frame { dir: Option<Rc<str>>, parent: Option<Rc<Frame>>, locals: RefCell<Vec<(Rc<str>, V)>>, implicit: RefCell<Vec<Rc<str>>> }
impl Frame {
    pub fn new(parent: Option<Rc<Frame>>, locals: Vec<(Rc<str>, V)>) -> Rc<Frame> { Rc::new(Frame {dir: None, parent, locals: RefCell::new(locals), implicit: RefCell::new(vec![])}) }
    /// the directory of the source file in which the frame's code is written
    pub fn dir(&self) -> Option<Rc<str>> { self.dir.clone().or_else(|| self.parent.as_ref().and_then(|p| p.dir())) }
    fn get(&self, n: &str, imp: bool) -> Option<V> {
        if !imp || self.implicit.borrow().iter().any(|x| &**x == n) {
            if let Some((_, v)) = self.locals.borrow().iter().find(|(k, _)| &**k == n) { return Some(v.clone()); }
        }
        self.parent.as_ref()?.get(n, imp)
    }
    fn set(&self, n: &str, v: V, imp: bool) {
        if imp { self.implicit.borrow_mut().push(Rc::from(n)); }
        let mut l = self.locals.borrow_mut();
        if let Some(x) = l.iter_mut().find(|(k, _)| &**k == n) { x.1 = v; } else { l.push((Rc::from(n), v)); }
    }
    fn has(&self, n: &str) -> bool { self.locals.borrow().iter().any(|(k, _)| &**k == n) }
    fn unset(&self, n: &str) {
        self.locals.borrow_mut().retain(|(k, _)| &**k != n);
        self.implicit.borrow_mut().retain(|k| &**k != n);
    }
}

/// `Err`: the program is in error (for the given reason).
pub type R<T> = Result<T, String>;
fn err<T>(s: impl Into<String>) -> R<T> { Err(s.into()) }

// ---------- html ----------
const BLOCK: &[&str] = &["!DOCTYPE", "address", "article", "aside", "base", "blockquote", "body", "dd", "details", "div", "dl", "dt", "fieldset", "figcaption", "figure", "footer", "form",
    "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "iframe", "li", "link", "main", "menu", "meta", "nav", "ol", "p", "pre", "script", "section", "style", "table", "template", "title", "ul"];
pub fn tag_is_block(n: &str) -> bool { BLOCK.contains(&n) }

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind { OneOf(&'static [&'static str]), ReqBlock, Allow, Inline, NoBreaks, Empty }
pub fn kind_of(tag: &str) -> Kind {
    match tag {
        "article" | "aside" | "blockquote" | "footer" | "header" | "main" | "nav" | "section" => Kind::ReqBlock,
        "a" | "address" | "body" | "details" | "div" | "fieldset" | "figcaption" | "figure" | "form" | "li" => Kind::Allow,
        "dl" => Kind::OneOf(&["dd", "dt"]),
        "hgroup" => Kind::OneOf(&["p", "h1", "h2", "h3", "h4", "h5", "h6"]),
        "html" => Kind::OneOf(&["body", "head"]),
        "head" => Kind::OneOf(&["base", "link", "meta", "noscript", "script", "style", "template", "title"]),
        "menu" | "ol" | "ul" => Kind::OneOf(&["li"]),
        "table" => Kind::OneOf(&["tr", "tbody", "tfoot", "thead", "caption", "colgroup"]),
        "tbody" | "tfoot" | "thead" => Kind::OneOf(&["tr"]),
        "tr" => Kind::OneOf(&["td", "th"]),
        "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "p" => Kind::NoBreaks,
        _ if VOID.contains(&tag) => Kind::Empty,
        _ => Kind::Inline,
    }
}

pub fn node_block(n: &N) -> bool {
    match n { N::Text(_) => false, N::Tag(t) => if &*t.name == "a" { is_block(&t.content) } else { tag_is_block(&t.name) } }
}
pub fn is_block(h: &[N]) -> bool { h.iter().any(node_block) }
pub fn is_inline(h: &[N]) -> bool { !h.is_empty() && !is_block(h) }
pub fn ws_only(s: &str) -> bool { s.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c')) }
pub fn is_white(h: &[N]) -> bool { match h { [] => true, [N::Text(t)] => ws_only(t), _ => false } }

pub fn join(parts: impl IntoIterator<Item = Vec<N>>) -> Vec<N> {
    let mut out: Vec<N> = vec![];
    for p in parts {
        for n in p {
            match n {
                N::Text(t) if t.is_empty() => {},
                N::Text(t) => if let Some(N::Text(prev)) = out.last_mut() { *prev = Rc::from(format!("{prev}{t}")); } else { out.push(N::Text(t)) },
                n => out.push(n),
            }
        }
    }
    out
}
pub fn elem(name: &str, content: Vec<N>) -> Vec<N> { vec![N::Tag(Rc::new(TagN {name: Rc::from(name), attrs: vec![], content}))] }
pub fn text(s: &str) -> Vec<N> { if s.is_empty() { vec![] } else { vec![N::Text(Rc::from(s))] } }
/// An HTML value; a single text node is a string.
pub fn html_value(h: Vec<N>) -> V { match &h[..] { [N::Text(t)] => V::Str(t.clone()), [] => unit(), _ => V::Html(Rc::new(h)) } }

pub fn to_html(v: &V) -> Vec<N> {
    match v {
        V::Bool(b) => text(if *b { "True" } else { "False" }),
        V::Int(i) => text(&i.to_string().replace('-', "\u{2212}")),
        V::Str(s) => text(s),
        V::Html(h) => h.to_vec(),
        V::List(l) => elem("ul", l.iter().flat_map(|x| elem("li", to_html(x))).collect()),
        V::Dict(d) => vec![N::Tag(Rc::new(TagN {
            name: Rc::from("table"), attrs: vec![(Rc::from("class"), Some(Rc::from("tabular-data")))],
            content: d.iter().flat_map(|(k, x)| { let mut r = elem("th", text(k)); r.extend(elem("td", to_html(x))); elem("tr", r) }).collect(),
        }))],
        V::Func(f) => elem("code", text(&format!("(@fn {})", fname(f)))),
        V::Regex(r) => elem("code", text(&format!("(@regex {r})"))),
    }
}

pub fn render(h: &[N], out: &mut String) {
    for n in h {
        match n {
            N::Text(t) => *out += &crate::html::esc(t, false),
            N::Tag(t) => {
                out.push('<'); *out += &t.name;
                for (k, v) in &t.attrs {
                    out.push(' '); *out += &k.replace('_', "-");
                    if let Some(v) = v { *out += "=\""; *out += &crate::html::esc(v, true); out.push('"'); }
                }
                out.push('>');
                // which HTML parsers ignore
                if matches!(&*t.name, "pre" | "textarea" | "listing") && matches!(t.content.first(), Some(N::Text(x)) if x.starts_with('\n')) { out.push('\n'); }
                render(&t.content, out);
                if !VOID.contains(&&*t.name) { *out += "</"; *out += &t.name; out.push('>'); }
                else if &*t.name == "!DOCTYPE" { out.push('\n'); }
            },
        }
    }
}
pub fn rendered(h: &[N]) -> String { let mut s = String::new(); render(h, &mut s); s }

/// The text-mode rendering.
pub fn render_text(h: &[N], out: &mut String) {
    for n in h {
        match n {
            N::Text(t) => *out += t,
            N::Tag(t) => {
                render_text(&t.content, out);
                match &*t.name { "p" => *out += "\n\n", "hr" => *out += "\n\u{2015}\n\n", n if tag_is_block(n) => out.push('\n'), _ => {} }
            },
        }
    }
}

// ---------- types ----------
pub fn type_of(v: &V) -> Ty {
    match v {
        V::Bool(_) => Ty::Bool, V::Int(_) => Ty::Int, V::Str(_) => Ty::Str, V::Func(_) => Ty::Func, V::Regex(_) => Ty::Regex,
        V::Html(h) => if h.is_empty() { Ty::Unit } else if is_block(h) { Ty::Block } else { Ty::Inline },
        V::List(l) => l.iter().map(type_of).reduce(lub).unwrap_or(Ty::Unit).list(),
        V::Dict(l) => l.iter().map(|x| type_of(&x.1)).reduce(lub).unwrap_or(Ty::Unit).dict(),
    }
}
pub fn lub(a: Ty, b: Ty) -> Ty {
    let is_html = |t: &Ty| matches!(t, Ty::Html | Ty::Block | Ty::Inline);
    if a == b { return a; }
    match (a, b) {
        (Ty::Any, _) | (_, Ty::Any) => Ty::Any,
        (t, Ty::Unit) | (Ty::Unit, t) => t.opt(),
        (a, b) if is_html(&a) && is_html(&b) => Ty::Html,
        (Ty::List(a), Ty::List(b)) => lub(*a, *b).list(),
        (Ty::Dict(a), Ty::Dict(b)) => lub(*a, *b).dict(),
        (Ty::Opt(a), Ty::Opt(b)) => lub(*a, *b).opt(),
        (Ty::Opt(a), b) | (b, Ty::Opt(a)) => lub(*a, b).opt(),
        _ => Ty::Any,
    }
}
/// Whether a value belongs to a type.
pub fn belongs(v: &V, t: &Ty) -> bool {
    if v.is_unit() { return t.unit_ok(); }
    match (t, v) {
        (Ty::Any, _) | (Ty::Bool, V::Bool(_)) | (Ty::Int, V::Int(_)) | (Ty::Str, V::Str(_)) | (Ty::Func, V::Func(_)) | (Ty::Regex, V::Regex(_)) => true,
        (Ty::Html, V::Html(_) | V::Str(_)) | (Ty::Inline, V::Str(_)) => true,
        (Ty::Block, V::Html(h)) => is_block(h),
        (Ty::Inline, V::Html(h)) => is_inline(h),
        (Ty::List(t), V::List(l)) => l.iter().all(|x| belongs(x, t)),
        (Ty::Dict(t), V::Dict(l)) => l.iter().all(|x| belongs(&x.1, t)),
        (Ty::Opt(t), v) => belongs(v, t),
        _ => false,
    }
}
/// The value which a parameter of the type receives.
pub fn coerce(v: &V, t: &Ty) -> R<V> {
    let t = match t { Ty::Opt(t) => { if v.is_unit() { return Ok(unit()); } &**t }, t => t };
    let bad = || err(format!("expected {}, was {}", t.show(), type_of(v).show()));
    Ok(match (t, v) {
        (Ty::Any, _) => v.clone(),
        (Ty::List(t), V::List(l)) => vlist(l.iter().map(|x| coerce(x, t)).collect::<R<_>>()?),
        (Ty::Dict(t), V::Dict(l)) => vdict(l.iter().map(|(k, x)| Ok((k.clone(), coerce(x, t)?))).collect::<R<_>>()?),
        (Ty::Html, V::Html(_) | V::Str(_)) | (Ty::Inline, V::Str(_)) => v.clone(),
        (_, V::Func(_)) => if *t == Ty::Func { v.clone() } else { return bad() },
        (Ty::Html, _) => html_value(to_html(v)),
        (Ty::Block, _) => { let h = to_html(v); html_value(if is_inline(&h) { elem("p", h) } else { h }) },
        (Ty::Inline, V::List(_) | V::Dict(_)) => return bad(),
        (Ty::Inline, _) => { let h = to_html(v); if is_block(&h) { return bad() } html_value(h) },
        (Ty::Str, V::Bool(b)) => vs(if *b { "True" } else { "False" }),
        (Ty::Str, V::Int(i)) => vs(&i.to_string()),
        (Ty::Unit, _) => if v.is_unit() { unit() } else { return bad() },
        (t, v) => if !v.is_unit() && belongs(v, t) { v.clone() } else { return bad() },
    })
}

// ---------- sequences ----------
pub struct Seq { kind: Kind, children: Vec<Vec<N>>, next: Option<Box<Seq>> }
impl Seq {
    pub fn new(kind: Kind) -> Seq { Seq {kind, children: vec![], next: None} }
    fn wrapper(&self) -> &'static str { match self.kind { Kind::OneOf(l) => l[0], _ => "p" } }
    pub fn push(&mut self, h: Vec<N>) -> R<()> {
        if h.is_empty() { return Ok(()); }
        let white = is_white(&h);
        let allowed = match self.kind {
            Kind::Inline | Kind::NoBreaks => { if is_block(&h) { return err("block content where inline content is required"); } true },
            Kind::Empty => true,
            Kind::OneOf(l) => h.iter().all(|n| matches!(n, N::Tag(t) if l.contains(&&*t.name))),
            Kind::ReqBlock | Kind::Allow => is_block(&h),
        };
        if allowed {
            self.close()?;
            if !self.children.is_empty() || !white { self.children.push(h); }
            return Ok(());
        }
        if self.next.is_none() {
            if white { return Ok(()); }
            self.next = Some(Box::new(Seq::new(kind_of(self.wrapper()))));
        }
        self.next.as_mut().unwrap().push(h)
    }
    fn close(&mut self) -> R<()> {
        if let Some(c) = self.next.take() {
            let h = c.finish()?;
            if !h.is_empty() { let w = self.wrapper(); self.children.push(elem(w, h)); }
        }
        Ok(())
    }
    pub fn brk(&mut self) -> R<()> {
        match self.kind {
            Kind::NoBreaks => err("paragraph break not allowed"),
            Kind::Inline => { self.close()?; self.children.push(elem("br", vec![])); Ok(()) },
            Kind::Empty => Ok(()),
            _ => self.close(),
        }
    }
    pub fn finish(mut self) -> R<Vec<N>> {
        if self.kind == Kind::Allow && self.children.is_empty() {
            return match self.next { Some(c) => c.finish(), None => Ok(vec![]) };
        }
        self.close()?;
        while self.children.last().map_or(false, |c| is_white(c)) { self.children.pop(); }
        let h = join(self.children);
        if self.kind == Kind::Empty && !h.is_empty() { return err("no content allowed"); }
        Ok(h)
    }
}

/// Positional parameters (named with an underscore) first, then a positional spread, then
/// named parameters, then a named spread; required ones before optional ones.
fn signature_ok(d: &FnDef) -> R<()> {
    let mut names: Vec<&str> = vec![];
    let mut group = 0;
    let mut optional = [false, false];
    for p in &d.params {
        if names.contains(&p.name.as_str()) { return err("duplicate parameter"); }
        names.push(&p.name);
        let under = p.name.starts_with('_');
        let (g, positional) = match p.kind { PK::Spread => (1, true), PK::NSpread => (3, false), _ => if under { (0, true) } else { (2, false) } };
        if g < group || (g == group && g % 2 == 1) { return err("parameter out of order"); }
        group = g;
        let spread = g % 2 == 1;
        let required = !spread && !p.optional && p.default.is_none();
        let o = &mut optional[!positional as usize];
        if required && *o { return err("required after optional"); }
        *o |= !spread && !required;
        if p.implicit && (positional || spread || p.default.is_some()) { return err("implicit"); }
        if spread && p.default.is_some() { return err("default of a spread"); }
        if spread && under != positional { return err("underscore of a spread"); }
    }
    if let Some(c) = &d.content {
        if names.contains(&c.name.as_str()) || c.default.is_some() || matches!(c.kind, PK::Spread | PK::NSpread) { return err("content parameter"); }
    }
    Ok(())
}

pub fn fname(f: &F) -> Rc<str> { match f { F::User {name, ..} => name.clone(), F::Native(_, n, _) => n.clone(), F::Bound(f, _) => fname(f) } }
pub fn sig_of(f: &F) -> Rc<Sig> { match f { F::User {sig, ..} => sig.clone(), F::Native(_, _, s) => s.clone(), F::Bound(f, _) => sig_of(f) } }

// ---------- evaluation ----------
pub struct In { pub frame: Rc<Frame>, bad: RefCell<Option<String>>, frames: RefCell<Vec<Rc<Frame>>>, pub fuel: Cell<u32>, pub exports: RefCell<Vec<(Rc<str>, V)>>, pub loader: Option<Rc<Loader>>, cur: RefCell<Rc<Frame>> }

thread_local! {
    static GLOBALS: Rc<Frame> = crate::natives::globals();
}
pub const OUT_OF_FUEL: &str = "out of fuel";

impl Drop for In {
    /// Frames and the functions in them refer to each other.
    fn drop(&mut self) {
        self.frame.locals.take();
        for f in self.frames.take() { f.locals.take(); }
    }
}
impl Default for In { fn default() -> In { In::new() } }
impl In {
    pub fn new() -> In { In::in_frame(Frame::new(Some(GLOBALS.with(|g| g.clone())), vec![])) }
    pub fn in_frame(frame: Rc<Frame>) -> In { In {bad: RefCell::new(None), frames: RefCell::new(vec![]), fuel: Cell::new(5_000), exports: RefCell::new(vec![]), loader: None, cur: RefCell::new(frame.clone()), frame} }
    fn child(&self, fr: &Rc<Frame>, locals: Vec<(Rc<str>, V)>) -> Rc<Frame> {
        let f = Frame::new(Some(fr.clone()), locals);
        self.frames.borrow_mut().push(f.clone());
        f
    }
    fn charge(&self, n: usize) -> R<()> {
        let f = self.fuel.get();
        if n as u64 > f as u64 { self.fuel.set(0); return err(OUT_OF_FUEL); }
        self.fuel.set(f - n as u32);
        Ok(())
    }
    fn tick(&self) -> R<()> { let n = self.fuel.get(); if n == 0 { return err(OUT_OF_FUEL); } self.fuel.set(n - 1); Ok(()) }
    
    pub fn name(&self, n: &Name, fr: &Rc<Frame>, hint: &Ty) -> R<V> {
        let v = match n {
            Name::Simple(s) => match fr.get(s, false) { Some(v) => v, None => return err(format!("no variable {s}")) },
            Name::Index(n, c, i) => {
                let l = self.name(n, fr, &if *c { Ty::Any.list().opt() } else { Ty::Any.list() })?;
                match l { V::List(l) => index(&l, *i)?, _ => unit() }
            },
            Name::Attr(n, c, a) => {
                let v = self.name(n, fr, &Ty::Any)?;
                if v.is_unit() && *c { unit() } else { self.attr(v, a)? }
            },
        };
        coerce(&v, hint)
    }
    fn attr(&self, v: V, a: &str) -> R<V> {
        match &v {
            V::Dict(d) => if let Some((_, x)) = d.iter().find(|(k, _)| &**k == a) { return Ok(x.clone()); },
            V::Html(h) => if let ([N::Tag(t)], "tag_name") = (&h[..], a) { return Ok(V::Str(t.name.clone())); },
            _ => {},
        }
        match crate::natives::method(&v, a) {
            Some((f, true)) => { let mut b = Binder::open(&f); b.content(&v)?; b.bound(f).map(V::Func) },
            Some((f, false)) => { let mut b = Binder::open(&f); b.pos(&v)?; b.bound(f).map(V::Func) },
            None => err(format!("no attribute {a}")),
        }
    }
    
    pub fn eval(&self, e: &E, fr: &Rc<Frame>, hint: &Ty) -> R<V> {
        self.tick()?;
        let v = match e {
            E::Unit => unit(),
            E::Bool(b) => V::Bool(*b),
            E::Int(i) => V::Int(*i),
            E::Bare(s) | E::Str(s) => vs(s),
            E::Raw(_, e) => return self.eval(e, fr, hint),
            E::Var(n) => return self.name(n, fr, hint),
            E::Call(f, args, c) => return self.call_expr(f, args, c, fr, hint),
            E::Fn(d) => {
                let f = self.define(d, fr)?;
                if matches!(hint, Ty::Html | Ty::Block | Ty::Inline) { return err("function where html is expected"); }
                V::Func(f)
            },
            E::Let(imp, vars, body) => {
                let fr = self.child(fr, vec![]);
                for (n, e) in vars { let v = self.eval(e, &fr, &Ty::Any)?; fr.set(n, v, *imp); }
                return self.eval(body, &fr, hint);
            },
            E::Match(v, bs) => {
                let v = self.eval(v, fr, &Ty::Any)?;
                for (p, body) in bs {
                    let fr = self.child(fr, vec![]);
                    if self.bind(p, &v, &fr)? { return self.eval(body, &fr, hint); }
                }
                return err("no matching branch");
            },
            E::Group(c) => html_value(self.seq(c, fr, Kind::Allow)?),
            E::Tag(n, attrs, c) => self.tag(n, attrs, c, fr)?,
            E::List(l) => {
                let ct = hint.component();
                let mut out = vec![];
                for (e, spread) in l {
                    if *spread {
                        let V::List(x) = self.eval(e, fr, &ct.clone().list())? else { return err("not a list") };
                        self.charge(x.len())?;
                        out.extend(x.iter().cloned());
                    } else { out.push(self.eval(e, fr, &ct)?); }
                }
                vlist(out)
            },
            E::Tmpl(ps) => {
                let mut s = String::new();
                for p in ps {
                    match p {
                        Tp::Lit(x) => s += x,
                        Tp::Sp => s.push(' '),
                        Tp::Var(n) => if let V::Str(x) = self.name(n, fr, &Ty::Str.opt())? { self.charge(x.len() / 16)?; s += &x; },
                    }
                }
                vs(&s)
            },
        };
        coerce(&v, hint)
    }
    
    pub fn seq(&self, items: &[A], fr: &Rc<Frame>, kind: Kind) -> R<Vec<N>> {
        let mut b = Seq::new(kind);
        // whitespace and breaks at both ends of the source of a group mean nothing
        let white = |a: &A| matches!(a, A::Sp | A::Para);
        let white_end = |a: &A| white(a) || matches!(a, A::Char(c) if matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c'));
        let end = items.iter().rposition(|a| !white_end(a)).map_or(0, |i| i + 1);
        let start = items.iter().position(|a| !white(a)).unwrap_or(0).min(end);
        let items = &items[start..end];
        for (k, a) in items.iter().enumerate() {
            // adjacent whitespace in the source is one space or break
            if white(a) && k > 0 && white(&items[k - 1]) { continue; }
            let is_para = white(a) && items[k..].iter().take_while(|a| white(a)).any(|a| matches!(a, A::Para));
            if let Err(e) = self.item(a, is_para, &mut b, fr) { self.bad(e)?; }
        }
        b.finish().or_else(|e| { self.bad(e)?; Ok(vec![]) })
    }
    /// The error is reported, and evaluation goes on.
    fn bad(&self, e: String) -> R<()> {
        if e == OUT_OF_FUEL { return Err(e); }
        self.bad.borrow_mut().get_or_insert(e);
        Ok(())
    }
    fn item(&self, a: &A, is_para: bool, b: &mut Seq, fr: &Rc<Frame>) -> R<()> {
        match a {
            A::Sp if is_para => b.brk()?,
            A::Raw(_, c) => for a in c { self.item(a, false, b, fr)?; },
            A::Text(s) => b.push(text(s))?,
            A::Char(c) => b.push(text(&c.to_string()))?,
            A::Sp => b.push(text(" "))?,
            A::Para => b.brk()?,
            A::Code(s) => b.push(elem("code", text(s)))?,
            A::E(e) => {
                let v = self.eval(e, fr, &Ty::Html)?;
                let h = to_html(&v);
                self.charge(h.iter().map(|n| match n { N::Text(t) => t.len() / 16, _ => 1 }).sum())?;
                b.push(h)?;
            },
            A::Def(d) => { let f = self.define(d, fr)?; fr.set(d.name.as_ref().unwrap(), V::Func(f), false); },
            A::ExportNames(vs) => for (n, e) in vs { let v = self.eval(e, fr, &Ty::Any)?; self.export(n, v); },
            A::ExportDef(d) => {
                let f = V::Func(self.define(d, fr)?);
                self.export(d.name.as_ref().unwrap(), f.clone());
                fr.set(d.name.as_ref().unwrap(), f, false);
            },
            A::ExportLet(vars, body) => {
                let fr = self.child(fr, vec![]);
                for (n, e) in vars { let v = self.eval(e, &fr, &Ty::Any)?; self.export(n, v.clone()); fr.set(n, v, false); }
                self.eval(body, &fr, &Ty::Unit)?;
            },
        }
        Ok(())
    }
    fn export(&self, n: &str, v: V) {
        let mut x = self.exports.borrow_mut();
        if let Some(e) = x.iter_mut().find(|(k, _)| &**k == n) { e.1 = v; } else { x.push((Rc::from(n), v)); }
    }
    
    fn tag(&self, n: &TName, attrs: &[At], c: &[A], fr: &Rc<Frame>) -> R<V> {
        let name: Rc<str> = match n {
            TName::Lit(s) => Rc::from(if s.eq_ignore_ascii_case("!doctype") { "!DOCTYPE".to_string() } else { s.to_lowercase() }),
            TName::Var(n) => {
                let V::Str(s) = self.name(n, fr, &Ty::Str)? else { return err("tag name") };
                let mut cs = s.chars();
                if cs.next().map_or(false, crate::lex::ident_start) && cs.all(crate::lex::ident_cont) { Rc::from(s.to_lowercase()) }
                else if s.eq_ignore_ascii_case("!doctype") { Rc::from("!DOCTYPE") }
                else { return err("invalid tag name"); }
            },
        };
        let mut out: Vec<(Rc<str>, Option<Rc<str>>)> = vec![];
        let mut add = |k: &str, v: Option<Rc<str>>| -> R<()> {
            let shown = |n: &str| n.replace('_', "-").to_ascii_lowercase();
            if out.iter().any(|(n, _)| shown(n) == shown(k)) { return err("duplicate attribute"); }
            out.push((Rc::from(k), v));
            Ok(())
        };
        for a in attrs {
            match a {
                At::Attr(k, None) => add(k, None)?,
                At::Attr(k, Some(e)) => { let V::Str(s) = self.eval(e, fr, &Ty::Str)? else { return err("attr") }; add(k, Some(s))? },
                At::Opt(k, e) => if let V::Str(s) = self.eval(e, fr, &Ty::Str.opt())? { add(k, Some(s))? },
                At::Spread(e) => {
                    let V::Dict(d) = self.eval(e, fr, &Ty::Str.opt().dict())? else { return err("attrs") };
                    for (k, v) in d.iter() { add(k, if let V::Str(s) = v { Some(s.clone()) } else { None })?; }
                },
            }
        }
        let content = self.seq(c, fr, kind_of(&name))?;
        Ok(V::Html(Rc::new(vec![N::Tag(Rc::new(TagN {name, attrs: out, content}))])))
    }
    
    // ---------- functions ----------
    pub fn define(&self, d: &std::sync::Arc<FnDef>, fr: &Rc<Frame>) -> R<Rc<F>> {
        if let Err(e) = signature_ok(d) { self.bad(e)?; }
        let param = |p: &Param| -> R<P> {
            let mut ty = p.ty.clone().unwrap_or(Ty::Any);
            if p.optional { ty = ty.opt(); }
            let default = match &p.default { Some(e) => match self.eval(e, fr, &ty) { Ok(x) => Some(x), Err(e) => { self.bad(e)?; None } }, None => p.optional.then(unit) };
            Ok(P {name: Rc::from(p.name.as_str()), ty, implicit: p.implicit, default})
        };
        let mut sig = Sig {pos: vec![], spread: None, named: vec![], nspread: None, content: None};
        for p in &d.params {
            let q = param(p)?;
            match p.kind { PK::Pos => sig.pos.push(q), PK::Spread => sig.spread = Some(q), PK::Named => sig.named.push(q), PK::NSpread => sig.nspread = Some(q) }
        }
        if let Some(c) = &d.content { sig.content = Some(param(c)?); }
        Ok(Rc::new(F::User {name: Rc::from(d.name.as_deref().unwrap_or("<anonymous>")), frame: fr.clone(), sig: Rc::new(sig), def: d.clone()}))
    }
    
    fn call_expr(&self, n: &Name, args: &[Arg], content: &E, fr: &Rc<Frame>, hint: &Ty) -> R<V> {
        fn coalescing(n: &Name) -> bool { match n { Name::Simple(_) => false, Name::Attr(n, c, _) | Name::Index(n, c, _) => *c || coalescing(n) } }
        let fty = if coalescing(n) { Ty::Func.opt() } else { Ty::Func };
        let V::Func(f) = self.name(n, fr, &fty)? else { return Ok(unit()) };
        let sig = sig_of(&f);
        let mut b = Binder::open(&f);
        let mut named: Vec<&str> = vec![];
        let mut any_named = false;
        for a in args {
            match a {
                Arg::Pos(_) | Arg::Spread(_) => if any_named { return err("positional argument after named"); },
                Arg::Named(k, _) => { if named.contains(&k.as_str()) { return err("duplicate argument"); } named.push(k); any_named = true; },
                Arg::NSpread(_) => any_named = true,
            }
        }
        for a in args {
            match a {
                Arg::Pos(e) => {
                    let t = sig.pos.get(b.part.count).map(|p| p.ty.clone()).or(sig.spread.as_ref().map(|p| p.ty.component())).unwrap_or(Ty::Any);
                    let v = self.eval(e, fr, &t)?;
                    b.pos(&v)?;
                },
                Arg::Named(k, e) => {
                    let t = sig.named.iter().find(|p| &*p.name == k).map(|p| p.ty.clone()).or(sig.nspread.as_ref().map(|p| p.ty.component())).unwrap_or(Ty::Any);
                    let v = self.eval(e, fr, &t)?;
                    b.named(k, &v)?;
                },
                Arg::Spread(e) => { let V::List(l) = self.eval(e, fr, &Ty::Any.list())? else { return err("spread") }; for v in l.iter() { b.pos(v)?; } },
                Arg::NSpread(e) => { let V::Dict(l) = self.eval(e, fr, &Ty::Any.dict())? else { return err("spread") }; for (k, v) in l.iter() { b.named(k, v)?; } },
            }
        }
        for p in sig.named.iter().filter(|p| p.implicit) {
            if b.part.map.iter().any(|(k, _)| *k == p.name) { continue; }
            match fr.get(&p.name, true).or(p.default.clone()) { Some(v) => b.part.map.push((p.name.clone(), coerce(&v, &p.ty)?)), None => return err("missing implicit") }
        }
        let t = match &sig.content {
            Some(p) => if b.part.map.iter().any(|(k, _)| *k == p.name) { Ty::Any } else { p.ty.clone() },
            None => Ty::Unit,
        };
        let v = self.eval(content, fr, &t)?;
        b.content(&v)?;
        let bindings = b.build()?;
        let old = self.cur.replace(fr.clone());
        let r = self.run(&f, bindings, hint);
        self.cur.replace(old);
        r
    }
    
    // ---------- modules ----------
    /// `@import` and `@include`, called by the code in the current frame.
    pub fn import(&self, path: &str, include: bool) -> R<V> {
        let Some(l) = self.loader.clone() else { return err(OUT_OF_FUEL) };
        let cur = self.cur.borrow().clone();
        let path = if path.to_ascii_lowercase().ends_with(".papyri") { path.to_string() } else { format!("{path}.papyri") };
        let full = if path.starts_with('/') { path } else { format!("{}/{path}", cur.dir().unwrap()) };
        let Some(key) = l.canonical(&full) else { return err("no such file") };
        let st = l.state.borrow().get(&key).cloned();
        let (out, exports) = match st {
            Some(St::Busy) => return err("circular import"),
            Some(St::Failed) => return err("previous error"),
            Some(St::Loaded(o, x)) => (o, x),
            None => {
                l.state.borrow_mut().insert(key.clone(), St::Busy);
                let r = l.compile(&l, &full, &key);
                let st = match &r { Ok((o, x, None)) => St::Loaded(o.clone(), x.clone()), _ => St::Failed };
                l.state.borrow_mut().insert(key, st);
                let (o, x, bad) = r?;
                if let Some(e) = bad { self.bad(e)?; }
                (o, x)
            },
        };
        if !include { return Ok(vdict(exports.to_vec())); }
        for (k, v) in exports.iter() { cur.set(k, v.clone(), false); }
        Ok(html_value(out.to_vec()))
    }
    
    pub fn run(&self, f: &F, bindings: Vec<(Rc<str>, V)>, hint: &Ty) -> R<V> {
        self.tick()?;
        match f {
            F::User {frame, def, ..} => self.eval(&def.body, &self.child(frame, bindings), hint),
            F::Native(n, ..) => coerce(&crate::natives::run(self, n, &bindings)?, hint),
            F::Bound(f, _) => self.run(f, bindings, hint),
        }
    }
    /// A call by a library function: one content argument.
    pub fn callback(&self, f: &F, arg: &V, hint: &Ty) -> R<V> {
        let mut b = Binder::open(f);
        b.content(arg)?;
        self.run(f, b.build()?, hint)
    }
    
    // ---------- patterns ----------
    pub fn bind(&self, p: &Pat, v: &V, fr: &Rc<Frame>) -> R<bool> {
        Ok(match p {
            Pat::Ignore => true,
            Pat::None => v.is_unit(),
            Pat::Var(n) => { fr.set(n, v.clone(), false); true },
            Pat::Eq(e) => match self.eval(e, fr, &Ty::Any) { Ok(x) => x == *v, Err(e) => { self.bad(e)?; false } },
            Pat::And(a, b) => self.bind(a, v, fr)? && self.bind(b, v, fr)?,
            Pat::Or(a, b) => {
                let names = { let mut n = vec![]; names_of(p, &mut n); n };
                let r = self.bind(a, v, fr)? || { for n in &names { fr.unset(n); } self.bind(b, v, fr)? };
                if r { for n in &names { if !fr.has(n) { fr.set(n, unit(), false); } } }
                r
            },
            Pat::Typed(t) => belongs(v, t),
            Pat::TypeOf(n) => { fr.set(n, vs(&type_of(v).show()), false); true },
            Pat::List(ps, sp) => { let V::List(l) = v else { return Ok(false) }; self.bind_seq(ps, *sp, l, &|s| vlist(s.to_vec()), fr)? },
            Pat::Seq(ps, sp) => {
                let h = match v { V::Html(h) => h.to_vec(), V::Str(s) => text(s), _ => return Ok(false) };
                if ps.is_empty() { return Ok(v.is_unit()); }
                let l: Vec<V> = h.into_iter().map(|n| html_value(vec![n])).collect();
                self.bind_seq(ps, *sp, &l, &|s| html_value(join(s.iter().map(to_html))), fr)?
            },
            Pat::Dict(ps, sp) => {
                let V::Dict(d) = v else { return Ok(false) };
                self.bind_dict(ps.iter().map(|(k, p)| (k.as_str(), p)).collect(), sp.as_deref(), d, fr)?
            },
            Pat::Tag(n, ps, sp, c) => {
                let V::Html(h) = v else { return Ok(false) };
                let [N::Tag(t)] = &h[..] else { return Ok(false) };
                match n {
                    PName::Any => {},
                    PName::Lit(s) => if s.to_lowercase() != *t.name { return Ok(false); },
                    PName::Var(x) => fr.set(x, V::Str(t.name.clone()), false),
                }
                let d: Vec<(Rc<str>, V)> = t.attrs.iter().map(|(k, v)| (k.clone(), v.as_ref().map_or(unit(), |s| V::Str(s.clone())))).collect();
                static NONE: Pat = Pat::None;
                let m = match sp {
                    Some(p) if ps.is_empty() => self.bind(p, &vdict(d), fr)?,
                    _ => self.bind_dict(ps.iter().map(|(k, p)| (k.as_str(), p.as_ref().unwrap_or(&NONE))).collect(), sp.as_deref(), &d, fr)?,
                };
                m && self.bind(c, &html_value(t.content.clone()), fr)?
            },
            Pat::Tmpl(ps) => {
                let V::Str(s) = v else { return Ok(false) };
                if ps.iter().all(|p| matches!(p, Tp::Lit(_))) {
                    return Ok(**s == *ps.iter().map(|p| if let Tp::Lit(x) = p { x.as_str() } else { "" }).collect::<String>());
                }
                let Some(caps) = tmpl_match(ps, s) else { return Ok(false) };
                for (n, x) in caps { fr.set(&n, vs(&x), false); }
                true
            },
        })
    }
    fn bind_dict(&self, ps: Vec<(&str, &Pat)>, sp: Option<&Pat>, d: &[(Rc<str>, V)], fr: &Rc<Frame>) -> R<bool> {
        if sp.is_none() && d.len() != ps.len() { return Ok(false); }
        for (k, p) in &ps {
            let Some((_, v)) = d.iter().find(|(n, _)| &**n == *k) else { return Ok(false) };
            if !self.bind(p, v, fr)? { return Ok(false); }
        }
        match sp {
            None | Some(Pat::Ignore) => Ok(true),
            Some(p) => self.bind(p, &vdict(d.iter().filter(|(n, _)| !ps.iter().any(|(k, _)| *k == &**n)).cloned().collect()), fr),
        }
    }
    fn bind_seq(&self, ps: &[Pat], sp: Option<usize>, l: &[V], slice: &dyn Fn(&[V]) -> V, fr: &Rc<Frame>) -> R<bool> {
        let Some(i) = sp else {
            if ps.len() != l.len() { return Ok(false); }
            for (p, v) in ps.iter().zip(l) { if !self.bind(p, v, fr)? { return Ok(false); } }
            return Ok(true);
        };
        if l.len() + 1 < ps.len() { return Ok(false); }
        let j = l.len() - (ps.len() - i - 1);
        for k in 0..i { if !self.bind(&ps[k], &l[k], fr)? { return Ok(false); } }
        if !self.bind(&ps[i], &slice(&l[i..j]), fr)? { return Ok(false); }
        for k in j..l.len() { if !self.bind(&ps[i + 1 + k - j], &l[k], fr)? { return Ok(false); } }
        Ok(true)
    }
}

pub fn index(l: &[V], i: i64) -> R<V> {
    let n = l.len() as i64;
    if i >= -n && i < n { Ok(l[(if i < 0 { i + n } else { i }) as usize].clone()) } else { err("index out of range") }
}

pub fn names_of(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Var(n) | Pat::TypeOf(n) => out.push(n.clone()),
        Pat::And(a, b) | Pat::Or(a, b) => { names_of(a, out); names_of(b, out); },
        Pat::List(ps, _) | Pat::Seq(ps, _) => for p in ps { names_of(p, out); },
        Pat::Dict(ps, sp) => { for (_, p) in ps { names_of(p, out); } if let Some(p) = sp { names_of(p, out); } },
        Pat::Tag(n, ps, sp, c) => {
            if let PName::Var(n) = n { out.push(n.clone()); }
            for (_, p) in ps { if let Some(p) = p { names_of(p, out); } }
            if let Some(p) = sp { names_of(p, out); }
            names_of(c, out);
        },
        Pat::Tmpl(ps) => for p in ps { if let Tp::Var(Name::Simple(n)) = p { out.push(n.clone()); } },
        _ => {},
    }
}

/// Matches a template pattern: literals verbatim, variables as short as possible but
/// not empty, a space as any whitespace run.
pub fn tmpl_match(ps: &[Tp], s: &str) -> Option<Vec<(String, String)>> {
    let uni_ws = |c: char| c.is_whitespace();
    let Some(p) = ps.first() else { return s.is_empty().then(Vec::new) };
    match p {
        Tp::Lit(x) => tmpl_match(&ps[1..], s.strip_prefix(x.as_str())?),
        Tp::Sp => {
            let w: Vec<usize> = s.char_indices().take_while(|(_, c)| uni_ws(*c)).map(|(i, c)| i + c.len_utf8()).collect();
            w.into_iter().rev().find_map(|k| tmpl_match(&ps[1..], &s[k..]))
        },
        Tp::Var(Name::Simple(n)) => s.char_indices().map(|(i, c)| i + c.len_utf8()).find_map(|k| {
            let mut r = tmpl_match(&ps[1..], &s[k..])?;
            r.insert(0, (n.clone(), s[..k].to_string()));
            Some(r)
        }),
        Tp::Var(_) => None,
    }
}

// ---------- argument binding ----------
pub struct Binder { sig: Rc<Sig>, pub part: Part }
impl Binder {
    pub fn open(f: &F) -> Binder { Binder {sig: sig_of(f), part: match f { F::Bound(_, p) => p.clone(), _ => Part::default() }} }
    pub fn pos(&mut self, v: &V) -> R<()> {
        if let Some(p) = self.sig.pos.get(self.part.count) { self.part.map.push((p.name.clone(), coerce(v, &p.ty)?)); }
        else if let Some(p) = &self.sig.spread { self.part.spread.push(coerce(v, &p.ty.component())?); }
        self.part.count += 1;
        Ok(())
    }
    pub fn named(&mut self, k: &str, v: &V) -> R<()> {
        if let Some(p) = self.sig.named.iter().find(|p| &*p.name == k) {
            let v = coerce(v, &p.ty)?;
            if self.part.map.iter().any(|(n, _)| &**n == k) { return err("multiple values"); }
            self.part.map.push((p.name.clone(), v));
        } else if let Some(p) = &self.sig.nspread {
            let v = coerce(v, &p.ty.component())?;
            if self.part.nspread.iter().any(|(n, _)| &**n == k) { return err("multiple values"); }
            self.part.nspread.push((Rc::from(k), v));
        } else { return err("no such parameter"); }
        Ok(())
    }
    pub fn content(&mut self, v: &V) -> R<()> {
        match &self.sig.content {
            None => coerce(v, &Ty::Unit).map(|_| ()),
            Some(p) => {
                if self.part.map.iter().any(|(n, _)| *n == p.name) { return if v.is_unit() { Ok(()) } else { err("content already bound") }; }
                let v = coerce(v, &p.ty)?;
                self.part.map.push((p.name.clone(), v));
                Ok(())
            },
        }
    }
    fn count_ok(&self) -> R<()> { if self.sig.spread.is_none() && self.part.count > self.sig.pos.len() { err("too many positional arguments") } else { Ok(()) } }
    pub fn bound(self, f: Rc<F>) -> R<Rc<F>> { self.count_ok()?; Ok(Rc::new(F::Bound(f, self.part))) }
    pub fn build(self) -> R<Vec<(Rc<str>, V)>> {
        self.count_ok()?;
        let mut m = self.part.map;
        if let Some(p) = &self.sig.spread { m.push((p.name.clone(), coerce(&vlist(self.part.spread), &p.ty)?)); }
        if let Some(p) = &self.sig.nspread { m.push((p.name.clone(), coerce(&vdict(self.part.nspread), &p.ty)?)); }
        for p in self.sig.pos.iter().skip(self.part.count) {
            match &p.default { Some(v) => m.push((p.name.clone(), v.clone())), None => return err("not enough positional arguments") }
        }
        for p in &self.sig.named {
            if m.iter().any(|(n, _)| *n == p.name) { continue; }
            match &p.default { Some(v) => m.push((p.name.clone(), v.clone())), None => return err(format!("missing parameter {}", p.name)) }
        }
        Ok(m)
    }
}

// ---------- module loading ----------
#[derive(Clone)]
enum St { Busy, Failed, Loaded(Rc<Vec<N>>, Rc<Vec<(Rc<str>, V)>>) }
type Loaded = (Rc<Vec<N>>, Rc<Vec<(Rc<str>, V)>>, Option<String>);
/// Source files, and the state of each as a module.
#[derive(Default)]
pub struct Loader {
    pub files: std::collections::HashMap<String, Vec<A>>,
    pub dirs: std::collections::HashSet<String>,
    /// symbolic links (canonical path of the link, canonical path of its target)
    pub links: Vec<(String, String)>,
    state: RefCell<std::collections::HashMap<String, St>>,
    keep: RefCell<Vec<In>>,
    ids: Cell<u32>,
    /// the modules compiled, in order
    pub log: RefCell<Vec<String>>,
}
impl Loader {
    pub fn canonical(&self, path: &str) -> Option<String> {
        let mut at = String::new();
        let segs: Vec<&str> = path.split('/').collect();
        for (k, seg) in segs.iter().enumerate() {
            match *seg {
                "" | "." => {},
                ".." => { let i = at.rfind('/').unwrap_or(0); at.truncate(i); },
                s => { at.push('/'); at += s; if let Some((_, t)) = self.links.iter().find(|l| l.0 == at) { at = t.clone(); } },
            }
            let dir = at.is_empty() || self.dirs.contains(&at);
            if !dir && (k + 1 < segs.len() || !self.files.contains_key(&at)) { return None; }
        }
        Some(at)
    }
    pub fn next_id(&self) -> u32 { self.ids.set(self.ids.get() + 1); self.ids.get() }
    /// Compiles a file; its directory is that of the path by which it was reached.
    pub fn compile(&self, me: &Rc<Loader>, path: &str, key: &str) -> R<Loaded> {
        let Some(doc) = self.files.get(key) else { return err("cannot be read") };
        self.log.borrow_mut().push(key.to_string());
        let dir = &path[..path.rfind('/').unwrap_or(0)];
        let frame = Rc::new(Frame {dir: Some(Rc::from(dir)), parent: Some(GLOBALS.with(|g| g.clone())), locals: RefCell::new(vec![]), implicit: RefCell::new(vec![])});
        let mut i = In::in_frame(frame.clone());
        i.loader = Some(me.clone());
        let h = i.seq(doc, &frame, Kind::ReqBlock)?;
        let mut bad = i.bad.take();
        if let Err(e) = static_ok(doc) { bad.get_or_insert(e); }
        let x = i.exports.take();
        // functions which it exported still need its frames
        self.keep.borrow_mut().push(i);
        Ok((Rc::new(h), Rc::new(x), bad))
    }
    pub fn done(&self) { for i in self.keep.take().iter_mut() { i.loader = None; } self.state.take(); }
}
/// The output of a document which is loaded from a file.
pub fn expect_file(l: &Rc<Loader>, path: &str) -> Result<Option<String>, ()> {
    let r = match l.canonical(path) { Some(k) => l.compile(l, path, &k), None => err("no such file") };
    l.done();
    match r {
        Ok((h, _, None)) => Ok(Some(rendered(&h))),
        Ok((.., Some(_))) => Ok(None),
        Err(e) if e == OUT_OF_FUEL => Err(()),
        Err(_) => Ok(None),
    }
}

/// What is in error whether it is evaluated or not.
pub fn static_ok(c: &[A]) -> R<()> {
    fn all<'a>(i: impl IntoIterator<Item = &'a E>) -> R<()> { for e in i { ex(e)?; } Ok(()) }
    fn def(d: &FnDef) -> R<()> {
        signature_ok(d)?;
        for p in d.params.iter().chain(&d.content) { if let Some(e) = &p.default { ex(e)?; } }
        ex(&d.body)
    }
    fn pat(p: &Pat) -> R<()> {
        match p {
            Pat::Eq(e) => ex(e)?,
            Pat::And(a, b) | Pat::Or(a, b) => { pat(a)?; pat(b)?; },
            Pat::List(l, _) => for p in l { pat(p)?; },
            Pat::Seq(l, _) => for p in l { pat(p)?; if !may_be_html(p) { return err("pattern cannot match html"); } },
            Pat::Dict(l, sp) => { for p in l { pat(&p.1)?; } if let Some(p) = sp { pat(p)?; } },
            Pat::Tag(_, l, sp, c) => { for p in l.iter().filter_map(|p| p.1.as_ref()) { pat(p)?; } if let Some(p) = sp { pat(p)?; } pat(c)?; },
            _ => {},
        }
        Ok(())
    }
    fn may_be_html(p: &Pat) -> bool {
        match p {
            Pat::And(a, b) | Pat::Or(a, b) => may_be_html(a) && may_be_html(b),
            Pat::Eq(E::Bool(_) | E::Int(_) | E::List(_)) | Pat::List(..) | Pat::Dict(..) => false,
            _ => true,
        }
    }
    fn ex(e: &E) -> R<()> {
        match e {
            E::Call(_, args, c) => {
                let mut named: Vec<&str> = vec![];
                let mut any_named = false;
                for a in args {
                    match a {
                        Arg::Pos(e) | Arg::Spread(e) => { if any_named { return err("positional argument after named"); } ex(e)?; },
                        Arg::Named(k, e) => { if named.contains(&k.as_str()) { return err("duplicate argument"); } named.push(k); any_named = true; ex(e)?; },
                        Arg::NSpread(e) => { any_named = true; ex(e)?; },
                    }
                }
                ex(c)
            },
            E::Fn(d) => def(d),
            E::Let(_, v, b) => { all(v.iter().map(|x| &x.1))?; ex(b) },
            E::Match(v, bs) => { ex(v)?; for (p, b) in bs { pat(p)?; ex(b)?; } Ok(()) },
            E::Group(c) => static_ok(c),
            E::Tag(_, at, c) => {
                let names: Vec<&String> = at.iter().filter_map(|a| match a { At::Attr(k, _) | At::Opt(k, _) => Some(k), At::Spread(_) => None }).collect();
                if (1..names.len()).any(|k| names[..k].contains(&names[k])) { return err("attribute written twice"); }
                all(at.iter().filter_map(|a| match a { At::Attr(_, e) => e.as_ref(), At::Opt(_, e) | At::Spread(e) => Some(e) }))?;
                static_ok(c)
            },
            E::List(l) => all(l.iter().map(|x| &x.0)),
            _ => Ok(()),
        }
    }
    for a in c {
        match a {
            A::E(E::Fn(_)) => return err("anonymous function"),
            A::E(e) => ex(e)?,
            A::Def(d) | A::ExportDef(d) => def(d)?,
            A::ExportNames(v) => all(v.iter().map(|x| &x.1))?,
            A::ExportLet(v, b) => { all(v.iter().map(|x| &x.1))?; ex(b)?; },
            _ => {},
        }
    }
    Ok(())
}

/// What a document denotes.
pub fn document(doc: &[A]) -> R<Vec<N>> {
    let i = In::new();
    let fr = i.frame.clone();
    let h = i.seq(doc, &fr, Kind::ReqBlock)?;
    if let Some(e) = i.bad.take() { return Err(e); }
    static_ok(doc)?;
    Ok(h)
}
/// The rendered output, or `None` if the document is in error; `Err` if the model cannot tell.
pub fn expect(doc: &[A]) -> Result<Option<String>, ()> {
    match document(doc) { Ok(h) => Ok(Some(rendered(&h))), Err(e) if e == OUT_OF_FUEL => Err(()), Err(_) => Ok(None) }
}
