//! A small backtracking matcher for regular expressions (leftmost, first alternative).
use crate::sem::{unit, vdict, vlist, vs, V};
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum X { C(char), Any, Set(bool, Vec<char>), Start, End, Cat(Vec<X>), Alt(Vec<X>), Grp(usize, Box<X>), Rep(Box<X>, usize, Option<usize>, bool) }
pub struct Rx { pub x: X, pub groups: usize, pub names: Vec<Option<String>> }

struct Ps<'a> { s: &'a [char], i: usize, names: Vec<Option<String>> }
impl Ps<'_> {
    fn peek(&self) -> Option<char> { self.s.get(self.i).copied() }
    fn eat(&mut self, t: &str) -> bool { let t: Vec<char> = t.chars().collect(); if self.s[self.i..].starts_with(&t) { self.i += t.len(); true } else { false } }
    fn alt(&mut self) -> Option<X> {
        let mut v = vec![self.cat()?];
        while self.eat("|") { v.push(self.cat()?); }
        Some(if v.len() == 1 { v.pop().unwrap() } else { X::Alt(v) })
    }
    fn cat(&mut self) -> Option<X> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' { break; }
            let x = self.atom()?;
            v.push(self.rep(x)?);
        }
        Some(X::Cat(v))
    }
    fn rep(&mut self, mut x: X) -> Option<X> {
        loop {
            let (lo, hi) = match self.peek() { Some('*') => (0, None), Some('+') => (1, None), Some('?') => (0, Some(1)), _ => return Some(x) };
            self.i += 1;
            let lazy = self.eat("?");
            x = X::Rep(Box::new(x), lo, hi, lazy);
        }
    }
    fn atom(&mut self) -> Option<X> {
        if self.eat("(?:") { let x = self.alt()?; return self.eat(")").then_some(x); }
        if self.eat("(") {
            let name = if self.eat("?P<") {
                let mut n = String::new();
                while let Some(c) = self.peek() { self.i += 1; if c == '>' { break; } n.push(c); }
                Some(n)
            } else { if self.peek() == Some('?') { return None; } None };
            self.names.push(name);
            let k = self.names.len();
            let x = self.alt()?;
            return self.eat(")").then(|| X::Grp(k, Box::new(x)));
        }
        if self.eat("[") {
            let neg = self.eat("^");
            let mut v = vec![];
            while let Some(c) = self.peek() { self.i += 1; if c == ']' { return (!v.is_empty()).then_some(X::Set(neg, v)); } v.push(c); }
            return None;
        }
        let c = self.peek()?;
        self.i += 1;
        Some(match c { '.' => X::Any, '^' => X::Start, '$' => X::End, '*' | '+' | '?' | '{' => return None, '\\' => { let c = self.peek()?; self.i += 1; if c.is_ascii_alphanumeric() { return None; } X::C(c) }, c => X::C(c) })
    }
}

/// `None`: not a regular expression, or its groups are mixed or badly named.
pub fn parse(s: &str) -> Option<Rx> {
    let c: Vec<char> = s.chars().collect();
    let mut p = Ps {s: &c, i: 0, names: vec![]};
    let x = p.alt()?;
    if p.i < c.len() { return None; }
    let names = p.names;
    if !(names.iter().all(|n| n.is_none()) || names.iter().all(|n| n.is_some())) { return None; }
    for (i, n) in names.iter().enumerate() {
        if let Some(n) = n {
            let mut cs = n.chars();
            if !(cs.next().map_or(false, crate::lex::ident_start) && cs.all(crate::lex::ident_cont)) || names[..i].contains(&Some(n.clone())) { return None; }
        }
    }
    Some(Rx {x, groups: names.len(), names})
}

type Caps = Vec<Option<(usize, usize)>>;
fn m(x: &X, s: &[char], i: usize, c: &Caps, k: &mut dyn FnMut(usize, &Caps) -> bool) -> bool {
    match x {
        X::C(a) => s.get(i) == Some(a) && k(i + 1, c),
        X::Any => s.get(i).map_or(false, |c| *c != '\n') && k(i + 1, c),
        X::Set(neg, v) => s.get(i).map_or(false, |c| v.contains(c) != *neg) && k(i + 1, c),
        X::Start => i == 0 && k(i, c),
        X::End => i == s.len() && k(i, c),
        X::Cat(v) => cat(v, s, i, c, k),
        X::Alt(v) => v.iter().any(|x| m(x, s, i, c, k)),
        X::Grp(n, x) => m(x, s, i, c, &mut |j, c| { let mut c = c.clone(); c[*n] = Some((i, j)); k(j, &c) }),
        X::Rep(x, lo, hi, lazy) => rep(x, *lo, *hi, *lazy, s, i, c, k),
    }
}
fn cat(v: &[X], s: &[char], i: usize, c: &Caps, k: &mut dyn FnMut(usize, &Caps) -> bool) -> bool {
    match v { [] => k(i, c), [x, r @ ..] => m(x, s, i, c, &mut |j, c| cat(r, s, j, c, k)) }
}
fn rep(x: &X, lo: usize, hi: Option<usize>, lazy: bool, s: &[char], i: usize, c: &Caps, k: &mut dyn FnMut(usize, &Caps) -> bool) -> bool {
    if lo > 0 { return m(x, s, i, c, &mut |j, c| rep(x, lo - 1, hi.map(|h| h - 1), lazy, s, j, c, k)); }
    if hi == Some(0) { return k(i, c); }
    if lazy && k(i, c) { return true; }
    if m(x, s, i, c, &mut |j, c| j > i && rep(x, 0, hi.map(|h| h - 1), lazy, s, j, c, k)) { return true; }
    !lazy && k(i, c)
}
fn at(r: &Rx, s: &[char], from: usize) -> Option<Caps> {
    for i in from..=s.len() {
        let mut out = None;
        m(&r.x, s, i, &vec![None; r.groups + 1], &mut |j, c| { let mut c = c.clone(); c[0] = Some((i, j)); out = Some(c); true });
        if out.is_some() { return out; }
    }
    None
}
fn all(r: &Rx, s: &[char]) -> Vec<Caps> {
    let (mut v, mut from, mut last) = (vec![], 0, None);
    while from <= s.len() {
        let Some(c) = at(r, s, from) else { break };
        let (a, b) = c[0].unwrap();
        if a == b && last == Some(b) { from = b + 1; continue; }
        last = Some(b);
        from = if a == b { b + 1 } else { b };
        v.push(c);
    }
    v
}
pub fn run(r: &str, f: &str, s: &str) -> V {
    let r = parse(r).unwrap();
    let s: Vec<char> = s.chars().collect();
    let sub = |a: usize, b: usize| vs(&s[a..b].iter().collect::<String>());
    let val = |c: &Caps| {
        let g = |k: usize| c[k].map_or(unit(), |(a, b)| sub(a, b));
        if r.groups == 0 { g(0) }
        else if r.names[0].is_none() { vlist((0..=r.groups).map(g).collect()) }
        else { vdict((1..=r.groups).map(|k| (Rc::from(r.names[k - 1].as_deref().unwrap()), g(k))).collect()) }
    };
    match f {
        "test" => V::Bool(at(&r, &s, 0).is_some()),
        "count" => V::Int(all(&r, &s).len() as i64),
        "find" => at(&r, &s, 0).map_or(unit(), |c| val(&c)),
        "find_all" => vlist(all(&r, &s).iter().map(val).collect()),
        "split" => {
            let mut a = 0;
            let mut v = vec![];
            for c in all(&r, &s) { let (x, y) = c[0].unwrap(); v.push(sub(a, x)); a = y; }
            v.push(sub(a, s.len()));
            vlist(v)
        },
        _ => panic!(),
    }
}
/// Whether a repeated part can be empty or is itself a repetition: engines differ in what they do then.
pub fn odd(x: &X) -> bool {
    fn nullable(x: &X) -> bool {
        match x { X::C(_) | X::Any | X::Set(..) => false, X::Start | X::End => true, X::Cat(v) => v.iter().all(nullable), X::Alt(v) => v.iter().any(nullable), X::Grp(_, x) => nullable(x), X::Rep(x, lo, ..) => *lo == 0 || nullable(x) }
    }
    match x { X::Cat(v) | X::Alt(v) => v.iter().any(odd), X::Grp(_, x) => odd(x), X::Rep(x, ..) => nullable(x) || odd(x), _ => false }
}

/// Whether only one of several alternatives is anchored: see the known finding in c10.
pub fn anchored_alternative(x: &X) -> bool {
    fn anchor(x: &X) -> bool { match x { X::Start | X::End => true, X::Cat(v) | X::Alt(v) => v.iter().any(anchor), X::Grp(_, x) | X::Rep(x, ..) => anchor(x), _ => false } }
    match x { X::Alt(v) => v.iter().any(anchor), X::Cat(v) => v.iter().any(anchored_alternative), X::Grp(_, x) => anchored_alternative(x), X::Rep(x, lo, ..) => *lo == 0 && anchor(x) || anchored_alternative(x), _ => false }
}
