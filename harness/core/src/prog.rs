//! Runs programs on the real compiler and compares with the reference interpreter.
use crate::ast::*;
use crate::engine::*;
use crate::sem;
use crate::html::{self, Node};

/// What was found: the two agree on an output, agree on an error, disagree, or the model cannot tell.
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum J { Output, Error, Bad, Skip }

pub fn show(m: &Option<String>) -> String { match m { Some(h) => format!("output {h:?}"), None => "an error".into() } }

/// Two outputs which are the same document, written in different ways.
fn same_tree(a: Option<&str>, b: Option<&str>) -> bool {
    fn sort(v: &mut [Node]) { for n in v { if let Node::El(e) = n { e.attrs.sort(); sort(&mut e.children); } } }
    let tree = |s: &str| html::parse(s).ok().map(|t| { let mut t = html::norm(&t); sort(&mut t); t });
    match (a, b) { (Some(a), Some(b)) => { let t = tree(a); t.is_some() && t == tree(b) }, _ => false }
}

/// Compiles a source and compares with the expected output or error.
pub fn compare(w: &mut Worker, src: &str, want: &Option<String>) -> J {
    let out = w.compile(src);
    w.stats.transitions += 1;
    if out.panic.is_some() || (out.ok_html() != want.as_deref() && !same_tree(out.ok_html(), want.as_deref())) {
        w.stats.violation(src, format!("source:\n{src}\n\nexpected: {}\ncompiler: {}", show(want), out.describe()));
        return J::Bad;
    }
    match want {
        Some(h) => { w.stats.state(h); w.stats.nontrivial_count += 1; J::Output },
        None => { w.stats.count("errors expected and reported"); J::Error },
    }
}
/// Checks one program, in its plain printed form.
pub fn check(w: &mut Worker, doc: &[A]) -> J {
    let Ok(want) = sem::expect(doc) else { w.stats.count("skipped: out of fuel"); return J::Skip };
    let src = print(doc);
    w.sample(|| format!("{src} => {}", show(&want)));
    compare(w, &src, &want)
}
/// Also in the form with `...`.
pub fn check2(w: &mut Worker, doc: &[A]) -> J {
    let Ok(want) = sem::expect(doc) else { w.stats.count("skipped: out of fuel"); return J::Skip };
    let (a, b) = (print(doc), print_ellipsis(doc));
    w.sample(|| format!("{b} => {}", show(&want)));
    let r = compare(w, &a, &want);
    if b != a && r != J::Bad { return compare(w, &b, &want); }
    r
}
