//! C18: diagnostics point at the right line and column.
use crate::cli;
use crate::engine::*;
use std::collections::HashMap;

/// (source with marks, the diagnostics: "start of the message|trace", where the trace lists the
/// places of the calls and then the place of the error, each as a mark after the name of the
/// function it is in; what the case allows: p text before it, s text after it, w other code around it)
type Case = (&'static str, &'static [&'static str], &'static str);
const CASES: &[Case] = &[
    // the tokens
    ("a ①] b", &["S: unmatched ']'|①"], "ps"),
    ("a ①} b", &["S: unmatched '}'|①"], "ps"),
    ("①&lt b", &["S: entity must|①", "S: invalid entity|①"], "psw"),
    ("①&zzzq; b", &["S: invalid entity|①"], "psw"),
    ("①&#xZZ; b", &["S: invalid entity|①"], "psw"),
    ("é&amp;①&#1114112; b", &["S: invalid entity|①"], "psw"),
    ("①\\xZZ b", &["S: invalid Unicode|①"], "psw"),
    ("é\\x41①\\uDEFG b", &["S: invalid Unicode|①"], "psw"),
    ("\"é\n①&q;\n\" b", &["S: invalid entity|①"], "psw"),
    ("①```x`` b", &["S: unexpected end of source in string|①"], "p"),
    ("①``x``` b", &["S: too many backticks|①"], "psw"),
    ("①`a\nb` b", &["S: multiline string|①", "W: inline code cannot be|①"], "psw"),
    ("①`foo", &["S: unexpected end of source in string|①"], "p"),
    ("①</ b", &["S: malformed closing|①"], "ps"),
    ("①</foo > b", &["S: malformed closing|①"], "ps"),
    ("@int::add②(①99999999999999999999, ③", &["S: invalid number|①", "S: unmatched '('|②", "S: expected ')', was end|③"], "p"),
    // structure
    ("@x①", &["S: unexpected end of source|①"], "p"),
    ("@x ①<", &["S: expected expression|①"], "p"),
    ("①<b>a", &["S: unmatched opening tag|①"], "p"),
    ("①<b>a②</c>", &["S: unmatched closing tag|②", "S: unmatched opening tag|①"], "p"),
    ("x①</b> y", &["S: unmatched closing tag|①"], "ps"),
    ("①<b③", &["S: unexpected end of source|③", "S: unmatched '<'|①", "S: expected '>', was end|③"], "p"),
    ("@list::map①(a③", &["S: unexpected end of source|③", "S: unexpected end of source|③", "S: unmatched '('|①", "S: expected ')', was end|③"], "p"),
    ("<!①DOCTYP html>", &["S: expected 'DOCTYPE'|①"], "ps"),
    ("<b x=1 ①x=2>c</b>", &["S: duplicate attribute name 'x'|①", "R: received multiple values for attribute 'x'|①"], "psw"),
    ("@fn $x③", &["S: unexpected end of source|③"], "p"),
    ("@fn ①-> ", &["S: expected variable name|①"], "p"),
    ("@fn f $x: ①strr -> .", &["S: not a primitive type|①"], "ps"),
    ("@fn f $x: ①int foo -> .", &["S: not a type modifier|①"], "ps"),
    ("@match 1 {$x: ①foo -> .}", &["S: not a primitive type|①"], "ps"),
    ("@fn f $x: any①?②? -> .", &["W: type modifier '?' is redundant|①", "W: type modifier '?' is redundant|②"], "psw"),
    // signatures
    ("@fn ①<b>", &["S: expected|①", "S: unmatched opening|①"], "p"),
    ("@fn f($a, ①$_b) . -> .", &["S: positional parameter cannot occur after named|①"], "psw"),
    ("@fn f($_a=1, ①$_b) . -> .", &["S: required parameter cannot|①"], "psw"),
    ("@fn f(①$a: @implicit any=1) . -> .", &["S: implicit parameter cannot have|①"], "psw"),
    ("@fn f(①$_a: @implicit any) . -> .", &["S: positional parameter cannot be implicit|①"], "psw"),
    ("@fn f(*$_a=①1) . -> .", &["S: spread parameter cannot have default|①"], "psw"),
    ("@fn f(*$_a, ①*$_b) . -> .", &["S: cannot have multiple spread|①"], "psw"),
    ("@fn f(*$_a, ①$_b) . -> .", &["S: parameter cannot occur after spread|①"], "psw"),
    ("@fn f(①*$a) . -> .", &["S: positional spread parameter must begin|①"], "psw"),
    ("@fn f(①**$_a) . -> .", &["S: named spread parameter must not|①"], "psw"),
    ("@fn f ①*$a -> .", &["S: content parameter cannot be spread|①"], "psw"),
    ("@fn f $a=①1 -> .", &["S: content parameter cannot have default|①"], "psw"),
    ("@fn f($a, ①$a) . -> .", &["S: duplicate parameter name 'a'|①"], "psw"),
    ("@fn f($a) ①$a -> .", &["S: duplicate parameter name 'a'|①"], "psw"),
    // arguments
    ("①@f(a=1, ②a=2).", &["S: duplicate named argument 'a'|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②2).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(②*a=1).", &["S: named argument cannot be spread|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②foo).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②*foo).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②* foo).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②7).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②*7).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②* 7).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②\"s\").", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②*\"s\").", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②[1]).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②*[1]).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②{g}).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②*{g}).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②@h().).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②*@h().).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②True).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②*True).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②`c`).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②*`c`).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②\"t $u\").", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②*\"t $u\").", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②$y).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②*$y).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②<b>x</b>).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(a=1, ②*<b>x</b>).", &["S: positional argument cannot occur|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(b=1, ②*b=2).", &["S: named argument cannot be spread|②", "S: duplicate named argument 'b'|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(②**a=1).", &["S: named argument cannot be spread|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(b=1, ②**b=2).", &["S: named argument cannot be spread|②", "S: duplicate named argument 'b'|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(②* a=1).", &["S: named argument cannot be spread|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(b=1, ②* b=2).", &["S: named argument cannot be spread|②", "S: duplicate named argument 'b'|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(②** a=1).", &["S: named argument cannot be spread|②", "N: no such variable 'f'|①"], "psw"),
    ("①@f(b=1, ②** b=2).", &["S: named argument cannot be spread|②", "S: duplicate named argument 'b'|②", "N: no such variable 'f'|①"], "psw"),
    ("①@let . x", &["S: missing named declarations|①"], "ps"),
    ("@let(①1) {x}", &["S: positional argument not allowed|①"], "psw"),
    ("@let(①*$x) {x}", &["S: positional spread not allowed|①"], "psw"),
    ("@let(a=1) ①2", &["S: let expression with literal|①"], "ps"),
    // patterns
    ("@match [1] {[*$_a, *①$_b] -> .}", &["S: match pattern cannot have multiple spreads|①"], "ps"),
    ("②@match 1 {<a>①</b> -> .}", &["S: incorrect closing tag|①", "R: no matching branch|②"], "psw"),
    ("②@match 1 {{①1} -> .}", &["S: this pattern cannot match HTML|①", "R: no matching branch|②"], "psw"),
    ("②@match 1 {(**$b, a=①1) -> .}", &["S: named pattern cannot occur after spread|①", "R: no matching branch|②"], "psw"),
    ("②@match 1 {(a=1, a=①1) -> .}", &["S: duplicate named pattern 'a'|①", "R: no matching branch|②"], "psw"),
    ("②@match 1 {(①_a=1) -> .}", &["S: named pattern cannot begin|①", "R: no matching branch|②"], "psw"),
    ("@match 1 ②{①a -> .④}③", &["S: bare name not allowed|①", "S: unmatched '{'|②", "S: expected '}', was end|③", "S: unmatched '}'|④"], "p"),
    ("@match [1, 1] {[$x, ①$x] -> ., _ -> .}", &["W: name 'x' already bound|①"], "psw"),
    // names
    ("①$x", &["N: no such variable 'x'|①"], "psw"),
    ("①@x .", &["N: no such variable 'x'|①"], "psw"),
    ("①$list::map::zz", &["N: value of type 'function' has no such attribute 'zz'|①"], "psw"),
    ("@let(x=1) {é①$x::a}", &["N: value of type 'int' has no such attribute 'a'|①"], "psw"),
    ("@b {é ①@x::y::z .}", &["N: no such variable 'x'|①"], "psw"),
    ("②<b ①é=③$q>a④</b>⑤", &["S: expected name|①", "S: unmatched '<'|②", "S: expected '>', was end|⑤", "S: unmatched closing|④", "N: no such variable 'q'|③"], "p"),
    ("<b a=①$q>a</b>", &["N: no such variable 'q'|①"], "psw"),
    ("<①$q>a</>", &["N: no such variable 'q'|①"], "psw"),
    ("<b a=1 **①$q>a</b>", &["N: no such variable 'q'|①"], "psw"),
    ("<b a=\"é\n ①$q\">a</b>", &["N: no such variable 'q'|①"], "psw"),
    ("[`é`,\n①$q]", &["N: no such variable 'q'|①"], "psw"),
    ("@let(z=[1,\n *①$q]) $z", &["N: no such variable 'q'|①"], "psw"),
    ("@match ①$q {_ -> .}", &["N: no such variable 'q'|①"], "psw"),
    ("②@match 1 {2 -> ., =①$q -> .}", &["N: no such variable 'q'|①", "R: no matching branch|②"], "psw"),
    ("@match 1 {2 -> ., $x -> {é $x\n①$q}}", &["N: no such variable 'q'|①"], "psw"),
    ("@list::map(①$q) [1]", &["N: no such variable 'q'|①"], "psw"),
    ("@list::get(*①$q) [1]", &["N: no such variable 'q'|①"], "psw"),
    ("@list::get(**①$q) [1]", &["N: no such variable 'q'|①"], "psw"),
    ("@implicit(z=①$q) {x}", &["N: no such variable 'q'|①"], "psw"),
    ("@fn f($a=①$q) . -> . ②@f .", &["N: no such variable 'q'|①", "R: missing required parameter|②"], "psw"),
    // types and run time
    ("@list::slice ①.", &["T: expected any list, was none|①"], "psw"),
    ("①@list::slice(1, 2, 3, 4) []", &["T: too many positional arguments|①"], "psw"),
    ("@list::slice(1, ①zz=1) []", &["N: no such parameter 'zz'|①"], "psw"),
    ("@list::join(`é`, ①b=1) [`é`]", &["N: no such parameter 'b'|①"], "psw"),
    ("①@raise `nö`", &["R: nö|①"], "psw"),
    ("①@match 1 {2 -> .}", &["R: no matching branch|①"], "psw"),
    ("①@int::add(9223372036854775807, 1).", &["R: integer overflow|①"], "psw"),
    ("①@int::parse `x`", &["R: failed to parse int|①"], "psw"),
    ("①@file::read `no/such/file`", &["R: failed to read file|①"], "psw"),
    ("①@file::write(`/../x`) {a}", &["R: |①"], "psw"),
    ("①@regex::compile `(`", &["R: regex syntax error|①"], "psw"),
    ("①@regex::compile `(a)(?P<b>c)`", &["R: regex cannot have both|①"], "psw"),
    ("①@html::parse `<b`", &["R: failed to parse HTML|①"], "psw"),
    ("①@net::fetch_raw `x`", &["R: network access is not enabled|①"], "psw"),
    ("①@list::get(5) [1]", &["R: index out of bounds|①"], "psw"),
    ("@fn f($a: @implicit int) . -> $a ①@f .", &["R: missing required implicit parameter 'a'|①"], "psw"),
    ("@let(a=1) {@fn f($a: @implicit int) . -> $a ①@f .}", &["R: required implicit parameter 'a'; this name|①"], "psw"),
    ("@fn f($a) . -> $a ①@f .", &["R: missing required parameter 'a'|①"], "psw"),
    ("①@list::sorted [{}, a]", &["T: sort key must be str or int|①"], "psw"),
    ("①@list::sorted [1, a]", &["T: sort key must be homogeneous|①"], "psw"),
    ("@let(f=@function::bind($raise) `x`) {@f ①`y`}", &["T: this function's contents|①"], "psw"),
    ("①@str::unique_id(max_length=0) `x`", &["R: parameter 'max_length' must be positive|①"], "psw"),
    ("<b>①<p>x</p></b>", &["T: 'p' tag not allowed within parent tag 'b'|①"], "psw"),
    ("<b>a\n\n①<p>x</p></b>", &["T: 'p' tag not allowed within parent tag 'b'|①"], "psw"),
    ("@fn f $x: int -> {é} @f ①e", &["T: expected int|①"], "psw"),
    ("@fn f $x: int -> {é} @f ①{é}", &["T: expected int|①"], "psw"),
    ("@fn f $x: int -> {é} @f ①`é`", &["T: expected int, was str|①"], "psw"),
    ("@fn f($_x: int) . -> {é} @f(①`é`).", &["T: expected int, was str|①"], "psw"),
    ("@fn f($y: int) . -> {é} @f(y=①`é`).", &["T: expected int|①"], "psw"),
    ("@fn f($_x: int = ①`é`) . -> {é} ②@f .", &["T: expected int|①", "T: not enough positional|②"], "psw"),
    // warnings
    ("@export(e=1).@export(e=①2).", &["W: name 'e' already exported|①"], "p"),
    ("@fn f . -> . @fn f ①. -> .", &["W: name 'f' already declared|①"], "psw"),
    ("@fn f . -> . @fn f ①$b -> .", &["W: name 'f' already declared|①"], "psw"),
    ("@export @fn f . -> . @let(z=1) {@export @fn f ①$b -> .}", &["W: name 'f' already exported|①"], "p"),
    ("@fn f . -> . @fn f ①($a) . -> .", &["W: name 'f' already declared|①"], "psw"),
    ("@export @fn f . -> . @let(z=1) {@export @fn f ①($a) . -> .}", &["W: name 'f' already exported|①"], "p"),
    ("@fn f . -> . @fn f ①($_a) $b -> .", &["W: name 'f' already declared|①"], "psw"),
    ("@export @fn f . -> . @let(z=1) {@export @fn f ①($_a) $b -> .}", &["W: name 'f' already exported|①"], "p"),
    ("@fn f . -> . @fn f ①($a, $b=1) $c: int -> .", &["W: name 'f' already declared|①"], "psw"),
    ("@export @fn f . -> . @let(z=1) {@export @fn f ①($a, $b=1) $c: int -> .}", &["W: name 'f' already exported|①"], "p"),
    ("@fn f . -> . @fn f ①(*$_a, **$b) $c -> .", &["W: name 'f' already declared|①"], "psw"),
    ("@export @fn f . -> . @let(z=1) {@export @fn f ①(*$_a, **$b) $c -> .}", &["W: name 'f' already exported|①"], "p"),
    ("@fn f . -> . @fn f ①() $b -> .", &["W: name 'f' already declared|①"], "psw"),
    ("@export @fn f . -> . @let(z=1) {@export @fn f ①() $b -> .}", &["W: name 'f' already exported|①"], "p"),
    ("@fn f . -> . @fn f ①() . -> .", &["W: name 'f' already declared|①"], "psw"),
    ("@export @fn f . -> . @let(z=1) {@export @fn f ①() . -> .}", &["W: name 'f' already exported|①"], "p"),
    ("①@code(language=`zzz`) `a`", &["W: no syntax highlighter|①"], "psw"),
    // modules
    ("①@import `no-such-module`", &["M: No such file|①"], "psw"),
    ("①@include `no-such-module`", &["M: No such file|①"], "psw"),
    // traces
    ("@fn g . -> {é①$zz} ②@g .", &["N: no such variable 'zz'|②,g①"], "psw"),
    ("@fn g . -> {é\n  ①@raise `é`} @fn h $x -> {$x é ②@g .}\n③@h .", &["R: é|③,h②,g①"], "psw"),
    ("③@list::map(@fn $_x -> ①$zz) [1]", &["N: no such variable 'zz'|③,<anonymous>①"], "psw"),
    ("@fn g $_x -> ①$zz ③@list::map($g) [1]", &["N: no such variable 'zz'|③,g①"], "psw"),
    ("@fn g $x -> ①@raise $x ②@g `é` ③@g `é`", &["R: é|②,g①", "R: é|③,g①"], "psw"),
    ("@fn g $x -> {@match $x {0 -> ①$zz, _ -> ②@g 0}} ③@g 1", &["N: no such variable 'zz'|③,g②,g①"], "psw"),
    ("@let(f=@fn . -> ①$zz) {②@f .}", &["N: no such variable 'zz'|②,<anonymous>①"], "psw"),
    ("@fn g . -> {<b>①<p>x</p></b>} ②@g .", &["T: 'p' tag not allowed within parent tag 'b'|②,g①"], "psw"),
    ("@fn g $x -> $x @g {é ①$zz}", &["N: no such variable 'zz'|①"], "psw"),
    ("@fn g $x -> {é @raise `x` $x} . ①$zz", &["N: no such variable 'zz'|①"], "psw"),
    ("@let(h=@function::bind(@fn($_a) . -> {$_a ①$zz}, 1) .) {②@h .}", &["N: no such variable 'zz'|②,<anonymous>①"], "psw"),
    ("④@list::sorted(key=@fn $_x -> ①@raise `é`) [2, 1]", &["R: é|④,<anonymous>①"], "psw"),
    ("④@list::filter(@fn $_x -> ①@raise `é`) [2]", &["R: é|④,<anonymous>①"], "psw"),
    ("@fn mk . -> @fn $x -> ①$zz @let(f=@mk .) {②@f 1}", &["N: no such variable 'zz'|②,<anonymous>①"], "psw"),
];

/// Text before, between and after.
const UNITS: &[&str] = &["a", "\n", "é", "🙂", " ", "# c é\n", "`é` ", "\t", "\r\n", "<!-- é\nö -->", "```\né\n``` ", "e\u{301}", "&amp;", "<i\n a=`1`\n>é</i>", "[1,\n2]", "@let(k=1)\n{$k}", "\n\n", "\\x41", "<br>", "@match 1 {\n1 -> {é}}", "\"é\"", "--", "\u{2028}", "@b {é}", "\u{a0}", "#\n", "a\r", "\rb", "\u{c}", "\0", "\u{85}", "é\u{2029}", "`\r` ", "\n\r\n"];

/// Code around a case, with where its own diagnostics' traces begin: marks ⑦⑧⑨.
const WRAPS: &[(&str, &str)] = &[
    ("{PE}", ""), ("<b>PE</b>", ""), ("<div\n a=`é`>PE</div>", ""), ("@let(w=1) {P$w E}", ""), ("@match 1 {1 -> {PE}}", ""), ("[`é`, {PE}]", ""), ("@b {PE}", ""), ("@fn w $x -> $x @w {PE}", ""),
    ("@fn w . -> {PE} ⑦@w .", "⑦,w"), ("⑦@list::map(@fn $_w -> {PE}) [1]", "⑦,<anonymous>"), ("@fn v . -> {PE} @fn w . -> {é ⑧@v .} P⑦@w .", "⑦,w⑧,v"),
    // calls at the same place, directly and by way of another function
    ("@fn w $_n -> @match $_n {0 -> {PE}, 1 -> {⑨@w 0}, [_, *$_r] -> {⑧@w $_r}, [] -> {⑩@w 1}} ⑦@w [1, 2, 3]", "⑦,w⑧,w⑧,w⑧,w⑩,w⑨,w"), ("@fn v($_f, $_r) . -> {⑧@_f $_r} @fn w $_l -> @match $_l {[] -> {PE}, [_, *$_r] -> {⑨@v($w, $_r) .}} ⑦@w [1, 2]", "⑦,w⑨,v⑧,w⑨,v⑧,w"), ("@let(u=@fn $_u -> {PE}) {\n⑦@u 1}", "⑦,<anonymous>"), ("@match [1] {[$_y] -> {PE}, _ -> .}", ""), ("<div>é</div>\n\n<p>PE</p>", ""), ("@implicit(im=1) {PE}", ""), ("@fn w($im: @implicit any) . -> {PE} @implicit(im=1) {⑦@w .}", "⑦,w"),
];

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
struct Loc { file: String, line: usize, col: usize, func: Option<String> }
/// Code which holds no blocks.
fn inline_only(s: &str) -> bool { s.starts_with("<b>") || s.starts_with("@b") || s.contains("<p>") }
#[derive(Clone, PartialEq, Eq, Debug)]
struct Diag { msg: String, trace: Vec<Loc> }

const KINDS: &[(&str, &str)] = &[("S: ", "Syntax error: "), ("N: ", "Name error: "), ("R: ", "Runtime error: "), ("T: ", "Type error: "), ("W: ", "Warning: "), ("M: ", "Module error: ")];
fn loc(l: &str) -> Option<Loc> {
    let r = l.strip_prefix("    File \"")?;
    let at = r.find("\", line ")?;
    let (file, r) = (&r[..at], &r[at + 8..]);
    let (nums, func) = match r.find(", in @") { Some(i) => (&r[..i], Some(r[i + 6..].to_string())), None => (r, None) };
    let (l, c) = nums.split_once(", col ")?;
    Some(Loc {file: file.into(), line: l.parse().ok()?, col: c.parse().ok()?, func})
}
/// The diagnostics of a printed report; None if it is not of the form described.
fn parse(s: &str, lenient: bool) -> Option<Vec<Diag>> {
    let lines: Vec<&str> = s.split('\n').collect();
    let starts = |l: &str| l == "Traceback (most recent call last):" || KINDS.iter().any(|k| l.starts_with(k.1));
    let (mut out, mut i) = (vec![], 0);
    while i < lines.len() {
        let l = lines[i];
        if l.is_empty() || l.starts_with("failed, ") || l.starts_with("OK") { i += 1; continue; }
        if l == "Traceback (most recent call last):" {
            i += 1;
            let mut trace = vec![];
            while i < lines.len() { let Some(x) = loc(lines[i]) else { break }; trace.push(x); i += 1; }
            let m = i;
            if trace.is_empty() || i >= lines.len() || !KINDS.iter().any(|k| lines[i].starts_with(k.1)) { return None; }
            i += 1;
            while i < lines.len() && !starts(lines[i]) && !lines[i].is_empty() && !lines[i].starts_with("failed, ") && !lines[i].starts_with("OK") { i += 1; }
            out.push(Diag {msg: lines[m..i].join("\n"), trace});
        } else if KINDS.iter().any(|k| l.starts_with(k.1)) {
            out.push(Diag {msg: l.into(), trace: vec![loc(lines.get(i + 1)?)?]});
            i += 2;
        } else if lenient { i += 1; } else { return None; }
    }
    Some(out)
}
/// The source without its marks, and their places (line, column).
fn marks(s: &str) -> (String, HashMap<char, (usize, usize)>) {
    let (mut src, mut m, mut line, mut col) = (String::new(), HashMap::new(), 1, 1);
    for c in s.chars() {
        if ('①'..='⑳').contains(&c) { m.insert(c, (line, col)); continue; }
        src.push(c);
        if c == '\n' { line += 1; col = 1; } else { col += 1; }
    }
    (src, m)
}
/// (message's start, trace as (function, mark))
fn expectation(d: &str, prefix: &str) -> (String, Vec<(Option<String>, char)>) {
    let (msg, places) = d.split_once('|').expect("a place");
    let msg = match KINDS.iter().find(|k| msg.starts_with(k.0)) { Some(k) => format!("{}{}", k.1, &msg[3..]), None => panic!("{d}") };
    let mut trace = vec![];
    // "⑦,w⑧,v" + "①" or "②,g①"
    let all = if prefix.is_empty() || msg.starts_with("Syntax error") || STATIC.iter().any(|s| msg.starts_with(s)) { places.to_string() } else { format!("{prefix}{places}") };
    let mut func = None;
    let mut rest = all.as_str();
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix(',') {
            let i = r.find(|c| ('①'..='⑳').contains(&c)).expect("a mark");
            func = Some(r[..i].to_string());
            rest = &r[i..];
        } else {
            let c = rest.chars().next().unwrap();
            trace.push((func.take(), c));
            rest = &rest[c.len_utf8()..];
        }
    }
    (msg, trace)
}
/// Diagnostics which do not depend on the execution.
const STATIC: &[&str] = &["Warning: type modifier", "Warning: name "];
fn render(e: &[(String, Vec<(Option<String>, char)>)], m: &HashMap<char, (usize, usize)>, file: &str) -> Vec<(String, Vec<Loc>)> {
    e.iter().map(|(msg, t)| (msg.clone(), t.iter().map(|(f, c)| { let (line, col) = m[c]; Loc {file: file.into(), line, col, func: f.clone()} }).collect())).collect()
}
/// The diagnostics are those expected, in any order.
fn agree(got: &[Diag], want: &[(String, Vec<Loc>)]) -> bool {
    let (mut g, mut w): (Vec<_>, Vec<_>) = (got.iter().collect(), want.iter().collect());
    g.sort_by(|a, b| (&a.trace, &a.msg).cmp(&(&b.trace, &b.msg)));
    w.sort_by(|a, b| (&a.1, &a.0).cmp(&(&b.1, &b.0)));
    g.len() == w.len() && g.iter().zip(w).all(|(g, w)| g.msg.starts_with(&w.0) && g.trace == w.1)
}
fn show(want: &[(String, Vec<Loc>)]) -> String {
    let place = |l: &Loc| format!("{}:{}:{}{}", l.file, l.line, l.col, l.func.as_ref().map_or(String::new(), |f| format!(" in @{f}")));
    want.iter().map(|(m, t)| format!("{m}... at {}", t.iter().map(place).collect::<Vec<_>>().join(" > "))).collect::<Vec<_>>().join("\n")
}
/// The same marks, renamed for a second use in one source.
fn shift(s: &str, by: u32) -> String { s.chars().map(|c| if ('①'..='⑥').contains(&c) { char::from_u32(c as u32 + by).unwrap() } else { c }).collect() }

/// The code with its short names (but those of tags and of the library) and its strings made longer.
fn widen(s: &str, n: usize) -> String {
    let cs: Vec<char> = s.chars().collect();
    let (mut out, mut i) = (String::new(), 0);
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    while i < cs.len() {
        let mut j = i;
        while j < cs.len() && word(cs[j]) { j += 1; }
        if j == i { out.push(cs[i]); if cs[i] == 'é' && i > 0 && cs[i - 1] == '`' { out.extend(std::iter::repeat_n('é', n)); } i += 1; continue; }
        let x: String = cs[i..j].iter().collect();
        out += &x;
        let before = cs[..i].iter().rev().find(|c| !('①'..='⑳').contains(*c)).copied().unwrap_or(' ');
        if j - i <= 2 && x != "_" && x != "fn" && x != "no" && !x.starts_with(|c: char| c.is_ascii_digit()) && !matches!(before, '<' | '/' | '\\' | '&') && !(before == '@' && matches!(x.as_str(), "b" | "i" | "h1")) {
            out.extend((0..n).map(|k| ['m', 'e', 'd'][k % 3]));
        }
        i = j;
    }
    out
}

fn judge(w: &mut Worker, text: &str, expect: &[(String, Vec<(Option<String>, char)>)]) {
    let (src, m) = marks(text);
    let want = render(expect, &m, "<string>");
    let out = w.compile(&src);
    w.stats.transitions += 1;
    w.stats.nontrivial_count += 1;
    w.stats.state(&want.iter().map(|x| &x.1).collect::<Vec<_>>());
    let got = parse(&out.diag, false);
    w.sample(|| format!("{src:?} => {}", show(&want)));
    if out.panic.is_some() || !got.is_some_and(|g| agree(&g, &want)) {
        w.stats.violation(src.clone(), format!("source: {src:?}\nexpected:\n{}\ncompiler: {}", show(&want), out.describe()));
    }
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every diagnostic of a corpus which has each kind of error, with its places marked: after and before every sequence of texts (with multi-byte characters, line ends of every kind, tabs, comments, strings, code), inside every kind of code and two of them nested, in pairs, and across files; the places are computed from the source by counting; a state is a tuple of places");
    let cases: Vec<&Case> = CASES.iter().filter(|c| !c.2.is_empty()).collect();
    let exps: Vec<Vec<_>> = cases.iter().map(|c| c.1.iter().map(|d| expectation(d, "")).collect()).collect();
    let (nc, nu) = (cases.len() as u64, UNITS.len() as u64);
    rep.extra.insert("cases".into(), nc.to_string());
    // text before
    let depth = cfg.q(3, 4);
    let k = cfg.q(12, 18);
    let n = num_seqs(nu, 0, 2);
    let deep = num_seqs(k, 3, depth);
    rep.absorb(explore(cfg, nc * (n + deep), |w, i| {
        let (c, p) = ((i % nc) as usize, i / nc);
        let seq = if p < n { nth_seq(p, nu, 0, 2) } else { nth_seq(p - n, k, 3, depth) };
        let pre: String = seq.iter().map(|u| UNITS[*u]).collect();
        judge(w, &format!("{pre}{}", cases[c].0), &exps[c]);
    }));
    // text after, which changes nothing
    let some: Vec<usize> = (0..cases.len()).filter(|c| cases[*c].2.contains('s')).collect();
    let ns = some.len() as u64;
    rep.absorb(explore(cfg, ns * nu * cfg.q(1, nu), |w, i| {
        let d = digits(i, &[ns, nu, cfg.q(1, nu)]);
        let pre = if cfg.quick() { UNITS[(d[0] + d[1]) % UNITS.len()] } else { UNITS[d[2]] };
        judge(w, &format!("{pre}{} {}", cases[some[d[0]]].0, UNITS[d[1]]), &exps[some[d[0]]]);
    }));
    // inside other code, and inside two
    let inner: Vec<usize> = (0..cases.len()).filter(|c| cases[*c].2.contains('w')).collect();
    let ni = inner.len() as u64;
    let nw = WRAPS.len() as u64;
    let ku = cfg.q(3, nu);
    rep.absorb(explore(cfg, ni * nw * ku * cfg.q(1, nu), |w, i| {
        let d = digits(i, &[ni, nw, ku, cfg.q(1, nu)]);
        let (c, (wrap, tr)) = (inner[d[0]], WRAPS[d[1]]);
        if inline_only(wrap) && (UNITS[d[2]].starts_with("```") || UNITS[d[2]].starts_with('[')) { return; }
        let pre = if cfg.quick() { UNITS[i as usize % UNITS.len()] } else { UNITS[d[3]] };
        let e: Vec<_> = cases[c].1.iter().map(|x| expectation(x, tr)).collect();
        judge(w, &format!("{pre}{}", wrap.replace('P', UNITS[d[2]]).replacen('E', cases[c].0, 1)), &e);
    }));
    // (the marks of the outer one are renamed)
    rep.absorb(explore(cfg, ni * nw * nw * cfg.q(1, 4), |w, i| {
        let d = digits(i, &[ni, nw, nw, cfg.q(1, 4)]);
        let (c, (w1, t1), (w2, t2)) = (inner[d[0]], WRAPS[d[1]], WRAPS[d[2]]);
        // some of the outer ones hold no blocks
        let block = |s: &str| ["<div", "<p>", "[`", "list::map"].iter().any(|x| s.contains(x));
        if inline_only(w1) && block(w2) { return; }
        let re = |s: &str| s.replace('⑦', "⑰").replace('⑧', "⑱").replace('⑨', "⑲").replace('⑩', "⑳").replace("w", "ww").replace("@fn v ", "@fn vv ").replace("@v ", "@vv ").replace("@v(", "@vv(").replace("@fn v(", "@fn vv(").replace("($w,", "($ww,").replace(",v", ",vv");
        let (w1, t1) = (re(w1), re(t1));
        let p = UNITS[[1, 3, 8, 13][d[3]]];
        let text = w1.replace('P', p).replacen('E', &w2.replace('P', p).replacen('E', cases[c].0, 1), 1);
        let e: Vec<_> = cases[c].1.iter().map(|x| expectation(x, &format!("{t1}{t2}"))).collect();
        judge(w, &text, &e);
    }));
    // two after each other
    rep.absorb(explore(cfg, ni * ni * cfg.q(1, nu), |w, i| {
        let d = digits(i, &[ni, ni, cfg.q(1, nu)]);
        let (a, b) = (inner[d[0]], inner[d[1]]);
        let u = if cfg.quick() { UNITS[i as usize % UNITS.len()] } else { UNITS[d[2]] };
        let mut e = exps[a].clone();
        let mut second = exps[b].clone();
        for x in &mut second { for t in &mut x.1 { t.1 = char::from_u32(t.1 as u32 + 10).unwrap(); } }
        e.extend(second);
        judge(w, &format!("{u}@let(p=1) {{{}}}{u}@let(p=1) {{{}}}", cases[a].0, shift(cases[b].0, 10)), &e);
    }));
    // with long names and strings
    let lens: &[usize] = if cfg.quick() { &[7, 8, 9, 16, 33, 65, 130, 260] } else { &[3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000] };
    let ku = cfg.q(2, nu);
    rep.absorb(explore(cfg, nc * lens.len() as u64 * ku * (nw + 1), |w, i| {
        let d = digits(i, &[nc, lens.len() as u64, ku, nw + 1]);
        let c = cases[d[0]];
        let n = lens[d[1]];
        if c.0.contains("regex") { return; }
        if d[3] < WRAPS.len() && (!c.2.contains('w') || cfg.quick() && (d[0] + d[1] + d[3]) % 4 > 0) { return; }
        let u = if cfg.quick() { UNITS[(i as usize * 7 + 1) % UNITS.len()] } else { UNITS[d[2]] };
        let e: Vec<_> = c.1.iter().map(|x| {
            let (msg, tr) = x.split_once('|').unwrap();
            // the names in messages are those of the source
            let msg = match msg.find('\'') { Some(k) => &msg[..k], None if c.0.contains("@raise") => &msg[..3], None => msg };
            expectation(&format!("{msg}|{}", widen(tr, n)), if d[3] < WRAPS.len() { WRAPS[d[3]].1 } else { "" })
        }).collect();
        let case = widen(c.0, n);
        let text = if d[3] < WRAPS.len() { let (wrap, _) = WRAPS[d[3]]; if inline_only(wrap) && (u.starts_with("```") || u.starts_with('[')) { return; } format!("{u}{}", wrap.replace('P', u).replacen('E', &case, 1)) } else { format!("{u}{case}") };
        judge(w, &text, &e);
    }));
    sizes(cfg, &mut rep);
    modules(cfg, &mut rep, &inner);
    command(cfg, &mut rep);
    stdlib(cfg, &mut rep);
    rep
}

/// Code written piece by piece, with the place which has been reached.
struct Text { src: String, line: usize, col: usize }
impl Text {
    fn new() -> Text { Text {src: String::new(), line: 1, col: 1} }
    fn put(&mut self, s: &str) -> &mut Text {
        for c in s.chars() { if c == '\n' { self.line += 1; self.col = 1; } else { self.col += 1; } }
        self.src += s;
        self
    }
    fn here(&self, func: Option<&str>) -> Loc { Loc {file: "<string>".into(), line: self.line, col: self.col, func: func.map(Into::into)} }
}
fn judge_text(w: &mut Worker, key: String, src: &str, want: &[(String, Vec<Loc>)]) {
    let out = w.compile(src);
    w.stats.transitions += 1;
    w.stats.nontrivial_count += 1;
    w.stats.state(&want.iter().map(|x| &x.1).collect::<Vec<_>>());
    w.sample(|| format!("{key} => {}", show(&want[..want.len().min(3)])));
    if out.panic.is_some() || !parse(&out.diag, false).is_some_and(|g| agree(&g, want)) || out.num_errors + out.num_warnings != want.len() as u32 {
        let cut = |s: String| if s.len() > 6000 { format!("{} ...", s.chars().take(6000).collect::<String>()) } else { s };
        w.stats.violation(key, format!("source: {}\nexpected:\n{}\ncompiler: {}", cut(format!("{src:?}")), cut(show(want)), cut(out.describe())));
    }
}

/// Long lines, long documents, deep traces and many diagnostics.
fn sizes(cfg: &Cfg, rep: &mut Report) {
    let cases: Vec<&Case> = CASES.iter().filter(|c| !c.2.is_empty()).collect();
    let cases = &cases;
    let nc = cases.len() as u64;
    // a text many times before the case
    let counts: &[usize] = if cfg.quick() { &[99, 127, 255, 256, 257, 999, 1000, 4096] } else { &[31, 63, 64, 99, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, 4097, 9999, 10000] };
    let us: &[&str] = &["a", "\n", "é", "🙂", "a\n", " a", "# c é\n", "\r\n", "\t", "é\n\n", "`é` ", "&amp;"];
    rep.absorb(explore(cfg, counts.len() as u64 * us.len() as u64 * cfg.q(5, nc), |w, i| {
        let d = digits(i, &[us.len() as u64, counts.len() as u64, cfg.q(5, nc)]);
        let c = if cfg.quick() { cases[(i as usize).wrapping_mul(7) % cases.len()] } else { cases[d[2]] };
        // text before and after the many on the same line
        let text = format!("{}{}b{}", ["", "é", "x\n"][i as usize % 3], us[d[0]].repeat(counts[d[1]]), c.0);
        let e: Vec<_> = c.1.iter().map(|x| expectation(x, "")).collect();
        let (src, m) = marks(&text);
        judge_text(w, format!("{:?} times {} before {:?}", us[d[0]], counts[d[1]], c.0), &src, &render(&e, &m, "<string>"));
    }));
    // very long ones, beyond what 16 bits count
    let big: &[usize] = if cfg.quick() { &[65535, 65536, 70001] } else { &[32767, 32768, 65534, 65535, 65536, 65537, 70001, 131073, 200003] };
    rep.absorb(explore(cfg, big.len() as u64 * 4 * cfg.q(1, nc), |w, i| {
        let d = digits(i, &[4, big.len() as u64, cfg.q(1, nc)]);
        let c = if cfg.quick() { cases[(i as usize).wrapping_mul(31) % cases.len()] } else { cases[d[2]] };
        let u = ["\n", "a", "é", "# é\n"][d[0]];
        let e: Vec<_> = c.1.iter().map(|x| expectation(x, "")).collect();
        let (src, m) = marks(&format!("{}b{}", u.repeat(big[d[1]]), c.0));
        judge_text(w, format!("{u:?} times {} before {:?}", big[d[1]], c.0), &src, &render(&e, &m, "<string>"));
    }));
    // deep calls: each function calls the one before it, or one calls itself, or two call each other, or by callbacks
    let deepest = cfg.q(40, 100);
    rep.absorb(explore(cfg, deepest * 5 * UNITS.len() as u64, |w, i| {
        let d = digits(i, &[5, UNITS.len() as u64, deepest]);
        let (n, u) = (d[2] + 1, UNITS[d[1]]);
        let mut t = Text::new();
        t.put(u);
        let mut trace = vec![];
        match d[0] {
            0 | 1 => {
                // (calls, from the innermost outwards)
                let mut places = vec![];
                for k in 0..n {
                    t.put(&format!("@fn f{k} {} -> {{{u}", if d[0] == 0 { "." } else { "$_x" }));
                    let f = format!("f{k}");
                    places.push(t.here(Some(&f)));
                    if k == 0 { t.put("@raise `é`}\n"); } else if d[0] == 0 { t.put(&format!("@f{} .}}\n", k - 1)); } else { t.put(&format!("@list::map($f{}) [1]}}\n", k - 1)); }
                }
                t.put(u).put("é");
                trace.push(t.here(None));
                t.put(&if d[0] == 0 { format!("@f{} .", n - 1) } else { format!("@f{} 1", n - 1) });
                places.reverse();
                trace.extend(places);
            },
            2 | 3 => {
                t.put("@fn ww $_l -> @match $_l {[] -> {").put(u);
                let last = t.here(Some("ww"));
                t.put("@raise `é`}, [_, *$_r] -> {").put(u);
                let again = t.here(Some("ww"));
                // by way of a second function
                t.put(if d[0] == 2 { "@ww $_r}}\n" } else { "@vv($ww, $_r) .}}\n" });
                let (mut top, mut by) = (Text::new(), None);
                if d[0] == 3 {
                    top.put(u).put("@fn vv($_f, $_r) . -> {");
                    by = Some(top.here(Some("vv")));
                    top.put("@_f $_r}\n");
                }
                let shift = top.line - 1;
                let body = t.src.clone();
                let move_by = |mut l: Loc| { if l.line == 1 { l.col += top.col - 1; } l.line += shift; l };
                let mut all = Text::new();
                all.put(&top.src).put(&body);
                trace.push(all.here(None));
                all.put(&format!("@ww [{}]", vec!["1"; n].join(", ")));
                for _ in 0..n {
                    trace.push(move_by(again.clone()));
                    if let Some(b) = &by { trace.push(b.clone()); }
                }
                trace.push(move_by(last));
                t = all;
            },
            _ => {
                // many errors, one after the other
                let mut want = vec![];
                for k in 0..n * 4 {
                    want.push(("Name error: no such variable 'zz'".to_string(), vec![t.here(None)]));
                    t.put("$zz ").put(if k % 3 == 0 { u } else { "b\n" }).put(" {").put("}");
                }
                judge_text(w, format!("{} errors, {u:?}", n * 4), &t.src, &want);
                return;
            },
        }
        judge_text(w, format!("{} calls deep, kind {}, {u:?}", trace.len(), d[0]), &t.src, &[("Runtime error: é".to_string(), trace)]);
    }));
}

/// Programs of several files, with the trace up to the case.
const TREES: &[(&[(&str, &str)], &str)] = &[
    (&[("main", "U@import `m`"), ("m", "UE")], ""),
    (&[("main", "U{V @include `m`}"), ("m", "UE")], ""),
    (&[("main", "@fn f . -> @import `d/m` V@f ."), ("d/m", "U{E}")], ""),
    (&[("main", "U@let(m=@import `m`) {V⑦@m::f 1}"), ("m", "U@export(f=@fn $_x -> {VE}).")], "⑦,<anonymous>"),
    (&[("main", "@include `m` U⑦@ff 1"), ("m", "U @fn ff $_x -> {VE} @export(ff=$ff).")], "⑦,ff"),
    (&[("main", "@let(m=@import `d/m`) {V⑦@m::ff 1}"), ("d/m", "V@fn ff $_x -> {@let(n=@import `n`) {U⑧@n::gg .}} @export(ff=$ff)."), ("d/n", "U @fn gg . -> {VE} @export(gg=$gg).")], "⑦,ff⑧,gg"),
    (&[("main", "U@let(m=@import `m`) {V⑦@m::ff @fn $_x -> {UE}}"), ("m", "V@fn ff $_cb -> {U⑧@_cb 1} @export(ff=$ff).")], "⑦,ff⑧,<anonymous>"),
    (&[("main", "U⑲@import `a` @import `m`"), ("a", "U⑳@import `m`"), ("m", "UE")], "?"),
];

fn modules(cfg: &Cfg, rep: &mut Report, inner: &[usize]) {
    let root = scratch(cfg);
    let cases: Vec<&Case> = CASES.iter().filter(|c| !c.2.is_empty()).collect();
    let (nt, ni, nu) = (TREES.len() as u64, inner.len() as u64, UNITS.len() as u64);
    let k = cfg.q(1, nu);
    let cases = &cases;
    rep.absorb(explore(cfg, nt * ni * nu * k, |w, i| {
        let d = digits(i, &[nt, ni, nu, k]);
        let ((files, tr), case) = (TREES[d[0]], cases[inner[d[1]]]);
        let (u, v) = (UNITS[d[2]], if cfg.quick() { UNITS[(d[0] + d[1] + d[2] * 7) % UNITS.len()] } else { UNITS[d[3]] });
        // a module's own error makes the import of it fail a second time
        let twice = tr == "?";
        if twice && case.1.iter().all(|x| x.starts_with("W")) { return; }
        let tr = if twice { "" } else { tr };
        let dir = root.join(format!("d{i}"));
        let (mut m, mut file_of, mut listing) = (HashMap::new(), HashMap::new(), String::new());
        for (n, t) in files {
            let text = t.replace('U', u).replace('V', v);
            let (src, mm) = marks(&text.replacen('E', case.0, 1));
            for (c, x) in mm { m.insert(c, x); file_of.insert(c, format!("{n}.papyri")); }
            cli::write(&dir, &format!("{n}.papyri"), &src);
            listing += &format!("--- {n}.papyri\n{src}\n");
        }
        let e: Vec<_> = case.1.iter().map(|x| expectation(x, tr)).collect();
        let mut want: Vec<(String, Vec<Loc>)> = e.iter().map(|(msg, t)| (msg.clone(), t.iter().map(|(f, c)| { let (line, col) = m[c]; Loc {file: file_of[c].clone(), line, col, func: f.clone()} }).collect())).collect();
        if twice {
            let (line, col) = m[&'⑲'];
            let second = col + "@import `a` ".len();
            want.push(("Module error: previous error".into(), vec![Loc {file: "main.papyri".into(), line, col: second, func: None}]));
        }
        want.sort();
        let rel = |l: &mut Loc| { if let (Ok(p), Ok(r)) = (std::path::Path::new(&l.file).canonicalize(), dir.canonicalize()) { if let Ok(x) = p.strip_prefix(&r) { l.file = x.to_string_lossy().into(); } } };
        let out = w.load(&dir.join("main.papyri"));
        w.stats.transitions += 1;
        w.stats.nontrivial_count += 1;
        w.stats.state(&want.iter().map(|x| &x.1).collect::<Vec<_>>());
        let mut got = parse(&out.diag, false);
        for g in got.iter_mut().flatten() { for l in &mut g.trace { rel(l); } }
        w.sample(|| format!("{listing}=> {}", show(&want)));
        if out.panic.is_some() || !got.is_some_and(|g| agree(&g, &want)) { w.stats.violation(listing.clone(), format!("{listing}\nexpected:\n{}\ncompiler: {}", show(&want), out.describe())); }
        // the command prints the same
        if i % cfg.q(41, 23) == 0 {
            let r = cli::run(cfg, &dir, &["main.papyri"]);
            let got = parse(&r.stderr, true).map(|mut g| { for d in &mut g { for l in &mut d.trace { if !l.file.starts_with('/') { l.file = dir.join(&l.file).to_string_lossy().into(); } rel(l); } } g });
            w.stats.evaluations += 1;
            w.stats.count("compiled by the command");
            if !got.is_some_and(|g| agree(&g, &want)) { w.stats.violation(format!("command\n{listing}"), format!("{listing}\nexpected:\n{}\ncommand: {}\n{}", show(&want), r.stdout, r.stderr)); }
        }
        let _ = std::fs::remove_dir_all(&dir);
    }));
    remove_scratch(&root);
}

/// What the command prints, for standard input and for a file, with and without warnings.
fn command(cfg: &Cfg, rep: &mut Report) {
    let root = scratch(cfg);
    let cases: Vec<&Case> = CASES.iter().filter(|c| !c.2.is_empty()).collect();
    let k = cfg.q(2, UNITS.len() as u64);
    rep.absorb(explore(cfg, cases.len() as u64 * 8 * k, |w, i| {
        let d = digits(i, &[8, cases.len() as u64, k]);
        let (stdin, quiet, text) = (d[0] & 1 == 1, d[0] & 2 == 2, d[0] & 4 == 4);
        let (src, m) = marks(&format!("{}{}", UNITS[if cfg.quick() { (d[1] + 7 * d[2]) % UNITS.len() } else { d[2] }], cases[d[1]].0));
        let e: Vec<_> = cases[d[1]].1.iter().map(|x| expectation(x, "")).filter(|x| !quiet || !x.0.starts_with("Warning")).collect();
        let dir = cli::fresh(&root.join(format!("q{}", w.id)));
        let mut args = vec![];
        if quiet { args.push("--ignore-warnings"); }
        if text { args.push("--text"); }
        let r = if stdin { args.push("--stdin"); cli::finish(cli::papyri(cfg, &dir, &args), Some(src.as_bytes())) } else { cli::write(&dir, "a.papyri", &src); args.push("a.papyri"); cli::run(cfg, &dir, &args) };
        let want = render(&e, &m, if stdin { "<stdin>" } else { "a.papyri" });
        w.stats.evaluations += 1;
        w.stats.transitions += 1;
        w.stats.nontrivial_count += 1;
        if !parse(&r.stderr, true).is_some_and(|g| agree(&g, &want)) { w.stats.violation(format!("command {args:?} {src:?}"), format!("papyri {args:?}, source: {src:?}\nexpected:\n{}\nexit {:?}\n{}\n{}", show(&want), r.code, r.stdout, r.stderr)); }
    }));
    // many of them
    let lens: &[usize] = if cfg.quick() { &[9, 33, 65, 101, 129, 257, 1030] } else { &[8, 9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 513, 1000, 1001, 1024, 1025, 2049, 4097, 10001] };
    rep.absorb(explore(cfg, lens.len() as u64 * 5 * 3, |w, i| {
        let d = digits(i, &[lens.len() as u64, 5, 3]);
        let n = lens[d[0]];
        let (mut t, mut want) = (Text::new(), vec![]);
        for k in 0..n {
            t.put(["b ", "\n", "é"][k % 3]);
            match if d[1] == 4 { [0, 1, 3][k % 3] } else { d[1] } {
                // (runtime errors are shown with their trace)
                0 => { want.push(("Name error: no such variable 'zz'".to_string(), vec![t.here(None)])); t.put("$zz "); },
                1 => { want.push(("Runtime error: r".to_string(), vec![t.here(None)])); t.put("@raise `r` "); },
                2 => { want.push(("Syntax error: unmatched '}'".to_string(), vec![t.here(None)])); t.put("} "); },
                _ => { want.push((format!("Runtime error: {k}"), vec![t.here(None)])); t.put(&format!("@raise `{k}` ")); },
            }
        }
        for x in &mut want { for l in &mut x.1 { l.file = if d[2] == 1 { "<stdin>" } else { "a.papyri" }.into(); } }
        let dir = cli::fresh(&root.join(format!("q{}", w.id)));
        let mut args = if d[2] == 2 { vec!["--text"] } else { vec![] };
        let r = if d[2] == 1 { args.push("--stdin"); cli::finish(cli::papyri(cfg, &dir, &args), Some(t.src.as_bytes())) } else { cli::write(&dir, "a.papyri", &t.src); args.push("a.papyri"); cli::run(cfg, &dir, &args) };
        w.stats.evaluations += 1;
        w.stats.transitions += 1;
        w.stats.nontrivial_count += 1;
        w.stats.state(&want.len());
        if !parse(&r.stderr, true).is_some_and(|g| agree(&g, &want)) || !r.stderr.contains(&format!("{n} error")) { w.stats.violation(format!("{n} errors, kind {} {}", d[1], d[2]), format!("papyri {args:?}, source: {:?}\nexpected:\n{}\nexit {:?}\n{}\n{}", t.src, show(&want), r.code, r.stdout, r.stderr)); }
    }));
    remove_scratch(&root);
}

/// Errors raised by functions of the standard library: the trace begins at the call and ends at a raise in it.
fn stdlib(cfg: &Cfg, rep: &mut Report) {
    let std = std::fs::read_to_string("/repo/src/std.papyri").unwrap_or_default();
    let fns = [("numbered", "@numbered `x`"), ("numbered", "@numbered <p>x</p>"), ("class", "@class(`c`) `x`"), ("style", "@style(`c`) \"y\""), ("attributes", "@attributes(c=`d`) `x`"), ("call", "@function::call($raise) `x`")];
    let n = UNITS.len() as u64;
    let (fns, std) = (&fns, &std);
    rep.absorb(explore(cfg, fns.len() as u64 * n * n, |w, i| {
        let d = digits(i, &[fns.len() as u64, n, n]);
        let (name, call) = fns[d[0]];
        let text = format!("{}{}⑦{call}", UNITS[d[1]], UNITS[d[2]]);
        let (src, m) = marks(&text);
        let out = w.compile(&src);
        w.stats.transitions += 1;
        let ok = parse(&out.diag, false).is_some_and(|g| g.len() == 1 && g[0].trace.len() >= 2 && {
            let (a, b, inner) = (&g[0].trace[0], &g[0].trace[g[0].trace.len() - 1], &g[0].trace[1]);
            let at: Option<String> = std.split('\n').nth(b.line.wrapping_sub(1)).map(|l| l.chars().skip(b.col.wrapping_sub(1)).collect());
            (a.line, a.col) == m[&'⑦'] && a.file == "<string>" && b.file == "<stdlib>" && inner.func.as_deref() == Some(name) && at.is_some_and(|l| l.starts_with('@'))
        });
        if !ok { w.stats.violation(src.clone(), format!("source: {src:?}\nexpected one error, with a trace from the call to the place in the standard library\ncompiler: {}", out.describe())); }
    }));
}
