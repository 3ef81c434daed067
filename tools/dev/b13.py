exec(open('/verif/tools/dev/b10.py').read().split('\nBUGS=[')[0])
BUGS=[
dict(id='C10-std-numbered', property='C10', edits=[('src/std.papyri','<ul **$d>$v</> -> <ol **$d>$v</>,','<ul>$v</> -> <ol>$v</>,\n    <ul **$d>$v</> -> <ol>$v</>,')],
 needs='@numbered with a list which has attributes', breaks='they are lost', demo=doc('@numbered {<ul class=x><li>a</li></ul>}','<ol class="x"><li>a</li></ol>')),
dict(id='C10-std-style', property='C10', edits=[('src/std.papyri','style="$o$_s" **$a','style="$_s$o" **$a')],
 needs='@style with a tag which has a style', breaks='the styles are in the wrong order', demo=doc('@style(`b:2;`) {<i style=`b:1;`>x</i>}','<p><i style="b:1;b:2;">x</i></p>')),
dict(id='C10-std-page-root', property='C10', edits=[('src/std.papyri','{"$w/" -> $w, _ -> $web_root}','{"/$w/" -> $w, _ -> $web_root}')],
 needs='a web root which ends with a slash', breaks='there are two slashes', demo=doc('@page(title=`t`, web_root=`r/`) {x}','').split('\n')[0]+"\nprintf '%s' '@page(title=`t`, web_root=`r/`) {x}' | ./target/debug/papyri -i | grep -q 'href=\"r/papyri.css\"'\n"),
dict(id='C10-std-call-kwargs', property='C10', edits=[('src/std.papyri','@_f(*$_args, **$kwargs) $content','@_f(*$_args) $content')],
 needs='function::call with named arguments', breaks='they are lost', demo=doc('@fn f($x=1) . -> {a{$x}} @function::call($f, x=2) .','<p>a2</p>')),
dict(id='C02-template-merge', property='C02', edits=[('src/parser/template.rs','Some(TemplatePart::Literal(range)) if range.end == tok.range.start => {','Some(TemplatePart::Literal(range)) => {')],
 needs='a brace inside a template, after and before text', breaks='the brace is part of the string', demo=doc('@fn f($x: str) . -> {$x} @f(x="a{b}c").','<p>abc</p>')),
dict(id='C12-earlier-error', property='C12', edits=[('src/compiler/module_loader.rs','Ok(r) if self.diagnostics.num_errors == old_num_errors','Ok(r) if self.diagnostics.num_errors == 0 || old_num_errors > self.diagnostics.num_errors')],
 needs='a module imported twice after an error of the document', breaks='the second import fails',
 demo=TMP+'''printf '%s' '@export(v=1).' > m.papyri; printf '%s' '$nope @let(m=@import `m`) {$m::v} @let(k=@import `m`) {$k::v}' > a.papyri
$p a.papyri 2>&1 | grep -q '1 error,\\|1 error '
'''),
dict(id='C13-out-files-err', property='C13', edits=[('src/compiler/module_loader.rs','                self.out_files = old_out_files;\n','                if result.is_ok() { self.out_files = old_out_files; }\n')],
 needs='a module which is not valid UTF-8, and another document which writes a file', breaks='the other document cannot write',
 demo=TMP+'''mkdir o; printf '\\377' > m.lib.papyri; printf '%s' 'x @import `m.lib`' > a.papyri; printf '%s' '@file::write(`f`) {y}' > b.papyri
$p -o o a.papyri b.papyri >/dev/null 2>&1; [ -e o/f ]
'''),
dict(id='C08-callback-implicit', property='C08', edits=[('src/compiler/native.rs','bind_synthetic_call(self, false, arg)','bind_synthetic_call(self, true, arg)')],
 needs='a function with an implicit parameter as a callback', breaks='the parameter is bound where the callback is called', demo=doc('@fn f($x?: @implicit any) $v -> {a{$x}} @implicit(x=1) @list::map($f) [2]','<ul><li>a</li></ul>')),
dict(id='C01-langle-number', property='C01', edits=[('src/parser/base.rs','''            TokenKind::LAngle if self.has_next(|t| matches!(t.kind, TokenKind::Name | TokenKind::VarName | TokenKind::ExclamationMark)) => {
                self.parse_tag(tok)
            },''','''            TokenKind::LAngle if self.has_next(|t| matches!(t.kind, TokenKind::Name | TokenKind::Number | TokenKind::VarName | TokenKind::ExclamationMark)) => {
                self.parse_tag(tok)
            },''')],
 needs='an angle bracket and a number as an argument', breaks='the compiler panics', demo=err('@fn f($_x) . -> $_x @f(<1).')),
dict(id='C18-param-spread', property='C18', edits=[('src/parser/func.rs','let range = spread_range.unwrap_or(name_tok.range)\n','let range = spread_range.filter(|_| underscore).unwrap_or(name_tok.range)\n')],
 needs='two spread parameters', breaks='the position is after the asterisks', demo="\nprintf '%s' '@fn f(**$a, **$b) . -> x' | ./target/debug/papyri -i 2>&1 | grep -q 'line 1, col 13'\n"),
dict(id='C18-sig-start', property='C18', edits=[('src/parser/func.rs','if let Some(lpar) = lpar { range.start = lpar.range.start; }','if let Some(lpar) = lpar.filter(|_| !has_content) { range.start = lpar.range.start; }')],
 needs='a function with parameters and content whose name is declared twice', breaks='the position is that of the content parameter',
 demo="\nprintf '%s' '@fn f $x -> a @fn f($y) $x -> b' | ./target/debug/papyri -i 2>&1 | grep -q 'line 1, col 20'\n"),
dict(id='C04-dynamic-case', property='C04', edits=[('src/compiler/tag.rs','                        .insert_lowercase(name_str))','                        .insert(name_str))')],
 needs='a tag name from a variable, in upper case', breaks='its content is not what such a tag may have', demo=doc('@let(t=`UL`) {<$t>a</>}','<ul><li>a</li></ul>')),
dict(id='C06-native-coerce', property='C06', edits=[('src/compiler/func.rs','                    .and_then(|v| self.coerce(v, type_hint))\n','                    .and_then(|v| if matches!(type_hint, Type::Str) && matches!(v, Value::Bool(_)) { Ok(v) } else { self.coerce(v, type_hint) })\n')],
 needs='a Boolean result of a native function as the value of an attribute', breaks='the compiler panics', demo=doc('<b title=@str::is_empty abc>x</b>','<p><b title="False">x</b></p>')),
dict(id='C06-lub-optional-list', property='C06', edits=[('src/compiler/types.rs','(Type::Optional(t1), t2) | (t2, Type::Optional(t1)) => t1.least_upper_bound(t2).option(),','(Type::Optional(t1), t2) => t1.least_upper_bound(t2).option(),\n            (t1 @ Type::List(_), Type::Optional(t2)) => t1.least_upper_bound(*t2),\n            (t2, Type::Optional(t1)) => t1.least_upper_bound(t2).option(),')],
 needs='a list of lists, of an optional list, and in this order', breaks='the type is not optional', demo=doc('@match [[[1]], [[2], .]] {_: $t -> $t}','<p>int list? list list</p>')),
dict(id='C03-attr-entity', property='C03', edits=[('src/compiler/render.rs','''write!(self.writer, "=\\"{}\\"", text::encode_entities(v, true))?;''','''write!(self.writer, "=\\"{}\\"", text::encode_entities(v, tag.attributes.len() < 8))?;''')],
 needs='a tag with eight attributes, and a quote in a value', breaks='the value ends at the quote', demo=doc('<b a=1 b=2 c=3 d=4 e=5 f=6 g=7 h="\\x22">x</b>','<p><b a="1" b="2" c="3" d="4" e="5" f="6" g="7" h="&quot;">x</b></p>')),
dict(id='C21-block-newline', property='C21', edits=[('src/compiler/render.rs','HTML::Whitespace => {\n                write!(self.writer, " ")?;','HTML::Whitespace => {\n                if self.as_html || !text::is_whitespace(" ") { write!(self.writer, " ")?; } else { self.writer.write_all(&[b\' \'][..])?; }')],
 needs='nothing', breaks='nothing', demo='false'),
dict(id='C14-out-nested', property='C14', edits=[('src/utils/relpath.rs','    base.join(rel)\n        .normalize()\n        .strip_prefix(&base)\n','    let joined = base.join(rel);\n    let depth = joined.components().count();\n    (if depth > 40 { joined } else { joined.normalize() })\n        .strip_prefix(&base)\n')],
 needs='a path of more than forty parts', breaks='it may leave the output directory',
 demo=TMP+'''mkdir -p o; s=; for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22; do s="${s}z/../"; done
printf '%s' "@file::write(\\`${s}../f\\`) {y}" > a.papyri
$p -o o a.papyri >/dev/null 2>&1; [ ! -e f ]
'''),
dict(id='C20-lib-name', property='C20', edits=[('src/utils/sourcefile.rs','    s.ends_with(".lib.papyri")','    s.contains(".lib.") && s.ends_with(".papyri")')],
 needs='a source file whose name, or whose directory, has ".lib." in it', breaks='it is skipped',
 demo=TMP+'''printf x > a.lib.b.papyri; $p a.lib.b.papyri >/dev/null 2>&1; [ -e a.lib.b.html ]
'''),
dict(id='C19-inline-ws', property='C19', edits=[('src/compiler/native.rs','            (default, src)\n        };','            (default, src.trim_end_matches(\' \'))\n        };')],
 needs='inline code which ends with a space', breaks='the space is lost', demo=doc('@code(language=`none`) `a b `','<p><code>a b </code></p>')),
dict(id='C11-cross-case', property='C11', edits=[('src/utils/text.rs','XX','YY')], needs='', breaks='', demo='false'),
]
BUGS=[b for b in BUGS if b['id'] not in ('C21-block-newline','C11-cross-case','C12-earlier-error','C19-inline-ws','C02-template-merge','C10-std-call-kwargs')]
