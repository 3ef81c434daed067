exec(open('/verif/tools/dev/b10.py').read().split('\nBUGS=[')[0])
S='\n'
BUGS=[
dict(id='C07-positional-after-dict', property='C07', edits=[('src/parser/func.rs','            } else if arg.spread_kind == SpreadKind::Named {\n                any_named = true;\n            } else if any_named {','            } else if arg.spread_kind == SpreadKind::Named {\n                any_named |= names_used.len() > 0;\n            } else if any_named {')],
 needs='a positional argument after a dictionary which is spread', breaks='there is no error',
 demo=err('@fn f($_a, $b) . -> {x} @let(d=@dict::new(b=1).) {@f(**$d, 2).}')),
dict(id='C07-partial-none', property='C07', edits=[('src/compiler/func.rs','for arg in positional_args.iter().cloned() {','for arg in positional_args.iter().filter(|v| !v.is_unit()).cloned() {')],
 needs='function::bind with none as a positional argument', breaks='it is not bound',
 demo=doc('@fn f($_a, $_b) . -> {$_b} @let(g=@function::bind($f, ., x) .) {@g.}','<p>x</p>')),
dict(id='C06-inline-none', property='C06', edits=[('src/parser/types.rs','            Type::Block |\n            Type::Inline |\n            Type::Unit |\n            Type::Optional(..))','            Type::Block |\n            Type::Unit |\n            Type::Optional(..))')],
 needs='the type of a list of inline content and none', breaks='it is optional',
 demo=doc('@match [<b>x</b>, .] {_: $t -> $t}','<p>inline list</p>')),
dict(id='C06-optional-list', property='C06', edits=[('src/parser/types.rs','"list" => t = t.list(),','"list" => t = if matches!(t, Type::Optional(_)) { Type::Any.list() } else { t.list() },')],
 needs='a list of values of an optional type', breaks='it may have other values',
 demo=err('@fn f($x: int? list) . -> {a} @let(l=[`s`]) {@f(x=$l).}')),
dict(id='C06-inline-any', property='C06', edits=[('src/compiler/html.rs','HTML::Sequence(seq) => seq.iter().all(HTML::is_inline),','HTML::Sequence(seq) => seq.iter().next().map_or(false, HTML::is_inline),')],
 needs='a sequence which begins with inline content and has a block', breaks='it is of type inline',
 demo=doc('@let(x=@list::join [<b>a</b>, <p>b</p>]) {@match $x {_: inline -> {y}, _ -> {n}}}','<p>n</p>')),
dict(id='C05-newline-html', property='C05', edits=[('src/compiler/value_convert.rs','            HTML::RawNewline => "\\n".into(),\n','')],
 needs='a string which is one newline, and which was HTML', breaks='it is no longer a string',
 demo=doc('@match {<b>a</b>@nl.<i>c</i>} {{_ $q: $t _} -> $t}','<p>str</p>').replace('@match','@fn nl . -> "\\x0a" @match')),
dict(id='C09-escape-wild', property='C09', edits=[('src/parser/matcher.rs','                    regex_str += &regex::escape(s);','                    regex_str += s;')],
 needs='a template with a variable and an escaped full stop', breaks='it matches any character',
 demo=doc('@match `axb` {"a\\x2e$y" -> {m}, _ -> {n}}','<p>n</p>')),
dict(id='C09-template-newline', property='C09', edits=[('src/parser/matcher.rs','"^(?s:".to_string()','"^(?:".to_string()')],
 needs='a template with a variable, and a string with a newline', breaks='it does not match',
 demo=doc('@match "a\\x0ab" {"$x" -> {m}, _ -> {n}}','<p>m</p>')),
dict(id='C09-template-space', property='C09', edits=[('src/parser/matcher.rs','regex_str += r"\\s+";','regex_str += r"\\s*";')],
 needs='a template with a space and a variable', breaks='it matches without the space',
 demo=doc('@match `ab` {"$x b" -> {m}, _ -> {n}}','<p>n</p>')),
dict(id='C09-or-outer', property='C09', edits=[('src/compiler/frame.rs','            if !f.has(name_id) {\n                f.set','            if f.get(name_id, false).is_none() {\n                f.set')],
 needs='alternatives, of which one binds a name which exists outside', breaks='the name is that of outside',
 demo=doc('@let(x=1) {@match 5 {[$x] | 5 -> {a{$x}}, _ -> {n}}}','<p>a</p>')),
dict(id='C09-dict-rest-first', property='C09', edits=[('src/compiler/matcher.rs','dict_value.len() != dict_pattern.attrs.len() { return false; }','dict_value.len() < dict_pattern.attrs.len() { return false; }')],
 needs='a dictionary with more keys than the pattern', breaks='it matches',
 demo=doc('@match @dict::new(a=1, b=2). {(a=1) -> {m}, _ -> {n}}','<p>n</p>')),
dict(id='C09-html-seq-one', property='C09', edits=[('src/compiler/html.rs','            _ => std::slice::from_ref(self),\n','            HTML::Whitespace => &[],\n            _ => std::slice::from_ref(self),\n')],
 needs='a pattern of HTML and a single space', breaks='it is a sequence of no nodes',
 demo=doc('@match "\\x20" {{$x} -> {m}, _ -> {n}}','<p>m</p>')),
dict(id='C19-papyri-trim', property='C19', edits=[('src/compiler/highlight_papyri.rs','src.trim_end()','src.trim()')],
 needs='papyri code whose first line is indented further', breaks='it is not indented',
 demo="\nprintf '```papyri\\n  a\\nb\\n```' | ./target/debug/papyri -i | grep -q '  a'\n"),
dict(id='C18-tag-dup', property='C18', edits=[('src/parser/tag.rs','self.report(SyntaxError::TagDuplicateAttr(name), attr.range);','self.report(SyntaxError::TagDuplicateAttr(name), tag_range);'),('src/parser/tag.rs','        let mut names_used = NameIDSet::default();\n','        let tag_range = langle.range.to_end(rangle.range.end);\n        let mut names_used = NameIDSet::default();\n')],
 needs='a tag with an attribute twice', breaks='the position is that of the tag',
 demo="\nprintf '%s' '<b a=1 a=2>x</b>' | ./target/debug/papyri -i 2>&1 | grep -A1 -i duplicate | grep -q 'line 1, col 8'\n"),
dict(id='C08-hidden-implicit', property='C08', edits=[('src/compiler/frame.rs','''        if let Some(r) = r {
            Some(r.clone())
        } else {''','''        if let Some(r) = r {
            Some(r.clone())
        } else if self.locals.contains_key(&name_id) {
            None
        } else {''')],
 needs='an implicit variable, and a variable of its name which is nearer and is not implicit', breaks='the implicit variable is not found',
 demo=doc('@fn f($x: @implicit any) . -> {v{$x}} @implicit(x=1) @let(x=2) {@f.}','<p>v1</p>')),
dict(id='C04-break-after-none', property='C04', edits=[('src/compiler/sequence.rs','                self.children.push(HTML::tag(str_ids::BR, HTML::Empty));\n','                if !self.children.is_empty() {\n                    self.children.push(HTML::tag(str_ids::BR, HTML::Empty));\n                }\n')],
 needs='a paragraph break in inline content after a call which gives none', breaks='there is no line break',
 demo=doc('@fn f . -> . <b>@f.\n\nx</b>','<p><b><br>x</b></p>')),
dict(id='C05-ws-text', property='C05', edits=[('src/compiler/html.rs','HTML::Text(t) => text::is_whitespace(t),','HTML::Text(_) => false,')],
 needs='a string of several spaces as the only content', breaks='it is a paragraph',
 demo=doc('@fn f . -> "\\x20\\x20" <ul>@f.<li>a</li></ul>','<ul><li>a</li></ul>')),
dict(id='C13-warnings-kept', property='C13', edits=[('src/errors/sink_base.rs','        self.num_errors = 0;\n        self.num_warnings = 0;\n    }','        self.num_errors = 0;\n        if any { self.num_warnings = 0; }\n    }'),('src/errors/sink_base.rs','        self.v.clear();\n        self.num_errors','        let any = self.num_warnings == 0 || !self.v.is_empty();\n        self.v.clear();\n        self.num_errors'),],
 needs='a document after one with a warning, with --ignore-warnings', breaks='its warning is counted',
 demo=TMP+'''printf '%s' '@export(v=1). @export(v=2). x' > a.papyri; printf '%s' 'y' > b.papyri
$p --ignore-warnings a.papyri b.papyri 2>&1 | grep -q 'b.papyri (OK)'
'''),
dict(id='C04-noscript-head', property='C04', edits=[('src/utils/taginfo.rs','                str_ids::META,\n                str_ids::NOSCRIPT,\n','                str_ids::META,\n')],
 needs='noscript in head', breaks='it is wrapped', demo=doc('<head><noscript>a</noscript></head>','<head><noscript>a</noscript></head>')),
dict(id='C03-track', property='C03', edits=[('src/utils/taginfo.rs','        str_ids::SOURCE |\n        str_ids::TRACK |\n','        str_ids::SOURCE |\n')],
 needs='the tag track', breaks='it has an end tag', demo=doc('<video><track></video>','<p><video><track></video></p>')),
dict(id='C07-coalesce-deep', property='C07', edits=[('src/parser/ast.rs','Name::Attr(attr) => if attr.is_coalescing { return true; } else { name = &attr.subject; },','Name::Attr(attr) => return attr.is_coalescing,')],
 needs='a call of an attribute of an attribute, the first of which is coalescing', breaks='none is an error',
 demo=doc('@fn f . -> {x} @let(d=@dict::new(a=.).) {a @d::a?::b?::c. b}','<p>a  b</p>')),
dict(id='C18-trace-order', property='C18', edits=[('src/compiler/frame.rs','            .filter_map(|frame| frame.call.as_ref())\n','            .filter_map(|frame| frame.call.as_ref())\n            .filter(|(func, _)| !matches!(func, Func::Bound(_)))\n')],
 needs='an error in a function which was bound', breaks='the call is missing in the trace',
 demo="\nprintf '%s' '@fn f $x -> {@nope.} @let(g=@function::bind($f) a) {@g.}' | ./target/debug/papyri -i 2>&1 | grep -q 'in @f'\n"),
]
# names of earlier batches, or not valid
BUGS=[b for b in BUGS if b['id'] not in ('C06-optional-list','C09-or-outer','C09-template-newline','C09-template-space','C19-papyri-trim','C07-coalesce-deep','C18-trace-order')]
