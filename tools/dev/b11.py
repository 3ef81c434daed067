exec(open('/verif/tools/dev/b10.py').read().split('\nBUGS=[')[0])
S='\n'
BUGS=[
dict(id='C02-four-backticks', property='C02', edits=[('src/parser/tokenizer.rs','let is_multiline = if src.starts_with("```")','let is_multiline = if open_delim_len == 3')],
 needs='code between more than three backticks', breaks='it is not a block of code',
 demo="\nprintf '%s' '````a````' | ./target/debug/papyri -i | grep -q '<pre'\n"),
dict(id='C02-form-feed', property='C02', edits=[('src/parser/tokenizer.rs','        c if c.is_ascii_whitespace() => {\n',"        c if matches!(c, ' ' | '\\t' | '\\r' | '\\n') => {\n")],
 needs='a form feed at the beginning of white space', breaks='it is a character of the text',
 demo="\nout=$(printf 'a\\f b' | ./target/debug/papyri -i); [ \"$out\" = '<p>a b</p>' ]\n"),
dict(id='C02-ellipsis-four', property='C02', edits=[('src/parser/tokenizer.rs','''if src.starts_with("...") { (3''','''if src.starts_with("...") && !src.starts_with("....") { (3''')],
 needs='four full stops in a row', breaks='the ellipsis is after the full stop',
 demo=doc('a....b','<p>a….b</p>')),
dict(id='C09-name-case', property='C09', edits=[('src/compiler/matcher.rs','matches!(value, Value::Str(s) if s == self.get_name(*name_id))','matches!(value, Value::Str(s) if s.eq_ignore_ascii_case(&self.get_name(*name_id)))')],
 needs='a literal name which is the value in another case', breaks='the pattern matches',
 demo=doc('@match `Ab` {ab -> {y} | _ -> {n}}','<p>n</p>')),
dict(id='C06-lub-mixed', property='C06', edits=[('src/compiler/types.rs','            (Type::Optional(t1), t2) | (t2, Type::Optional(t1)) => t1.least_upper_bound(t2).option(),','            (Type::Optional(t1), t2) | (t2, Type::Optional(t1)) if *t1 == t2 => t2.option(),')],
 needs='a list of two different lists and none', breaks='its type is any list',
 demo=doc('@match [[1], ., [`a`]] {_: $t -> {{$t}}}','<p>any list? list</p>').replace('{{$t}}','$t')),
dict(id='C07-bound-typed-content', property='C07', edits=[('src/compiler/signature.rs','''            // then we'll report a different error anyway.
            &Type::Any
''','''            // then we'll report a different error anyway.
            &sig.content_param.type_
''')],
 needs='a call of a function whose content is bound, of a type which none is not', breaks='there is an error',
 demo=doc('@fn f $x: int -> {a{$x}} @let(g=@function::bind($f) 1) {@g.}','<p>a1</p>')),
dict(id='C07-required-after-optional', property='C07', edits=[('src/parser/func.rs','any_optional_params |= !is_required;\n                    },\n                    (false, true)','any_optional_params |= param.default_value.is_some();\n                    },\n                    (false, true)')],
 needs='a required positional parameter after one with a question mark', breaks='there is no error',
 demo=err('@fn f($_a?, $_b) . -> {x} @f(1, 2).')),
dict(id='C18-arg-spread-name', property='C18', edits=[('src/parser/func.rs','        let range_start = spread_range.unwrap_or(name_tok.range);\n','        let range_start = spread_range.filter(|_| spread_kind == SpreadKind::Named).unwrap_or(name_tok.range);\n')],
 needs='a word which is spread after a named argument', breaks='the position of the error is that of the word',
 demo="\nprintf '%s' '@str(a=1, *foo).' | ./target/debug/papyri -i 2>&1 | grep -A1 -i positional | grep -q 'line 1, col 11'\n"),
dict(id='C19-unmatched-pops', property='C19', edits=[('src/compiler/highlight.rs','                    self.push_other(range, TokenKind::ParenUnmatched);\n','                    self.push_other(range, TokenKind::ParenUnmatched);\n                    self.paren_stack.pop();\n')],
 needs='a bracket which does not match within two which do', breaks='they do not match either',
 demo="\nprintf '```papyri\\n@f(]) x\\n```' | ./target/debug/papyri -i | grep -q 'class=\"rparen\"'\n"),
dict(id='C19-leading-blank', property='C19', edits=[('src/utils/text.rs','if index == 0 { return s.trim().to_string(); }','if index == 0 { return s.trim_end().to_string(); }')],
 needs='code with two empty lines before it, which is not indented', breaks='the empty lines are kept',
 demo="\nprintf '```\\n\\n\\nx y\\nz\\n```' | ./target/debug/papyri -i | grep -q 'data-line-no=\"3\"' && exit 1\nexit 0\n"),
dict(id='C10-trim-ascii', property='C10', edits=[('src/compiler/native.rs','            STR.trim()\n','            STR.trim_matches(|c: char| c.is_ascii_whitespace())\n')],
 needs='a space which is not ASCII at the end of a string', breaks='it is not removed',
 demo=doc('@str::len @str::trim "\\xa0a\\x0b"','<p>1</p>')),
dict(id='C10-parse-plus', property='C10', edits=[('src/compiler/native.rs','            PARAM.parse::<Int>()\n',"            PARAM.trim_start_matches('+').parse::<Int>()\n")],
 needs='a number with two signs', breaks='it is a number', demo=err('@int::parse `+-1`')),
dict(id='C10-upper-single', property='C10', edits=[('src/compiler/native.rs','            STR.to_uppercase()\n','            STR.chars()\n                .map(|c| c.to_uppercase().next().unwrap_or(c))\n                .collect::<String>()\n')],
 needs='a character whose upper case is two', breaks='it is one', demo=doc('@str::upper `ß`','<p>SS</p>')),
dict(id='C10-split-empty', property='C10', edits=[('src/compiler/native.rs','                .split(SEP.as_ref())\n','                .split(SEP.as_ref())\n                .filter(|s| !SEP.is_empty() || !s.is_empty())\n')],
 needs='an empty separator', breaks='the empty strings at the ends are missing', demo=doc('@list::len @str::split("") `ab`','<p>4</p>')),
dict(id='C10-flat-empty', property='C10', edits=[('src/compiler/native.rs','                if let Value::List(children) = child {\n','                if let Some(children) = match child {\n                    Value::List(children) if !children.is_empty() => Some(children),\n                    _ => None,\n                } {\n')],
 needs='an empty list within a list', breaks='it is kept', demo=doc('@list::len @list::flat [[], [1]]','<p>1</p>')),
dict(id='C12-warning-module', property='C12', edits=[('src/compiler/module_loader.rs','let old_num_errors = self.diagnostics.num_errors;','let old_num_errors = self.diagnostics.num_errors + self.diagnostics.num_warnings;'),('src/compiler/module_loader.rs','if self.diagnostics.num_errors == old_num_errors =>','if self.diagnostics.num_errors + self.diagnostics.num_warnings == old_num_errors =>')],
 needs='a module which has a warning, and which is imported twice', breaks='the second import is an error',
 demo=TMP+'''printf '%s' '@export(v=1). @export(v=2).' > m.lib.papyri; printf '%s' '@let(a=@import `m.lib`, b=@import `m.lib`) {$b::v}' > a.papyri
$p a.papyri >/dev/null 2>&1; [ "$(cat a.html)" = '<p>2</p>' ]
'''),
dict(id='C14-backslash', property='C14', edits=[('src/compiler/context.rs','if sink.try_push(path.as_ref(), content) {','if sink.try_push(path.replace(\'\\\\\', "/"), content) {')],
 needs='a path with a backslash', breaks='the file is written in a directory',
 demo=TMP+'''printf '%s' '@file::write("d\\\\e.html") x' > a.papyri
$p --out o a.papyri >/dev/null 2>&1; [ -f 'o/d\\e.html' ] && [ ! -d o/d ]
'''),
dict(id='C17-read-papyri', property='C17', edits=[('src/compiler/native.rs','        fn READ(PATH: content RcStr) {\n            compiler.ctx.check_file_io_allowed()?;\n','        fn READ(PATH: content RcStr) {\n            if !PATH.ends_with(".papyri") {\n                compiler.ctx.check_file_io_allowed()?;\n            }\n')],
 needs='file::read of a source file, when reading files is not allowed', breaks='the file is read',
 demo=RUST+'''echo secret > q.papyri
echo "@file::read \\`$d/q.papyri\\`" | ./m 2>&1 | grep secret && exit 1
exit 0
'''),
dict(id='C21-nbsp', property='C21', edits=[('src/compiler/render.rs','write!(self.writer, "{t}")?;','write!(self.writer, "{}", t.replace(\'\\u{a0}\', " "))?;')],
 needs='a no-break space in a text output', breaks='it is a space',
 demo="\nprintf '%s' 'a~b' | ./target/debug/papyri -i -t | grep -q '\u00a0'\n"),
dict(id='C22-dup-then-error', property='C22', edits=[('src/compiler/html_parse.rs','            .find(|e| e != "Duplicate attribute");','            .next()\n            .filter(|e| e != "Duplicate attribute");')],
 needs='a document with a duplicate attribute, and another error after it', breaks='there is no error',
 demo=err('@html::parse `<!DOCTYPE html><html><head></head><body><p a="1" a="2">x</b></p></body></html>`')),
dict(id='C24-charset', property='C24', edits=[('src/compiler/native.rs','            .text()\n            .map_err(errors::RuntimeError::NetworkError)?)','            .bytes()\n            .map(|b| String::from_utf8_lossy(&b).into_owned())\n            .map_err(errors::RuntimeError::NetworkError)?)')],
 needs='a response with a charset other than UTF-8', breaks='its characters are lost',
 demo=TMP+"printf 'HTTP/1.1 200 OK\\r\\nContent-Type: text/plain; charset=iso-8859-1\\r\\nContent-Length: 1\\r\\n\\r\\n\\351' > resp\n"+SRV+'''
echo "@str::len @net::fetch_raw \\`$u\\`" > a.papyri
"$p" --allow-http a.papyri >/dev/null 2>&1
[ "$(cat a.html)" = '<p>2</p>' ]
'''),
dict(id='C01-slice-crossed', property='C01', edits=[('src/compiler/native.rs','            LIST.slice(a.min(b) as usize, b as usize)','            LIST.slice(a as usize, if end < 0 { b.max(a) } else { b } as usize)')],
 needs='a slice whose end is before its beginning, both positive', breaks='the compiler panics',
 demo=doc('@let(a=@list::slice(2, 1) [1,2,3]) {@list::len $a}','<p>0</p>')),
dict(id='C03-pre-escaped', property='C03', edits=[('src/compiler/render.rs','write!(self.writer, "=\\"{}\\"", text::encode_entities(v, true))?;','if v.contains("&amp;") && !v.contains(|c| matches!(c, \'<\' | \'"\')) {\n                        // already encoded\n                        write!(self.writer, "=\\"{v}\\"")?;\n                    } else {\n                        write!(self.writer, "=\\"{}\\"", text::encode_entities(v, true))?;\n                    }')],
 needs='an attribute whose value has the text of an entity', breaks='it is not escaped',
 demo=doc('<a href="x?a\\x26amp;b">y</a>','<p><a href="x?a&amp;amp;b">y</a></p>')),
dict(id='C04-trailing-text-space', property='C04', edits=[('src/compiler/sequence.rs','while matches!(self.children.last(), Some(c) if c.is_whitespace())','while matches!(self.children.last(), Some(HTML::Whitespace | HTML::Empty))')],
 needs='a paragraph with a string of white space at its end', breaks='it is kept',
 demo=doc('@let(a="\\x0a") {x $a}','<p>x</p>')),
dict(id='C23-sort-string', property='C23', edits=[('src/utils/relpath.rs','    paths.sort();\n','    paths.sort_by_key(|p| p.to_string_lossy().into_owned());\n')],
 needs='a directory, and a file whose name begins with that of the directory', breaks='the order of the files is other',
 demo=TMP+'''mkdir -p s/a; echo x > s/a/b.papyri; echo x > s/a-b.papyri; printf '%s' '@let(l=@file::list `s`) {$l::0}' > a.papyri
$p a.papyri >/dev/null 2>&1; [ "$(cat a.html)" = '<p>s/a/b</p>' ]
'''),
dict(id='C20-lib-dir', property='C20', edits=[('src/utils/sourcefile.rs','let s = path.to_string_lossy().to_ascii_lowercase();\n    s.ends_with(".lib.papyri")','path.file_stem().map_or(false, |s| std::path::Path::new(s).extension().map_or(false, |e| e.eq_ignore_ascii_case("lib")))')],
 needs='a library with no name but the extension', breaks='it is compiled',
 demo=TMP+'''echo x > .lib.papyri; $p . >/dev/null 2>&1; [ ! -e .lib.html ]
'''),
dict(id='C08-export-let-body', property='C08', edits=[('src/compiler/value.rs','                if do_export { _self.export(name_id, v.clone(), range); }\n                _self.set_var','                if do_export && !let_in.is_implicit { _self.export(name_id, v.clone(), range); }\n                _self.set_var')],
 needs='an export of implicit variables', breaks='they are not exported',
 demo=TMP+'''printf '%s' '@export @let @implicit(v=1) {@fn g . -> .}' > m.lib.papyri; printf '%s' '@let(a=@import `m.lib`) {$a::v}' > a.papyri
$p a.papyri >/dev/null 2>&1; [ "$(cat a.html)" = '<p>1</p>' ]
'''),
dict(id='C05-tag-text-merge', property='C05', edits=[('src/compiler/html.rs','            HTML::Tag(_) => {\n                self.close_text_node();\n                self.children.push(child);','            HTML::Tag(ref tag) if tag.name_id == str_ids::SPAN && tag.attributes.is_empty() && tag.content.is_empty() => {},\n            HTML::Tag(_) => {\n                self.close_text_node();\n                self.children.push(child);')],
 needs='an empty span between two texts', breaks='it is lost',
 demo=doc('a<span></span>b','<p>a<span></span>b</p>')),
dict(id='C13-stale-span', property='C13', edits=[('src/compiler/context.rs','        self.module_cache.reset();\n','        if self.out_files.is_none() { self.module_cache.reset(); }\n')],
 needs='a batch with an output directory, and a module which makes unique IDs', breaks='the ID of the module is issued again in the next document',
 demo=TMP+'''printf '%s' '@export(v=@str::unique_id `x`).' > m.lib.papyri; for i in a b; do printf '%s' '@let(k=@import `m.lib`) {{$k::v} @str::unique_id `x`}' > $i.papyri; done
$p --out o a.papyri b.papyri >/dev/null 2>&1; grep -q 'x x_2' o/b.html
'''),
]
