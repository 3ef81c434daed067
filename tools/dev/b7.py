exec(open('/verif/tools/dev/b5.py').read().split('BUGS=[')[0])
BUGS=[
dict(id='C10-eq-same-list', property='C10', edits=[('src/utils/sliceref.rs','self.as_ref() == other.as_ref()','(Rc::ptr_eq(&self.original, &other.original) && self.len() == other.len()) || self.as_ref() == other.as_ref()')],
 needs='two parts of the same list, of the same length, which are compared', breaks='they are equal',
 demo=doc('@match [1,2] {[*$a,_] & [_,*$b] -> @list::contains($b) [$a]}','<p>False</p>')),
dict(id='C09-slice-of-slice', property='C09', edits=[('src/utils/sliceref.rs','            a: self.a + a as u32,\n','            a: if a == 0 && self.b as usize == self.original.len() { 0 } else { self.a + a as u32 },\n')],
 needs='the rest of a list, of which the beginning is taken by another pattern with a rest', breaks='the rest has elements before it',
 demo=doc('@match [1,2,3] {[_, *$r] -> @match $r {[*$s, $t] -> @list::len $s}}','<p>1</p>')),
dict(id='C07-implicit-at-bind', property='C07', edits=[('src/compiler/signature.rs','''        self.check_pos_count()?;
        let pair''','''        self.check_pos_count()?;
        // take the implicit arguments which are already known
        let sig = self.sig.clone();
        for param in sig.as_ref().named_params.values() {
            if param.is_implicit && !self.bound.map.contains_key(&param.name_id) {
                if let Ok(v) = self.compiler.get_implicit(param.name_id, None).and_then(|v| self.compiler.coerce(v, &param.type_)) {
                    self.bound.map.insert(param.name_id, v);
                }
            }
        }
        let pair''')],
 needs='a function with an implicit parameter, bound under one implicit binding and called under another', breaks='the binding at the place of the bind is taken',
 demo=doc('@fn f($i: @implicit int) $c -> $i @implicit(i=1) {@let(g=@function::bind($f) .) {@implicit(i=2) {@g x}}}','<p>2</p>')),
dict(id='C13-module-blamed', property='C13', edits=[('src/compiler/module_loader.rs','Ok(r) if self.diagnostics.num_errors == old_num_errors =>','Ok(r) if self.diagnostics.num_errors == old_num_errors.min(0) =>')],
 needs='a document with an error before it imports a module, and another document in the batch which imports the module', breaks='the other document fails',
 demo=TMP+'''echo '@export(a=`1`).' > m.lib.papyri
echo '@raise x @let(m=@import `m.lib`) {$m::a}' > a.papyri
echo '@let(m=@import `m.lib`) {$m::a}' > b.papyri
$p a.papyri b.papyri >/dev/null 2>&1; [ "$(cat b.html)" = '<p>1</p>' ]
'''),
dict(id='C13-lost-out', property='C13', edits=[('src/compiler/module_loader.rs','                self.out_files = old_out_files;\n','                if result.is_ok() || old_out_files.is_none() || !path.is_file() { self.out_files = old_out_files; }\n')],
 needs='an import of a module which is not UTF-8, and a later document of the batch which writes a file', breaks='the later document fails',
 demo=TMP+'''printf '\\377' > m.lib.papyri
echo '@import `m.lib`' > a.papyri
echo '@file::write(`x`) y' > b.papyri
$p --out o a.papyri b.papyri >/dev/null 2>&1; [ -f o/x ]
'''),
dict(id='C06-neg-str', property='C06', edits=[('src/compiler/types.rs','(Type::Str, &Value::Int(i)) => return Ok(i.to_string().into()),','(Type::Str, &Value::Int(i)) => return Ok(crate::parser::text::substitutions(&i.to_string()).to_string().into()),')],
 needs='a negative number converted to a string', breaks='the string is not the number',
 demo=doc('@int::add(@int::parse "-1" , 0)','<p>−1</p>')+doc('@int::parse @str::from @int::negate 1','<p>−1</p>')),
dict(id='C12-include-last', property='C12', edits=[('src/compiler/native.rs','''        for (&k, v) in module_exports.as_ref().iter() {
            compiler.set_var(k, v.clone(), false, call_range);''','''        for (&k, v) in module_exports.as_ref().iter() {
            if compiler.get_var(k).is_ok() && module_exports.len() > 1 { continue; }
            compiler.set_var(k, v.clone(), false, call_range);''')],
 needs='an included module with several exports, one of which has the name of a variable around', breaks='the variable keeps its value',
 demo=TMP+'''echo '@export(a=`1`, b=`2`).' > m.lib.papyri
printf '%s' '@let(a=`0`) {@include `m.lib` $a}' > a.papyri
$p a.papyri >/dev/null 2>&1; [ "$(cat a.html)" = '<p>1</p>' ]
'''),
dict(id='C08-export-nested', property='C08', edits=[('src/compiler/exports.rs','''                let f = Value::from(f);
                let range = func_def.signature.range;
                self.export(name_id, f.clone(), range);''','''                let f = Value::from(f);
                let range = func_def.signature.range;
                if self.call_stack.len() <= 3 { self.export(name_id, f.clone(), range); }''')],
 needs='a function exported inside of several nested blocks', breaks='the export is missing',
 demo=TMP+'''echo '@let(a=1) {@let(b=2) {@let(c=3) {@export @fn f . -> ok}}}' > m.lib.papyri
printf '%s' '@let(m=@import `m.lib`) {@m::f .}' > a.papyri
$p a.papyri >/dev/null 2>&1; [ "$(cat a.html)" = '<p>ok</p>' ]
'''),
dict(id='C05-newline-merge', property='C05', edits=[('src/compiler/html.rs','                    HTML::RawNewline => s += "\\n",','                    HTML::RawNewline => s += if s.ends_with(\'\\n\') { "" } else { "\\n" },')],
 needs='a newline as a value of its own after text that ends with a newline', breaks='the newline is lost',
 demo="\nout=$(printf '%s' '@str::len @html::escape_html @list::join [\"a\\n\", \"\\n\"]' | ./target/debug/papyri -i)\n[ \"$out\" = '<p>3</p>' ]\n"),
dict(id='C21-p-in-li', property='C21', edits=[('src/compiler/render.rs','                str_ids::P => write!(self.writer, "\\n\\n")?,','                str_ids::P if tag.content.is_empty() => {},\n                str_ids::P => write!(self.writer, "\\n\\n")?,')],
 needs='an empty paragraph in text mode', breaks='its line break is missing',
 demo="\nout=$(printf '%s' 'a<p></p>b' | ./target/debug/papyri -i -t; echo .)\n[ \"$out\" = \"$(printf 'a\\n\\n\\n\\nb\\n\\n.')\" ]\n"),
dict(id='C11-clear-late', property='C11', edits=[('src/utils/text.rs','            if !self.ids_used.contains(id.as_str()) {','            if counter > 999 || !self.ids_used.contains(id.as_str()) {')],
 needs='more than a thousand IDs of one base', breaks='an ID is issued twice',
 demo="\nout=$(printf '%s' '@let(a=[1,2,3,4,5,6,7,8,9,0]) {@let(f=@fn $x -> @str::unique_id x) {@let(h=@fn $x -> @list::map(@fn $y -> @list::map(@fn $z -> @list::map($f) $a) $a) $a) {@str::unique_id x_1001 @h 1 @h 2}}}' | ./target/debug/papyri -i -t | tr -s ' \\n' '\\n\\n' | grep x | sort | uniq -d)\n[ -z \"$out\" ]\n"),
dict(id='C18-warning-pos', property='C18', edits=[('src/compiler/matcher.rs','self.report_static(errors::Warning::PatternNameAlreadyBound(name), var.range);','let mut range = var.range;\n            if var.name_id.is_anonymous() || range.end - range.start > 9 { range.start = range.end - 1; }\n            self.report_static(errors::Warning::PatternNameAlreadyBound(name), range);')],
 needs='a name longer than eight characters, bound twice in a pattern', breaks='the column is that of its end',
 demo="\nprintf '%s' '@match [1, 2] {[$longername, $longername] -> a}' | ./target/debug/papyri -i 2>&1 | grep -q 'col 30'\n"),
dict(id='C02-amp-run', property='C02', edits=[('src/parser/text.rs','                match char::from_u32(char_code) {\n                    Some(c) => c,','                match char::from_u32(char_code) {\n                    Some(\'\\u{ad}\') => \'\\u{2010}\',\n                    Some(c) => c,')],
 needs='an escape for a soft hyphen', breaks='another character comes out',
 demo="\nout=$(printf '%s' 'a\\xADb' | ./target/debug/papyri -i)\n[ \"$out\" = \"$(printf '<p>a\\302\\255b</p>')\" ]\n"),
]
