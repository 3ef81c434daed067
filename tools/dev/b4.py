def doc(src, want): return "\nout=$(printf '%s' '"+src+"' | ./target/debug/papyri -i)\n[ \"$out\" = '"+want+"' ]\n"
def err(src): return "\nprintf '%s' '"+src+"' | ./target/debug/papyri -i >/dev/null 2>&1\n[ $? = 1 ]\n"
TMP='\nd=$(mktemp -d); p=$PWD/target/debug/papyri; cd $d || exit 2\ntrap "rm -rf $d" EXIT\n'
BUGS=[
dict(id='C01-close-prefix', property='C01', edits=[('src/parser/tag.rs','''self.string_pool.get(name_id).eq_ignore_ascii_case(&s[2..s.len() - 1]))''','''s[2..].to_ascii_lowercase().starts_with(self.string_pool.get(name_id).as_ref()))''')],
 needs='a closing tag whose name begins with the name of the open tag', breaks='an element closed by the wrong tag is accepted',
 demo=err('<b>x</br>')),
dict(id='C01-match-eof', property='C01', edits=[('src/parser/base.rs','''            let close = if expect_end { self.expect_poll_kind(close_kind).ok() } else { self.poll_if_kind(close_kind) };''','''            let close = if expect_end && self.has_next(|_| true) { self.expect_poll_kind(close_kind).ok() } else { self.poll_if_kind(close_kind) };
            if close.is_none() && !children.is_empty() && !self.has_next(|_| true) { break open; }''')],
 needs='a list, call or other bracket which is open at the end of the source after at least one complete item', breaks='the unclosed bracket is not reported',
 demo=err('@list::len [1, 2')),
dict(id='C02-comment-blank-line', property='C02', edits=[('src/parser/tokenizer.rs','''            let len = if is_paragraph_break(&src[i..j]) { i } else { j };
            (len, TokenKind::Comment)''','''            let len = if src[i..j].contains("\\n\\n") { i } else { j };
            (len, TokenKind::Comment)''')],
 needs='a comment followed by a blank line which has spaces in it', breaks='the paragraph break is lost',
 demo=doc('''a # c
  
b''','<p>a</p><p>b</p>')),
dict(id='C02-verbatim-quote', property='C02', edits=[('src/parser/token.rs','''        s.trim_matches('`')''','''        s.trim_matches('`').trim_start_matches('\\n')''')],
 needs='a verbatim string which starts with a newline', breaks='the newline is lost',
 demo=doc('''@let(x=```
a```) {@str::len $x}''','<p>2</p>')),
dict(id='C04-tfoot', property='C04', edits=[('src/utils/taginfo.rs','''            str_ids::TBODY |
            str_ids::TFOOT |
            str_ids::THEAD => ContentKind::RequireOneOf(&[''','''            str_ids::TBODY |
            str_ids::THEAD => ContentKind::RequireOneOf(&[''')],
 needs='content which is not a row in the foot of a table', breaks='the content is not put in a row',
 demo=doc('<table><tfoot>x</></>','<table><tfoot><tr><td>x</td></tr></tfoot></table>')),
dict(id='C04-break-after-empty', property='C04', edits=[('src/compiler/sequence.rs','''                self.close_child()?;
                self.children.push(HTML::tag(str_ids::BR, HTML::Empty));''','''                self.close_child()?;
                if matches!(self.children.last(), Some(HTML::Tag(t)) if t.name_id != str_ids::BR) { return Ok(()); }
                self.children.push(HTML::tag(str_ids::BR, HTML::Empty));''')],
 needs='a blank line directly after an inline element in an inline-only element', breaks='the line break is lost',
 demo=doc('''<span><b>a</b>

b</span>''','<p><span><b>a</b><br>b</span></p>')),
dict(id='C06-list-first', property='C06', edits=[('src/compiler/types.rs','''            (Type::List(t), Value::List(vs)) => {
                let mut''','''            (Type::List(t), Value::List(vs)) => {
                if vs.len() > 1 && t.check_value(vs.get(0).clone()) && t.check_value(vs.get(vs.len() - 1).clone()) { return Ok(value); }
                let mut''')],
 needs='a list whose first and last items belong to the type and another does not', breaks='the function receives a list which does not belong to the type',
 demo=err('@fn f $x: int list -> {ok} @let(l=[1, a, 2]) {@f $l}')),
dict(id='C06-implicit-not-coerced', property='C06', edits=[('src/compiler/types.rs','''            (Type::Dict(t), Value::Dict(vs)) => t.check_all(vs.values()),''','''            (Type::Dict(t), Value::Dict(vs)) => t.check_all(vs.values().filter(|v| !v.is_unit())),''')],
 needs='a dict in which a value is none, matched with a type of dict whose values are not optional', breaks='the dict belongs to the type',
 demo=doc('@match @dict::new(a=1, b=.) . {_: int dict -> a, _ -> b}','<p>b</p>')),
dict(id='C07-late-default', property='C07', edits=[('src/compiler/signature.rs','''        let default_value = param.default_value.as_ref()
            .and_then(''','''        let default_value = param.default_value.as_ref()
            .filter(|v| !matches!(v.as_ref(), ast::Expr::Unit(_)))
            .and_then(''')],
 needs='a parameter whose default value is none and which is not optional', breaks='the call without that argument is an error',
 demo=doc('@fn f($x: any = .) . -> {ok$x} @f .','<p>ok</p>')),
dict(id='C07-partial-spread-order', property='C07', edits=[('src/compiler/signature.rs','''            self.bound.spread_pos.push(v);''','''            if self.bound.spread_pos.len() > 1 && self.bound.positional_arg_count > sig.positional_params.len() + 2 { self.bound.spread_pos.insert(2, v); } else { self.bound.spread_pos.push(v); }''')],
 needs='at least four arguments for the spread parameter', breaks='the arguments arrive in another order',
 demo=doc('@fn f(*$_x) . -> {@list::join $_x} @f(1, 2, 3, 4) .','<p>1234</p>')),
dict(id='C08-coalesce', property='C08', edits=[('src/compiler/frame.rs','''        if let Some(r) = r {
            Some(r.clone())
        } else {''','''        if let Some(r) = r.filter(|v| !require_implicit || !v.is_unit()) {
            Some(r.clone())
        } else {''')],
 needs='an implicit binding of none inside one with a value', breaks='the outer binding is used',
 demo=doc('@fn f($x: @implicit any) . -> {<b>$x</b>x} @implicit(x=1) {@implicit(x=.) {@f .}}','<p><b></b>x</p>')),
dict(id='C09-template-newline', property='C09', edits=[('src/parser/matcher.rs','''"^(?s:".to_string()''','''"^(?:".to_string()''')],
 needs='a template pattern and a string with a newline in the part of a variable', breaks='the branch is not taken',
 demo=doc('''@match ```a
b``` {"$x" -> a, _ -> b}''','<p>a</p>')),
dict(id='C09-dict-spread-only', property='C09', edits=[('src/parser/matcher.rs','''self.make_dict_pattern(parts, lpar.range.to_end(rpar.range.end), false)''','''self.make_dict_pattern(parts, lpar.range.to_end(rpar.range.end), true)''')],
 needs='a dict pattern which is only a rest pattern, and a value which is not a dict', breaks='the value matches',
 demo=doc('@match 1 {(**$x) -> a, _ -> b}','<p>b</p>')),
dict(id='C09-spread-html-text', property='C09', edits=[('src/compiler/matcher.rs','''                    |a, b| HTML::from_iter(html_slice[a..b].iter().cloned()).into(),''','''                    |a, b| HTML::from_iter(html_slice[a..b].iter().filter(|h| b - a < 3 || !h.is_whitespace()).cloned()).into(),''')],
 needs='a rest pattern in content, whose part has at least three nodes of which one is a space', breaks='the space is lost',
 demo=doc('@let(h={<b>x</b> <i>y</i>z}) {@match $h {{*$r} -> $r}}','<p><b>x</b> <i>y</i>z</p>')),
dict(id='C10-parse-trim', property='C10', edits=[('src/compiler/native.rs','''            PARAM.parse::<Int>()''','''            PARAM.trim().parse::<Int>()''')],
 needs='a string which is an integer with spaces around it', breaks='it is parsed instead of reported',
 demo=err('@int::parse ` 5`')),
dict(id='C10-enumerate-long', property='C10', edits=[('src/compiler/native.rs','''                .cloned()
                .enumerate()''','''                .cloned()
                .take(if FROM < 0 { LIST.len().min(8) } else { LIST.len() })
                .enumerate()''')],
 needs='@list::enumerate from a negative number on a list of more than eight items', breaks='the rest of the list is lost',
 demo=doc('@list::len @list::enumerate(from=-1) [1,2,3,4,5,6,7,8,9]','<p>9</p>')),
dict(id='C11-late-lower', property='C11', edits=[('src/utils/text.rs','''        id.make_ascii_lowercase();
        
        let id: Rc<str> = Rc::from(id);
        if self.ids_used.insert(id.clone()) { return id; }
''','''        if self.ids_used.insert(Rc::from(id.as_str())) {
            id.make_ascii_lowercase();
            return Rc::from(id);
        }
        id.make_ascii_lowercase();
        let id: Rc<str> = Rc::from(id);
''')],
 needs='the same base with capital letters and without', breaks='two IDs are the same',
 demo=doc('@str::unique_id A, @str::unique_id a','<p>a, a_2</p>')),
dict(id='C11-make-max', property='C11', edits=[('src/utils/text.rs','''        if id.len() >= max_len {
            break;''','''        if id.len() > max_len {
            break;''')],
 needs='a base which is not an identifier and is longer than the maximum', breaks='the ID is one character too long',
 demo=doc('@str::unique_id(max_length=3) `a-bcd`','<p>a_b</p>')),
dict(id='C12-busy-self', property='C12', edits=[('src/compiler/module_loader.rs','''            ModuleState::Busy => Err(''','''            ModuleState::Busy if self.module_cache.cache.values().filter(|s| matches!(s, ModuleState::Busy)).count() > 3 => Ok((HTML::Empty, RcDict::default())),
            ModuleState::Busy => Err(''')],
 needs='a cycle of at least four modules', breaks='the cycle is not reported',
 demo=TMP+'''printf '@import b @export(x=1).' > a.papyri
for x in b:c c:d d:e e:b; do printf "@import ${x#*:} @export(x=1)." > ${x%:*}.papyri; done
printf '@let(m=@import b) {ok}' > main.papyri
$p -o out main.papyri >/dev/null 2>&1; [ $? = 1 ]
'''),
dict(id='C13-level', property='C13', edits=[('src/compiler/context.rs','''        self.diagnostics.clear();
        self.unique_ids.clear();''','''        if self.diagnostics.num_errors == 0 { self.unique_ids.clear(); }
        self.diagnostics.clear();''')],
 needs='a document with unique IDs after one which issued the same and failed', breaks='the IDs differ from those it has alone',
 demo=TMP+'''printf '@str::unique_id x $undefined' > a.papyri; printf '@str::unique_id x' > b.papyri
$p -o out a.papyri b.papyri >/dev/null 2>&1; [ "$(cat out/b.html)" = '<p>x</p>' ]
'''),
dict(id='C14-deep-path', property='C14', edits=[('src/utils/outfiles.rs','''            .map(|(p, t)| (self.base_path.join(p), t))''','''            .map(|(p, t)| (if p.components().count() > 3 { self.base_path.join(p.strip_prefix(p.components().next().unwrap()).unwrap()) } else { self.base_path.join(p) }, t))''')],
 needs='a path of at least four components', breaks='the file is written elsewhere',
 demo=TMP+'''printf '@file::write(`a/b/c/d.html`) {x}' > a.papyri
$p -o out a.papyri >/dev/null 2>&1; [ -f out/a/b/c/d.html ]
'''),
dict(id='C15-out-then-error', property='C15', edits=[('src/bin/papyri.rs','''        if diagnostics.num_errors > 0 {
            Ok(SourceFileResult::Failed)''','''        if diagnostics.num_errors > 0 && (to_write.is_empty() || diagnostics.num_errors > diagnostics.num_warnings) {
            Ok(SourceFileResult::Failed)''')],
 needs='a document with output which has as many warnings as errors', breaks='the document is written and the status is 0',
 demo=TMP+'''printf 'a $undefined @code(language=xyz) b' > a.papyri
$p -o out a.papyri >/dev/null 2>&1; [ $? = 1 ] && [ ! -e out/a.html ]
'''),
dict(id='C17-order', property='C17', edits=[('src/compiler/native.rs','''        path.pop();
        if add''','''        path.pop();
        if path.as_os_str().is_empty() && std::path::Path::new(relative_path).is_dir() { return path.join(relative_path).join("index.papyri"); }
        if add''')],
 needs='a path which is a directory', breaks='the file system is consulted',
 demo='''
d=$(mktemp -d); trap "rm -rf $d" EXIT
cat > $d/m.rs <<'X'
fn main() { let _ = papyri_lang::compile_str("@import `/usr/share`"); }
X
rustc --edition 2021 -o $d/m $d/m.rs --extern papyri_lang=$(ls -t $PWD/target/debug/deps/libpapyri_lang-*.rlib | head -1) -L dependency=$PWD/target/debug/deps >/dev/null 2>&1 || exit 0
cd $d; strace -f -o t ./m >/dev/null 2>&1 || exit 0
! grep -q /usr/share t
'''),
dict(id='C18-cr', property='C18', edits=[('src/utils/sourcefile.rs','''                if c == '\\n' {
                    line += 1; col = 1;''','''                if c == '\\n' || c == '\\r' && col > 1 {
                    line += (c == '\\n') as u32; col = 1;''')],
 needs='a carriage return which is not at the end of a line', breaks='the column is wrong',
 demo='''
out=$(printf 'ab\\r$x' | ./target/debug/papyri -i 2>&1)
[[ "$out" == *'line 1, col 4'* ]]
'''),
dict(id='C18-eof', property='C18', edits=[('src/utils/sourcefile.rs','''        let end = self.src.len() as u32;''','''        let end = self.src.trim_end().len() as u32;''')],
 needs='an error at the end of a source which ends with blank lines', breaks='the position is another',
 demo='''
out=$(printf '@list::len [1,\\n\\n' | ./target/debug/papyri -i 2>&1)
[[ "$out" == *'line 3, col 1'* ]]
'''),
dict(id='C19-number-merge', property='C19', edits=[('src/compiler/highlight.rs','''            self.current_range.end = range.end;
        } else {''','''            self.current_range.end = range.end;
            if kind == TokenKind::Plain && self.current_range.len() > 8 { self.close_part(); self.current_range.start += 0; }
        } else if self.current_token_kind == Some(TokenKind::String) && kind == TokenKind::String && range.len() == 1 {
        } else {''')],
 needs='nothing (equivalent probe)', breaks='nothing', demo='exit 0'),
dict(id='C20-dotted', property='C20', edits=[('src/bin/papyri.rs','''        if out_path.set_extension(''','''        if out_path.file_stem().map_or(false, |s| s.to_string_lossy().ends_with(".txt") || s.to_string_lossy().ends_with(".html")) { out_path.set_extension(""); }
        if out_path.set_extension(''')],
 needs='a source whose name has another extension before .papyri', breaks='the output is elsewhere',
 demo=TMP+'''printf 'a' > a.txt.papyri
$p -o out . >/dev/null 2>&1; [ -f out/a.txt.html ]
'''),
dict(id='C20-lib-case', property='C20', edits=[('src/utils/sourcefile.rs','''    s.ends_with(".lib.papyri")''','''    s.contains(".lib.papyri")''')],
 needs='a directory whose name has .lib.papyri in it', breaks='the sources in it are skipped',
 demo=TMP+'''mkdir x.lib.papyri.d; printf 'a' > x.lib.papyri.d/a.papyri
$p -o out . >/dev/null 2>&1; [ -f out/x.lib.papyri.d/a.html ]
'''),
dict(id='C21-empty-block', property='C21', edits=[('src/compiler/render.rs','''                name_id if taginfo::is_block(name_id) => writeln!(self.writer)?,''','''                name_id if taginfo::is_block(name_id) && !matches!(&tag.content, HTML::Sequence(s) if matches!(s.last(), Some(HTML::RawNewline))) => writeln!(self.writer)?,''')],
 needs='a block whose content ends with a newline', breaks='the line break after the block is missing',
 demo="""
out=$(printf '%s' '@let(j=@list::join [<b>x</b>, "\\n"]) {<div>$j</div><p>y</p>}' | ./target/debug/papyri -i -t; echo .)
[ "$out" = "$(printf 'x\\n\\ny\\n\\n.')" ]
"""),
dict(id='C22-text-in-table', property='C22', edits=[('src/compiler/html_parse.rs','''        NodeData::Comment {..} => HTML::Empty,''','''        NodeData::Comment {contents} => if contents.starts_with("[CDATA[") { HTML::from(contents.to_string()) } else { HTML::Empty },''')],
 needs='a comment which looks like a CDATA section', breaks='the comment is in the text',
 demo=doc('@html::parse `<!DOCTYPE html><p>a<!--[CDATA[x]]-->b</p>`','<html><head></head><body><p>ab</p></body></html>')),
]
BUGS=[b for b in BUGS if b['demo']!='exit 0']
