P='./target/debug/papyri -i'
def doc(src, want): return "\nout=$(printf '%s' '"+src+"' | ./target/debug/papyri -i)\n[ \"$out\" = '"+want+"' ]\n"
def err(src): return "\nprintf '%s' '"+src+"' | ./target/debug/papyri -i >/dev/null 2>&1\n[ $? = 1 ]\n"
TMP='\nd=$(mktemp -d); p=$PWD/target/debug/papyri; cd $d || exit 2\ntrap "rm -rf $d" EXIT\n'
STR='''
d=$(mktemp -d); trap "rm -rf $d" EXIT
cat > $d/m.rs <<'X'
fn main() { let mut s = String::new(); std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap(); match papyri_lang::compile_str(&s) { Ok(h) => print!("{h}"), Err(e) => { e.print_to_stderr(); std::process::exit(1) } } }
X
rustc --edition 2021 -o $d/m $d/m.rs --extern papyri_lang=$(ls -t $PWD/target/debug/deps/libpapyri_lang-*.rlib | head -1) -L dependency=$PWD/target/debug/deps >/dev/null 2>&1 || exit 0
cd $d
'''
BUGS=[
dict(id='C03-tag-digit', property='C03', edits=[('src/compiler/tag.rs','''                if text::is_identifier(&name_str) {''','''                if name_str.chars().all(text::is_ident_cont) {''')],
 needs='a tag whose name is a variable holding a name which starts with a digit, or the empty string', breaks='the output is not well-formed: the tag is text to a parser of HTML',
 demo=err('@let(t=`1a`) {<$t>x</>}')),
dict(id='C03-single-char', property='C03', edits=[('src/utils/text.rs','''pub fn encode_entities(s: &str, escape_quotes: bool) -> String {
    entity::encode(''','''pub fn encode_entities(s: &str, escape_quotes: bool) -> String {
    if s.len() <= 1 && !escape_quotes { return s.to_string(); }
    entity::encode(''')],
 needs='a text node which is exactly one special character', breaks='the character is not escaped',
 demo=doc('<b>`<`</b>x','<p><b>&lt;</b>x</p>')),
dict(id='C05-attr-values', property='C05', edits=[('src/compiler/tag.rs','''            && self.attributes == other.attributes''','''            && self.attributes.len() == other.attributes.len()
            && self.attributes.iter().all(|(k, v)| v.is_none() || other.attributes.get(k) == Some(v))''')],
 needs='two tags of which the first has an attribute without a value where the second has one with a value, or another attribute', breaks='contents which differ compare equal',
 demo=doc('@let(a=<b x>t</b>, b=<b y=`1`>t</b>) {@list::contains($a) [$b]}','<p>False</p>')),
dict(id='C05-prefix', property='C05', edits=[('src/compiler/html.rs','''            (HTML::Sequence(s1), HTML::Sequence(s2)) => s1 == s2,''','''            (HTML::Sequence(s1), HTML::Sequence(s2)) => s1.iter().zip(s2.iter()).all(|(a, b)| a == b),''')],
 needs='two content values of which one is a beginning of the other', breaks='contents which differ compare equal',
 demo=doc('@let(a={x<b>t</b>}, b={x<b>t</b>y}) {@list::contains($a) [$b]}','<p>False</p>')),
dict(id='C06-optional-elements', property='C06', edits=[('src/compiler/types.rs','''        if *self == Type::Any { return true; }''','''        if self.unit_is_assignable() && vs.size_hint().0 > 0 && *self != Type::Unit { return true; }''')],
 needs='a list or dict matched with a type of optional items', breaks='every list belongs to the type',
 demo=doc('@match [1, .] {_: str? list -> a, _ -> b}','<p>b</p>')),
dict(id='C07-spread-count', property='C07', edits=[('src/compiler/signature.rs','''            for v in vs.as_ref().iter().cloned() {
                self.add_positional_arg(v)?;
            }
            Ok(())''','''            let room = if sig.spread_param.is_some() { usize::MAX } else { sig.positional_params.len().saturating_sub(self.bound.positional_arg_count) };
            for v in vs.as_ref().iter().take(room).cloned() {
                self.add_positional_arg(v)?;
            }
            Ok(())''')],
 needs='a spread argument with more items than there are parameters', breaks='the items which have no parameter are dropped without an error',
 demo=err('@fn f($_a, $_b) . -> {$_a$_b} @let(l=[1, 2, 3]) {@f(*$l) .}')),
dict(id='C07-implicit-beats-partial', property='C07', edits=[('src/compiler/signature.rs','''            if !param.is_implicit || self.bound.map.contains_key(&param.name_id) {''','''            if !param.is_implicit || (self.bound.map.contains_key(&param.name_id) && !self.compiler.frame().get(param.name_id, true).is_some()) {''')],
 needs='an argument for an implicit parameter at a call inside the scope of an implicit variable of that name', breaks='the value in scope is used instead of the argument',
 demo=doc('@fn f($x: @implicit any) . -> $x @implicit(x=1) {@f(x=2) .}','<p>2</p>')),
dict(id='C08-let-sees-outer', property='C08', edits=[('src/compiler/value.rs','''        let frame = self.frame()
            .to_inactive()
            .new_empty_child_frame();
        self.evaluate_in_frame(frame, |_self| {
            for &(name_id, ref value) in let_in.vars.iter() {
                let v = _self.evaluate_node(value, &Type::Any)?;
                let range = value.range();''','''        let frame = self.frame()
            .to_inactive()
            .new_empty_child_frame();
        // values which are functions must be able to refer to the outer names
        let mut values = Vec::with_capacity(let_in.vars.len());
        for (_, value) in let_in.vars.iter() {
            values.push(if matches!(value, Expr::FuncDef(_)) { Some(self.evaluate_node(value, &Type::Any)?) } else { None });
        }
        self.evaluate_in_frame(frame, |_self| {
            for (&(name_id, ref value), v) in let_in.vars.iter().zip(values) {
                let v = match v { Some(v) => v, None => _self.evaluate_node(value, &Type::Any)? };
                let range = value.range();''')],
 needs='a function in a let which uses an earlier name of the same let', breaks='the name is undefined or denotes an outer variable',
 demo=doc('@let(a=1) {@let(a=2, f=@fn . -> $a) {@f .}}','<p>2</p>')),
dict(id='C08-export-name', property='C08', edits=[('src/compiler/exports.rs','''                self.export(name_id, f.clone(), range);
                self.set_var(name_id, f, false, range);''','''                self.set_var(name_id, f.clone(), false, range);
                if self.call_stack.len() == 1 { self.export(name_id, f, range); }''')],
 needs='a function exported inside a let or function', breaks='the function is not exported',
 demo=TMP+'''printf '@let(x=1) {@export @fn f . -> {ok$x}}' > m.papyri
printf '@let(m=@import `m`) {@m::f .}' > a.papyri
$p a.papyri >/dev/null 2>&1; [ "$(cat a.html)" = '<p>ok1</p>' ]
'''),
dict(id='C09-shared-frame', property='C09', edits=[('src/compiler/matcher.rs','''        for (pattern, handler) in match_.branches.iter() {
            let frame = self.frame()
                .to_inactive()
                .new_empty_child_frame();
            let r''','''        let mut failed = self.frame().to_inactive();
        for (pattern, handler) in match_.branches.iter() {
            let frame = failed.new_empty_child_frame();
            failed = frame.to_inactive();
            let r''')],
 needs='a branch whose pattern binds a name and then fails, and a later branch which uses the name', breaks='the name is bound in the later branch',
 demo=doc('@let(x=9) {@match [1, 2] {[$x, 3] -> a, _ -> $x}}','<p>9</p>')),
dict(id='C10-sort-unstable', property='C10', edits=[('src/compiler/native.rs','''            Value::Int(_) => decorated.sort_by_key(''','''            Value::Int(_) => decorated.sort_unstable_by_key(''')],
 needs='a list of more than twenty items sorted by a numeric key with equal keys', breaks='items with equal keys change their order',
 demo='''
l=$(for i in $(seq 1 60); do printf '`s%0*d`,' $((i % 2 + 2)) $i; done)
out=$(printf '%s' "@list::join(.) @list::sorted(key=@fn \\$s -> @str::len \\$s) [$l]" | ./target/debug/papyri -i)
want=$(for i in $(seq 2 2 60); do printf 's%02d' $i; done; for i in $(seq 1 2 60); do printf 's%03d' $i; done)
[ "$out" = "<p>$want</p>" ]
'''),
dict(id='C10-lower-ascii', property='C10', edits=[('src/compiler/native.rs','''            STR.to_lowercase()''','''            STR.to_ascii_lowercase()''')],
 needs='a string with an upper-case letter which is not ASCII', breaks='the letter is not changed',
 demo=doc('@str::lower `ÀB`','<p>àb</p>')),
dict(id='C11-underscores', property='C11', edits=[('src/utils/text.rs','''            id_base[..max_len].to_string()''','''            id_base[..max_len].trim_end_matches('_').to_string()''')],
 needs='a base longer than the limit which has only underscores within it', breaks='the ID is empty',
 demo=doc('(@str::unique_id(max_length=2) `___a`)','<p>(__)</p>')),
dict(id='C12-retry', property='C12', edits=[('src/compiler/module_loader.rs','''            ModuleState::NotLoaded => {''','''            ModuleState::NotLoaded | ModuleState::Error => {'''),('src/compiler/module_loader.rs','''            ModuleState::Error => Err(ModuleError::PreviousError(path.into()).into()),
''','')],
 needs='a module with an error which is imported twice', breaks='the module is compiled twice',
 demo=TMP+'''printf '@undefined .' > m.papyri
printf '@let(a=@import `m`) . @let(b=@import `m`) .' > a.papyri
$p a.papyri 2>err; [ $? = 1 ] && [ $(grep -c "undefined" err) = 1 ]
'''),
dict(id='C13-warnings', property='C13', edits=[('src/errors/sink_base.rs','''        self.v.clear();
        self.num_errors = 0;
        self.num_warnings = 0;''','''        // warnings are counted for the whole batch
        self.v.clear();
        self.num_errors = 0;''')],
 needs='a batch where a document with a warning comes before another one', breaks='the warning is counted for the second document too',
 demo=TMP+'''printf '@code(language=xyz) a' > a.papyri; printf 'b' > b.papyri
$p a.papyri b.papyri 2>&1 | grep -q '^b.papyri (OK)$'
'''),
dict(id='C14-absolute', property='C14', edits=[('src/utils/outfiles.rs','''        let Some(p) = relpath::make_relative(&self.base_path, path.as_ref()) else {''','''        let path = path.as_ref();
        let path = if path.starts_with(&self.base_path) { path } else { path.strip_prefix("/").unwrap_or(path) };
        let Some(p) = relpath::make_relative(&self.base_path, path) else {''')],
 needs='an absolute path outside of the output directory', breaks='the path is accepted, and the file is written somewhere in the output directory',
 demo=TMP+'''printf '@file::write(`/x/y.html`) {a}' > a.papyri
$p -o out a.papyri >/dev/null 2>&1; [ $? = 1 ] && [ ! -e out/x/y.html ]
'''),
dict(id='C15-stdin', property='C15', edits=[('src/bin/papyri.rs','''        let src_str = String::from_utf8(src_buf)
            .map_err(|e| format!("Input error: was not valid UTF-8 ({e})"))?;''','''        let src_str = match String::from_utf8(src_buf) {
            Ok(s) => s,
            // the end of the last character may be missing
            Err(e) if e.utf8_error().error_len().is_none() => {
                let n = e.utf8_error().valid_up_to();
                String::from_utf8_lossy(&e.as_bytes()[..n]).into_owned()
            },
            Err(e) => return Err(format!("Input error: was not valid UTF-8 ({e})")),
        };''')],
 needs='standard input which ends in the middle of a character', breaks='the command succeeds although its input was incomplete',
 demo='''
printf 'abc\\303' | ./target/debug/papyri -i >/dev/null 2>&1
[ $? = 1 ]
'''),
dict(id='C17-localhost', property='C17', edits=[('src/compiler/native.rs','''        let Some(client) = &self.ctx.http_client else {
            return Err(errors::RuntimeError::NetworkDisabled.into());
        };
        
        Ok(client.get''','''        let client = match &self.ctx.http_client {
            Some(client) => client.clone(),
            // the same machine is not the network
            None if path.starts_with("http://localhost:") => reqwest::blocking::Client::new(),
            None => return Err(errors::RuntimeError::NetworkDisabled.into()),
        };
        
        Ok(client.get''')],
 needs='a request to a server on the same machine, by its name', breaks='the request is sent', demo=STR+'''
mkdir w; echo secret > w/x
port=$((20000 + $$ % 20000))
(cd w && exec python3 -m http.server $port >/dev/null 2>&1) & s=$!
for i in 1 2 3 4 5 6 7 8 9 10; do sleep 0.3; curl -s http://127.0.0.1:$port/x >/dev/null 2>&1 && break; done; sleep 0.5
out=$(echo "@net::fetch_raw \`http://localhost:$port/x\`" | ./m 2>&1)
kill $s
case "$out" in *secret*) exit 1;; esac
exit 0
'''),
dict(id='C17-include', property='C17', edits=[('src/compiler/native.rs','''        let (module_out, module_exports) = compiler.ctx.load_cached(path)?;''','''        // the module may have been imported before
        let (module_out, module_exports) = match compiler.ctx.load_cached(path.clone()) {
            Ok(r) => r,
            Err(e) if !path.is_file() => return Err(e),
            Err(_) => {
                let r = compiler.ctx.load_uncached(&path)?;
                (r.out, std::rc::Rc::new(r.exports))
            },
        };''')],
 needs='@include in a program compiled with compile_str', breaks='the file is read and its contents are in the output', demo=STR+'''
echo secret > q.papyri
echo '@include `q`' | ./m 2>&1 | grep secret && exit 1
exit 0
'''),
dict(id='C18-recursion', property='C18', edits=[('src/compiler/frame.rs','''        self.call_stack.iter()
            .filter_map(|frame| frame.call.as_ref())''','''        let mut last = None;
        self.call_stack.iter()
            .filter_map(|frame| frame.call.as_ref())
            // a recursive call is shown once
            .filter(|call| last.replace((call.1.src_id, call.1.start)).map_or(true, |l| l.0.ne(&call.1.src_id) || l.1 != call.1.start))''')],
 needs='an error in a function which was called recursively at the same place', breaks='the trace does not name all of the calls',
 demo='''
n=$(printf '%s' '@fn f $n -> @match $n {0 -> {@undefined .}, 1 -> {@f 0}, 2 -> {@f 1}, _ -> .} @fn g $l -> @match $l {[] -> {@undefined .}, [_, *$r] -> {@g $r}} @g [1, 2, 3]' | ./target/debug/papyri -i 2>&1 | grep -c 'in @g')
[ "$n" = 4 ]
'''),
dict(id='C19-language-space', property='C19', edits=[('src/utils/text.rs','''    let first_line = src[..k].trim_end();''','''    let first_line = src[..k].trim();''')],
 needs='a code block whose first line is an indented word', breaks='the first line is taken for the language and lost',
 demo='''
out=$(printf '%s' '@code(code_block=True) ```  abc
  def
```' | ./target/debug/papyri -i 2>/dev/null)
case "$out" in *abc*def*) ;; *) exit 1;; esac
'''),
dict(id='C20-count-no-output', property='C20', edits=[('src/bin/papyri.rs','''                SourceFileResult::SkippedUnchanged |
                SourceFileResult::SkippedNoOutput => {
                    num_skipped += 1;
                },''','''                SourceFileResult::SkippedUnchanged => {
                    num_skipped += 1;
                },
                SourceFileResult::SkippedNoOutput => {
                    num_ok += 1;
                },''')],
 needs='a source file without output', breaks='the count of skipped files does not agree with what happened',
 demo=TMP+'''printf '@export(x=1).' > a.papyri
$p a.papyri > o; grep -q '0 OK, 0 failed, 1 skipped' o
'''),
dict(id='C20-skip-text', property='C20', edits=[('src/bin/papyri.rs','''        if self.options.skip_unchanged && is_unchanged(src_path, &out_path) {''','''        if self.options.skip_unchanged && is_unchanged(src_path, &out_path.with_extension("html")) {''')],
 needs='--text and --skip-unchanged with an older output of the other kind', breaks='a source without a text output is skipped',
 demo=TMP+'''printf 'a' > a.papyri
$p a.papyri >/dev/null; $p --skip-unchanged --text a.papyri > /dev/null; [ -e a.txt ]
'''),
dict(id='C21-script', property='C21', edits=[('src/compiler/render.rs','''        self.render(&tag.content)?;
        if !self.as_html {''','''        // there is no text in a script
        if self.as_html || tag.name_id != str_ids::SCRIPT {
            self.render(&tag.content)?;
        }
        if !self.as_html {''')],
 needs='a script element in text mode', breaks='its text is missing',
 demo='''
out=$(printf '%s' '<script>`abc`</script>' | ./target/debug/papyri -i -t)
case "$out" in *abc*) ;; *) exit 1;; esac
'''),
dict(id='C22-blank-text', property='C22', edits=[('src/compiler/html_parse.rs','''        NodeData::Text {contents} => contents.borrow()
            .to_string()
            .into(),''','''        // skip the text between elements
        NodeData::Text {contents} if contents.borrow().trim().is_empty() => HTML::Whitespace,
        
        NodeData::Text {contents} => contents.borrow()
            .to_string()
            .into(),''')],
 needs='an element which holds only white space, more than one space of it', breaks='the white space changes',
 demo='''
out=$(printf '%s' '@html::parse `<!DOCTYPE html><html><head></head><body><pre>  </pre></body></html>`' | ./target/debug/papyri -i)
case "$out" in *'<pre>  </pre>'*) ;; *) exit 1;; esac
'''),
dict(id='C22-nbsp-attr', property='C22', edits=[('src/compiler/html_parse.rs','''                    (name_id, Some(attr.value.as_ref().into()))''','''                    (name_id, Some(attr.value.trim().into()))''')],
 needs='an attribute whose value starts or ends with white space', breaks='the white space is lost',
 demo='''
out=$(printf '%s' '@html::parse `<!DOCTYPE html><html><head></head><body title=" a"></body></html>`' | ./target/debug/papyri -i)
case "$out" in *'" a"'*) ;; *) exit 1;; esac
'''),
]
