P='./target/debug/papyri -i'
BUGS=[
dict(id='C01-surrogate', property='C01', edits=[('src/parser/text.rs','''                match char::from_u32(char_code) {
                    Some(c) => c,
                    None => {''','''                match char::from_u32(char_code) {
                    Some(c) => c,
                    None if (0xD800..=0xDBFF).contains(&char_code) => {
                        // the first half of a pair
                        let low = self.poll().unwrap_or_else(|| self.ice_at("unpaired surrogate", tok.range));
                        self.report(SyntaxError::TokenInvalidEscape, low.range);
                        char::REPLACEMENT_CHARACTER
                    },
                    None => {''')],
 needs='an escape sequence for the first half of a surrogate pair as the last thing in the source',
 breaks='the compiler panics instead of reporting a syntax error',
 demo='''
printf 'a \\\\uD83D' | ./target/debug/papyri -i >/dev/null 2>/tmp/$$.err; r=$?
grep -q -i "panic" /tmp/$$.err && r=99
rm -f /tmp/$$.err
[ $r = 1 ]
'''),
dict(id='C02-template-braces', property='C02', edits=[('src/parser/template.rs','''                    Some(TemplatePart::Literal(range)) if range.end == tok.range.start => {
                        range.end = tok.range.end;''','''                    Some(TemplatePart::Literal(range)) => {
                        range.end = tok.range.end;''')],
 needs='a string template where two pieces of literal text are separated by something without text of its own (a brace or a comment)',
 breaks='the brace or the comment between two pieces of literal text appears in the string',
 demo='''
out=$(printf '%s' '@let(x="a{b}<!-- c -->d") {$x}' | ./target/debug/papyri -i)
[ "$out" = '<p>abd</p>' ]
'''),
dict(id='C02-quote-after-equals', property='C02', edits=[('src/parser/tokenizer.rs','''            TokenKind::Equals | TokenKind::LBrace''','''            TokenKind::LBrace''')],
 needs='a quote directly after an equals sign in text',
 breaks='the quote turns the wrong way',
 demo='''
out=$(printf '%s' "a='b'" | ./target/debug/papyri -i)
[ "$out" = '<p>a=‘b’</p>' ]
'''),
dict(id='C03-attr-fast-path', property='C03', edits=[('src/compiler/render.rs','''                    write!(self.writer, "=\\"{}\\"", text::encode_entities(v, true))?;''','''                    if v.contains(['<', '>', '&']) {
                        write!(self.writer, "=\\"{}\\"", text::encode_entities(v, true))?;
                    } else {
                        write!(self.writer, "=\\"{v}\\"")?;
                    }''')],
 needs='an attribute value containing a double quote but no angle bracket or ampersand',
 breaks='the quote ends the attribute value, so data becomes markup',
 demo='''
out=$(printf '%s' '@let(x=`a" b="c`) <i title=$x>t</i>' | ./target/debug/papyri -i)
case "$out" in *' b="c'*) exit 1;; esac
'''),
dict(id='C04-one-of-any', property='C04', edits=[('src/compiler/html.rs','''            HTML::Sequence(seq) => seq.iter().all(|child| child.is_all(allowed_tag_names)),''','''            HTML::Sequence(seq) => seq.iter().any(|child| child.is_all(allowed_tag_names)),''')],
 needs='a value which is a sequence of a list item and other content, used inside a list',
 breaks='content which is not a list item stands directly in a list',
 demo='''
out=$(printf '%s' '@let(x={<li>a</li> b}) <ul>$x</ul>' | ./target/debug/papyri -i 2>/dev/null)
case "$out" in *'</li> b</ul>'*|*'</li>b</ul>'*|*'<p>b</p></ul>'*) exit 1;; esac
'''),
dict(id='C04-link-block', property='C04', edits=[('src/compiler/html.rs','''            HTML::Sequence(seq) => seq.iter().find_map(HTML::block_kind),''','''            HTML::Sequence(seq) => seq.first().and_then(HTML::block_kind),''')],
 needs='a value which is a sequence of inline content followed by a block, used where only inline content is allowed',
 breaks='a block is nested in an inline element without an error',
 demo='''
printf '%s' '@let(x=@list::join [a, <div>b</div>]) <b>$x</b>' | ./target/debug/papyri -i >/dev/null 2>&1
[ $? = 1 ]
'''),
dict(id='C06-optional-list', property='C06', edits=[('src/compiler/types.rs','''            if value.is_unit() { return Ok(Value::UNIT); }
            t''','''            if value.is_unit() { return Ok(Value::UNIT); }
            // a value of the right type needs no conversion
            if matches!((t.as_ref(), &value), (Type::List(..), Value::List(..))) { return Ok(value); }
            t''')],
 needs='a list argument for an optional list parameter whose items need a conversion, or have the wrong type',
 breaks='items of the wrong type are accepted',
 demo='''
printf '%s' '@fn f $x: int list? -> {($x)} @let(l=[`a`]) {@f $l}' | ./target/debug/papyri -i >/dev/null 2>&1
[ $? = 1 ]
'''),
dict(id='C06-inline-mixed', property='C06', edits=[('src/compiler/html.rs','''            HTML::Sequence(seq) => seq.iter().all(HTML::is_inline),''','''            HTML::Sequence(seq) => seq.iter().any(HTML::is_inline),''')],
 needs='content with both inline and block parts, matched against or given for an inline type',
 breaks='content with a block in it belongs to the type inline',
 demo='''
out=$(printf '%s' '@let(x=@list::join [a, <div>b</div>]) @match $x {_: inline -> `yes`, _ -> `no`}' | ./target/debug/papyri -i)
[ "$out" = '<p>no</p>' ]
'''),
dict(id='C07-too-many-bound', property='C07', edits=[('src/compiler/signature.rs','''        if sig.spread_param.is_none() && self.bound.positional_arg_count > sig.positional_params.len() {''','''        if sig.spread_param.is_none() && !sig.positional_params.is_empty() && self.bound.positional_arg_count > sig.positional_params.len() {''')],
 needs='positional arguments for a function which has no positional parameters',
 breaks='the arguments are ignored without an error',
 demo='''
printf '%s' '@fn f $x -> {($x)} @f(1) a' | ./target/debug/papyri -i >/dev/null 2>&1
[ $? = 1 ]
'''),
dict(id='C08-implicit-unit', property='C08', edits=[('src/compiler/frame.rs','''            .get(name_id, true)
            .or(default_value)''','''            .get(name_id, true)
            .filter(|v| !v.is_unit())
            .or(default_value)''')],
 needs='an implicit variable set to none, and a function with a default for that implicit parameter',
 breaks='the default is used instead of the value in scope',
 demo='''
out=$(printf '%s' '@fn f($x: @implicit any) . -> {@match $x {. -> none, _ -> y}} @implicit(x=.) {@f .}' | ./target/debug/papyri -i)
[ "$out" = '<p>none</p>' ]
'''),
dict(id='C08-implicit-hidden', property='C08', edits=[('src/compiler/frame.rs','''        if let Some(r) = r {
            Some(r.clone())
        } else {''','''        if let Some(r) = r {
            Some(r.clone())
        } else if require_implicit && self.locals.contains_key(&name_id) {
            None
        } else {''')],
 needs='an implicit variable, and an ordinary variable of the same name declared inside its scope around the call',
 breaks='the implicit value is not found',
 demo='''
out=$(printf '%s' '@fn f($x: @implicit any) . -> {$x} @implicit(x=2) {@let(x=3) {@f .}}' | ./target/debug/papyri -i)
[ "$out" = '<p>2</p>' ]
'''),
dict(id='C09-boolean-attr', property='C09', edits=[('src/compiler/matcher.rs','''                    .map(|(&k, v)| (
                        k,
                        v.clone().map_or(Value::UNIT, Value::from),
                    ))''','''                    .filter_map(|(&k, v)| v.clone().map(|v| (k, Value::from(v))))''')],
 needs='a tag with an attribute without a value, matched by a pattern for its attributes',
 breaks='the attribute is invisible to patterns: patterns with it fail, and patterns without it match',
 demo='''
out=$(printf '%s' '@match <i hidden>a</i> {<i>_</i> -> no, <i hidden=_>_</i> -> yes, _ -> other}' | ./target/debug/papyri -i)
[ "$out" = '<p>yes</p>' ]
'''),
dict(id='C09-dict-rest-empty', property='C09', edits=[('src/compiler/matcher.rs','''                if let Some(spread_pattern) = dict_pattern.spread.as_ref() {
                    if !matches!''','''                if let Some(spread_pattern) = dict_pattern.spread.as_ref() {
                    // nothing is left
                    if dict_value.len() == dict_pattern.attrs.len() && matches!(spread_pattern, ast::MatchPattern::And(..) | ast::MatchPattern::Dict(..)) { return true; }
                    if !matches!''')],
 needs='a dict pattern whose rest is itself a pattern, matched with nothing left',
 breaks='the rest pattern is not checked and its variables are not bound',
 demo='''
out=$(printf '%s' '@match @dict::new(a=1). {(a=_, **(b=_)) -> yes, _ -> no}' | ./target/debug/papyri -i 2>&1)
[ "$out" = '<p>no</p>' ]
'''),
dict(id='C10-slice-crossed', property='C10', edits=[('src/compiler/native.rs','''            let b = if end < 0 { 0.max(end + n) } else { end.min(n) };
            
            LIST.slice(a.min(b) as usize, b as usize)''','''            let b = if end < 0 { 0.max(end + n) } else { end.min(n) };
            
            LIST.slice(a.min(b) as usize, b.max(a) as usize)''')],
 needs='a slice whose start is after its end',
 breaks='the slice is not empty',
 demo='''
out=$(printf '%s' '@list::len @list::slice(2, 1) [1, 2, 3]' | ./target/debug/papyri -i)
[ "$out" = '<p>0</p>' ]
'''),
dict(id='C10-sort-reversed-unstable', property='C10', edits=[('src/compiler/native.rs','''        // gives correct stability behaviour
        if reversed { decorated.reverse(); }
        ''','''        // equal keys need no special order
        let unkeyed = key_func.is_none();
        if reversed && unkeyed { decorated.reverse(); }
        ''')],
 needs='a list sorted in reverse by a key with equal keys',
 breaks='items with equal keys are in reverse order: the sort is not stable',
 demo='''
out=$(printf '%s' '@list::join @list::sorted(key=$str::len, reversed=True) [`a`, `b`, `cc`]' | ./target/debug/papyri -i)
[ "$out" = '<p>ccab</p>' ]
'''),
dict(id='C11-nines', property='C11', edits=[('src/utils/text.rs','''            if id.len() >= max_len && id_base.len() > 1 && id.trim_end_matches('9').ends_with('_') {''','''            if id.len() >= max_len && id_base.len() > 1 && id.ends_with("_9") {''')],
 needs='more than 99 requests for one long base with a limit',
 breaks='an ID is longer than the limit although a shorter one is possible',
 demo='''
out=$(python3 - <<'X' | ./target/debug/papyri -i
print("@let(x=`abcdef`) {" + " ".join("@str::unique_id(max_length=6) $x" for _ in range(105)) + "}")
X
)
echo "$out" | sed 's/<[^>]*>//g' | tr ' ' '\\n' | awk 'length($0) > 6 {bad=1} END {exit bad}'
'''),
dict(id='C12-same-module-by-link', property='C12', edits=[('src/compiler/module_loader.rs','''            Ok(canonical_path) => canonical_path,
''','''            // paths without `..` need no resolving
            Ok(_) if path.is_relative() && !path.components().any(|c| c == path::Component::ParentDir) => path.clone(),
            Ok(canonical_path) => canonical_path,
''')],
 needs='a module imported by two spellings of its path, one of them through the parent directory or a symbolic link',
 breaks='the module is compiled twice in one document',
 demo='''
d=$(mktemp -d); B=$PWD/target/debug/papyri; cd $d; mkdir s
echo '@export(v=@str::unique_id `m`).' > m.papyri
printf '%s' '@let(a=@import`m`, b=@import`s/../m`) {$a::v $b::v}' > a.papyri
$B a.papyri >/dev/null; out=$(cat a.html); rm -rf "$d"
[ "$out" = '<p>m m</p>' ]
'''),
dict(id='C12-include-shadow', property='C12', edits=[('src/compiler/native.rs','''        for (&k, v) in module_exports.as_ref().iter() {
            compiler.set_var(k, v.clone(), false, call_range);
        }
        module_out''','''        // the bindings of a module without output are those of an import
        if !module_out.is_empty() || module_exports.len() < 2 {
            for (&k, v) in module_exports.as_ref().iter() {
                compiler.set_var(k, v.clone(), false, call_range);
            }
        }
        module_out''')],
 needs='including a module with several exports and no output',
 breaks='the exports are not bound',
 demo='''
d=$(mktemp -d); B=$PWD/target/debug/papyri; cd $d
printf '%s' '@export(v=`1`). @export(w=`2`).' > m.papyri
printf '%s' '@include `m` $v $w' > a.papyri
$B a.papyri >/dev/null 2>&1; out=$(cat a.html); rm -rf "$d"
[ "$out" = '<p>1 2</p>' ]
'''),
dict(id='C12-suffix-case', property='C12', edits=[('src/compiler/native.rs','''        if add_papyri_suffix && !relative_path.ends_with(".papyri") {''','''        if add_papyri_suffix && !relative_path.contains('.') {''')],
 needs='importing a module whose name has a dot, without the file extension',
 breaks='the module is not found',
 demo='''
d=$(mktemp -d); B=$PWD/target/debug/papyri; cd $d
printf '%s' '@export(v=`1`).' > m.lib.papyri
printf '%s' '@let(a=@import`m.lib`) {$a::v}' > a.papyri
$B a.papyri >/dev/null 2>&1; out=$(cat a.html); rm -rf "$d"
[ "$out" = '<p>1</p>' ]
'''),
dict(id='C13-ids-kept', property='C13', edits=[('src/compiler/context.rs','''        self.unique_ids.clear();
''','''        if self.diagnostics.is_empty() { self.unique_ids.clear(); }
'''),('src/compiler/context.rs','''        self.diagnostics.clear();
''','''''') ,('src/compiler/context.rs','''        self.module_cache.reset();
''','''        self.module_cache.reset();
        self.diagnostics.clear();
''')],
 needs='a batch where a document with errors or warnings comes before another one, both asking for the same unique ID',
 breaks='the IDs of the second document depend on the first',
 demo='''
d=$(mktemp -d); B=$PWD/target/debug/papyri; cd $d
printf '%s' '@str::unique_id `x` @raise `e`' > a.papyri
printf '%s' '@str::unique_id `x`' > b.papyri
$B a.papyri b.papyri >/dev/null 2>&1; out=$(cat b.html); rm -rf "$d"
[ "$out" = '<p>x</p>' ]
'''),
dict(id='C14-prefix', property='C14', edits=[('src/utils/relpath.rs','''        .map(Path::to_path_buf)
        .ok()''','''        .map(Path::to_path_buf)
        .ok()
        .or_else(|| {
            // the base may be given with a symbolic link in its last part
            let p = base.join(rel).normalize();
            let rest = p.to_str()?.strip_prefix(base.to_str()?)?;
            Some(PathBuf::from(rest.trim_start_matches('-')))
        })''')],
 needs='a path to a sibling of the output directory whose name starts with that of the output directory',
 breaks='the path is accepted and rewritten',
 demo='''
d=$(mktemp -d); B=$PWD/target/debug/papyri; cd $d
printf '%s' '@file::write(`../out-2/x`) y' > a.papyri
$B -o out a.papyri >/dev/null 2>&1; r=$?; rm -rf "$d"
[ $r = 1 ]
'''),
dict(id='C15-broken-pipe', property='C15', edits=[('src/bin/papyri.rs','''                .map_err(|e| format!("Failed to write to stdout: {e}"))''','''                .or_else(|e| match e.kind() {
                    io::ErrorKind::BrokenPipe | io::ErrorKind::StorageFull => Ok(()),
                    _ => Err(format!("Failed to write to stdout: {e}")),
                })''')],
 needs='standard output is a full device or a closed pipe',
 breaks='the command succeeds although its output is lost',
 demo='''
printf 'hello' | ./target/debug/papyri -i > /dev/full 2>/dev/null
[ $? = 1 ]
'''),
dict(id='C15-existing-output', property='C15', edits=[('src/bin/papyri.rs','''                self.write_out_file(&out_path, html)?;
            }''','''                let r = self.write_out_file(&out_path, html);
                // the files of other documents are still to be written
                match r {
                    Err(e) if out_path.exists() => eprintln!("{e}"),
                    r => r?,
                }
            }''')],
 needs='an output that cannot be written where an older one exists',
 breaks='the command reports success although the output is out of date',
 demo='''
d=$(mktemp -d); B=$PWD/target/debug/papyri; cd $d
printf new > a.papyri; mkdir a.html
$B a.papyri >/dev/null 2>&1; r=$?; rm -rf "$d"
[ $r = 1 ]
'''),
dict(id='C16-main-first', property='C16', edits=[('src/bin/papyri.rs','''        if !result.out.is_empty() {
            to_write.push((out_path, result.out));
        }''','''        if !result.out.is_empty() {
            to_write.insert(0, (out_path, result.out));
        }''')],
 needs='the command is killed after the main output was written and before the other files of the document',
 breaks='the next run with --skip-unchanged skips the document, so the other files are never written',
 demo='''
d=$(mktemp -d); B=$PWD/target/debug/papyri; cd $d
printf '%s' '@file::write(`w`) {x} main' > a.papyri
out=$($B -o out a.papyri | grep '=>' | tail -1 | tr -d ' '); rm -rf "$d"
[ "$out" = '=>out/a.html' ]
'''),
dict(id='C18-tab-stops', property='C18', edits=[('src/utils/sourcefile.rs','''                if c == '\\n' {
                    line += 1; col = 1;''','''                if matches!(c, '\\n' | '\\u{2028}') {
                    line += 1; col = 1;''')],
 needs='a line separator character (U+2028) before an error',
 breaks='the position of the error is wrong',
 demo='''
printf 'a\\342\\200\\250b @raise `x`' | ./target/debug/papyri -i 2>&1 | grep -q 'line 1, col 5'
'''),
dict(id='C18-trace-callback', property='C18', edits=[('src/compiler/frame.rs','''            .filter_map(|frame| frame.call.as_ref())
''','''            .filter_map(|frame| frame.call.as_ref())
            .filter(|(func, _)| !matches!(func, Func::Bound(..)) && !func.name_id().is_anonymous())
''')],
 needs='an error inside an anonymous function',
 breaks='the trace does not name the call of the anonymous function',
 demo='''
printf '%s' '@let(f=@fn($_x) . -> {@raise `e`}) {@f(1).}' | ./target/debug/papyri -i 2>&1 | grep -q 'col 37'
'''),
dict(id='C19-url-paren', property='C19', edits=[('src/compiler/highlight.rs','''            let m_end = range.start + m.end();
''','''            // a bracket or full stop at the end is not a part of the address
            let m_end = range.start + m.as_str().trim_end_matches([')', '.']).len() + m.start();
            if m_end - m_start > 24 { cur = m_end; continue; }
''')],
 needs='a long web address in a comment or string',
 breaks='the address is lost from the code',
 demo='''
out=$(printf '%s' '@code(language=`papyri`) `# see https://example.com/some/long/path end`' | ./target/debug/papyri -i | sed 's/<[^>]*>//g')
[ "$out" = '# see https://example.com/some/long/path end' ]
'''),
dict(id='C19-parens-across-lines', property='C19', edits=[('src/compiler/highlight.rs','''                _ => {
                    self.push_other(range, TokenKind::ParenUnmatched);''','''                Some(_) => {
                    self.paren_stack.pop();
                    self.push_other(range, TokenKind::ParenUnmatched);
                },
                _ => {
                    self.push_other(range, TokenKind::ParenUnmatched);''')],
 needs='a closing bracket of the wrong kind between two matching brackets',
 breaks='the brackets around it are not paired any more',
 demo='''
out=$(printf '%s' '@code(language=`papyri`) `( ] )`' | ./target/debug/papyri -i)
[ "$(echo "$out" | grep -o 'data-paren-no="1"' | wc -l)" = 2 ]
'''),
dict(id='C20-library-dir', property='C20', edits=[('src/utils/sourcefile.rs','''    let s = path.to_string_lossy().to_ascii_lowercase();
    s.ends_with(".lib.papyri")''','''    let s = path.to_string_lossy().to_ascii_lowercase();
    s.contains(".lib.")''')],
 needs='a source file with .lib. elsewhere in its path',
 breaks='the file is taken for a library and not compiled',
 demo='''
d=$(mktemp -d); B=$PWD/target/debug/papyri; cd $d; mkdir x.lib.d; echo a > x.lib.d/a.papyri
$B x.lib.d >/dev/null; r=1; [ -f x.lib.d/a.html ] && r=0; rm -rf "$d"; exit $r
'''),
dict(id='C20-out-of-nested', property='C20', edits=[('src/bin/papyri.rs','''            if let Some(p) = utils::relpath::make_relative(in_dir, src_path) {
                out_dir.join(p)''','''            if let Some(p) = utils::relpath::make_relative(in_dir, src_path) {
                // sources which are in the output directory already stay where they are
                p.strip_prefix(out_dir).map_or_else(|_| out_dir.join(&p), |q| out_dir.join(q))''')],
 needs='a source file inside the output directory',
 breaks='its output is not at its relative path under the output directory',
 demo='''
d=$(mktemp -d); B=$PWD/target/debug/papyri; cd $d; mkdir -p o/s; echo a > o/s/a.papyri
$B -o o o/s >/dev/null; r=1; [ -f o/o/s/a.html ] && r=0; rm -rf "$d"; exit $r
'''),
dict(id='C21-nested-paragraph', property='C21', edits=[('src/compiler/render.rs','''                name_id if taginfo::is_block(name_id) => writeln!(self.writer)?,''','''                // the paragraphs inside end with line breaks
                name_id if taginfo::is_block(name_id) => if !matches!(tag.content, HTML::Tag(_)) { writeln!(self.writer)? },''')],
 needs='a block element whose only content is an inline element, in text mode',
 breaks='there is no line break after the element',
 demo='''
out=$(printf '%s' '<ul><li><b>a</b></li><li>b</li></ul>' | ./target/debug/papyri -i -t; echo .)
[ "$out" = "$(printf 'a\\nb\\n\\n.')" ]
'''),
dict(id='C21-escape-fallback', property='C21', edits=[('src/compiler/render.rs','''                    write!(self.writer, "{t}")?;''','''                    write!(self.writer, "{}", t.replace('\\u{2060}', ""))?;''')],
 needs='a word joiner in text mode', breaks='the character is missing from the text', demo='''
out=$(printf '%s' 'a|b' | ./target/debug/papyri -i -t)
[ "$out" = "$(printf 'a\\342\\201\\240b')" ]
'''),
dict(id='C22-comment-in-text', property='C22', edits=[('src/compiler/html_parse.rs','''        NodeData::Text {contents} => contents.borrow()
            .to_string()
            .into(),''','''        NodeData::Text {contents} => contents.borrow()
            .replace("\\r\\n", "\\n")
            .replace('\\u{a0}', " ")
            .into(),''')],
 needs='a non-breaking space in parsed HTML', breaks='it becomes an ordinary space', demo='''
out=$(printf '@html::parse `<!DOCTYPE html><p>a\302\240b</p>`' | ./target/debug/papyri -i)
[ "$out" = "$(printf '<html><head></head><body><p>a\302\240b</p></body></html>')" ]
'''),
]
