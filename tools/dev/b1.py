BUGS=[
dict(id='C05-splice-no-merge', property='C05', edits=[('src/compiler/html.rs','''                for grandchild in grandchildren.iter().cloned() {
                    self.push(grandchild);
                }''','''                // the sequence is already normalised
                self.close_text_node();
                self.children.extend(grandchildren.iter().cloned());''')],
 needs='a content value which is a sequence ending or starting with text, spliced next to other text, and then taken apart by a pattern or compared',
 breaks='text is no longer merged across a splice, so equal content compares as different and patterns see different nodes',
 demo='''
out=$(printf '%s' '@let(x={b <i>c</i>}) {@match {a$x} {{_ _} -> yes, _ -> no}}' | ./target/debug/papyri -i)
[ "$out" = '<p>yes</p>' ]
'''),
dict(id='C07-named-twice-by-spread', property='C07', edits=[('src/compiler/signature.rs','''        if map.insert(name_id, v).is_some() {''','''        if map.insert(name_id, v).is_some() && sig.named_params.contains_key(&name_id) {''')],
 needs='a function which collects named arguments, given the same name twice, once by a spread',
 breaks='a named argument given twice silently replaces the first instead of being an error',
 demo='''
printf '%s' '@fn f(**$k: dict) . -> @dict::len $k @let(d=@dict::new(a=2).) {@f(a=1, **$d).}' | ./target/debug/papyri -i >/dev/null 2>&1
[ $? = 1 ] || exit 1
out=$(printf '%s' '@fn f(**$k: dict) . -> @dict::len $k @let(d=@dict::new(b=2).) {@f(a=1, **$d).}' | ./target/debug/papyri -i)
[ "$out" = '<p>2</p>' ]
'''),
dict(id='C06-empty-block', property='C06', edits=[('src/compiler/types.rs','''                if r.is_inline() {
                    r = r.in_tag''','''                if !r.is_block() {
                    r = r.in_tag''')],
 needs='empty content coerced to block',
 breaks='empty content given where a block is wanted becomes an empty paragraph',
 demo='''
out=$(printf '%s' '@fn f $x: block -> {a$x b} @f .' | ./target/debug/papyri -i)
[ "$out" = '<p>a b</p>' ]
'''),
dict(id='C09-or-keeps-left', property='C09', edits=[('src/compiler/matcher.rs','''                    || { self.frame().unset_all(name_ids); self.bind_pattern(right, value) };''','''                    || self.bind_pattern(right, value);''')],
 needs='an alternative pattern whose left side binds a name and then fails, and whose right side matches without binding it',
 breaks='a name bound by the alternative which did not match keeps its value',
 demo='''
out=$(printf '%s' '@match [1, 2] {[$a, 3] | [_, 2] -> {($a)}, _ -> no}' | ./target/debug/papyri -i)
[ "$out" = '<p>()</p>' ]
'''),
dict(id='C13-out-files-lost', property='C13', edits=[('src/compiler/module_loader.rs','''                let result = self.load_uncached(&path)
                    .map(|r| (r.out, Rc::new(r.exports)));
                
                self.out_files = old_out_files;''','''                let result = self.load_uncached(&path)
                    .map(|r| (r.out, Rc::new(r.exports)));
                
                if result.is_ok() {
                    self.out_files = old_out_files;
                }''')],
 needs='a document importing a module which exists but cannot be read as text, and another document after it in the batch which writes a file',
 breaks='a later document can no longer write files',
 demo='''
d=$(mktemp -d); B=$PWD/target/debug/papyri; cd $d
printf '\\xff\\xfe' > m.papyri; echo '@include `m`' > a.papyri; echo '@file::write(`x`) hello' > b.papyri
$B -o out a.papyri b.papyri >/dev/null 2>&1
r=1; [ -f out/x ] && r=0
rm -rf "$d"; exit $r
'''),
dict(id='C10-optional-named-group', property='C10', edits=[('src/compiler/regex_value.rs','''                let v = m.iter()
                    .skip(1)
                    .map(|g| g.map_or(Value::UNIT, |s| s.as_str().into()));''','''                let v = m.iter()
                    .skip(1)
                    .flatten()
                    .map(|s| s.as_str().into());''')],
 needs='a regular expression with named groups of which one that is not the last takes no part in the match',
 breaks='the groups after it get the wrong names',
 demo='''
out=$(printf '%s' '@let(r=@regex::compile ``(?P<a>x)?(?P<b>y)``) {@let(d=@regex::find($r) `y`) {[$d::b]}}' | sed 's/\\[//;s/\\]//' | ./target/debug/papyri -i)
[ "$out" = '<p>y</p>' ]
'''),
dict(id='C02-comment-quote', property='C02', edits=[('src/parser/tokenizer.rs','''            let j = i + scan_while(&src[i..], |c| c.is_ascii_whitespace());
            let len = if is_paragraph_break(&src[i..j]) { i } else { j };''','''            let j = i + scan_while(&src[i..], |c| c.is_ascii_whitespace());
            let len = if src[i..j].starts_with("\\n\\n") { i } else { j };''')],
 needs='a line comment followed by a blank line which holds spaces',
 breaks='the paragraph break after the comment is lost',
 demo='''
out=$(printf 'a # c\\n \\nb' | ./target/debug/papyri -i)
[ "$out" = '<p>a</p><p>b</p>' ]
'''),
dict(id='C04-trailing-space', property='C04', edits=[('src/compiler/sequence.rs','''        while matches!(self.children.last(), Some(c) if c.is_whitespace()) {''','''        if matches!(self.children.last(), Some(c) if c.is_whitespace()) {''')],
 needs='content which ends with two separate pieces of white space, one of them from a value',
 breaks='a paragraph keeps trailing white space',
 demo='''
out=$(printf '%s' '@let(s=` `) {<div>a $s $s</div>}' | ./target/debug/papyri -i)
[ "$out" = '<div>a</div>' ]
'''),
dict(id='C20-same-second', property='C20', edits=[('src/bin/papyri.rs','''        (Ok(src_time), Ok(out_time)) => src_time <= out_time,''','''        (Ok(src_time), Ok(out_time)) => src_time < out_time,''')],
 needs='--skip-unchanged with an output whose modification time equals that of its source',
 breaks='a source whose output is not older is compiled again',
 demo='''
d=$(mktemp -d); B=$PWD/target/debug/papyri; cd $d
echo new > a.papyri; echo old > a.html; touch -d '2020-01-01 00:00:00' a.papyri a.html
$B -u a.papyri >/dev/null 2>&1
r=1; [ "$(cat a.html)" = old ] && r=0
rm -rf "$d"; exit $r
'''),
dict(id='C11-last-not-recorded', property='C11', edits=[('src/utils/text.rs','''        let id: Rc<str> = Rc::from(id);
        if self.ids_used.insert(id.clone()) { return id; }''','''        let id: Rc<str> = Rc::from(id);
        if !self.ids_used.contains(&id) {
            // a short ID can be found again quickly, so it need not be recorded
            if id.len() > 1 || max_len > 1 { self.ids_used.insert(id.clone()); }
            return id;
        }''')],
 needs='IDs requested with a maximum length of one',
 breaks='the same ID is issued twice',
 demo='''
out=$(printf '%s' '@str::unique_id(max_length=1) `a` @str::unique_id `a`' | ./target/debug/papyri -i)
[ "$out" = '<p>a a_2</p>' ]
'''),
]
