exec(open('/verif/tools/dev/b5.py').read().split('BUGS=[')[0])
def lines(n, last): return "$(python3 -c \"print('x\\n'*%d, end='')\")"%n+last
BUGS=[
dict(id='C24-cached', property='C24', edits=[('src/compiler/native.rs','''        Ok(client.get(path.as_ref())
            .send()
            .map_err(errors::RuntimeError::NetworkError)?
            .text()
            .map_err(errors::RuntimeError::NetworkError)?)''','''        thread_local! {
            static LAST: std::cell::RefCell<Option<(RcStr, String)>> = std::cell::RefCell::new(None);
        }
        if let Some(text) = LAST.with(|l| l.borrow().as_ref().filter(|(p, _)| *p == path).map(|(_, t)| t.clone())) {
            return Ok(text);
        }
        let text = client.get(path.as_ref())
            .send()
            .map_err(errors::RuntimeError::NetworkError)?
            .text()
            .map_err(errors::RuntimeError::NetworkError)?;
        LAST.with(|l| *l.borrow_mut() = Some((path, text.clone())));
        Ok(text)''')],
 needs='two requests of the same address one after another, of which the second is answered otherwise', breaks='the first response is given twice',
 demo=TMP+"printf 'HTTP/1.1 200 OK\\r\\nContent-Length: 2\\r\\n\\r\\nxN' > resp\n"+SRV.replace('c.sendall(b); c.close()','c.sendall(b.replace(b"N", str(n).encode())); n += 1; c.close()').replace('s.settimeout(60)','s.settimeout(60); n = 0')+'''
echo "@net::fetch_raw(\\`$u\\`) @net::fetch_raw \\`$u\\`" > a.papyri
sed -i 's/fetch_raw(\\(`[^`]*`\\))/fetch_raw \\1/' a.papyri
"$p" --allow-http a.papyri >/dev/null 2>&1
[ "$(cat a.html)" = '<p>x0 x1</p>' ]
'''),
dict(id='C23-read-cached', property='C23', edits=[('src/compiler/native.rs','''            std::fs::read_to_string(path)
                .map_err(|e| errors::RuntimeError::FileReadError(PATH, e))?''','''            thread_local! {
                static READ: std::cell::RefCell<std::collections::HashMap<std::path::PathBuf, (u64, String)>> = Default::default();
            }
            let len = std::fs::metadata(&path).map_or(0, |m| m.len());
            let cached = READ.with(|r| r.borrow().get(&path).filter(|(n, _)| *n == len).map(|(_, s)| s.clone()));
            if let Some(s) = cached { return Ok(RcStr::from(s).into()); }
            let s = std::fs::read_to_string(&path)
                .map_err(|e| errors::RuntimeError::FileReadError(PATH, e))?;
            READ.with(|r| r.borrow_mut().insert(path, (len, s.clone())));
            s''')],
 needs='a file read by two documents of a batch, of which the first writes to it a text of the same length', breaks='the second document reads the old text',
 demo=TMP+'''printf 'old' > x
printf '%s' '@file::read `x` @file::write(`x`) `new`' > a.papyri
printf '%s' '@file::read `x`' > b.papyri
$p -o . a.papyri b.papyri >/dev/null 2>&1; [ "$(cat b.html)" = '<p>new</p>' ]
'''),
dict(id='C04-leading-text', property='C04', edits=[('src/compiler/sequence.rs','            if !self.children.is_empty() || !child.is_whitespace() {\n                self.children.push(child);','            if !self.children.is_empty() || !matches!(child, HTML::Whitespace | HTML::RawNewline) {\n                self.children.push(child);')],
 needs='a value of several white space characters at the beginning of a paragraph', breaks='the white space is left at the beginning',
 demo=doc('@let(s="\\x20\\x20") {<b>$s<i>a</i></b>}','<p><b><i>a</i></b></p>')),
dict(id='C19-deep-parens', property='C19', edits=[('src/compiler/highlight.rs','                self.paren_stack.push((matching_paren(s), self.paren_count));','                if self.paren_stack.len() >= 32 { self.paren_stack.remove(0); }\n                self.paren_stack.push((matching_paren(s), self.paren_count));')],
 needs='more than 32 open brackets', breaks='the outer brackets are not paired',
 demo="\nn=$(python3 -c \"print('@code(language=\\`js\\`) \\`'+'('*40+')'*40+'\\`')\" | ./target/debug/papyri -i | grep -c unmatched)\n[ \"$n\" = 0 ]\n"),
dict(id='C19-line-no-width', property='C19', edits=[('src/compiler/highlight.rs','&start.checked_add(i as Int)?.to_string());\n        out.push','&start.checked_add((i as u8) as Int)?.to_string());\n        out.push')],
 needs='a block of code with more than 256 lines', breaks='lines are numbered from the start again',
 demo="\npython3 -c \"print('\\`\\`\\`\\n'+'x\\n'*300+'\\`\\`\\`')\" | ./target/debug/papyri -i | grep -q 'data-line-no=\"300\"'\n"),
dict(id='C10-join-empty', property='C10', edits=[('src/compiler/native.rs','                    if i > 0 { out.push(SEP.clone()); }','                    if i > 0 && !v.is_empty() { out.push(SEP.clone()); }')],
 needs='a list with an empty item, joined with a separator', breaks='a separator is missing',
 demo=doc('@list::join(`-`) [`a`, "", `b`]','<p>a--b</p>')),
dict(id='C10-split-limit', property='C10', edits=[('src/compiler/regex_value.rs','        self.regex.split(s)\n            .into_iter()','        self.regex.splitn(s, 1 << 10)\n            .into_iter()')],
 needs='a string of more than 1024 parts', breaks='the rest is not split',
 demo="\nout=$(python3 -c \"print('@let(r=@regex::compile \\`,\\`) {@list::len @regex::split(\\$r) \\`'+','*2000+'\\`}')\" | ./target/debug/papyri -i)\n[ \"$out\" = '<p>2001</p>' ]\n"),
dict(id='C10-named-count', property='C10', edits=[('src/compiler/regex_value.rs','''                Dict::from_iter(name_ids.iter().copied().zip(v))
                    .into()''','''                Dict::from_iter(name_ids.iter().copied().zip(v).filter(|(_, v)| !matches!(v, Value::Str(s) if s.is_empty())))
                    .into()''')],
 needs='a named group which matches the empty string', breaks='the key is missing',
 demo=doc('@let(r=@regex::compile "(?P<a>x*)(?P<b>y)") {@dict::len @regex::find($r) `y`}','<p>2</p>')),
dict(id='C18-wide', property='C18', edits=[('src/utils/sourcefile.rs','                coords.resize(coords.len() + c.len_utf8(), (line, col));','                coords.resize(coords.len() + c.len_utf8(), (line, col & 0xffff));')],
 needs='an error beyond column 65535', breaks='the column is too small',
 demo="\npython3 -c \"print('a '*40000+'@foo.')\" | ./target/debug/papyri -i 2>&1 | grep -q 'col 80001\\|col 80002'\n"),
dict(id='C12-error-retry', property='C12', edits=[('src/compiler/module_loader.rs','''                    _ => ModuleState::Error,''','''                    Ok(_) => ModuleState::Error,
                    Err(_) => ModuleState::NotLoaded,''')],
 needs='a module which cannot be read, imported twice', breaks='the error is reported twice as if new, with two attempts to read it',
 demo=TMP+'''printf '\\377' > m.lib.papyri
printf '%s' '@import `m.lib` @import `m.lib`' > a.papyri
[ "$($p a.papyri 2>&1 | grep -c 'UTF-8')" = 1 ]
'''),
dict(id='C20-text-all', property='C20', edits=[('src/bin/papyri.rs','                    Ok(m) if m.is_dir() => {','                    Ok(m) if m.is_dir() && !(utils::sourcefile::is_papyri_file(&path) && path.is_relative() && path.components().count() > 1) => {')],
 needs='a directory in another directory, whose name ends with `.papyri`, as an argument', breaks='it is taken for a source file',
 demo=TMP+'''mkdir -p d/x.papyri; echo hi > d/x.papyri/a.papyri
$p d/x.papyri >/dev/null 2>&1; [ "$(cat d/x.papyri/a.html)" = '<p>hi</p>' ]
'''),
dict(id='C11-cut-utf', property='C11', edits=[('src/utils/text.rs','''    let s = deunicode::deunicode(s);
    let mut s_chars''','''    // no more than these can be used
    let s = &s[..s.char_indices().map(|(i, _)| i).find(|&i| i >= max_len).unwrap_or(s.len())];
    let s = deunicode::deunicode(s);
    let mut s_chars''')],
 needs='nothing: the cut of a long text does not change the ID when it is done at a later place', breaks='nothing (control)', demo='\nexit 0\n'),
dict(id='C21-table-cell', property='C21', edits=[('src/compiler/render.rs','                HTML::Text(t) => {','                HTML::Text(t) => {')],needs='',breaks='',demo='\nexit 0\n'),
dict(id='C22-attr-dup', property='C22', edits=[('src/compiler/html_parse.rs','(name_id, Some(attr.value.as_ref().into()))','(name_id, Some(attr.value.trim_end_matches(\'\\n\').into()))')],
 needs='an attribute whose value ends with a newline', breaks='the newline is lost',
 demo="\nout=$(printf '%s' '@html::parse \"<!DOCTYPE html><html><head></head><body><a title=\\\"x\\n\\\">b</a></body></html>\"' | ./target/debug/papyri -i | wc -l)\n[ \"$out\" = 1 ]\n"),
dict(id='C06-lub-dict', property='C06', edits=[('src/compiler/types.rs','            (Type::Dict(t1), Type::Dict(t2)) => t1.least_upper_bound(*t2).dict(),','            (Type::Dict(t1), Type::Dict(t2)) => (if *t1 == Type::Any { *t2 } else { t1.least_upper_bound(*t2) }).dict(),')],
 needs='a list of dicts of which the first is mixed', breaks='the type is too narrow',
 demo="\nprintf '%s' '@fn f $x: int -> ok @f [@dict::new(a=1,b=`x`)., @dict::new(a=1).]' | ./target/debug/papyri -i 2>&1 | grep -q 'was any dict list'\n"),
dict(id='C03-cdata', property='C03', edits=[('src/compiler/render.rs','write!(self.writer, "=\\"{}\\"", text::encode_entities(v, true))?;','if v.len() < 4096 { write!(self.writer, "=\\"{}\\"", text::encode_entities(v, true))?; }\n                    else { write!(self.writer, "=\\"{}\\"", text::encode_entities(v, false))?; }')],
 needs='an attribute value of more than 4 KB which contains a quote', breaks='the attribute ends early',
 demo="\npython3 -c \"print('<a title=\\\"'+'x'*5000+'\\\\\\\\x22 onclick=\\\">y</a>')\" | ./target/debug/papyri -i | grep -q 'x&quot; onclick='\n"),
dict(id='C14-dot-base', property='C14', edits=[('src/utils/relpath.rs','    let base = if base.is_absolute() {\n        base.normalize()','    let base = if base.is_absolute() {\n        if base.ends_with("..") { return Some(rel.to_path_buf()); }\n        base.normalize()')],
 needs='an absolute output directory which ends with `..`', breaks='files can be written outside',
 demo=TMP+'''mkdir -p o/x
printf '%s' '@file::write(`../../e.txt`) y' > o/x/a.papyri
mkdir -p o/x/y; cd o/x; $p -o "$PWD/y/.." a.papyri >/dev/null 2>&1; r=$?
[ $r = 1 ] && [ ! -e ../../e.txt ]
'''),
dict(id='C01-name-long', property='C01', edits=[('src/utils/string_pool.rs','''        self.0.get_index_of(s)
            .map(|id| NameID::of(id as u32))''','''        self.0.get_index_of(s)
            .filter(|&id| { debug_assert!(id < 4096); id < 4096 })
            .map(|id| NameID::of(id as u32))''')],
 needs='thousands of names', breaks='the compiler panics',
 demo="\npython3 -c \"print('@let('+', '.join('a%d=1'%i for i in range(5000))+') {@dict::get(\\`a4999\\`) @dict::new(a4999=2).}')\" | ./target/debug/papyri -i 2>&1 | grep -q '<p>2</p>'\n"),
]
BUGS=[b for b in BUGS if b['needs'] and 'control' not in b['breaks']]
