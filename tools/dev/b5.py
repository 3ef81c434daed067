def doc(src, want): return "\nout=$(printf '%s' '"+src+"' | ./target/debug/papyri -i)\n[ \"$out\" = '"+want+"' ]\n"
def err(src): return "\nprintf '%s' '"+src+"' | ./target/debug/papyri -i >/dev/null 2>&1\n[ $? = 1 ]\n"
TMP='\nd=$(mktemp -d); p=$PWD/target/debug/papyri; cd $d || exit 2\ntrap "rm -rf $d" EXIT\n'
# a server on the loopback network which sends the bytes of ./resp to each client
SRV='''
cat > srv.py <<'P'
import socket, sys, threading
s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen(5)
open("port.tmp", "w").write(str(s.getsockname()[1]))
import os; os.rename("port.tmp", "port")
b = open("resp", "rb").read()
s.settimeout(60)
while True:
    c, _ = s.accept()
    d = b""
    while b"\\r\\n\\r\\n" not in d:
        x = c.recv(1000)
        if not x: break
        d += x
    if d: open("seen", "a").write("request\\n")
    c.sendall(b); c.close()
P
python3 srv.py & srv=$!
trap "kill $srv; rm -rf $d" EXIT
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do [ -f port ] && break; sleep 0.2; done
u=http://127.0.0.1:$(cat port)/
'''
LIST17='['+', '.join(str(i) for i in range(1,17))
BUGS=[
dict(id='C01-escape-range', property='C01', edits=[('src/parser/text.rs','u32::from_str_radix(&s[2..], 16)\n','i32::from_str_radix(&s[2..], 16)\n                    .map(|c| c as u32)\n')],
 needs='an escape of eight hex digits beyond the range of a signed integer', breaks='the compiler panics instead of reporting an error',
 demo='\nprintf "%s" "\\\\UFFFFFFFF" | ./target/debug/papyri -i >o.$$ 2>&1; r=$?\nc=$(grep -c -i "panic\\|internal" o.$$); rm -f "$PWD/o.$$"\n[ $r = 1 ] && [ "$c" = 0 ]\n'),
dict(id='C03-tag-name', property='C03', edits=[('src/compiler/tag.rs','if text::is_identifier(&name_str) {','if text::is_identifier(name_str.split(\'/\').next().unwrap_or("")) {')],
 needs='a computed tag name with a slash in it', breaks='the tag is accepted, and the output is not a document',
 demo=err('@let(t=`b/onclick`) {<$t>x</>}')),
dict(id='C05-eq-prefix', property='C05', edits=[('src/compiler/html.rs','(HTML::Sequence(s1), HTML::Sequence(s2)) => s1 == s2,','(HTML::Sequence(s1), HTML::Sequence(s2)) => s1.iter().zip(s2.iter()).all(|(a, b)| a == b),')],
 needs='two contents of which one is the beginning of the other', breaks='they are equal',
 demo=doc('@let(a={a<b>x</b>c}, b={a<b>x</b>}) {@list::contains($b) [$a]}','<p>False</p>')),
dict(id='C05-eq-len', property='C05', edits=[('src/compiler/html.rs','(HTML::Sequence(s1), HTML::Sequence(s2)) => s1 == s2,','(HTML::Sequence(s1), HTML::Sequence(s2)) => s1.len() == s2.len() && s1.iter().zip(s2.iter()).take(3).all(|(a, b)| a == b),')],
 needs='two contents of at least four nodes, which differ only after the third', breaks='they are equal',
 demo=doc('@let(a={a<b>x</b>c<i>y</i>}, b={a<b>x</b>c<u>z</u>}) {@list::contains($b) [$a]}','<p>False</p>')),
dict(id='C06-type-long', property='C06', edits=[('src/compiler/value.rs','''        vs.map(Value::get_type)
            .reduce''','''        vs.take(8)
            .map(Value::get_type)
            .reduce''')],
 needs='a list or dict of more than eight values, whose type is determined by a later one', breaks='the type is too narrow',
 demo='\nprintf "%s" \'@fn f $x: int -> ok @let(l=[1,2,3,4,5,6,7,8,a]) {@f $l}\' | ./target/debug/papyri -i 2>&1 | grep -q "was any list"\n'),
dict(id='C06-check-all', property='C06', edits=[('src/compiler/types.rs','''        vs.cloned()
            .all(|v| self.check_value(v))''','''        vs.take(16)
            .cloned()
            .all(|v| self.check_value(v))''')],
 needs='a list of more than sixteen values of which a later one does not belong to the type', breaks='the list matches the type',
 demo=doc('@match '+LIST17+', a] {_: int list -> ints, _ -> other}','<p>other</p>')),
dict(id='C09-template-line', property='C09', edits=[('src/parser/matcher.rs','regex_str += "(.+?)";','regex_str += "([^\\n]+?)";')],
 needs='a template pattern and a string with a newline in the part of a variable', breaks='the branch is not taken',
 demo=doc('@match "a\\nb" {"$x" -> a, _ -> b}','<p>a</p>')),
dict(id='C10-regex-eq', property='C10', edits=[('src/compiler/value.rs','r1.as_str() == r2.as_str()','r1.as_str().eq_ignore_ascii_case(r2.as_str())')],
 needs='two regular expressions which differ only in the case of letters', breaks='they are equal',
 demo=doc('@let(a=@regex::compile `a`, b=@regex::compile `A`) {@list::contains($b) [$a]}','<p>False</p>')),
dict(id='C12-key-case', property='C12', edits=[('src/compiler/module_loader.rs','Ok(canonical_path) => canonical_path,','Ok(canonical_path) => path::PathBuf::from(canonical_path.to_string_lossy().to_ascii_lowercase()),')],
 needs='two modules whose paths differ only in the case of letters', breaks='the second is taken for the first',
 demo=TMP+'''echo '@export(x=1) .' > a.papyri; echo '@export(x=2) .' > A.papyri
echo '@let(p=@import `a`, q=@import `A`) {$p::x$q::x}' > m.papyri
$p m.papyri >/dev/null && grep -q 12 m.html
'''),
dict(id='C18-trace', property='C18', edits=[('src/errors/sink_base.rs','for call_range in trace.iter() {','for call_range in trace.iter().skip(trace.len().saturating_sub(20)) {')],
 needs='an error more than twenty calls deep', breaks='the trace does not have the outer calls',
 demo='''
src=''; call='@raise `x`'
i=0; while [ $i -lt 30 ]; do src="$src@fn f$i . -> {$call}
"; call="@f$i ."; i=$((i+1)); done
n=$(printf '%s' "$src$call" | ./target/debug/papyri -i 2>&1 | grep -c 'File "<stdin>"')
[ $n = 31 ]
'''),
dict(id='C19-url-tail', property='C19', edits=[('src/compiler/highlight.rs','        self.push_other(cur..range.end, kind);\n    }','        if cur == range.start || range.end - cur > 1 {\n            self.push_other(cur..range.end, kind);\n        }\n    }')],
 needs='a URL in a string or comment with exactly one character after it', breaks='that character is lost from the highlighted code',
 demo='\nprintf "%s" \'@code(language=`papyri`) ```# "http://a.b/c"```\' | ./target/debug/papyri -i | sed "s/<[^>]*>//g" | grep -q \'# "http://a.b/c"\'\n'),
dict(id='C20-depth', property='C20', edits=[('src/utils/relpath.rs','''walkdir::WalkDir::new(path)
        .into_iter()''','''walkdir::WalkDir::new(path)
        .max_depth(10)
        .into_iter()''')],
 needs='a source more than ten levels below the directory which is given', breaks='it is not compiled',
 demo=TMP+'''mkdir -p s/1/2/3/4/5/6/7/8/9/10/11; echo x > s/1/2/3/4/5/6/7/8/9/10/11/a.papyri
$p s >/dev/null; [ -f s/1/2/3/4/5/6/7/8/9/10/11/a.html ]
'''),
dict(id='C20-secs', property='C20', edits=[('src/bin/papyri.rs','''fs::metadata(p).and_then(|m| m.modified());''','''fs::metadata(p).and_then(|m| m.modified()).map(|t| t.duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs()));''')],
 needs='a source which is changed in the same second as its output was written', breaks='it is not compiled again',
 demo=TMP+'''echo one > a.papyri; $p a.papyri >/dev/null; echo two > a.papyri
touch -d '2020-01-01 00:00:00.2' a.html; touch -d '2020-01-01 00:00:00.7' a.papyri
$p --skip-unchanged a.papyri >/dev/null; grep -q two a.html
'''),
dict(id='C21-raw-newline', property='C21', edits=[('src/compiler/render.rs','''            HTML::RawNewline => {
                writeln!(self.writer)?;''','''            HTML::RawNewline => {
                if self.as_html { writeln!(self.writer)?; } else { write!(self.writer, " ")?; }''')],
 needs='a code block of several lines in text output', breaks='the newline becomes a space',
 demo='\nprintf "%s" "@code_block(language=\\`python\\`) \\`\\`\\`\na = 1\nb = 2\n\\`\\`\\`" | ./target/debug/papyri -i -t | tr "\\n" "|" | grep -q "a = 1|b = 2"\n'),
dict(id='C22-errors', property='C22', edits=[('src/compiler/html_parse.rs','.find(|e| e != "Duplicate attribute");','.find(|e| e != "Duplicate attribute" && !e.starts_with("Bad character reference") && !e.contains("ntity") && !e.contains("haracter reference"));')],
 needs='HTML with a faulty character reference', breaks='it is not reported',
 demo=err('@html::parse ```<!DOCTYPE html><p>a &#xZ; b```')),
dict(id='C23-lossy', property='C23', edits=[('src/compiler/native.rs','std::fs::read_to_string(path)\n','std::fs::read(path)\n                .map(|b| String::from_utf8_lossy(&b).into_owned())\n')],
 needs='a file which is not UTF-8', breaks='the file is read with other characters in it instead of being reported',
 demo=TMP+'''printf 'a\\377b' > f; echo '@let(p=@import `papyri`) {.}' > /dev/null; echo '@file::read `f`' > m.papyri
$p m.papyri >/dev/null 2>&1; [ $? = 1 ]
'''),
dict(id='C23-newlines', property='C23', edits=[('src/compiler/native.rs','''std::fs::read_to_string(path)
                .map_err(''','''std::fs::read_to_string(path)
                .map(|s| s.replace("\\r\\n", "\\n"))
                .map_err(''')],
 needs='a file with CR LF line ends', breaks='what is read is not what the file has',
 demo=TMP+'''printf 'a\\r\\nb' > f; echo '@let(s=@file::read `f`) {@str::len $s}' > m.papyri
$p m.papyri >/dev/null && grep -q '<p>4</p>' m.html
'''),
dict(id='C23-hidden', property='C23', edits=[('src/utils/relpath.rs','''walkdir::WalkDir::new(path)
        .into_iter()''','''walkdir::WalkDir::new(path)
        .into_iter()
        .filter_entry(|e| e.depth() == 0 || !e.file_type().is_dir() || !e.file_name().to_string_lossy().starts_with('.'))''')],
 needs='a source in a directory whose name begins with a dot', breaks='it is not listed',
 demo=TMP+'''mkdir -p d/.h; echo x > d/.h/a.papyri; echo '@list::len @file::list `d`' > m.papyri
$p m.papyri >/dev/null && grep -q '<p>1</p>' m.html
'''),
dict(id='C23-unsorted', property='C23', edits=[('src/utils/relpath.rs','    paths.sort();\n','    paths.sort_by_key(|p| p.components().count());\n')],
 needs='sources at several levels of a directory', breaks='the list is not in the order of the paths',
 demo=TMP+'''mkdir -p d/a; echo x > d/a/x.papyri; echo x > d/b.papyri; echo x > d/c.papyri; echo '@list::join(",") @file::list `d`' > m.papyri
$p m.papyri >/dev/null && tr -d '\\n' < m.html | grep -q 'd/a/x,d/b,d/c'
'''),
dict(id='C24-partial', property='C24', edits=[('src/compiler/native.rs','''            .text()
            .map_err(errors::RuntimeError::NetworkError)?)''','''            .text()
            .or_else(|e| if e.is_body() || e.is_decode() { Ok(String::new()) } else { Err(e) })
            .map_err(errors::RuntimeError::NetworkError)?)''')],
 needs='a response which ends before its declared length', breaks='the error is not reported',
 demo=TMP+'printf "HTTP/1.1 200 OK\\r\\nContent-Length: 100\\r\\n\\r\\nabc" > resp\n'+SRV+'''
echo "@net::fetch_raw \\`$u\\`" > m.papyri
$p --allow-http m.papyri >/dev/null 2>&1; r=$?
[ -f seen ] && [ $r = 1 ]
'''),
dict(id='C24-stdin', property='C24', edits=[('src/bin/papyri.rs','options.allow_http.then(|| {','(options.allow_http || options.use_stdin).then(|| {')],
 needs='a document from standard input which fetches without --allow-http', breaks='the network is used',
 demo=TMP+'printf "HTTP/1.1 200 OK\\r\\nContent-Length: 3\\r\\n\\r\\nabc" > resp\n'+SRV+'''
printf '%s' "@net::fetch_raw \\`$u\\`" | $p -i >/dev/null 2>&1
[ ! -f seen ]
'''),
dict(id='C24-trim', property='C24', edits=[('src/compiler/native.rs','''            .text()
            .map_err(errors::RuntimeError::NetworkError)?)''','''            .text()
            .map(|s| s.trim_end_matches('\\n').to_string())
            .map_err(errors::RuntimeError::NetworkError)?)''')],
 needs='a response which ends in a newline', breaks='the newline is lost',
 demo=TMP+'printf "HTTP/1.1 200 OK\\r\\nContent-Length: 4\\r\\n\\r\\nabc\\n" > resp\n'+SRV+'''
echo "@str::len @net::fetch_raw \\`$u\\`" > m.papyri
$p --allow-http m.papyri >/dev/null 2>&1; grep -q '<p>4</p>' m.html
'''),
]
