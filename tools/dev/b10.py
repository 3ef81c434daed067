exec(open('/verif/tools/dev/b5.py').read().split('BUGS=[')[0])
RUST='''d=$(mktemp -d); trap "rm -rf $d" EXIT
cat > $d/m.rs <<'X'
fn main() { let mut s = String::new(); std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap(); match papyri_lang::compile_str(&s) { Ok(h) => print!("{h}"), Err(e) => { e.print_to_stderr(); std::process::exit(1) } } }
X
rustc --edition 2021 -o $d/m $d/m.rs --extern papyri_lang=$(ls -t $PWD/target/debug/deps/libpapyri_lang-*.rlib | head -1) -L dependency=$PWD/target/debug/deps >/dev/null 2>&1 || exit 0
cd $d
'''
BUGS=[
dict(id='C01-index-min', property='C01', edits=[('src/compiler/names.rs','} else if i >= -n && i < 0 {','} else if i < 0 && i.abs() <= n {')],
 needs='the least integer as an index', breaks='the compiler panics', demo=err('@let(a=[1]) {$a::-9223372036854775808}')),
dict(id='C01-index-big', property='C01', edits=[('src/parser/base.rs','let index = self.parse_number(index_tok)?;','let index = self.tok_str(index_tok)\n                    .parse()\n                    .unwrap_or_else(|_| self.ice_at("invalid index", index_tok.range));')],
 needs='an index which is not a 64-bit number', breaks='the compiler panics', demo=err('@let(a=[1]) {$a::99999999999999999999}')),
dict(id='C01-doctype-slice', property='C01', edits=[('src/compiler/tag.rs','name_str.eq_ignore_ascii_case("!DOCTYPE")','name_str.len() >= 8 && name_str[..8].eq_ignore_ascii_case("!DOCTYPE")')],
 needs='a variable tag name whose eighth byte is inside a character', breaks='the compiler panics', demo=err('@let(t=`!DOCTYPé`) {<$t></>}')),
dict(id='C07-same-value-twice', property='C07', edits=[('src/compiler/signature.rs','if map.insert(name_id, v).is_some() {','if map.insert(name_id, v.clone()).map_or(false, |old| old != v) {')],
 needs='an argument which is given twice with the same value, once by a spread', breaks='there is no error',
 demo=err('@fn f(a) . -> $a @let(d=@dict::new(a=1).) {@f($a=1, **$d).}').replace('fn f(a)','fn f($a)').replace('f($a=1,','f(a=1,')),
dict(id='C07-callback-content', property='C07', edits=[('src/compiler/signature.rs','            let v = self.compiler.coerce(content_value, &sig.content_param.type_)?;\n            if !name_id.is_anonymous() {\n','            if !name_id.is_anonymous() {\n                let v = self.compiler.coerce(content_value, &sig.content_param.type_)?;\n')],
 needs='a function without content as a callback', breaks='it is called without its argument, and there is no error', demo=err('@fn f . -> a @list::map($f) [1]')),
dict(id='C07-optional-default', property='C07', edits=[('src/compiler/signature.rs','            .or_else(|| param.question_mark.then_some(Value::UNIT))\n','            .filter(|v| !param.question_mark || param.type_annotation != Type::Any || v.is_unit())\n            .or_else(|| param.question_mark.then_some(Value::UNIT))\n')],
 needs='an optional parameter of no type, with a default value', breaks='the default value is none',
 demo=doc('@fn f($x?=1) . -> {a{$x}b} @f.','<p>a1b</p>')),
dict(id='C09-or-tag-attrs', property='C09', edits=[('src/parser/ast.rs','                tag_pattern.attrs.get_name_ids(out);\n','')],
 needs='a variable of an attribute in an alternative which does not match', breaks='the variable is not none but undefined, or has its first value',
 demo=doc('@match <a x=`1`>y</a> {<a x=$v>`n`</a> | _ -> {a{$v}b}}','<p>ab</p>')),
dict(id='C09-or-dict-rest', property='C09', edits=[('src/parser/ast.rs','                    spread.get_name_ids(out);\n','                    let _ = spread;\n')],
 needs='a variable for the rest of a dict in one alternative, and another matches', breaks='the variable is undefined',
 demo=doc('@match 2 {(a=_, **$r) | _ -> {a{$r}b}}','<p>ab</p>')),
dict(id='C23-bom', property='C23', edits=[('src/compiler/native.rs','            std::fs::read_to_string(path)\n','            std::fs::read_to_string(path)\n                .map(|s| s.trim_start_matches(\'\\u{feff}\').to_string())\n')],
 needs='a file which begins with a byte order mark', breaks='the mark is not read',
 demo=TMP+'''printf '\\xef\\xbb\\xbfx' > f; printf '%s' '@str::len @file::read `f`' > a.papyri; $p a.papyri >/dev/null 2>&1; [ "$(cat a.html)" = '<p>4</p>' ]
'''),
dict(id='C17-file-url', property='C17', edits=[('src/compiler/native.rs','        let Some(client) = &self.ctx.http_client else {\n','        let Some(client) = &self.ctx.http_client else {\n            if let Some(p) = path.strip_prefix("file://") {\n                return Ok(std::fs::read_to_string(p).map_err(|e| errors::RuntimeError::FileReadError(p.into(), e))?);\n            }\n'),],
 needs='a request for a file URL', breaks='the file is read',
 demo=RUST+'''echo secret > q
echo "@net::fetch_raw \\`file://$d/q\\`" | ./m 2>&1 | grep secret && exit 1
exit 0
'''),
dict(id='C18-ls', property='C18', edits=[('src/utils/sourcefile.rs',"                if c == '\\n' {","                if matches!(c, '\\n' | '\\u{2028}' | '\\u{2029}') {")],
 needs='a line separator character (U+2028) before an error', breaks='the line is one too many',
 demo="\nprintf '%s' 'a\xe2\x80\xa8b @x.' | ./target/debug/papyri -i 2>&1 | grep -q 'line 1, col 5'\n".encode('latin1').decode('utf8')),
dict(id='C12-lexical-dotdot', property='C12', edits=[('src/compiler/native.rs','        path.pop();\n','        path.pop();\n        let mut relative_path = relative_path;\n        while let Some(s) = relative_path.strip_prefix("../") {\n            if path.file_name().is_none() { break; }\n            relative_path = s;\n            path.pop();\n        }\n')],
 needs='a module in a directory which is reached by a symbolic link, and which imports a module from the parent directory', breaks='the parent is that of the link',
 demo=TMP+'''mkdir -p r/s; printf '%s' '@export(v=`root`).' > m.papyri; printf '%s' '@export(v=`right`).' > r/m.papyri
printf '%s' '@let(k=@import `../m`) {@export(w=$k::v).}' > r/s/n.papyri; ln -s r/s l
printf '%s' '@let(k=@import `l/n`) {$k::w}' > a.papyri
$p a.papyri >/dev/null 2>&1; [ "$(cat a.html)" = '<p>right</p>' ]
'''),
dict(id='C12-include-underscore', property='C12', edits=[('src/compiler/native.rs','            compiler.set_var(k, v.clone(), false, call_range);\n','            if compiler.get_name(k).starts_with(\'_\') { continue; }\n            compiler.set_var(k, v.clone(), false, call_range);\n')],
 needs='an exported name which begins with an underscore, of a module which is included', breaks='it is not declared',
 demo=TMP+'''printf '%s' '@export(_x=1).' > m.lib.papyri; printf '%s' '@include `m.lib` $_x' > a.papyri
$p a.papyri >/dev/null 2>&1; [ "$(cat a.html)" = '<p>1</p>' ]
'''),
dict(id='C10-dict-get-trim', property='C10', edits=[('src/compiler/native.rs','get_id_if_present(KEY.as_ref())','get_id_if_present(KEY.trim())')],
 needs='a key with spaces around that of an item', breaks='the item is found', demo=err('@let(d=@dict::new(a=1).) {@dict::get(` a`) $d}')),
dict(id='C10-lower-sigma', property='C10', edits=[('src/compiler/native.rs','            STR.to_lowercase()\n','            STR.chars()\n                .flat_map(char::to_lowercase)\n                .collect::<String>()\n')],
 needs='a capital sigma at the end of a word', breaks='its lower case is not the final form', demo=doc('@str::lower `ΑΣ`','<p>ας</p>')),
dict(id='C05-attr-order', property='C05', edits=[('src/compiler/tag.rs','&& self.attributes == other.attributes','&& self.attributes.iter().eq(other.attributes.iter())')],
 needs='two tags with the same attributes in another order', breaks='they are not equal',
 demo=doc('@let(a=<b x=`1` y=`2`>c</b>, b=<b y=`2` x=`1`>c</b>) {@list::contains($b) [$a]}','<p>True</p>')),
dict(id='C21-p-attrs', property='C21', edits=[('src/compiler/render.rs','                str_ids::P => write!','                str_ids::P if tag.attributes.is_empty() => write!')],
 needs='a paragraph with attributes', breaks='there is no blank line after it in the text',
 demo="\nprintf '%s' '<p class=`a`>x</p><p>y</p>' | ./target/debug/papyri -i -t > /tmp/C21-p-attrs.$$; r=$(head -c 3 /tmp/C21-p-attrs.$$ | od -An -c | tr -d ' '); rm -f /tmp/C21-p-attrs.$$; [ \"$r\" = 'x\\n\\n' ]\n"),
dict(id='C24-nul', property='C24', edits=[('src/compiler/native.rs','            .text()\n            .map_err(errors::RuntimeError::NetworkError)?)','            .text()\n            .map_err(errors::RuntimeError::NetworkError)?\n            .replace(\'\\0\', ""))')],
 needs='a response with a NUL character', breaks='the character is lost',
 demo=TMP+"printf 'HTTP/1.1 200 OK\\r\\nContent-Length: 3\\r\\n\\r\\nx\\0y' > resp\n"+SRV+'''
echo "@str::len @net::fetch_raw \\`$u\\`" > a.papyri
"$p" --allow-http a.papyri >/dev/null 2>&1
[ "$(cat a.html)" = '<p>3</p>' ]
'''),
dict(id='C20-link-cycle', property='C20', edits=[('src/utils/relpath.rs','walkdir::WalkDir::new(path)','walkdir::WalkDir::new(path)\n        .follow_links(true)')],
 needs='a directory with a symbolic link to itself', breaks='the command fails',
 demo=TMP+'''mkdir d; echo x > d/a.papyri; ln -s . d/l; $p d >/dev/null 2>&1 && [ -f d/a.html ]
'''),
dict(id='C19-mixed-indent', property='C19', edits=[('src/utils/text.rs','                    out += line.trim_start();','                    let n = line.len() - line.trim_start().len();\n                    out += &line[n.min(indentation.len())..];')],
 needs='lines which are indented with other characters than the first, and deeper', breaks='the rest of the indentation is kept',
 demo="\nprintf '```\\n  x\\n\\t\\t\\ty\\n```' | ./target/debug/papyri -i | grep -q '>y<'\n"),
dict(id='C02-quote-close-tag', property='C02', edits=[('src/parser/tokenizer.rs','TokenKind::LSqb | TokenKind::RAngle | ','TokenKind::LSqb | TokenKind::RAngle | TokenKind::CloseTag | ')],
 needs='a quote directly after a close tag', breaks='it is a left quote',
 demo=doc('"a <b>x</b>"','<p>“a <b>x</b>”</p>')),
dict(id='C16-text-direct', property='C16', edits=[('src/bin/papyri.rs','        let path_str = path.to_string_lossy();\n        \n        path.parent()\n            .map_or(Ok(()), fs::create_dir_all)\n            .map_err(|e| format!("Failed to create directory \\"{path_str}\\": {e}"))?;\n','''        let path_str = path.to_string_lossy();
        
        if let Some(dir) = path.parent() {
            fs::create_dir_all(dir)
                .map_err(|e| format!("Failed to create directory \\"{path_str}\\": {e}"))?;
        }
        if self.options.text {
            let mut out_writer = fs::File::create(path)
                .map(io::BufWriter::new)
                .map_err(|e| format!("Failed to create file \\"{path_str}\\": {e}"))?;
            self.ctx.render(&html, false, &mut out_writer)
                .and_then(|()| out_writer.flush())
                .map_err(|e| format!("Failed to write file \\"{path_str}\\": {e}"))?;
            if !self.options.silent {
                println!("    => {path_str}");
            }
            return Ok(());
        }
''')],
 needs='the command is killed while it writes a text output', breaks='the incomplete output is skipped as unchanged',
 demo=TMP+'''printf 'hello hello' > a.papyri
cat > k.py <<'P'
import subprocess, sys, resource
def lim(): resource.setrlimit(resource.RLIMIT_FSIZE, (4, 4))
subprocess.run([sys.argv[1], "-s", "-t", "a.papyri"], preexec_fn=lim, stderr=subprocess.DEVNULL)
P
touch -d '1 hour ago' a.papyri
python3 k.py $p; $p -s -t -u a.papyri >/dev/null 2>&1; grep -q 'hello hello' a.txt
'''),
dict(id='C16-overwrite', property='C16', edits=[('src/bin/papyri.rs','        path.parent()\n            .map_or(Ok(()), fs::create_dir_all)\n            .map_err(|e| format!("Failed to create directory \\"{path_str}\\": {e}"))?;\n','''        if path.is_file() {
            // keeps the mode of the file
            let mut out_writer = fs::OpenOptions::new()
                .write(true)
                .truncate(true)
                .open(path)
                .map(io::BufWriter::new)
                .map_err(|e| format!("Failed to create file \\"{path_str}\\": {e}"))?;
            self.ctx.render(&html, !self.options.text, &mut out_writer)
                .and_then(|()| out_writer.flush())
                .map_err(|e| format!("Failed to write file \\"{path_str}\\": {e}"))?;
            if !self.options.silent {
                println!("    => {path_str}");
            }
            return Ok(());
        }
        path.parent()
            .map_or(Ok(()), fs::create_dir_all)
            .map_err(|e| format!("Failed to create directory \\"{path_str}\\": {e}"))?;
''')],
 needs='the command is killed while it writes an output which exists', breaks='the incomplete output is skipped as unchanged',
 demo=TMP+'''printf 'hello hello' > a.papyri; echo old > a.html
cat > k.py <<'P'
import subprocess, sys, resource
def lim(): resource.setrlimit(resource.RLIMIT_FSIZE, (4, 4))
subprocess.run([sys.argv[1], "-s", "a.papyri"], preexec_fn=lim, stderr=subprocess.DEVNULL)
P
touch -d '1 hour ago' a.papyri; touch -d '2 hours ago' a.html
python3 k.py $p; $p -s -u a.papyri >/dev/null 2>&1; grep -q 'hello hello' a.html
'''),
]
