exec(open('/verif/tools/dev/b5.py').read().split('BUGS=[')[0])
BUGS=[
dict(id='C12-link-resolve', property='C12', edits=[('src/compiler/module_loader.rs','                let result = self.load_uncached(&path)\n','                let result = fs::canonicalize(&path).map_or(path.clone(), |p| p);\n                let result = self.load_uncached(&result)\n')],
 needs='a module which is a symbolic link to a file in another directory, and which imports a module by a relative path', breaks='the path is resolved relative to the file which the link stands for',
 demo=TMP+'''mkdir s; printf '%s' '@export(v=`root`).' > m.papyri; printf '%s' '@export(v=`sub`).' > s/m.papyri
printf '%s' '@let(k=@import `m`) {@export(w=$k::v).}' > s/n.papyri; ln -s s/n.papyri l.papyri
printf '%s' '@let(k=@import `l`) {$k::w}' > a.papyri
$p a.papyri >/dev/null 2>&1; [ "$(cat a.html)" = '<p>root</p>' ]
'''),
dict(id='C13-ids-overwritten', property='C13', edits=[('src/compiler/module_loader.rs','self.module_cache.has_unique_ids |= self.unique_ids.len() != old_num_ids;','self.module_cache.has_unique_ids = self.unique_ids.len() != old_num_ids;')],
 needs='a document which imports a module with a unique ID and then one without, and another document which imports the first', breaks='the ID is that of the first document, and may be given twice',
 demo=TMP+'''printf '%s' '@export(v=@str::unique_id `x`).' > m.lib.papyri; printf '%s' '@export(v=1).' > n.lib.papyri
printf '%s' '@fn f $x -> . @f @import `m.lib` @f @import `n.lib` a' > a.papyri
printf '%s' '@str::unique_id `x` @let(k=@import `m.lib`) {$k::v}' > b.papyri
$p a.papyri b.papyri >/dev/null 2>&1; [ "$(cat b.html)" = '<p>x x_2</p>' ]
'''),
dict(id='C09-or-outer', property='C09', edits=[('src/compiler/frame.rs','            if !f.has(name_id) {','            if f.get(name_id, false).is_none() {')],
 needs='an alternative which does not bind a variable of the other, whose name is also that of a variable outside', breaks='the variable has the value of the outer one',
 demo=doc('@let(x=1) {@match 2 {[$x] | 2 -> @typeof $x, _ -> other}}','<p>a  b</p>').replace('a  b</p>','a b</p>').replace('{a $x b}','@typeof $x').replace('<p>a b</p>','<p>none</p>')),
dict(id='C18-trace-last', property='C18', edits=[('src/compiler/frame.rs','        self.call_stack.iter()\n','        self.call_stack.iter()\n            .skip(self.call_stack.len().saturating_sub(20))\n')],
 needs='an error in more than twenty calls', breaks='the outer calls are not in the trace',
 demo="\nn=$(python3 -c \"print('@fn f0 . -> @raise \\`x\\` '+' '.join('@fn f%d . -> @f%d.'%(i,i-1) for i in range(1,30))+' @f29.')\" | ./target/debug/papyri -i 2>&1 | grep -c 'File')\n[ \"$n\" = 31 ]\n"),
dict(id='C18-print-limit', property='C18', edits=[('src/errors/sink_base.rs','        for diag in self.v.iter() {\n            eprintln!','        for diag in self.v.iter().take(50) {\n            eprintln!')],
 needs='more than fifty errors', breaks='the later ones are not printed',
 demo="\nn=$(python3 -c \"print('@a. '*80)\" | ./target/debug/papyri -i 2>&1 | grep -c 'File')\n[ \"$n\" = 80 ]\n"),
dict(id='C23-sort-case', property='C23', edits=[('src/utils/relpath.rs','    paths.sort();\n','    paths.sort_by_key(|p| p.to_string_lossy().to_lowercase());\n')],
 needs='names which differ in case', breaks='they are not in the order of their paths',
 demo=TMP+'''mkdir d; touch d/B.papyri d/a.papyri
printf '%s' '@list::join(`,`) @file::list `d`' > x.papyri; $p x.papyri >/dev/null 2>&1; [ "$(cat x.html)" = '<p>d/B,d/a</p>' ]
'''),
dict(id='C24-many', property='C24', edits=[('src/compiler/native.rs','        Ok(client.get(path.as_ref())\n            .send()\n','        thread_local! { static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }\n        N.with(|n| n.set(n.get() + 1));\n        if N.with(|n| n.get() > 10) { return Ok(String::new()); }\n        Ok(client.get(path.as_ref())\n            .send()\n')],
 needs='more than ten requests of one run', breaks='the later ones are not made, and give the empty text',
 demo=TMP+"printf 'HTTP/1.1 200 OK\\r\\nContent-Length: 1\\r\\n\\r\\nx' > resp\n"+SRV+'''
echo "@fn f . -> @net::fetch_raw \\`$u\\`
$(for i in 1 2 3 4 5 6 7 8 9 0 1 2; do echo '@f.'; done)" > a.papyri
"$p" --allow-http a.papyri >/dev/null 2>&1
[ "$(tr -cd x < a.html | wc -c)" = 12 ]
'''),
dict(id='C03-many-attrs', property='C03', edits=[('src/compiler/tag.rs','if attrs.keys().any(','if attrs.keys().take(16).any(')],
 needs='more than sixteen attributes, of which a later one is given twice in different case', breaks='the tag has the attribute twice',
 demo=err('@let(d=@dict::new(A16=`x`).) {<b '+' '.join('a%d=`x`'%i for i in range(17))+' **$d>x</b>}')),
dict(id='C07-stages', property='C07', edits=[('src/compiler/func.rs','            Func::Bound(f) => f.1.clone(),','            Func::Bound(f) => match &f.0 {\n                // already complete\n                Func::Bound(g) if matches!(g.0, Func::Bound(_)) => g.1.clone(),\n                _ => f.1.clone(),\n            },')],
 needs='a function bound in three stages', breaks='the arguments of the last stage are lost',
 demo=doc('@fn f($_a, $_b, $_c) . -> {$_a$_b$_c} @let(g=@function::bind($f, 1).) {@let(h=@function::bind($g, 2).) {@let(i=@function::bind($h, 3).) {@i.}}}','<p>123</p>')),
dict(id='C22-xml-prefix', property='C22', edits=[('src/compiler/html_parse.rs','                        None | Some("") => pool','                        None | Some("" | "xml") => pool')],
 needs='an `xml:lang` attribute in an svg element', breaks='its name is lang',
 demo=doc('@html::parse `<!DOCTYPE html><html><head></head><body><svg xml:lang="a"></svg></body></html>`','<html><head></head><body><svg xml:lang="a"></svg></body></html>')),
dict(id='C22-deep', property='C22', edits=[('src/compiler/html_parse.rs','fn node_to_html(node: &Node, pool: &mut StringPool) -> HTML {','fn node_to_html(node: &Node, pool: &mut StringPool) -> HTML {\n    thread_local! { static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }\n    if DEPTH.with(|d| d.get()) > 48 { return HTML::Empty; }\n    DEPTH.with(|d| d.set(d.get() + 1));\n    let html = _node_to_html(node, pool);\n    DEPTH.with(|d| d.set(d.get() - 1));\n    html\n}\n\nfn _node_to_html(node: &Node, pool: &mut StringPool) -> HTML {')],
 needs='elements in more than fifty others', breaks='they are lost',
 demo="\nn=$(python3 -c \"print('@html::parse \\`<!DOCTYPE html><html><head></head><body>'+'<div>'*80+'</div>'*80+'</body></html>\\`')\" | ./target/debug/papyri -i | grep -o '<div>' | wc -l)\n[ \"$n\" = 80 ]\n"),
dict(id='C16-tmp-source', property='C16', edits=[('src/bin/papyri.rs','path.with_file_name(format!(".papyri-{}.tmp", std::process::id()))','path.with_file_name(format!(".{}.tmp.papyri", std::process::id()))')],
 needs='the command is killed while it writes an output in the directory of the sources, and is run for the directory again', breaks='the part of the output which was written is taken for a source',
 demo=TMP+'''printf '%s' hi > a.papyri
cat > k.py <<'P'
import subprocess, sys, os, resource
def lim():
    resource.setrlimit(resource.RLIMIT_FSIZE, (4, 4))
p = subprocess.run([sys.argv[1], "-s", "a.papyri"], preexec_fn=lim, stderr=subprocess.DEVNULL)
P
python3 k.py $p
$p -s -u >/dev/null 2>&1
[ "$(ls -A | tr '\\n' ' ' | sed 's/ .papyri-[0-9]*.tmp//;s/^.papyri-[0-9]*.tmp //')" = 'a.html a.papyri k.py ' ]
'''),
dict(id='C06-coerce-64', property='C06', edits=[('src/compiler/types.rs','        for v in vs {\n            let old_v','        for v in vs.take(64) {\n            let old_v')],
 needs='a list of more than 64 values for a parameter of another type', breaks='the later ones are not converted, or are not of the type',
 demo=err('@fn f $x: int list -> ok @let(l=['+', '.join(['1']*70)+', `a`]) {@f $l}')),
dict(id='C12-depth', property='C12', edits=[('src/compiler/module_loader.rs','            ModuleState::NotLoaded => {\n                let index','            ModuleState::NotLoaded if self.module_cache.cache.values().filter(|s| matches!(s, ModuleState::Busy)).count() >= 16 => Err(ModuleError::CircularImport(path.into()).into()),\n            ModuleState::NotLoaded => {\n                let index')],
 needs='a chain of more than sixteen modules', breaks='it is reported as a cycle',
 demo=TMP+'''i=0; while [ $i -lt 19 ]; do printf '%s' '@include `m'$((i+1))'.lib`' > m$i.lib.papyri; i=$((i+1)); done; printf x > m19.lib.papyri
printf '%s' '@include `m0.lib`' > a.papyri; $p a.papyri >/dev/null 2>&1; [ "$(cat a.html)" = '<p>x</p>' ]
'''),
dict(id='C15-many', property='C15', edits=[('src/bin/papyri.rs','''            for (out_path, html) in to_write.into_iter() {
                self.write_out_file(&out_path, html)?;
            }''','''            let mut results = Vec::new();
            for (out_path, html) in to_write.into_iter() {
                results.push(self.write_out_file(&out_path, html));
                if results.len() == 8 { results.drain(..).collect::<Result<Vec<_>, _>>()?; }
            }
            results.pop().transpose()?;''')],
 needs='a document with several outputs of which one which is not the last cannot be written', breaks='the failure is not reported',
 demo=TMP+'''mkdir -p o/x; printf '%s' '@file::write(`x`) `a` @file::write(`y`) `b` c' > a.papyri
$p -o o a.papyri >/dev/null 2>&1; [ $? = 1 ]
'''),
dict(id='C23-depth', property='C23', edits=[('src/utils/relpath.rs','walkdir::WalkDir::new(path)\n','walkdir::WalkDir::new(path)\n        .max_depth(24)\n')],
 needs='a source in more than 24 directories', breaks='it is not listed',
 demo=TMP+'''q=d; i=0; while [ $i -lt 30 ]; do q=$q/e; i=$((i+1)); done; mkdir -p $q; echo x > $q/a.papyri
printf '%s' '@file::list `d`' > x.papyri; $p x.papyri >/dev/null 2>&1; grep -q 'e/a' x.html
'''),
dict(id='C08-deep', property='C08', edits=[('src/compiler/frame.rs','            self.lexical_parent.as_ref()?.f.borrow().get(name_id, require_implicit)','            let parent = self.lexical_parent.as_ref()?.f.borrow();\n            let next = parent.lexical_parent.as_ref()\n                .filter(|_| require_implicit && !parent.implicit.is_empty() && !parent.implicit.contains(&name_id) && parent.locals.contains_key(&name_id));\n            // skip it\n            match next {\n                Some(p) => p.f.borrow().lexical_parent.as_ref()?.f.borrow().get(name_id, require_implicit),\n                None => parent.get(name_id, require_implicit),\n            }')],
 needs='an implicit parameter, called where the nearest binding is around the scope of another implicit in which a function of its own name is declared', breaks='a binding is skipped',
 demo=doc('@fn f($x: @implicit any) . -> $x @implicit(x=1) {@implicit(x=2) {@implicit(y=3) {@fn x . -> . @implicit(q=1) {@f.}}}}','<p>2</p>')),
dict(id='C11-full', property='C11', edits=[('src/utils/text.rs','            if !self.ids_used.contains(id.as_str()) {\n                break','            if !self.ids_used.contains(id.as_str()) || counter > 5000 {\n                break')],
 needs='more than 5000 requests with the same base', breaks='an ID is given twice',
 demo="\nn=$(python3 -c \"print('@fn f . -> @str::unique_id \\`a\\`\\n'+'@str::unique_id \\`a_5001\\` '+'@f. '*5010)\" | ./target/debug/papyri -i | tr ' ' '\\n' | sed 's/<[^>]*>//g' | sort | uniq -d | wc -l)\n[ \"$n\" = 0 ]\n"),
dict(id='C10-dict-hash', property='C10', edits=[('src/compiler/native.rs','            DICT.values()\n                .cloned()','            DICT.values()\n                .rev().collect::<Vec<_>>().into_iter().rev().filter(|v| !matches!(v, Value::List(l) if l.is_empty() && DICT.len() > 2))\n                .cloned()')],
 needs='a dict of at least three values with an empty list', breaks='the empty list is not among the values',
 demo=doc('@list::len @dict::values @dict::new(a=1,b=2,c=[]).','<p>3</p>')),
dict(id='C04-deep-block', property='C04', edits=[('src/compiler/html.rs','            HTML::Sequence(seq) => seq.iter().find_map(HTML::block_kind),','            HTML::Sequence(seq) => seq.iter().take(3).find_map(HTML::block_kind),')],
 needs='a value of more than three nodes of which the first block comes later, in an inline element', breaks='the block is allowed there',
 demo=err('@let(v={a<p>b</p>}) {@let(w=@list::join [<i>a</i>, <i>b</i>, <i>c</i>, <p>d</p>]) {<b>$w</b>}}')),
dict(id='C21-nested-inline', property='C21', edits=[('src/compiler/render.rs','                if self.as_html {\n                    write!(self.writer, "{}", text::encode_entities(t, false))?;\n                } else {','                if self.as_html {\n                    write!(self.writer, "{}", text::encode_entities(t, false))?;\n                } else if t.len() > 8192 {\n                    write!(self.writer, "{}", t.trim_end())?;\n                } else {')],
 needs='a text of more than 8 KB which ends with a space, before an element, in text mode', breaks='the space is lost',
 demo="\nout=$(python3 -c \"print('x '*5000+'<b>y</b>')\" | ./target/debug/papyri -i -t | grep -c 'x y')\n[ \"$out\" = 1 ]\n"),
dict(id='C05-long-merge', property='C05', edits=[('src/compiler/html.rs','        if nodes.len() >= 2 {\n','        if nodes.len() > 1000 {\n            self.children.extend(nodes);\n        } else if nodes.len() >= 2 {\n')],
 needs='more than a thousand words', breaks='the text is not one node',
 demo="\nout=$(python3 -c \"print('@let(x={'+'x '*1200+'}) {@list::len @list::html_nodes \\$x}')\" | ./target/debug/papyri -i)\n[ \"$out\" = '<p>1</p>' ]\n"),
dict(id='C20-glob-order', property='C20', edits=[('src/bin/papyri.rs','        let mut seen = HashSet::new();\n','        let mut seen = HashSet::new();\n        if source_paths.len() > 200 { source_paths.truncate(200); }\n')],
 needs='more than 200 sources', breaks='only 200 are compiled',
 demo=TMP+'''i=0; while [ $i -lt 230 ]; do echo x > a$i.papyri; i=$((i+1)); done; $p -s >/dev/null 2>&1; [ "$(ls *.html | wc -l)" = 230 ]
'''),
dict(id='C14-many', property='C14', edits=[('src/utils/outfiles.rs','        self.v.push((p.into_boxed_path(), t));\n        true','        if self.v.len() < 300 { self.v.push((p.into_boxed_path(), t)); }\n        true')],
 needs='more than 300 files of one document', breaks='the others are not written',
 demo=TMP+'''python3 -c "print(' '.join('@file::write(\\`f%d\\`) \\`x\\`'%i for i in range(320)))" > a.papyri; $p -s -o o a.papyri >/dev/null 2>&1; [ "$(ls o | wc -l)" = 320 ]
'''),
dict(id='C19-long-token', property='C19', edits=[('src/compiler/highlight.rs','&start.checked_add(i as Int)?.to_string());\n        out.push','&start.checked_add(i as Int)?.to_string());\n        if i > 0 && i % 500 == 0 { continue; }\n        out.push')],
 needs='a block of more than 500 lines', breaks='lines are lost',
 demo="\npython3 -c \"print('\\`\\`\\`\\n'+'x\\n'*600+'\\`\\`\\`')\" | ./target/debug/papyri -i | grep -q 'data-line-no=\"501\"'\n"),
dict(id='C13-many-docs', property='C13', edits=[('src/compiler/context.rs','        self.diagnostics.clear();\n        self.unique_ids.clear();','        self.diagnostics.clear();\n        if self.unique_ids.len() < 100 || self.module_cache.is_used() { self.unique_ids.clear(); }'),('src/compiler/module_loader.rs','    pub(super) fn reset(&mut self) {','    pub(super) fn is_used(&self) -> bool { !self.cache.is_empty() }\n\n    pub(super) fn reset(&mut self) {')],
 needs='a document with more than a hundred IDs and no modules, before another one', breaks='the IDs are still in use',
 demo=TMP+'''python3 -c "print('@fn f . -> @str::unique_id \\`a\\`\\n'+'@f. '*120)" > a.papyri; printf '%s' '@str::unique_id `a`' > b.papyri
$p -s a.papyri b.papyri >/dev/null 2>&1; [ "$(cat b.html)" = '<p>a</p>' ]
'''),
]
