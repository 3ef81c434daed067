exec(open('/verif/tools/dev/b5.py').read().split('BUGS=[')[0])
BUGS=[
dict(id='C12-set-extension', property='C12', edits=[('src/compiler/native.rs','            path.push(format!("{relative_path}.papyri"));','            path.push(relative_path);\n            path.set_extension("papyri");')],
 needs='an import of a module with a dot in its name, without the extension', breaks='another module is imported, or none',
 demo=TMP+'''printf '%s' '@export(v=`1`).' > m.lib.papyri
printf '%s' '@let(a=@import`m.lib`) {$a::v}' > a.papyri
$p a.papyri >/dev/null 2>&1; [ "$(cat a.html)" = '<p>1</p>' ]
'''),
dict(id='C14-join-abs', property='C14', edits=[('src/utils/relpath.rs','    base.join(rel)\n        .normalize()','    base.join(rel)\n        .components()\n        .filter(|c| !matches!(c, std::path::Component::ParentDir))\n        .collect::<PathBuf>()')],
 needs='an output path with `..`', breaks='the path is not refused, but another file is written',
 demo=TMP+'''mkdir out; printf '%s' '@file::write(`../x`) y' > a.papyri
$p -o out a.papyri >/dev/null 2>&1; [ $? = 1 ] && [ ! -e out/x ]
'''),
]
