#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "Every source text compiles or is diagnosed; never a panic or hang",
 "For every source text (any characters, valid or malformed syntax, with bounded nesting and no runaway recursion), compilation finishes and gives either output with no errors or at least one diagnostic that can be printed; it never panics, aborts or hangs. Source whose delimiters (brackets, tags, backtick strings, entities, escapes) are not properly closed always yields an error and never silently wrong output.",
 ["inputs"], "all source strings up to a length over an alphabet of syntax fragments covering every token kind, including multi-byte and malformed ones",
 "The tests compile about 200 hand-written, mostly well-formed ASCII snippets; totality is a statement about every string.",
 ["src/parser/tokenizer.rs", "src/parser/base.rs", "src/parser/text.rs", "src/parser/ast.rs", "src/errors/sink_base.rs"],
 [("tokenizer error recovery", "src/parser/tokenizer.rs next_token"), ("parser error reporting", "src/parser/base.rs"), ("escape and entity decoding", "src/parser/text.rs")],
 ["compile_str", "Context::compile_synthetic", "Diagnostics Debug output"])

prop("C02", "Plain text is reproduced faithfully, with only the documented changes",
 "Text written in a document comes out with every character exactly once and in order, changed only as documented: escapes and entities are decoded, quotes become curly (left after whitespace, an opening bracket, = or a > other than that of a closing tag; right otherwise), ellipses, dashes, arrows and the other symbol substitutions are applied leftmost-longest, whitespace runs collapse to one space, comments vanish, and blank lines separate paragraphs. Backtick strings are reproduced verbatim.",
 ["inputs"], "all texts up to a length over a token alphabet (letters, digits, every substitution, quotes, brackets, escapes, entities, comments, whitespace, paragraph breaks, non-ASCII)",
 "tests/text.rs checks each substitution once in isolation; interactions of adjacent tokens are combinatorial.",
 ["src/parser/tokenizer.rs", "src/parser/text.rs", "src/compiler/sequence.rs"],
 [("tokenizer", "src/parser/tokenizer.rs tokenize"), ("substitutions", "src/parser/text.rs substitutions"), ("whitespace and paragraphs", "src/compiler/sequence.rs SequenceBuilder")],
 ["rendered HTML text content"])

prop("C03", "Output is well-formed HTML and data never turns into markup",
 "Rendered HTML is well-formed: tags balance, void elements have no content or closing tag, no tag has the same attribute twice, and parsing it back gives exactly the element tree, attribute values and text that the document denotes. A string that reaches the output by any route (literal text, template, variable, argument, list or dict element, attribute value, spread attributes, file contents, HTML-escaping functions) appears only as text or as an attribute value, never as tags, attributes or entities.",
 ["inputs", "programs"], "all hostile strings up to a length over the markup-significant characters, crossed with every route by which a string can reach the output; all small element trees with attribute combinations",
 "Tests render a few fixed snippets; injection safety is a statement about every string on every route.",
 ["src/compiler/render.rs", "src/compiler/tag.rs", "src/utils/text.rs", "src/compiler/html.rs"],
 [("entity encoding", "src/utils/text.rs encode_entities"), ("tag rendering", "src/compiler/render.rs render_tag"), ("attribute merging", "src/compiler/tag.rs")],
 ["Context::render output re-parsed by an independent parser"])

prop("C04", "The HTML content model is enforced: wrapping, breaks, and block nesting",
 "For every combination of elements and content, the output obeys the documented content model: loose inline content in a document or block container is wrapped in paragraphs split at blank lines, list and table containers get their required child elements, inline-only elements get <br> at blank lines and reject block content with an error, head/title-like elements reject what they cannot hold, and void elements reject content. Nothing that is allowed is rejected, lost, duplicated or reordered.",
 ["programs"], "all parent elements known to the compiler x all child sequences up to a length over text, whitespace, blank lines, inline, block, list and table items, links and nested sequences",
 "tests/tag.rs samples a few parent/child pairs out of thousands.",
 ["src/compiler/sequence.rs", "src/utils/taginfo.rs", "src/compiler/tag.rs", "src/compiler/html.rs"],
 [("content kinds", "src/utils/taginfo.rs ContentKind::for_"), ("sequence builder", "src/compiler/sequence.rs SequenceBuilder")],
 ["rendered HTML", "diagnostics"])

prop("C05", "HTML values have one normal form: grouping and splicing never matter",
 "Building the same HTML content by different means (directly, in nested groups, through variables, functions, list splicing or joining) yields the same value: it renders identically, compares equal, has the same list of nodes, and matches the same patterns. Adjacent text is always one text node, empty content disappears, sequences never nest, and contents that differ compare unequal.",
 ["programs"], "all content sequences up to a length over text, whitespace, inline and block elements and empty values, in all groupings and construction routes",
 "Tests compare a handful of pairs; equality as a congruence over all constructions cannot be sampled.",
 ["src/compiler/html.rs", "src/compiler/value.rs", "src/compiler/value_convert.rs", "src/compiler/matcher.rs"],
 [("normalisation", "src/compiler/html.rs HTMLSeqBuilder"), ("text/HTML conversion", "src/compiler/value_convert.rs")],
 ["=value patterns", "list::html_nodes", "rendered HTML"])

prop("C06", "Types: annotations accept exactly their values, and coercion is sound",
 "A type pattern matches a value exactly when the value belongs to that type, and a parameter of a type accepts exactly the values that belong to it or have a documented conversion (bool and int to str, simple values to html, inline content to block by a paragraph, element-wise for lists and dicts), otherwise a type error is reported. What the function receives always belongs to the declared type, and values that already belong to it arrive unchanged.",
 ["inputs", "programs"], "all values up to a nesting depth over every value kind x all types up to a nesting depth",
 "tests/types.rs covers some (value, type) pairs of depth 1 of a relation with thousands.",
 ["src/compiler/types.rs", "src/parser/types.rs", "src/compiler/matcher.rs", "src/compiler/signature.rs"],
 [("assignability", "src/compiler/types.rs check_value"), ("coercion", "src/compiler/types.rs coerce_value"), ("type parsing and normalisation", "src/parser/types.rs")],
 ["type patterns in @match", "typed parameters", "diagnostics"])

prop("C07", "Calls bind every argument to the right parameter, or report an error",
 "For every signature (positional, named, optional, default, implicit, spread and content parameters) and every call (positional and named arguments, spreads, content, and stages of partial application), the function runs with each parameter bound to the argument the call rules assign to it, its default, or the implicit value in scope; if no such assignment exists an error is reported and the function does not run. Supplying arguments in several stages through partial application gives the same result as supplying them in one call.",
 ["programs"], "all signatures up to a size x all call shapes up to a size x all splits into partial applications",
 "tests/func.rs exercises a few dozen pairs of signature and call.",
 ["src/compiler/signature.rs", "src/compiler/func.rs", "src/parser/func.rs"],
 [("parameter binder", "src/compiler/signature.rs"), ("partial application", "src/compiler/func.rs")],
 ["rendered values of the parameters", "diagnostics"])

prop("C08", "Names resolve lexically; implicits dynamically; closures keep their scope",
 "Every use of a variable or function denotes the innermost enclosing declaration at the place where the code was written (let, parameter, function name, match binding, or top level), closures keep the bindings of the scope that created them, bindings end with the block, branch or call that made them, and an undefined name is an error. Implicit parameters take the nearest implicit binding visible at the place of the call, and exports are exactly the exported bindings.",
 ["programs"], "all programs up to a size over let, implicit let, functions, closures, calls, match branches, exports and shadowing with two names",
 "Tests contain a few dozen fixed scoping snippets; the interactions of shadowing, closures and branches are combinatorial.",
 ["src/compiler/frame.rs", "src/compiler/func.rs", "src/compiler/value.rs", "src/compiler/matcher.rs", "src/compiler/exports.rs", "src/compiler/names.rs"],
 [("frames", "src/compiler/frame.rs"), ("closures", "src/compiler/func.rs"), ("match branches", "src/compiler/matcher.rs")],
 ["rendered values", "exported bindings", "diagnostics"])

prop("C09", "Pattern matching takes the first matching branch and binds its parts",
 "A match evaluates the first branch whose pattern the value satisfies, with every pattern variable bound to exactly the corresponding part of the value (list and dict rest patterns included), and reports an error if no branch matches. A pattern that fails part-way leaves no bindings behind for later alternatives or branches.",
 ["programs", "inputs"], "all values up to a depth x all patterns up to a size (literals, variables, wildcards, equality, types, lists and dicts with rest patterns, and/or, templates, regex, tags with attributes and content, HTML sequences) and short branch lists",
 "tests/matcher.rs samples a few pairs of pattern and value.",
 ["src/compiler/matcher.rs", "src/parser/matcher.rs"],
 [("pattern evaluation", "src/compiler/matcher.rs"), ("pattern parsing", "src/parser/matcher.rs")],
 ["rendered branch results", "diagnostics"])

prop("C10", "Standard library functions compute what they say on every input",
 "The list, dict, str, int, bool, regex and html functions of the standard library return the mathematically expected result on every argument (slicing, indexing with negative numbers, sorting stably with keys and in reverse, splitting, trimming, searching, mapping, filtering, joining, enumerating, integer arithmetic and parsing), report an error on arguments outside their domain, and never change the argument.",
 ["inputs"], "all lists up to a length, all index pairs around and beyond the bounds, all strings up to a length over a small alphabet, boundary integers, for every function",
 "tests/native.rs, list.rs and str.rs check one or two inputs per function.",
 ["src/compiler/native.rs", "src/std.papyri", "src/utils/sliceref.rs", "src/compiler/regex_value.rs"],
 [("native functions", "src/compiler/native.rs"), ("slices", "src/utils/sliceref.rs"), ("sorting", "src/compiler/native.rs native_sorted_impl")],
 ["rendered results", "diagnostics"])

prop("C11", "Unique IDs are distinct, valid, lowercase and within the length limit",
 "Within one document every ID generated is different from all those generated before it, is a lowercase identifier ([a-z_][a-z0-9_]*), and is no longer than the given maximum unless the numeric suffix makes that impossible; the first request for a base that is itself a short lowercase identifier returns it unchanged. A new document starts afresh.",
 ["histories", "inputs"], "all sequences of requests up to a length over bases (identifiers, upper case, non-identifiers, non-ASCII, suffix-like names) and length limits",
 "The tests generate a few IDs in one fixed order; distinctness is a property of every history.",
 ["src/utils/text.rs", "src/compiler/native.rs"],
 [("ID generator", "src/utils/text.rs UniqueIDGenerator"), ("identifier normalisation", "src/utils/text.rs make_identifier")],
 ["str::unique_id results"], [("ids_used", "IDs issued in this document", "src/utils/text.rs")])

prop("C12", "Modules: each is compiled once, cycles and failures are diagnosed",
 "For every import graph, each module is compiled at most once per document however often and by whatever path it is imported or included, its exports (import) or its output and bindings (include) are those the module defines, and paths resolve relative to the importing file. A cycle, a missing module, or a module with errors makes the compilation fail with a diagnostic rather than loop or pass.",
 ["programs", "histories"], "all directed import/include graphs (with self-loops and parallel edges) over up to four modules, with each module fine, faulty or missing",
 "No test has more than one module; the tests never touch import graphs.",
 ["src/compiler/module_loader.rs", "src/compiler/native.rs", "src/compiler/exports.rs"],
 [("module cache state machine", "src/compiler/module_loader.rs load_cached"), ("path resolution", "src/compiler/native.rs resolve_relative_path")],
 ["output", "exports", "diagnostics", "open() calls"], [("ModuleState", "NotLoaded/Busy/Loaded/Error", "src/compiler/module_loader.rs")])

prop("C13", "Batch results do not depend on what was compiled before",
 "Compiling a source file in a batch, after any other files in any order, gives exactly the output, files and success or failure that compiling it alone gives. No variable, unique ID, pending output file, diagnostic or module state leaks from one document to the next.",
 ["histories"], "all ordered selections of documents up to a length from a pool that includes failing, importing, ID-generating and file-writing documents",
 "Every test compiles in a fresh context; nothing tests reuse.",
 ["src/compiler/context.rs", "src/compiler/module_loader.rs", "src/bin/papyri.rs", "src/utils/outfiles.rs", "src/utils/string_pool.rs"],
 [("reset", "src/compiler/context.rs reset"), ("module cache", "src/compiler/module_loader.rs"), ("string pool", "src/utils/string_pool.rs")],
 ["per-file output and diagnostics"])

prop("C14", "Documents can only write inside the output directory",
 "Whatever path a document gives, files are written only strictly inside the output directory (lexically), at the path that the given path denotes relative to it, and paths that lead elsewhere are rejected with an error. Nothing is written without an output directory, from an imported module, or when the document has errors.",
 ["inputs", "configurations"], "all paths up to a number of segments over names, '.', '..', empty segments and absolute prefixes x spellings of the output directory x document kinds",
 "No test writes files.",
 ["src/utils/outfiles.rs", "src/utils/relpath.rs", "src/compiler/context.rs", "src/compiler/native.rs", "src/bin/papyri.rs"],
 [("containment", "src/utils/relpath.rs make_relative"), ("collector", "src/utils/outfiles.rs try_push")],
 ["Context::out_files", "files created by the command", "diagnostics"])

prop("C15", "The command reports success only if every output is complete",
 "If the command exits with status 0, every output it was to produce exists with exactly the complete correct content, whatever single file-system operation failed along the way; if an operation it depended on failed, it exits non-zero with a message. A document with errors produces none of its output files and the status is non-zero.",
 ["fault_sequences", "configurations"], "every file-system call of a run (open, read, write, mkdir, rename, stat, ...) failing with each applicable error, one and two at a time, over several batches and option sets",
 "No test runs the command at all.",
 ["src/bin/papyri.rs", "src/compiler/render.rs", "src/compiler/module_loader.rs"],
 [("output writing", "src/bin/papyri.rs write_out_file"), ("result accounting", "src/bin/papyri.rs run")],
 ["exit status", "stderr", "file tree after the run"])

prop("C16", "Killing the command never makes --skip-unchanged keep a torn output",
 "If the command is killed at any point of a run and is then run again with --skip-unchanged, all outputs end up exactly as an uninterrupted run would have left them. An output file that exists at its final name after a kill is either the previous or the new complete version.",
 ["crash_points", "histories"], "every file-system call of a run as a kill point (including part-way through a write), over first builds and rebuilds with changed sources",
 "No test runs the command; crash points are not reachable from unit tests.",
 ["src/bin/papyri.rs"],
 [("output writing", "src/bin/papyri.rs write_out_file"), ("freshness", "src/bin/papyri.rs is_unchanged")],
 ["file tree after kill and after re-run"])

prop("C17", "compile_str has no access to files or the network",
 "For every program compiled with compile_str, no file is read, listed, written or imported and no network connection is made: such attempts are reported as errors and no information about the file system reaches the output.",
 ["programs"], "every function that can reach files or the network x every way of calling it (direct, aliased, partially applied, as a callback, in a pattern or default) x existing, missing, directory and special paths",
 "No test tries file or network access in compile_str.",
 ["src/lib.rs", "src/compiler/context.rs", "src/compiler/module_loader.rs", "src/compiler/native.rs"],
 [("IO guard", "src/compiler/context.rs"), ("network guard", "src/compiler/native.rs native_fetch_impl")],
 ["compile_str result", "recorded system calls"])

prop("C18", "Diagnostics point at the right line and column",
 "Every diagnostic names the source file and the line and column (counted in characters) where the offending code starts, and the trace names the calls that led there, wherever the code stands in the file. Inserting text before it moves the reported position by exactly that text and changes nothing else.",
 ["inputs"], "every kind of error and warning x prefixes up to a length over letters, newlines, carriage returns, tabs, multi-byte characters, comments and code",
 "The tests only check that some diagnostic of the expected kind exists; positions are never checked.",
 ["src/utils/sourcefile.rs", "src/errors/sink_base.rs", "src/parser/base.rs", "src/compiler/frame.rs"],
 [("line/column table", "src/utils/sourcefile.rs index_to_line_col"), ("stack traces", "src/compiler/frame.rs stack_trace")],
 ["Diagnostics Debug output"])

prop("C19", "Code blocks and inline code show the code unchanged",
 "For every code text and every supported language, the text content of highlighted code equals the source (with common indentation and surrounding blank lines removed for blocks): nothing is lost, added, reordered or left unescaped. In code blocks each line is one numbered line element, with consecutive numbers from the first line number, and matching brackets carry the same number.",
 ["inputs", "configurations"], "all code texts up to a length over a token alphabet (brackets, quotes, comments, operators, indentation, blank lines, non-ASCII) x all languages x inline, block and plain",
 "Tests highlight two or three snippets.",
 ["src/compiler/highlight.rs", "src/compiler/highlight_papyri.rs", "src/utils/text.rs", "src/compiler/native.rs"],
 [("highlighting", "src/compiler/highlight.rs syntax_highlight"), ("dedenting", "src/utils/text.rs fix_indentation"), ("line numbering", "src/compiler/highlight.rs enumerate_lines")],
 ["text content and structure of the rendered code element"])

prop("C20", "The command compiles exactly the selected sources to the right places",
 "For every combination of path arguments (files, directories, globs, none), --out, --text and --skip-unchanged, the command compiles exactly the Papyri source files that were selected (libraries excluded, each once), writes each result at its source's relative path under the output directory with the right extension, skips exactly those sources whose output is not older when asked to, and reports counts and exit status that agree with what happened.",
 ["configurations", "histories"], "all subsets of a pool of path arguments up to a size x all option sets x file trees with libraries, nested directories, odd names, stale and fresh outputs",
 "No test runs the command.",
 ["src/bin/papyri.rs", "src/utils/relpath.rs", "src/utils/sourcefile.rs"],
 [("source selection", "src/bin/papyri.rs get_source_paths"), ("output path mapping", "src/bin/papyri.rs get_out_path"), ("freshness", "src/bin/papyri.rs is_unchanged")],
 ["file tree after the run", "stdout", "exit status"])

prop("C21", "Plain-text output carries the same text as the HTML output",
 "In text mode the output is exactly the document's text content, unescaped and in order, with no tags, attributes or entities, followed by the documented line breaks after block elements, paragraphs and rules. It contains all the text the HTML output contains.",
 ["programs", "inputs"], "all element trees up to a size over paragraph, rule, block, inline and void elements and texts with markup-significant characters",
 "Tests never render plain text.",
 ["src/compiler/render.rs"],
 [("text rendering", "src/compiler/render.rs")],
 ["Context::render with as_html = false"])

prop("C22", "Parsing HTML source and rendering it back preserves the document",
 "html::parse turns every valid HTML document into the corresponding tree of elements, attributes and text, so that rendering it gives a document that denotes the same tree, with text and attribute values escaped again; text that looks like markup inside it stays text. Documents it cannot represent are reported as errors.",
 ["inputs"], "all HTML documents up to a size over elements, attributes, text with entities, comments and void elements",
 "One test parses one document.",
 ["src/compiler/html_parse.rs", "src/compiler/render.rs", "src/compiler/tag.rs"],
 [("parsing", "src/compiler/html_parse.rs")],
 ["html::parse result rendered and re-parsed independently"])

prop("C23", "File functions read the right files whole and list exactly the sources",
 "file::read gives exactly the text of the file that its path names relative to the source in which the call is written (wherever the function was defined, passed or run from), as the file is at that moment, or an error when there is no such file or it is not UTF-8. file::list gives exactly the Papyri sources (any case of extension, any depth) below a directory, each once, in the order of their paths, each as a path (the given path followed by the place in the directory, normally without .papyri) which leads to that source when it is given to import or include; or an error when a part of the directory cannot be searched.",
 ["inputs", "histories"], "all sets of entries of a directory over an alphabet of names, kinds and links x spellings of its path; all contents up to a length; all call sites x paths x working directories; all histories of changes and compilations up to a length",
 "No test calls these functions at all; which file a path names depends on every combination of caller, path and directory.",
 ["src/compiler/native.rs", "src/utils/relpath.rs", "src/utils/sourcefile.rs"],
 [("file functions", "src/compiler/native.rs FILE"), ("relative paths", "src/compiler/native.rs resolve_relative_path"), ("search for sources", "src/utils/relpath.rs find_papyri_source_files_in_dir")],
 ["output and diagnostics of Context::load_uncached", "papyri command"])

prop("C24", "The network is used only with --allow-http, and responses are taken whole",
 "The papyri command makes no network connection unless --allow-http is given; without it every executed call of net::fetch_raw or net::fetch_html is an error. With it, nothing is requested except what executed calls ask for, once for each call and in order; fetch_raw gives exactly the text of the response and fetch_html what html::parse gives for it. When the request fails, the response is malformed or the connection ends before the response is complete, an error is reported, the exit status is 1 and no output is written for the document.",
 ["inputs", "fault_sequences"], "all response bodies up to a length in every framing; every prefix of a response; malformed responses and redirections; all documents that ask, and pairs of them, with and without the option, in every mode of the command",
 "No test uses the network functions; a lost connection can happen after any byte.",
 ["src/compiler/native.rs", "src/bin/papyri.rs", "src/compiler/html_parse.rs"],
 [("fetching", "src/compiler/native.rs native_fetch_impl"), ("the option", "src/bin/papyri.rs Main::new"), ("parsing", "src/compiler/html_parse.rs HTML::parse")],
 ["papyri command: exit status, output files, connections seen by a loopback server"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
