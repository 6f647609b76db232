import json
T="crates/brack-tokenizer/src/"; P="crates/brack-parser/src/"; X="crates/brack-transformer/src/"; L="crates/brack-language-server/src/"; PM="crates/brack-project-manager/src/"; PL="crates/brack-plugin/src/"; G="crates/brack-codegen/src/"; E="crates/brack-expander/src/"
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    return d
ps=[
p("C01","Tokenizing loses nothing",
 "For every UTF-8 text, the token sequence spells the text out exactly: concatenating the source text of the tokens in order gives back the document with nothing lost, duplicated or reordered. The sequence ends with exactly one end-of-file token, and no end-of-file token occurs earlier, whatever characters (control characters, combining marks, emoji, NUL) the text contains.",
 ["inputs"],"all UTF-8 texts, well-formed Brack or not, with any characters, line endings and bracket structure",
 "The ten tokenizer tests compare nine fixed fixture files; none has an unbalanced bracket next to an escape, a control character, a combining mark or more than a few dozen characters.",
 [T+"dispatch.rs",T+"utils.rs",T+"text.rs",T+"module.rs",T+"identifier.rs",T+"backslash.rs",T+"newline.rs"],
 [("one grapheme moved from the untreated text to the pool or a token per step",T+"dispatch.rs"),("pool flushed into Text/Module/Ident before every special character",T+"text.rs")],
 ["tokenize_str/tokenize return value","brack compile --output-level 1 --json"],
 [("untreated","text not yet read",T+"tokenizer.rs"),("pool","characters read but not yet in a token",T+"tokenizer.rs")]),
p("C02","Token positions are the true source positions",
 "For every UTF-8 text, each token's start and end are the zero-based line and user-perceived-character column at which its text begins and ends in the source. Tokens therefore tile the document: each starts where the previous one ended, or at column 0 of the next line after a line break, and an LF or CRLF line break is one newline token.",
 ["inputs"],"all UTF-8 texts, including multi-byte, combining and emoji graphemes, escapes and CRLF line ends",
 "The fixtures check absolute positions of a handful of tokens on at most six lines; a wrong column after an escape, a wide grapheme or a line break elsewhere is never sampled.",
 [T+"dispatch.rs",T+"newline.rs",T+"text.rs",T+"tokens.rs"],
 [("column advances by one per grapheme, line/column reset on newline",T+"newline.rs"),("token_start_column re-armed after every token",T+"text.rs")],
 ["Token::get_location","brack compile --output-level 1 --json"],
 [("line/column/token_start_*","cursor and start of the pending token",T+"tokenizer.rs")]),
p("C03","Token kinds follow the command context",
 "Unescaped brackets are always bracket tokens; dots, commas and spaces are separator tokens exactly while a command is open and plain text otherwise; in the head of a command (which ends at a space or the closing bracket) the part before the dot is the module and the part after it the identifier, including when either is itself a macro. A backslash-escaped bracket, dot, comma or backslash never opens or closes a command and never changes how anything after it is read.",
 ["inputs"],"all well-formed documents (any nesting of the three command kinds, any escapes in text and arguments, any unicode names and text)",
 "Tests fix one escape form inside an argument and two nesting shapes; the context carried by the tokenizer across the rest of the document is only observable on inputs that continue after an escape or after nested commands.",
 [T+"dispatch.rs",T+"backslash.rs",T+"angle_bracket_close.rs",T+"identifier.rs",T+"module.rs"],
 [("nest counters and looking_for_identifier flag",T+"dispatch.rs"),("escaped character consumed together with its backslash",T+"backslash.rs")],
 ["tokenize_str return value"],
 [("angle/square/curly_nest_count","open commands",T+"tokenizer.rs"),("looking_for_identifier","inside a command head",T+"tokenizer.rs")]),
p("C04","The syntax tree is a lossless, properly nested tree",
 "Whenever parsing succeeds, the leaves of the concrete syntax tree read left to right are exactly the tokens (escapes appearing as a backslash node owning the escaped character), and every node is of a shape the CST grammar allows: bracket nodes begin with their own opening bracket and contain only a matching closing bracket, at the end. Every well-formed document, including one with leading or trailing blank lines, parses; its statements are separated exactly by blank lines and their lines exactly by single line breaks.",
 ["inputs"],"all token sequences the tokenizer can produce; for the second half all well-formed documents",
 "Parser tests feed single hand-made token lists to sub-parsers and never call the document parser; token loss or mis-nesting across statements, brackets and blank lines is not observable there.",
 [P+"parse.rs",P+"stmt.rs",P+"expr.rs",P+"square.rs",P+"curly.rs",P+"angle.rs",P+"escaped.rs","brack.cst.ebnf"],
 [("recursive descent over a borrowed token slice",P+"parse.rs"),("bracket loop (expr | newline)* close?",P+"square.rs")],
 ["brack_parser::parse::parse return value","brack compile --output-level 2 --json"]),
p("C05","The AST says what the document says",
 "For every well-formed document the abstract syntax tree is exactly the structure written: statements, lines, commands with kind, module, name and comma-separated arguments, with text un-escaped and character-for-character intact. Spaces inside an argument are kept and only leading and trailing spaces of an argument are dropped. The tree does not depend on layout choices: spaces around commas, line breaks inside a command, extra blank lines, LF or CRLF.",
 ["inputs"],"all abstract documents and all ways of writing each one down",
 "There is no transformer test at all; the only one is commented out.",
 [X+"transform.rs",X+"utils.rs",X+"square.rs",X+"curly.rs",X+"angle.rs",X+"backslash.rs",P+"escaped.rs","brack.ast.ebnf"],
 [("argument splitting at commas",X+"utils.rs check_valid_arguments"),("separator removal",X+"utils.rs remove_*"),("CST to AST mapping",X+"transform.rs")],
 ["transform return value","brack compile --output-level 3 --json"]),
p("C06","Node spans cover exactly their source",
 "In the concrete and abstract syntax trees of every well-formed document, each node's location starts where its first source character starts and ends where its last source character ends; in particular a parent's span is the union of its children's, siblings are ordered and disjoint, and the text of a leaf is found at its span.",
 ["inputs"],"all well-formed documents, with nodes on any line and column, multi-line commands and multi-line statements",
 "All parser tests use the same mock location for every token, so no test can see any span.",
 [P+"cst.rs",T+"tokens.rs",P+"expr.rs",P+"square.rs",X+"utils.rs",X+"transform.rs"],
 [("location union on add",P+"cst.rs CST::add"),("merge_location",T+"tokens.rs")],
 ["CST::location","AST node locations in JSON output"]),
p("C07","Diagnostics are sound, complete and point at the fault",
 "A well-formed document produces no diagnostics. A document with one syntax fault (unclosed command, missing module, dot or identifier, stray dot in an argument, empty argument or trailing comma, backslash before an ordinary character, closing bracket alone on a line) still parses and produces at least one diagnostic naming that fault with a range that covers the fault's position; faults of different commands, side by side or one inside another, are each named. No document that is not well-formed parses without a diagnostic, and no diagnostic range falls outside the document or ends before it starts.",
 ["inputs","fault_sequences"],"all well-formed documents and every single fault inserted at every possible place of them",
 "No test looks at a diagnostic; diagnostics depend on where in the nesting and on which line the fault lies.",
 [X+"utils.rs",X+"error.rs",X+"square.rs",X+"curly.rs",X+"angle.rs",X+"backslash.rs",T+"tokens.rs"],
 [("check_if_* and check_valid_arguments",X+"utils.rs"),("check_if_the_first_and_last_node_are_brackets",X+"square.rs")],
 ["transform errors","textDocument/publishDiagnostics"]),
p("C08","No document can crash the compiler",
 "For every UTF-8 document up to 64 KiB and 100 levels of nesting, well-formed or not, with or without plugins loaded, every stage (tokenize, parse, transform, expand, generate, and the compile command at every output level) finishes with a result or a reported error. It never panics, overflows the stack, overflows arithmetic or aborts.",
 ["inputs"],"all UTF-8 documents within the size and nesting bound, biased to unbalanced, truncated and escaped bracket structure",
 "The tests contain four malformed inputs, none of which goes past the tokenizer, and no document longer than 90 characters.",
 [T+"dispatch.rs",P+"parse.rs",X+"transform.rs",X+"utils.rs",E+"expand.rs",G+"generate.rs","src/main.rs"],
 [("tokenizer loop with bounded stack",T+"dispatch.rs"),("errors collected instead of panicking",X+"simplify.rs")],
 ["process exit status of brack compile","unwinding/abort of the library calls"]),
p("C09","Macros are expanded in place, once, in order",
 "Every outermost macro call of a document is executed exactly once, in document order, by the plugin it names, and is given the whole unexpanded document tree plus the id of its own node in that tree. The tree used for generation is the original tree with each such call replaced by what the macro returned and everything else untouched; a document without macros is unchanged. If any macro call fails, expansion fails.",
 ["inputs","programs"],"all ASTs with any number of macros at any depth (statement level, inside arguments, in place of a module or name) and macros returning any tree",
 "The expander crate has no tests.",
 [E+"expand.rs",PL+"plugins.rs",X+"ast.rs"],
 [("expand_other/expand_angle recursion",E+"expand.rs"),("call_macro_command",PL+"plugins.rs")],
 ["expander return value","input bytes received by an instrumented macro plugin","brack compile --output-level 4 --json"]),
p("C10","Generation evaluates the document compositionally",
 "Generated output is the in-order concatenation of the document's parts, where each command is called exactly once, after its arguments and before anything to its right, with the already generated text of its arguments, and its result is used verbatim. When a text, expr, stmt or document hook is enabled it is applied exactly once to the generated text of every node of that kind and of no other; without hooks text passes through unchanged. No text is lost, duplicated, escaped or reordered.",
 ["inputs","configurations"],"all well-formed ASTs x all 16 combinations of enabled hooks x hooks and commands spread over several plugins",
 "The codegen crate has no tests, and no test loads a plugin.",
 [G+"generate.rs",G+"stmt.rs",G+"expr.rs",G+"text.rs",G+"square.rs",G+"curly.rs",PL+"plugins.rs"],
 [("one generate function per node kind",G+"generate.rs"),("call_*_hook",PL+"plugins.rs")],
 ["generate return value","call log of an instrumented plugin"]),
p("C11","Arguments are bound by the declared signature",
 "For every signature of required, optional and array parameters and every number of supplied arguments, a command called with fewer arguments than it requires or more than it accepts is rejected with an error and not executed. Otherwise each parameter receives the argument at its own position, in order: required parameters the text, optional parameters the text or none, an array parameter all remaining arguments (possibly none). No signature and argument count makes the compiler crash.",
 ["inputs","configurations"],"all signatures up to 4 parameters over {required, optional, array} x argument counts 0..6 x inline and block commands; larger ones by sampling",
 "arg_counter and the binding loops are untested; the interesting cases are combinations of signature shape and argument count.",
 [PL+"types.rs",G+"square.rs",G+"curly.rs"],
 [("arg_counter",PL+"types.rs"),("argument loop over arg_types",G+"square.rs")],
 ["JSON argument list received by the plugin","generate error"]),
p("C12","Calls resolve by module, name and kind only",
 "A square call runs the inline command, a curly call the block command and an angle call the macro with exactly the named module and name, even when several modules or several kinds declare the same name, and in whatever order plugins are loaded. A call naming an unknown module, or a name the module does not declare with that kind, is an error. At most one plugin may own each hook; enabling a hook a plugin does not declare with the required kind, or enabling it in two plugins, is rejected when plugins are loaded.",
 ["inputs","configurations"],"all plugin sets with overlapping names and kinds, all hook-flag combinations, all calls to present and absent commands",
 "No test constructs a plugin or a plugin set.",
 [PL+"plugin.rs",PL+"plugins.rs"],
 [("signature_to_metadata keyed by (name, kind)",PL+"plugin.rs"),("hook validation",PL+"plugin.rs"),("single-owner check",PL+"plugins.rs")],
 ["result or error of Plugin::new, Plugins::new, generate, expander"],
 [("signature_to_metadata","command table of one plugin",PL+"plugin.rs"),("name_to_plugin","module table",PL+"plugins.rs")]),
p("C13","A failing plugin fails the build, visibly and alone",
 "If loading a plugin, or any command, hook or macro call, fails (missing export, trap, reported error, non-UTF-8 or malformed result) then compile and build end with an error and non-zero status, print no document output, and leave the sources and configuration untouched. Calls that succeeded or failed earlier never change the result of a later call of a command whose answer depends only on its input.",
 ["fault_sequences","inputs"],"every plugin call of a document made to fail in every way, singly and in sequences",
 "No test makes a plugin fail.",
 [PL+"plugin.rs",PL+"plugins.rs",G+"generate.rs",PM+"project.rs","src/main.rs"],
 [("error propagation with ?",PL+"plugins.rs"),("exit status from main",'src/main.rs')],
 ["exit status, stdout and stderr of brack compile/build","generate result after a failed call"]),
p("C14","Plugins cannot reach the host",
 "Code in a plugin cannot read, create, change or list files of the host, open network connections, read the host's environment variables or command line, or read the compiler's standard input or write to its standard output, whatever WASI or host call it tries during compile, build or language-server use.",
 ["programs"],"plugins that try every file, environment, argument, output and network entry point of the host interface",
 "No test loads a plugin, let alone a hostile one.",
 [PL+"plugin.rs"],
 [("Extism plugin created with no allowed paths, hosts or host functions",PL+"plugin.rs Plugin::new")],
 ["return codes seen inside a hostile plugin","host file system, listening socket and stdout afterwards"]),
p("C15","Build writes exactly the compiled documents",
 "A successful build writes, for every Brack document directly in the docs directory, one file in out named after it with the configured backend as extension, whose content is that document compiled alone with the configured plugins and hooks (for commands whose answer depends only on their input, as plugin instances are shared within a build); it changes no other file of the project, and building again gives byte-identical files. A build with any failing document (syntax error, failing command) exits non-zero and never reports success.",
 ["inputs","configurations","histories"],"all projects: any set of documents and other files, backends, plugin sets and hook flags, repeated builds, edits between builds",
 "The project manager has no tests.",
 [PM+"project.rs","src/main.rs"],
 [("loop over docs entries with extension filter",PM+"project.rs build"),("out/<stem>.<backend>",PM+"project.rs build")],
 ["file tree before and after brack build","exit status"]),
p("C16","Configured plugins are exactly the downloaded ones",
 "After a successful build each plugin in use is byte-for-byte the artefact served for its own configured owner, repository, version, name and backend, however the concurrent downloads interleave. A plugin already fetched for an identical configuration is not requested again, while changing version, owner, repository or backend makes the build use the newly named artefact. If a download fails, is cut short or cannot be stored, the build fails and a later build recovers by itself.",
 ["schedules","fault_sequences","crash_points","histories"],"all completion orders of concurrent downloads, HTTP failures, truncated bodies, storage failing after any number of bytes, and histories of configuration changes between builds",
 "No test touches the network or the plugins directory.",
 [PM+"project.rs",PM+"plugin.rs"],
 [("cache path from name and configuration hash",PM+"project.rs"),("join_all over download tasks",PM+"project.rs"),("store then use",PM+"project.rs")],
 ["requests seen by a recording server","plugins directory content","build output"],
 [("plugins/<name>_<hash>.wasm","download cache",PM+"project.rs")]),
p("C17","Adding a plugin is all-or-nothing",
 "On success brack add stores the plugin file exactly as served and adds one entry with the given owner, repository and version to Brack.toml, keeping every existing document field, plugin entry and hook flag. On any failure (malformed or unsupported schema, existing plugin, HTTP error, cut connection, storage failing at any byte) it exits non-zero and Brack.toml is byte-identical to before.",
 ["inputs","fault_sequences","crash_points"],"all existing configurations, all schema strings, all HTTP and storage faults",
 "add_plugin has no test.",
 [PM+"plugin.rs",PM+"config.rs"],
 [("configuration re-serialised after the download succeeded",PM+"plugin.rs add_plugin")],
 ["Brack.toml and plugins directory before and after brack add","exit status","requests seen by a recording server"]),
p("C18","New projects are complete and never overwrite",
 "brack new creates, for every name usable as a directory name, a project directory holding an empty main document, a Brack.toml that loads with exactly that project name, and an ignore file for plugins and out. If anything already exists at that path it fails and changes nothing.",
 ["inputs"],"all names (quotes, backslashes, spaces, unicode, control characters, existing files and directories)",
 "No test runs the command.",
 ["src/main.rs",PM+"config.rs"],
 [("create_dir refuses existing paths","src/main.rs new_project"),("Brack.toml template","src/main.rs new_project")],
 ["file tree and exit status after brack new","Project::load_brack_toml on the result"]),
p("C19","Message framing is independent of chunking",
 "However the bytes of a client session are split or batched by the transport (one byte at a time, in the middle of a header or of a multi-byte character, several messages in one read, any standard header fields in any order), the language server processes every message exactly once, in order, as soon as its last byte has arrived, without waiting for further input. Everything it writes to standard output is a sequence of well-framed JSON-RPC messages with exact byte lengths.",
 ["schedules","inputs"],"all sessions x all ways of chunking their byte stream",
 "The language server has no tests; chunk boundaries come from the transport.",
 [L+"server.rs"],
 [("accumulate buffer, parse header, drain",L+"server.rs run"),("Content-Length framing of replies",L+"server.rs send_message")],
 ["stdin/stdout byte streams of brack language-server"],
 [("buffer","bytes received and not yet consumed",L+"server.rs run")]),
p("C20","Every request is answered once and nothing kills the server",
 "For every sequence of JSON-RPC messages each request (numeric or string id) gets exactly one response carrying its id, a result or an error, notifications get none, and responses come in request order. Malformed JSON, missing or ill-typed parameters, unknown methods, missing files, documents of any content and failing plugin downloads never terminate the server: it keeps answering until its input ends and then exits with status 0.",
 ["histories","inputs"],"all message sequences mixing valid, invalid and unknown requests and notifications over documents of any content",
 "The language server has no tests.",
 [L+"server.rs",L+"request.rs",L+"notification.rs",L+"request/completion.rs",L+"request/semantic_tokens.rs",L+"notification/did_save.rs",L+"notification/did_open.rs"],
 [("dispatch by id and method",L+"server.rs dispatch"),("error responses",L+"server.rs send_error_response")],
 ["stdin/stdout message log of brack language-server","server exit status"]),
p("C21","Semantic tokens decode to the document's tokens",
 "The semantic tokens returned for a document decode, by the LSP delta rules, to non-overlapping ranges in increasing order that are exactly the ranges of the document's tokens in UTF-16 units; modules, identifiers and the three bracket kinds carry the legend entry advertised for them and other tokens carry none of these.",
 ["inputs"],"all document contents, including wide and multi-unit characters, empty documents and malformed commands",
 "The language server has no tests; delta encoding and unit conversion depend on every preceding token.",
 [L+"request/semantic_tokens.rs",L+"request.rs"],
 [("delta encoding",L+"request/semantic_tokens.rs separate"),("legend",L+"request.rs")],
 ["textDocument/semanticTokens/full responses and the initialize legend"]),
p("C22","Published diagnostics are those of the saved file",
 "After each save notification a client that announced support for published diagnostics gets exactly one publish message for the saved document's own URI, listing exactly the compiler's diagnostics for the file's current content with ranges in UTF-16 units, and an empty list once the document is well-formed. A client that did not announce support gets none.",
 ["histories","inputs"],"all histories of edits and saves over several documents, all contents",
 "The language server has no tests.",
 [L+"notification/did_save.rs",L+"server.rs"],
 [("re-read, re-tokenize and transform on save",L+"notification/did_save.rs"),("capability gate",L+"server.rs send_publish_diagnostics")],
 ["textDocument/publishDiagnostics messages"]),
p("C23","Completion offers exactly the callable commands",
 "With a project open (as it was configured when a document of it was last opened), completion triggered by an opening square, curly or angle bracket offers exactly the inline commands, block commands or macros of the configured plugins, each once, inserting module, dot, name and the closing bracket matching the trigger. No other trigger offers commands and without a project none are offered.",
 ["configurations","histories"],"all plugin sets with overlapping names and kinds, all triggers, before and after opening a project",
 "The language server has no tests.",
 [L+"request/completion.rs",L+"notification/did_open.rs",PM+"project.rs"],
 [("filter by trigger and kind",L+"request/completion.rs"),("project loaded on didOpen",L+"notification/did_open.rs")],
 ["textDocument/completion responses"]),
p("C24","Compile stages agree and are deterministic",
 "For every document, the JSON printed at output levels 1 to 4 deserialises to the same tokens, CST, AST and expanded AST (up to node ids) the library stages produce, each level is the next stage applied to the previous one, and level 5 is the generation of level 4. The same inputs always give the same output, independent of plugin file order and of the process. A document with syntax errors is never turned into output: levels 4 and 5 fail with non-zero status; the input file is never modified.",
 ["inputs","configurations"],"all documents, output levels, JSON on/off, plugin directories with several plugins",
 "No test runs the command-line tool.",
 ["src/main.rs",T+"tokens.rs",P+"cst.rs",X+"ast.rs"],
 [("stage pipeline per output level","src/main.rs run_compile"),("serde derives",P+"cst.rs")],
 ["stdout and exit status of brack compile"]),
p("C25","Node ids identify nodes",
 "Within one syntax tree, concrete or abstract, all node ids are distinct, so looking a node up by its id finds that node and no other and an unknown id finds nothing; this also holds across trees built from the same or different documents in one process.",
 ["inputs","histories"],"all documents and all sequences of parses in one process",
 "No test looks at ids; a collision needs two particular nodes of one tree.",
 [P+"cst.rs",P+"escaped.rs",X+"ast.rs",X+"transform.rs"],
 [("fresh UUID per node",P+"cst.rs new_*"),("AST::get",X+"ast.rs")],
 ["ids of CST and AST nodes","AST::get"]),
p("C26","Project configuration is read and written faithfully",
 "Every valid project configuration, whatever strings it contains, is loaded with each document field, plugin entry and hook flag at its written value (absent flags meaning off), and writing a loaded configuration and reading it again changes nothing. Configurations with unknown, duplicate, missing or ill-typed plugin fields or an unsupported schema are rejected, and two plugin configurations share a cache identity only if they are equal.",
 ["inputs","configurations"],"all configurations with arbitrary unicode strings, any number of plugins and any flags, and every single-field corruption of them",
 "The hand-written serialiser and visitor have no tests.",
 [PM+"plugin.rs",PM+"config.rs",PM+"document.rs",PM+"project.rs"],
 [("hand-written Serialize/Deserialize",PM+"plugin.rs"),("hash_sha256",PM+"plugin.rs")],
 ["Project::load_brack_toml, config values, re-serialised text"]),
p("C27","An interrupted build never spoils a later one",
 "However often brack build is interrupted, by being killed at any instant or system call, by a full disk or by a failing download, with documents and configuration edited in between, documents and Brack.toml are untouched, no plugin file in plugins is ever incomplete, and the next undisturbed build succeeds and writes exactly what a build in a fresh copy of the project would write. Nobody has to delete anything by hand.",
 ["crash_points","histories","fault_sequences"],"all projects, all instants and system calls a build can be killed at, all histories of interrupted builds and edits before the undisturbed one",
 "No test runs the program, let alone kills it; what is left on disk depends on the instant.",
 [PM+"project.rs",PM+"store.rs","src/main.rs"],
 [("plugins stored under a temporary name and renamed",PM+"store.rs"),("a cached plugin is used when its file exists",PM+"project.rs download_plugins_using_config"),("every output written anew",PM+"project.rs build")],
 ["files of the project after each run","exit status and outputs of the next build"]),
p("C28","Programs in one project do not disturb each other",
 "Builds, language servers and compilations running in one project at the same time, and an add beside them, all succeed however their steps interleave: every output is exactly what a build alone writes, every editor is offered exactly the configured plugins' commands (with or without the one just added), every plugin file is complete, documents are untouched, no temporary file stays behind, and nothing needs to be fetched again afterwards.",
 ["schedules","configurations"],"all sets of builds, language servers and compilations and at most one add in one project, all interleavings of their steps, with or without plugins fetched before",
 "No test runs two programs; the interleaving decides what each sees of the others' files.",
 [PM+"project.rs",PM+"store.rs",PM+"plugin.rs",L+"notification/did_open.rs"],
 [("process-private temporary name, atomic rename",PM+"store.rs"),("create_dir_all, exists test before fetching",PM+"project.rs")],
 ["exit status, output and files of concurrently running programs"]),
p("C29","Compile loads exactly the plugin files it is told to",
 "Compile loads the plugin directory given with -p, or else the one named by BRACK_PLUGINS_PATH. From it, it loads exactly the files named module, underscore, ASCII letters and digits, .wasm, where module is everything before the last underscore; every other file and subdirectory is ignored, whatever it contains. The same directory contents always give the same choice among several files of one module, and a directory that does not exist is an error.",
 ["configurations"],"all directory contents with arbitrary file names and file contents, given by option, by environment variable or both",
 "No test runs the command-line tool; which files match depends on every character of their names.",
 ["src/main.rs"],
 [("file-name regular expression and sorted entries","src/main.rs run_compile"),("option before environment","src/main.rs run_compile")],
 ["stdout and exit status of brack compile"]),
p("C30","No command line crashes the program or fails silently",
 "For every command line, valid or not, and every document and output level, brack ends with status 0 exactly when it did what was asked. Otherwise, for unknown or missing arguments, unreadable, non-UTF-8 or missing files and directories, unknown levels or erroneous documents, it ends with a non-zero status, says why on standard error, prints no result on standard output, and changes no file. When a document has syntax errors, levels 4 and 5 and build report every one of them. It never panics and never dies of a signal.",
 ["inputs","configurations"],"all argument lists over all subcommands, all input files including unreadable and non-UTF-8 ones, all documents with several faults",
 "No test runs the command-line tool.",
 ["src/main.rs",PM+"project.rs",X+"error.rs"],
 [("argument parsing","src/main.rs Args"),("all errors joined into one message","src/main.rs run_compile"),("errors of a document",PM+"project.rs build")],
 ["exit status, stdout, stderr and files after a run of brack"]),
p("C31","The language server only reads",
 "Whatever a client sends, in whatever order, the language server changes no document, configuration, output or other file of the projects it is used in, nor of its working directory; the only files it ever creates are fetched plugins in a project's plugins directory, and it never removes or alters a plugin already there. Text sent with a notification never reaches a file.",
 ["histories"],"all message sequences over several projects, documents, missing files and files outside docs, ended normally or by the editor's death",
 "The language server has no tests.",
 [L+"server.rs",L+"notification/did_open.rs",L+"notification/did_save.rs",PM+"project.rs"],
 [("project opened on didOpen",L+"notification/did_open.rs"),("diagnostics computed from the file",L+"notification/did_save.rs"),("clear_plugins, which nothing calls",PM+"project.rs")],
 ["file-tree snapshots around language-server sessions"]),
p("C32","Token and tree JSON is lossless and keeps its form",
 "Tokens and trees have one JSON form, which tools read and macros receive and return: an object whose only key is the node's kind, holding id, children or value, and location with start and end line and character; a token's kind holds its text and location. Writing any token list, concrete or abstract tree (with any strings, missing values, ids and positions) and reading it back, in any field order, spacing and escaping, gives the same tree, with nothing dropped, renamed or defaulted.",
 ["inputs"],"all token lists and all trees, from documents or built by plugins, with arbitrary strings and positions (read back up to the reader's 128 levels of JSON)",
 "No test looks at JSON; a dropped or renamed field breaks every plugin while all stages still work.",
 [T+"tokens.rs",P+"cst.rs",X+"ast.rs",PL+"plugin.rs","src/main.rs"],
 [("serde derives on Token, Location, CST, AST",X+"ast.rs"),("trees passed to and from macros",PL+"plugin.rs"),("--json output","src/main.rs run_compile")],
 ["serde_json forms of Token, CST and AST","brack compile --json","macro input and output"]),
p("C33","Long sessions hold on to nothing",
 "A language server keeps working in bounded space: after any number of messages of any kind it has no more open files, threads, child processes or memory than after the first of them, so handling a message leaves behind only the state of the last opened project.",
 ["histories"],"all sessions of any length over all kinds of messages, documents and projects, including broken messages and failing downloads",
 "The language server has no tests, and growth shows only after thousands of messages.",
 [L+"server.rs",L+"notification/did_open.rs",L+"request/completion.rs",PL+"plugin.rs",PM+"project.rs"],
 [("consumed bytes drained from the buffer",L+"server.rs run"),("project replaced on didOpen",L+"notification/did_open.rs"),("plugin instances dropped after a completion",L+"request/completion.rs")],
 ["/proc status, descriptors and children of a running language server"]),
p("C34","Documents do not influence each other",
 "What Brack makes of a document depends on the document and the plugins only. Its tokens, trees (node ids aside), diagnostics and output, and what the language server says about it, are the same whatever was processed before in the same process, however often, with the same plugins, by whichever thread and whatever other threads are doing; and a document built together with others comes out as it does alone.",
 ["histories","schedules"],"all sequences and interleavings of documents in one process, one plugin set, one project or one server session, near-identical and failing documents included",
 "Each test processes one document in a process of its own; state kept between documents shows only in the second one.",
 [T+"tokenize.rs",P+"parse.rs",X+"transform.rs",E+"expand.rs",G+"generate.rs",PL+"plugins.rs",PM+"project.rs",L+"server.rs"],
 [("stages are functions without state",T+"tokenize.rs"),("one plugin set for all documents",PM+"project.rs build"),("files read anew for each request",L+"request/semantic_tokens.rs")],
 ["library results within one process against a new process","brack build of one and of many documents","language-server answers early and late in a session"]),
p("C35","The work for a document is bounded by the square of its size",
 "No document makes a compile stage run away: for every form of document (repeated statements, lines, items, arguments, separators, faults, escapes, line breaks, nested commands and macros), the time and memory each stage (tokenize, parse, transform, expand, generate) takes grows at most with the square of the document's size as the document gets longer or deeper.",
 ["inputs"],"all families of documents made by repeating or nesting a piece, up to the size and nesting bounds of C08",
 "The documents of the tests are so short that even exponential work takes no time.",
 [T+"dispatch.rs",P+"parse.rs",P+"square.rs",P+"curly.rs",P+"angle.rs",X+"transform.rs",X+"utils.rs",E+"expand.rs",G+"generate.rs"],
 [("each child simplified once",X+"square.rs simplify"),("tokens consumed as they are parsed",P+"parse.rs")],
 ["bytes allocated and processor time of each library stage over documents of growing size"]),
]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in ps))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in ps: jsonschema.validate(x,s); assert len(x["title"])<=80; 
print(len(ps))
