"""Which module decides which property, and what is claimed for it."""
NOTE = ("Held on the executions observed (counted in the evidence file), not proved. Trusted: the generator's reading "
        "of the language, unicode-segmentation for user-perceived characters, the oracle in %s.")
FRONT = NOTE % "harness/src/front.rs and doc.rs"
GEN = NOTE % "harness/src/gen.rs with plugins/probe.c"
CLI = NOTE % "harness/src/cli.rs and gen.rs with plugins/probe.c"
LSP = NOTE % "harness/src/lsp.rs (client, frame parser, UTF-16 model)"
MODULES = {}
CLAIMS = {}
ASSUMPTIONS = {}
NOT_APPLICABLE = {}


def claim(prop, module, technique, level, note):
    MODULES[prop] = module
    CLAIMS[prop] = (technique, level, note)


claim("C01", "inprocess", "runtime monitor over random texts: conservation oracle on the token stream", "exploration", FRONT)
claim("C02", "inprocess", "runtime monitor: token spans against an independent position model", "exploration", FRONT)
claim("C03", "inprocess", "runtime monitor: token kinds against the written document and a bracket-context automaton", "exploration", FRONT)
claim("C04", "inprocess", "runtime monitor: structural invariants of every CST, leaves against tokens", "exploration", FRONT)
claim("C05", "inprocess", "runtime monitor: AST against the abstract document that was written down, in several layouts", "exploration", FRONT)
claim("C06", "inprocess", "runtime monitor: node spans against recorded byte ranges", "exploration", FRONT)
claim("C07", "inprocess", "single-fault injection into documents, diagnostics judged against the known fault", "fault_enumeration", FRONT)
claim("C08", "inprocess", "robustness monitor: hostile documents through every stage and process, panics, signals, overflow checks and processor time watched", "exploration", FRONT)
claim("C09", "inprocess", "runtime monitor: logging macro plugin, expanded tree against a model of expansion", "exploration", GEN)
claim("C10", "inprocess", "runtime monitor: logging plugins (call number and input hash in the output), output against a reference evaluator", "exploration", GEN)
claim("C11", "inprocess", "runtime monitor: logging plugin, received arguments against a model of binding", "exploration", GEN)
claim("C12", "inprocess", "runtime monitor: logging plugins, executed export against a model of resolution", "exploration", GEN)
claim("C13", "inprocess", "fault injection: failing calls, hooks and plugin files, in-process and at the process boundary", "fault_enumeration", GEN)
claim("C14", "inprocess", "runtime monitor: hostile plugin reporting every host call's outcome, with canary files, environment, arguments, input, listener and output marker around the real program", "exploration", NOTE % "harness/src/contain.rs and plugins/evil.c")
claim("C15", "inprocess", "runtime monitor at the process boundary: file-tree snapshots around build, outputs against the reference evaluator", "exploration", CLI)
claim("C18", "inprocess", "runtime monitor at the process boundary: file-tree snapshots around new", "exploration", CLI)
claim("C19", "inprocess", "runtime monitor at the process boundary: strict frame parser on the server's output under random chunking", "exploration", LSP)
claim("C20", "inprocess", "runtime monitor at the process boundary: request/response trace checker over random message sequences", "exploration", LSP)
claim("C21", "inprocess", "runtime monitor at the process boundary: decoded semantic tokens against the tokenizer and an independent UTF-16 model", "exploration", LSP)
claim("C22", "inprocess", "runtime monitor at the process boundary: published diagnostics against the compiler's, positions through an independent UTF-16 model", "exploration", LSP)
claim("C23", "inprocess", "runtime monitor at the process boundary: offered commands against the plugins written into the project", "exploration", LSP)
claim("C24", "inprocess", "differential runtime monitor: the program's levels against the library stages and against itself", "exploration", CLI)
claim("C26", "inprocess", "runtime monitor: loaded configuration against the values that were written down", "exploration", NOTE % "harness/src/config.rs")
claim("C25", "inprocess", "runtime monitor: uniqueness of ids over all trees of a process, with concurrent parsing", "exploration", FRONT)
NET = NOTE % "mon/downloads.py and mon/net.py (recording server), strace for injected system-call errors"
claim("C16", "downloads", "runtime monitor over histories: recording HTTPS server with chosen completion orders, HTTP and system-call fault injection, plugins in use identified by their answers", "fault_enumeration", NET)
claim("C17", "downloads", "runtime monitor: file tree and configuration before and after add, under HTTP and system-call fault injection and kills", "fault_enumeration", NET)
claim("C27", "crash", "fault injection over histories: builds killed at recorded system calls and at random instants, later builds' files compared with what the documents mean", "fault_enumeration", NOTE % "mon/crash.py and mon/net.py, strace for kills at a system call")
claim("C28", "crash", "runtime monitor over overlapping processes in one project with delayed system calls and answers, files and answers compared with what each program means alone", "exploration", NOTE % "mon/crash.py and mon/net.py, strace for delays")
claim("C29", "inprocess", "runtime monitor at the process boundary: each plugin file answers with its own name, answers compared with a model of which files are loaded", "exploration", NOTE % "harness/src/programs.rs")
claim("C30", "inprocess", "runtime monitor at the process boundary: random command lines and faulty files, status, streams and file-tree snapshots", "exploration", NOTE % "harness/src/programs.rs")
claim("C31", "inprocess", "runtime monitor at the process boundary: file-tree snapshots around random language-server sessions", "exploration", NOTE % "harness/src/steady.rs")
claim("C32", "inprocess", "runtime monitor: JSON forms of real and random trees against an independent writer, read back from several spellings", "exploration", NOTE % "harness/src/serial.rs")
claim("C33", "inprocess", "resource monitor: /proc accounting of descriptors, threads, children and resident memory over long sessions", "exploration", NOTE % "harness/src/steady.rs; growth below 450 kB per block passes")
claim("C34", "inprocess", "runtime monitor: results in a process, plugin set, project and server session with a history against those of fresh processes, on one and several threads", "exploration", NOTE % "harness/src/apart.rs")
claim("C35", "inprocess", "resource monitor: counting allocator and processor time of each stage over documents of growing size", "exploration", NOTE % "harness/src/work.rs; cubic growth is found from some hundred pieces on")
