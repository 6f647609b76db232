"""Properties judged inside the harness process (see harness/src)."""
from . import common

# property -> (cases per worker quick, seconds quick, cases thorough, seconds thorough, rule)
PLAN = {
    "C01": (12000, 20, 400000, 600, "random texts (arbitrary mixtures of plain, odd and special user-perceived characters, fragments of commands, and mutated well-formed documents); non-trivial: distinct and more than one byte with at least one special character"),
    "C02": (12000, 20, 400000, 600, "random texts as for C01, positions recomputed from the text alone; non-trivial: distinct, special characters, more than three tokens"),
    "C03": (10000, 20, 400000, 600, "half well-formed documents with the tokens known from writing them down, half arbitrary texts judged character by character from the open brackets; non-trivial: distinct, with a command (more than two characters judged)"),
    "C04": (8000, 22, 200000, 600, "well-formed documents (must parse into the written statements and lines) and arbitrary texts (judged when they parse); non-trivial: distinct texts that parsed and contain special characters"),
    "C05": (5000, 22, 200000, 600, "abstract documents written down in two random layouts, tree compared with the abstract document; non-trivial: distinct texts with at least one command"),
    "C06": (5000, 22, 200000, 600, "abstract documents written down with the byte range of every node; non-trivial: distinct texts with at least one command"),
    "C07": (5000, 22, 200000, 600, "well-formed documents, arbitrary texts, and documents with exactly one fault of twelve kinds put in at a known position, and near-misses judged by a reference recogniser; non-trivial: distinct, diagnosed or carrying a fault"),
    "C08": (700, 40, 60000, 700, "hostile documents (arbitrary texts, mutated well-formed ones, up to 100 levels of nesting, up to 64 KiB) through every stage with failing and working plugins loaded, and through the compile command at every level; non-trivial: distinct, more than one byte"),
    "C09": (60, 30, 5000, 700, "documents with macro calls at all places over random plugin sets; non-trivial: distinct documents in which a macro was called"),
    "C10": (60, 30, 5000, 700, "documents over random plugin sets with and without hooks, as parsed or reshaped the way macros may; every call's position, number and exact input is part of the output; non-trivial: distinct (document, plugin set) with a command or hook"),
    "C11": (60, 30, 5000, 700, "20 random signatures per plugin, each called with 0 to 8 arguments; non-trivial: distinct (signature, call)"),
    "C12": (80, 30, 6000, 700, "plugin sets sharing module, command and kind names, every combination of module, name and kind called; plugin sets with hooks; non-trivial: distinct (call, plugin set) naming a loaded module"),
    "C13": (72, 40, 5000, 700, "ten ways of failing in each kind of call, in each hook, and nine kinds of unusable plugin files, in-process and as compile and build processes; non-trivial: distinct failing documents"),
    "C14": (100, 30, 8000, 700, "a plugin that tries every WASI and host entry point it can name on twelve descriptors and up to 70 paths, from initialisation, loading, every kind of command and every hook, during compile, build and language-server use; every case is a new attack plan (paths, entry point, program, environment, request)"),
    "C15": (60, 40, 4000, 700, "random projects (documents, odd file names, stale outputs, bystander files, failing documents) built twice with the real program; non-trivial: distinct projects with a document"),
    "C18": (900, 30, 40000, 600, "project names usable as directory names, and obstacles at that path; non-trivial: distinct names"),
    "C19": (400, 30, 40000, 700, "sessions with the real server whose message stream is cut into chunks at random places (inside headers, characters, between messages), with all header forms; non-trivial: distinct streams with a chunk boundary inside a message"),
    "C20": (350, 30, 30000, 700, "random sequences of requests, notifications, broken messages and odd ids to the real server, alone and in bursts; non-trivial: distinct sequences"),
    "C21": (300, 30, 30000, 700, "random and well-formed documents in files, their semantic tokens decoded and compared with the tokens in UTF-16 units; non-trivial: distinct documents with a command"),
    "C22": (150, 30, 15000, 700, "saves of random, well-formed and broken documents by clients with and without diagnostics support; non-trivial: distinct documents with a diagnostic"),
    "C23": (60, 40, 5000, 700, "projects with random plugin sets opened in any order, every trigger character; non-trivial: distinct (plugin set, trigger) with a command to offer"),
    "C24": (14, 50, 1500, 800, "documents compiled with the real program at every level, with two copies of the plugins; non-trivial: distinct documents that were generated or have a syntax error"),
    "C26": (4000, 30, 200000, 600, "random configurations written in random TOML, broken ones, and pairs of near-equal plugin configurations; non-trivial: distinct configurations with a plugin, and distinct rejected ones"),
    "C25": (1500, 22, 60000, 600, "documents parsed and transformed twice, every eighth on four threads at once; ids of all trees of a process compared; non-trivial: distinct texts with more than eight nodes"),
    "C29": (90, 35, 8000, 700, "plugin directories with matching, nearly matching and unrelated file names and contents, given by option, environment or both; non-trivial: distinct directories"),
    "C30": (110, 35, 8000, 700, "random command lines of every subcommand with valid and broken arguments, files and documents with up to several faults; non-trivial: distinct command lines"),
    "C31": (60, 35, 8000, 700, "random sessions over two projects and files in and outside docs, ended by the end of input or a kill, file trees compared; non-trivial: distinct sessions"),
    "C32": (450, 30, 40000, 600, "token lists and trees of well-formed and arbitrary documents and random trees; non-trivial: distinct, more than four tokens or random with inner nodes"),
    "C33": (8, 45, 400, 800, "blocks of 10 to 1500 messages of one kind or mixed, sent eight times (thorough: 22) to one server, held resources compared between blocks; non-trivial: distinct blocks"),
    "C34": (180, 40, 20000, 700, "families of near-identical, failing and unrelated documents processed in random orders, again and again, on four threads, by one plugin set, in one project and in one server session, against new processes; non-trivial: distinct families with more than two meanings"),
    "C35": (120, 40, 8000, 700, "documents made by repeating or nesting a random piece 1, 2, 4 and 8 times as often, up to 12000 bytes (thorough: 40000) or 240 levels; non-trivial: distinct families"),
}


def run(prop, tier, ev, only=None):
    q, qs, t, ts, rule = PLAN[prop]
    cases, seconds = (q, qs) if tier == "quick" else (t, ts)
    common.build(monitor=True, brack=prop in ("C08", "C13", "C14", "C15", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C29", "C30", "C31", "C33", "C34"))
    return common.run_workers(ev, prop, tier, cases, seconds, only=only)


def replay(prop, case, ev):
    return run(prop, "quick", ev, only=(case["seed"], case["shard"], case["index"]))
