"""Single source of the property list: tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, claim=True, reason=None, note=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, claim=claim,
                  reason=reason, note=note, state=state, observe=observe))


BASE_NOTE = ("All paths of the type-checked MIR of the current tree, interprocedurally; trusts rustc's MIR, the std/tokio/wasmtime API "
             "contracts the rule names, and the call-graph approximation (dyn calls go to every implementation).")

prop("P01", "The server never deadlocks or stalls on its own locks",
     "However requests, notifications and background indexing interleave, no task ever waits for a lock that it already holds, no two "
     "tasks can wait for each other's locks in opposite orders, and no task holds a blocking (thread) lock while it is suspended at an "
     "await point.",
     ["schedules"], "every interleaving of requests, notifications, watcher events and background indexing tasks",
     "deadlocks need a particular interleaving of two tasks (or a queued writer between two reads); the tests run requests one at a time",
     ["src/server.rs", "src/handlers/request.rs", "src/handlers/notification.rs", "src/indexer/coordinator.rs", "src/capabilities"],
     [("lock-order graph over lock classes (field/static + type)", "src/server.rs"), ("parking_lot read/write guards of documents", "src/server.rs")],
     note=BASE_NOTE + " Lock identity is the field/static a guard comes from; two different documents' locks are one class, so nested acquisition in one class is reported.")

prop("P08", "External linters and formatters run only when enabled and never hang",
     "A linter or formatter program is started only while that tool is enabled in the configuration, always directly and never through a "
     "shell. Every wait on such a program or its pipes is covered by a deadline, and a program that outlives it is killed rather than left "
     "running. Its output is used only if it exited with status 0 or 1, and an empty result never replaces a non-empty document.",
     ["inputs", "fault_sequences", "configurations"], "every configuration, every tool behaviour (hang, crash, partial output, pipe kept open) and every document",
     "tests use a handful of well-behaved fake tools; hanging on a full pipe, dying after partial output or leaving children behind is not sampled",
     ["src/linter.rs", "src/extensions/mod.rs", "src/runtime/catalog.rs", "src/runtime/jruby/decompiler.rs"],
     [("linter / formatter spawn", "src/linter.rs"), ("extension process execution", "src/extensions/mod.rs"), ("CFR decompiler child", "src/runtime/jruby/decompiler.rs")],
     note=BASE_NOTE)

prop("P12", "An extension guest can never exceed its time, memory or data limits",
     "Every entry into a WebAssembly extension, including instantiation, allocation and deallocation callbacks, runs with a fresh "
     "instruction budget and wall-clock deadline and under its configured memory limit. The guest gets no host environment, arguments, "
     "files or network, input and output larger than the configured caps are refused before they are copied, and an extension built for a "
     "different host ABI is never used.",
     ["inputs", "programs"], "every guest module, every event and every host entry point into a guest",
     "tests sample a few hostile guests through a few entry points; a limit that is missing on one entry only shows with a guest that attacks that entry",
     ["crates/extension-wasm-host/src/lib.rs"],
     [("store preparation before each guest call", "crates/extension-wasm-host/src/lib.rs"), ("epoch ticker", "crates/extension-wasm-host/src/lib.rs"),
      ("packed buffer reading", "crates/extension-wasm-host/src/lib.rs")],
     note=BASE_NOTE)

prop("P14", "Extension output is validated completely before any of it is applied",
     "No definition, reference, mixin, superclass, execution context, diagnostic, code lens or symbol that an extension returns reaches the "
     "index or the client unless every item of that reply was checked first: signed with the emitting extension's own id, every namespace, "
     "constant, method and parameter name valid, every range ordered, every type bounded, every owner declared, project-scoped owners only "
     "inside a project. Replies are used only while the extension is loaded and, for client-visible items, only for capabilities it "
     "declared.",
     ["inputs", "programs"], "every extension guest, every reply it can produce and every event that triggers it",
     "tests sample a few malformed replies; a field or patch kind that skips validation is only visible with a guest that abuses exactly that field",
     ["src/extensions/mod.rs", "crates/extension-api/src/lib.rs"],
     [("index patch validation", "src/extensions/mod.rs"), ("execution context validation", "src/extensions/mod.rs"), ("response patch validation", "src/extensions/mod.rs")],
     note=BASE_NOTE)

prop("P09", "Untrusted or unverified extension code never runs",
     "Extension packages found inside a workspace are considered only when that workspace is trusted (off by default) and project extensions "
     "are enabled, and a bare module without a manifest is never accepted from client options. Before any extension code is instantiated its "
     "manifest has been fully verified: id, ABI version, runtime, required server version, checksum of the module when declared, capability, "
     "permission, command and watch lists, no traversal in commands or globs. An extension is registered only after its own ABI version and "
     "call names match; modules are read with a hard size limit.",
     ["inputs", "configurations"], "every configuration, workspace content and extension package",
     "tests sample a few bad packages; a check that is skipped for one source of packages or one manifest field shows only with a package that abuses it",
     ["src/extensions/mod.rs", "src/config.rs"],
     [("project package discovery", "src/extensions/mod.rs"), ("manifest validation", "src/extensions/mod.rs"), ("extension loading", "src/extensions/mod.rs")],
     note=BASE_NOTE)

prop("P13", "An extension can only run the processes and reindexing it was granted",
     "A process that an extension asks for starts only if the workspace is trusted, the extension is still loaded, holds the process "
     "permission and lists exactly that command, the working directory is a root of the workspace the event concerns, and a relative command "
     "stays inside it; request id, arguments, input, number of requests, captured output and run time are all bounded by host constants. A file "
     "is re-indexed on an extension's request only if, after resolving links, it is a regular file inside such a root. A reply that mixes "
     "process requests with other output, or repeats a request id, is refused.",
     ["inputs", "programs"], "every extension guest, every request it can return and every event",
     "tests sample a few refused requests; an admission check missing on one path shows only with a guest that abuses it",
     ["src/extensions/mod.rs"],
     [("process request validation", "src/extensions/mod.rs"), ("process execution", "src/extensions/mod.rs")],
     note=BASE_NOTE)

prop("P10", "Only files the project owns are ever edited, listed or diagnosed",
     "Rename produces edits only in project-owned source files, workspace-symbol results name only symbols of such files, and syntax, semantic "
     "and linter diagnostics are produced and stored only for them. Gem, standard-library, stub, signature and excluded sources are indexed "
     "for navigation but never receive an edit or a diagnostic, even while they are open in the editor.",
     ["inputs", "programs", "histories"], "every program, every mix of project, dependency, signature and excluded files, and every open/change history",
     "tests sample one dependency file per feature; a range contributed by one particular collection or path without the ownership test needs that exact mix of sources",
     ["crates/ruby-analysis/src/engine/resolution.rs", "crates/ruby-analysis/src/engine/workspace_symbols.rs", "src/indexer/file_processor.rs", "src/capabilities/indexing.rs"],
     [("rename targets", "crates/ruby-analysis/src/engine/resolution.rs"), ("stored diagnostics", "src/indexer/file_processor.rs"),
      ("document diagnostics", "src/capabilities/indexing.rs")],
     note=BASE_NOTE + " Correctness of the ownership classification itself (which path gets which kind) is not decided here.")

prop("P11", "A persisted index product is used only if intact and built from the same inputs",
     "Whatever is on disk, a stored dependency product is returned only if the file passed every integrity check (size limit, magic, format "
     "version, recorded lengths, checksum) and its recorded identity equals the requested one; otherwise it is treated as absent. The identity "
     "covers every input of the product, and a product is bound into an index only if its key and every source checksum match. Entries become visible "
     "only complete - written to an exclusive temporary file, synced and renamed - and are reserved or removed only under the cache's lock.",
     ["inputs", "crash_points", "schedules"], "every on-disk content, every crash point while writing and every interleaving of server processes sharing the cache",
     "tests corrupt a few bytes in a few places; a check dropped for one header field, one input left out of the identity or a non-atomic publish needs that exact corruption, upgrade or crash",
     ["src/persistent_cache.rs", "src/dependency_product.rs"],
     [("entry decoding", "src/persistent_cache.rs"), ("entry publication", "src/persistent_cache.rs"), ("product identity", "src/dependency_product.rs")],
     note=BASE_NOTE + " Trusts SHA-256 and the operating system's rename, fsync and file-lock semantics.")

prop("P02", "The latest text of an open document always wins",
     "Open, change, save and close of one document are handled one at a time under that document's own lock, and the text and version kept "
     "are those of the last content change. While a document is open, indexing and watched-file events use or keep its editor text rather "
     "than what is on disk, and re-indexing is skipped only for exactly the text already indexed. Facts a background pass collected are "
     "stored only if the source is still the one the pass read.",
     ["schedules", "histories"], "every interleaving of text synchronisation, watched-file events and background indexing passes",
     "losing an edit needs a change to arrive between a background read and its store; tests drive the phases one after another",
     ["src/capabilities/indexing.rs", "src/server.rs", "src/indexer/indexer_project.rs", "src/indexer/file_processor.rs", "crates/ruby-analysis/src/engine/state.rs"],
     [("per-document semantic lock", "src/server.rs"), ("source snapshots and conditional fact replacement", "crates/ruby-analysis/src/engine/state.rs"),
      ("authoritative source reading", "src/indexer/indexer_project.rs"), ("watched-file handling", "src/capabilities/indexing.rs")],
     note=BASE_NOTE)

prop("P05", "Indexing admission keeps its limits and never strands a request",
     "However indexing and request work is queued, prioritised, cancelled or panics, the admitted tasks together never exceed any configured "
     "limit (tasks, CPU lanes, transient memory, I/O slots, one indexing run per project), a task holds exactly what was reserved for it until "
     "it ends, and all of it is given back exactly once. A request that could be admitted is never left asleep after the change that made "
     "room for it, one that can never fit is refused instead of queued, and a cancelled or abandoned request leaves the queue and is not "
     "admitted.",
     ["schedules", "histories", "fault_sequences"], "every interleaving of admissions, releases, reprioritisations, cancellations and task panics",
     "a lost wake-up or a leaked reservation needs a particular order of release, admission and cancellation; tests run a few fixed orders",
     ["src/indexing_resources.rs", "src/indexing_scheduler.rs"],
     [("weighted admission and leases", "src/indexing_resources.rs"), ("project scheduler and permits", "src/indexing_scheduler.rs")],
     note=BASE_NOTE + " Fairness order among requests that fit is not decided; tokio's notify_waiters/notified contract is trusted.")

prop("P06", "A shared build runs once and every request for it gets an answer",
     "Of all concurrent requests for the same shared product (core library, dependency, classpath or artifact), exactly one builds it and the "
     "others wait for that build. Whether the build succeeds, fails, panics or the first requester goes away, every waiting request gets the "
     "outcome; a failure is never handed to a request made after it, which builds again. Finished products are kept only within the configured "
     "entry and size limits, and a build still running is never dropped from the table.",
     ["schedules", "fault_sequences"], "every interleaving of requests, completions, failures, panics, cancellations and evictions",
     "stranding needs a cancellation or panic between registration and publication, duplicates need eviction during a build; tests run a few fixed schedules",
     ["src/single_flight.rs"],
     [("registration and publication", "src/single_flight.rs"), ("eviction to limits", "src/single_flight.rs")],
     note=BASE_NOTE)

prop("P03", "Queued diagnostics and status reach the client, newest last",
     "Every set of diagnostics and every indexing status handed over for publication is delivered to the client or replaced by a newer one "
     "for the same document or server, and nothing queued is left unsent when the sender goes idle. At most one sender runs per queue, so "
     "an older message never arrives after a newer one, and status messages are captured, numbered and queued under one lock. Such "
     "messages never bypass the queue.",
     ["schedules"], "every interleaving of publishers with the sender draining, finding the queue empty and going idle",
     "a lost or reordered message needs a publisher to arrive exactly while the sender goes idle; tests publish one message and look at it",
     ["src/server.rs"],
     [("diagnostic publication queue", "src/server.rs"), ("indexing status publication queue", "src/server.rs")],
     note=BASE_NOTE)

prop("P04", "Only the current indexing run can change a project's status",
     "Once a newer run has started, or a run has ended as ready, failed or cancelled, no report of an older run changes the project's phase, "
     "progress or failure, and every visible change carries a higher sequence number. Starting a run cancels the previous one, and a "
     "superseded or cancelled run stops with an error at its next checkpoint and sends nothing more to the client. Every run that is "
     "neither ends as ready or failed, and as ready only after it succeeded.",
     ["schedules", "histories"], "every interleaving of overlapping runs, cancellations, workspace changes and progress reports of one project",
     "tests run one indexing at a time to completion; a report of an older run arriving late is a matter of scheduling",
     ["src/indexing_status.rs", "src/server.rs", "src/indexer/coordinator.rs", "src/capabilities/indexing.rs"],
     [("run generations and phases", "src/indexing_status.rs"), ("run checkpoints", "src/indexer/coordinator.rs"), ("run drivers", "src/capabilities/indexing.rs")],
     note=BASE_NOTE)

prop("P16", "Only protocol messages reach standard output",
     "While the server runs, nothing but the protocol's transport writes to standard output or reads standard input: no print, log line, "
     "debug output or second handle does, and no program the server starts inherits either stream. "
     "No request, notification or background task ends the server's process, except the watch on the parent process when it finds the parent gone.",
     ["programs"], "every function that can run while the protocol is served, on every path",
     "one stray line on standard output corrupts the protocol of a whole session, and tests call handlers without a transport",
     ["src/main.rs", "src/server.rs", "src/linter.rs", "src/runtime/catalog.rs", "src/runtime/jruby/decompiler.rs", "src/extensions/mod.rs"],
     [("transport and logger", "src/main.rs"), ("parent watch", "src/server.rs"), ("linter processes", "src/linter.rs"), ("decompiler process", "src/runtime/jruby/decompiler.rs")])

prop("P22", "Editor columns are UTF-16 and never mixed up with bytes or characters",
     "For every document text, including accents, CJK and emoji, each column sent to the editor (ranges, positions, semantic tokens) counts "
     "UTF-16 units of its line. A column received from the editor is converted before it is used to cut or walk text, so no request "
     "panics or looks at the wrong text behind a wide character; byte offsets, character counts and columns are never compared with or "
     "used for one another.",
     ["inputs"], "every document text, every cursor position and every tool-reported location",
     "tests use mostly ASCII text, where bytes, characters and UTF-16 units coincide",
     ["crates/ruby-analysis/src/indexer/source_document.rs", "crates/ruby-analysis/src/engine/state.rs", "crates/ruby-analysis/src/core/source_position.rs",
      "src/capabilities", "src/query", "src/linter.rs"],
     [("offset to column conversion", "crates/ruby-analysis/src/indexer/source_document.rs"), ("column of an indexed byte offset", "crates/ruby-analysis/src/engine/state.rs"),
      ("cursor columns in completion", "src/capabilities/completion/mod.rs")],
     note=BASE_NOTE + " Numbers whose unit is not known from their computation (for example elements of a list of offsets) are not judged.")

prop("P23", "Re-analysing a file leaves nothing of what it said before",
     "When a file's analysis is replaced, everything held for that file is gone before the new facts count: definitions, methods, types, ancestry, "
     "references, diagnostics, inference results, and their entry in every lookup index, whatever the new analysis contains. No answer cached "
     "from the earlier ancestry is used afterwards, and a new resolution drops the references and diagnostics of the previous one. Every distinct "
     "text of a file gets its own revision, and results taken from an older revision are refused.",
     ["histories"], "every sequence of edits, re-analyses and resolutions of a project's files",
     "a test replaces one file once and looks at the facts it expects, not at every index after any history",
     ["crates/ruby-analysis/src/engine/state.rs", "crates/ruby-analysis/src/engine/diagnostics.rs", "crates/ruby-analysis/src/core/graph_store.rs",
      "crates/ruby-analysis/src/core/method_store.rs", "crates/ruby-analysis/src/core/symbol_store.rs", "crates/ruby-analysis/src/core/type_store.rs",
      "crates/ruby-analysis/src/core/reference_store.rs"],
     [("replacement of a file's facts", "crates/ruby-analysis/src/engine/state.rs"), ("ancestry graph", "crates/ruby-analysis/src/core/graph_store.rs"),
      ("resolution passes", "crates/ruby-analysis/src/engine/diagnostics.rs")],
     note=BASE_NOTE + " That an erased entry is the right one is decided by the lookup key and by the comparison in the retained predicate, not by values.")

prop("P21", "Archives and compressed data are read within limits and stay inside their folder",
     "Whatever a gem, JAR, source archive or cache entry contains, decompressing it reads at most a configured number of bytes, exceeding the "
     "limit is noticed before the bytes are used, and memory is reserved or copied by a declared size only after that size was compared with a "
     "limit. Only regular files are extracted. A name taken from an archive entry or a class file is used in a path that is written only after "
     "parent steps and absolute names were ruled out, so nothing is written outside the intended folder.",
     ["inputs"], "every archive, class file and compressed blob, including hostile ones",
     "tests use small well-formed archives; bombs, lying sizes and traversal names in each reader are not enumerated",
     ["src/indexer/indexer_gem.rs", "src/runtime/jruby", "src/persistent_cache.rs", "crates/jvm-metadata/src/archive.rs"],
     [("cached gem extraction", "src/indexer/indexer_gem.rs"), ("class family extraction", "src/runtime/jruby/decompiler.rs"),
      ("source archives", "src/runtime/jruby/source_navigation.rs"), ("JAR metadata", "crates/jvm-metadata/src/archive.rs"),
      ("cache envelopes", "src/persistent_cache.rs")],
     note=BASE_NOTE + " Names pushed onto a PathBuf step by step are followed; names stored in another collection element by element are not.")

prop("P17", "Inferred types admit every value the program can produce",
     "For every Ruby program the analyser accepts, the type it infers for an expression (shown on hover, inlay hints and used for method "
     "completion) covers the value that expression has when Ruby runs the program, or is reported as unknown.",
     ["programs"], "every Ruby program and every execution of it",
     "tests compare inferred types on hand-picked snippets",
     ["crates/ruby-analysis/src/indexer", "crates/ruby-analysis/src/core"], [("type inference", "crates/ruby-analysis/src/indexer")], claim=False,
     reason="relates inferred types to the dynamic semantics of Ruby programs given as data; no argument over the analyser's own source text in reach bounds the values of the analysed program")

prop("P18", "Method lookup follows Ruby's ancestor order",
     "For every set of class, module, include, prepend, extend and reopening facts, go-to-definition and completion look methods up in the "
     "order Ruby's own method resolution would use, and terminate on cyclic or contradictory hierarchies.",
     ["inputs", "histories"], "every class hierarchy across every set of files",
     "tests cover small hand-made hierarchies",
     ["crates/ruby-analysis/src/core/graph_store.rs", "crates/ruby-analysis/src/engine"], [("ancestor chain", "crates/ruby-analysis/src/core/graph_store.rs")], claim=False,
     reason="equality of a computed list with an external specification (Ruby's linearisation) for every graph is a functional-correctness claim over runtime data; a source-level "
            "analysis can only re-state the algorithm")

prop("P19", "Rename and references find every occurrence and no other",
     "For every project, references and rename edits cover exactly the occurrences that denote the selected entity, so that a rename leaves "
     "the program's meaning unchanged.",
     ["programs"], "every project and every cursor position",
     "tests rename symbols in small fixtures",
     ["src/capabilities", "src/query"], [("rename", "src/capabilities/rename.rs"), ("references", "src/capabilities/references.rs")], claim=False,
     reason="depends on which dynamic Ruby names denote the same entity in the edited program; that is runtime data of the analysed project, not decidable from the server's source")

prop("P20", "Interactive requests answer within their latency budgets",
     "While a project of any size is being indexed, hover, completion and definition requests answer within the documented budgets.",
     ["schedules", "inputs"], "every project size and every load",
     "benchmarks sample a few corpora on one machine",
     ["src/server.rs", "src/indexing_resources.rs", "src/perf"], [("interactive budgets", "src/indexing_resources.rs")], claim=False,
     reason="a bound on wall-clock time under load; static reasoning in reach bounds neither runtime sizes nor the machine's speed")

prop("P24", "What the persistent cache returns equals what was stored",
     "For every index product, decoding its stored form yields a value equal to the one encoded, for every version of the format the server accepts.",
     ["inputs"], "every index product and every accepted format version",
     "tests round-trip a few products",
     ["src/persistent_cache.rs"], [("encode/decode", "src/persistent_cache.rs")], claim=False,
     reason="value equality through serde-derived and hand-written encoders for every value; an extensional claim a source analysis cannot settle (that only intact, matching products are used is P11)")
