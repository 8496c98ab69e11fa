CLAIMED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24"]
NOT_APPLICABLE = {}
MC = "bounded exhaustive enumeration on the real code against a reference model"

prop("C01", "Analysis never crashes or hangs, whatever the source text",
 "For every source text, every supported ink! version and every cursor position or selection inside the text, each analysis (diagnostics, completions, code actions, hover, inlay hints, signature help, event extraction and migration) returns normally. It never panics, never overflows the stack and always terminates, also on incomplete or syntactically invalid code and on cyclic imports, re-exports and type aliases.",
 ["inputs", "programs"], "all source texts x versions x positions/selections",
 "Tests run a few hundred hand-written, mostly well-formed snippets; a language server sees every intermediate state of typing.",
 [A + "../analysis.rs".replace("../", ""), I + "attrs/parser.rs", I + "tree/ast_ext.rs", "crates/analyzer/src/resolution.rs", I + "tree/item_at_offset.rs"],
 [("every lookup is optional and every loop consumes tree nodes", I + "tree/utils.rs"), ("path resolution bounded by tree depth / cycle guard", I + "tree/ast_ext.rs")],
 ["return of the public analysis functions"],
 "Exhaustive within the stated token alphabets, lengths and mutation bounds; says nothing about texts outside them. Crashes are caught in a child process.",
 "exhaustive enumeration of bounded token sequences, truncations, token mutations and import graphs on the real analyzer")

prop("C02", "Every reported range and edit is well-formed for the analysed text",
 "Every range in any result (diagnostics, quick fixes, completions, actions, hover, inlay hints, signature help, migration and extraction edits) lies inside the analysed text, is not inverted and falls on character boundaries. In text without syntax errors, the edits of one quick fix, action or migration never overlap. Where an edit has a snippet form, expanding the snippet's placeholders to their default text gives the same text as the plain form, up to whitespace.",
 ["inputs", "programs"], "all source texts, versions, positions and selections",
 "Tests compare a few fixed results; none checks ranges of every result on non-ASCII or broken text.",
 [A + "text_edit.rs", A + "diagnostics/common.rs", A + "completions.rs", A + "actions.rs", A + "migrate.rs"],
 [("ranges are derived from syntax nodes of the same tree", A + "diagnostics/common.rs"), ("edit formatting", A + "text_edit.rs")],
 ["ranges/edits of analysis results"],
 "Exhaustive over the bounded program space (token mutations and structured programs, non-ASCII included).",
 "exhaustive enumeration of bounded programs x positions; invariant on every result")

prop("C03", "Applying any suggested edit keeps valid source code valid",
 "For source text without syntax errors, applying all edits of any single quick fix, code action, completion, migration or event extraction yields text that again has no syntax errors. Completions are covered where they replace blank text or a single word (not a segment of a longer path).",
 ["programs", "inputs"], "all syntactically valid programs x every offered edit set",
 "Tests pin the inserted text for a few positions; they never re-parse the edited file.",
 [A + "text_edit.rs", A + "text_edit/common.rs", A + "actions/item.rs", A + "actions/attr.rs", A + "diagnostics/common.rs", "crates/analyzer/src/codegen/snippets.rs"],
 [("edit formatting and insert offsets", A + "text_edit.rs"), ("insertion points", A + "utils.rs")],
 ["TextEdit lists applied to the source text"],
 "Exhaustive within the structured program space; validity is judged by the parser the project itself uses.",
 "exhaustive enumeration of structured programs, one transition per offered edit, parse check in each successor state")

prop("C04", "Quick fixes resolve the diagnostic they are attached to",
 "Applying a quick fix that is attached to a diagnostic makes that diagnostic disappear: the fixed text has fewer diagnostics with the same message, and no syntax errors. Quick fixes that leave a placeholder for the user to complete are covered only in that they keep the code valid.",
 ["programs", "histories"], "all programs with rule violations x every quick fix (and sequences of fixes)",
 "Tests compare quick-fix text with expectations; none re-analyses the fixed program.",
 [A + "diagnostics/common.rs", A + "diagnostics/contract.rs", A + "diagnostics/message.rs", A + "diagnostics/chain_extension.rs", A + "diagnostics/trait_definition.rs", A + "diagnostics/event.rs"],
 [("quick fixes are built next to the violated rule", A + "diagnostics/common.rs")],
 ["diagnostics before and after applying a quick fix"],
 "Exhaustive over programs with at most the stated number of violated rules.",
 "explicit-state search: states are programs, transitions are offered quick fixes, progress invariant on every transition")

prop("C05", "Completions and code actions offer exactly what is legal in context",
 "At an attribute position, the ink! attribute macros and arguments offered as completions or 'add attribute/argument' actions are exactly those that are legal for the annotated item, the attributes already present, the enclosing ink! scope and the ink! version. Anything already present, conflicting, duplicate, not allowed for the item kind or not available in that ink! version is never offered, and every legal option is offered. (Quick fixes count as offers too. What is offered for the bare path `ink::` on an item that no ink! macro can annotate is unspecified.)",
 ["programs", "configurations"], "all item kinds x existing attributes x enclosing scopes x versions",
 "Tests list expected completions for some item/attribute pairs in some versions; the cross product is not covered.",
 [A + "completions.rs", A + "actions/attr.rs", A + "actions/item.rs", A + "utils.rs"],
 [("validity tables and filters", A + "utils.rs")],
 ["completions(), actions()"],
 "Exhaustive over the cross product of contexts; the legality relation is an independent reference table written from the ink! rules.",
 MC)

prop("C06", "Contract modules and their storage are accepted iff structurally valid",
 "A contract is reported free of errors exactly when it annotates an inline module and has exactly one storage item, at least one constructor and at least one message, with each ink! item placed where ink! allows it (storage, constructors, messages, legacy events and impls at the contract root; at most one contract per file). Storage must be a public struct without nested ink! items; every violation yields an error on the offending item.",
 ["programs", "configurations"], "all combinations of items, placements and versions within bounds",
 "Tests exercise one violation at a time on fixed fixtures; combinations and placements are not enumerated.",
 [A + "diagnostics/contract.rs", A + "diagnostics/contract/storage.rs", A + "diagnostics/file.rs", A + "diagnostics/common.rs"],
 [("contract rules", A + "diagnostics/contract.rs"), ("storage rules", A + "diagnostics/contract/storage.rs")],
 ["diagnostics()"], "Exhaustive over bounded feature products; oracle is a reference rule model.", MC)

prop("C07", "Constructors, messages and impl blocks are accepted iff they obey ink! rules",
 "A constructor, message or ink! impl block is reported free of errors exactly when it satisfies the ink! rules: functions that are public (inherent impls) or inherited (trait impls), with no const/async/unsafe/extern/variadic/generic signature, a self reference receiver for messages and none for constructors, a return type for constructors and never the self type for messages, and impl blocks that are not generic, default or unsafe and carry a namespace only when inherent. Every violated rule yields an error on the offending function or impl block.",
 ["programs", "configurations"], "all signatures and impl headers over the modifier alphabet, both versions",
 "Tests list individual bad signatures; the product of modifiers, receivers, return types, impl kinds and versions is not covered.",
 [A + "diagnostics/message.rs", A + "diagnostics/contract/constructor.rs", A + "diagnostics/contract/ink_impl.rs", A + "diagnostics/common.rs", I + "ink_impl.rs"],
 [("callable invariants", A + "diagnostics/common.rs"), ("impl invariants", A + "diagnostics/contract/ink_impl.rs")],
 ["diagnostics()"], "Exhaustive over the bounded feature product; oracle is a reference rule model.", MC)

prop("C08", "Selector clashes are reported exactly when two selectors are equal",
 "Within a contract, two messages (or two constructors) are reported as overlapping exactly when their selectors are equal, where a selector is the explicit one or is derived from the function name, the impl namespace and the trait path as ink! defines. At most one wildcard message and one wildcard constructor are accepted, and a second message next to a wildcard message is accepted (version 5) only with the well-known complement selector.",
 ["programs", "configurations"], "all small sets of callables with all selector/namespace/trait options",
 "Tests pin a few clashes; they cannot cover all pairs of explicit/derived/wildcard selectors across impl kinds.",
 [I + "selector.rs", A + "diagnostics/contract.rs", I + "traits/callable.rs", I + "attrs/meta/value.rs"],
 [("selector computation", I + "selector.rs"), ("overlap detection", A + "diagnostics/contract.rs")],
 ["diagnostics(), composed selectors"], "Exhaustive over ordered sets of callables; oracle computes BLAKE2b-256 selectors independently.", MC)

prop("C09", "Editor positions map to source offsets exactly, in every encoding",
 "For every text, every position inside it and each negotiated position encoding (UTF-8, UTF-16, UTF-32), converting between editor positions and source offsets is exact and round-trips, counting columns in the units of the encoding. Positions beyond the end of a line or of the text never crash the server and never address text outside the document.",
 ["inputs", "configurations"], "all texts over a 1/2/3/4-byte and newline alphabet x all positions x encodings",
 "Tests use one multi-byte sample; boundary positions in all encodings are not covered.",
 [L + "translator/from_lsp.rs", L + "translator/to_lsp.rs", L + "translator.rs", L + "memory.rs"],
 [("wide line index per negotiated encoding", L + "translator/from_lsp.rs")],
 ["translator functions, LSP hover/code action ranges"], "Exhaustive over texts up to the bound; oracle recounts units from the text.", MC)

prop("C10", "The server's view of each document equals the client's, after any history",
 "After any sequence of open, change and close notifications over any set of documents, every request and every published diagnostic is answered from the latest text of that document, exactly as a freshly started server holding the same texts would answer. Each change publishes the diagnostics of the new text for the right document, closing a document clears its diagnostics, and no document's history influences another document.",
 ["histories", "schedules"], "all notification/request histories up to a depth over a small set of documents and texts",
 "Tests send one fixed open/change/close sequence.",
 [L + "memory.rs", L + "dispatch.rs", L + "dispatch/handlers/notification.rs"],
 [("document memory with change tracking", L + "memory.rs"), ("snapshots per document", L + "dispatch.rs")],
 ["LSP messages on the connection"], "Exhaustive over all histories up to the depth bound on the real server loop.",
 "breadth-first exploration of all message histories on the real server, differential oracle against the model and a fresh server")

prop("C11", "Every request gets exactly one response and bad input never stops the server",
 "For every sequence of client messages after initialization, the server answers each request exactly once with the request's id - a result, or an error response for unknown methods, malformed parameters and failing commands - and answers no notification. No request or notification, however malformed or out of bounds, terminates the server; only shutdown followed by exit ends it, normally.",
 ["histories", "fault_sequences", "inputs"], "all message sequences up to a depth over well-formed, malformed and unknown messages",
 "Tests check single well-formed requests and some router-level error results, never sequences against the running loop.",
 [L + "dispatch.rs", L + "dispatch/routers/request.rs", L + "dispatch/routers/notification.rs", L + "dispatch/handlers/request.rs", L + "lib.rs"],
 [("request/notification routers and main loop", L + "dispatch.rs")],
 ["LSP messages on the connection"], "Exhaustive over all sequences up to the depth bound; server runs in-process on an in-memory connection.",
 "exhaustive exploration of message sequences with fault injection on the real server loop")

prop("C12", "Responses respect exactly what the client said it supports",
 "For every combination of client capabilities, the server advertises and uses only features that the client supports: the position encoding chosen is one the client offered (UTF-16 otherwise), snippets, lazily resolved code actions, parameter label offsets, file creation and server-initiated edits appear only for clients that declared them. A client lacking a capability still receives the same information in the plain form that it does support.",
 ["configurations"], "all combinations of the client capability flags",
 "Tests initialize with a handful of capability sets.",
 [L + "initialize.rs", L + "utils.rs", L + "dispatch/handlers/request.rs", L + "translator/to_lsp.rs", L + "dispatch/handlers/command.rs"],
 [("capability predicates", L + "utils.rs"), ("server capability negotiation", L + "initialize.rs")],
 ["initialize response, request results"], "Exhaustive over the product of capability flags.", MC)

prop("C13", "Migration to ink! 5 rewrites exactly the deprecated constructs",
 "Migrating an ink! 4 file rewrites every construct that ink! 5 replaced (legacy events, deprecated attribute arguments, chain-extension ids, e2e-test building blocks, renamed environment items) and leaves all other tokens and comments unchanged (whitespace, trailing commas and the order of neighbouring imports aside; other uses of removed imports are unspecified). The result has no ink! 5 errors that were caused by those constructs and migrating it again changes nothing. The manifest is upgraded with it: ink! dependencies to 5.0.0 (unless inherited from a workspace), SCALE dependencies and features that refer to them removed, everything else kept.",
 ["programs", "histories"], "all combinations of migratable constructs within bounds",
 "Tests migrate a few fixed fixtures.",
 [A + "migrate.rs", A + "migrate/e2e_test.rs", A + "migrate/host_fn.rs", A + "migrate/traversal.rs"],
 [("per-construct rewriters", A + "migrate.rs")],
 ["migrate()"], "Exhaustive over the bounded product of constructs; oracle is a reference rewriter, plus idempotence.", MC)

prop("C14", "Event extraction moves the whole event and nothing else",
 "Extracting an event from any position or selection inside it yields a standalone event item that keeps the struct's name, fields, topics, docs, other attributes and anonymity or signature, replaces exactly that struct (with its attributes and docs) in the contract by an import, and leaves the remaining text unchanged. The new package gets a usable name that no other package has, and the contract's manifest a dependency on it. Positions that are not in an event extract nothing. (Topics of tuple structs and detached comments next to the event are unspecified.)",
 ["programs", "inputs"], "all event shapes and all selections within bounds",
 "Tests extract a few fixed events at one selection each.",
 [A + "extract.rs", L + "dispatch/handlers/command.rs"],
 [("extraction", A + "extract.rs"), ("package creation command", L + "dispatch/handlers/command.rs")],
 ["extract(), extractEvent command"], "Exhaustive over event shapes x all selections.", MC)

prop("C15", "Generated projects are valid and free of diagnostics",
 "For every project name, creating a project either rejects the name (exactly when it is not a valid contract name: letters, digits, underscores and hyphens, starting with a letter, and giving Rust identifiers for the contract's module and storage type) or yields a manifest and a contract source in the requested ink! version that parse, name the contract consistently, and produce no diagnostics in that version.",
 ["inputs", "configurations"], "all names up to a length over an alphabet of character classes x versions",
 "Tests use one or two names.",
 ["crates/analyzer/src/codegen.rs", L + "dispatch/handlers/command.rs"],
 [("name validation and templates", "crates/analyzer/src/codegen.rs")],
 ["new_project(), createProject command"], "Exhaustive over names up to the bound.", MC)

prop("C16", "The ink! version of a document follows its manifest",
 "The ink! version used for a document is the one its package manifest selects for the ink! dependency (any requirement or dependency form, found in the nearest package manifest, or in its workspace's manifest for inherited dependencies), ink! 5 when the dependency has no version requirement, and ink! 4 when there is no such dependency. Development dependencies don't count, and requirements that admit both ink! 4 and 5 are left open, except `*`, which selects ink! 5. Opening a document reads the manifest; after a migration request the manifest is read again for the next two document changes.",
 ["configurations", "histories"], "all dependency forms x directory layouts x edit/migrate histories",
 "Tests check a couple of version strings.",
 [L + "utils.rs", L + "dispatch.rs", L + "dispatch/handlers/command.rs"],
 [("manifest lookup and version parsing", L + "utils.rs"), ("version recheck budget", L + "dispatch.rs")],
 ["version-dependent diagnostics over LSP"], "Exhaustive over forms, layouts and short histories in a scratch directory.", MC)

prop("C17", "Attribute arguments are accepted iff well-formed, compatible and unique",
 "An ink! attribute is reported free of errors exactly when each argument has a value of the type it requires (integers in range in decimal or hex, wildcard, identifier, string, boolean, path, or none), no argument or attribute is repeated, conflicting ones are not combined, the defining attribute or argument comes first, and required arguments are present - per ink! version. Unknown ink! macros and arguments are reported as warnings; non-ink! attributes are never reported.",
 ["programs", "inputs", "configurations"], "all argument sequences and values up to a bound for every attribute and version",
 "Tests list individual attribute strings.",
 [A + "diagnostics/common.rs", I + "attrs/parser.rs", I + "attrs/args.rs", I + "attrs/meta/value.rs", I + "attrs.rs"],
 [("generic attribute diagnostics", A + "diagnostics/common.rs"), ("meta parser", I + "attrs/parser.rs")],
 ["diagnostics()"], "Exhaustive over argument sequences up to the bound x value alphabet.", MC)

prop("C18", "Hover, inlay hints and signature help describe the ink! item they point at",
 "For every position or selection inside an ink! attribute, hover describes the argument it lies in, or else the attribute itself, and gives the range of its name; outside of ink! attributes it shows nothing. Inlay hints show the value type of each argument that takes a value, right after the argument's name, for exactly the arguments inside the requested range. Signature help appears exactly inside an ink! attribute's argument list; it lists the arguments that go with the attribute (or, while it is not yet defined, one list for each definition that is legal for the item in its scope), with their value types, and marks as active the argument at the cursor, also when it is only partly written.",
 ["programs", "inputs", "configurations"], "all attributes and arguments x all cursor positions and selections x versions",
 "Tests probe some positions in some attributes.",
 [A + "hover.rs", A + "inlay_hints.rs", A + "signature_help.rs"],
 [("attribute focus lookup", I + "tree/utils.rs")],
 ["hover(), inlay_hints(), signature_help()"], "Exhaustive over positions/selections in enumerated attributes.", MC)

prop("C19", "Trait definitions and their implementations are accepted iff they match",
 "A trait definition is reported free of errors exactly when it is a public, non-unsafe, non-auto, non-generic trait without supertraits whose items are all bodiless ink! messages (at least one, none with a wildcard selector). An implementation of a trait definition in a contract is accepted exactly when it provides every message with the same signature and compatible ink! arguments and nothing else.",
 ["programs", "configurations"], "all trait headers, item lists and implementations within bounds",
 "Tests list individual deviations.",
 [A + "diagnostics/trait_definition.rs", A + "diagnostics/contract/ink_impl.rs", A + "diagnostics/common.rs"],
 [("trait rules", A + "diagnostics/trait_definition.rs"), ("impl vs definition comparison", A + "diagnostics/contract/ink_impl.rs")],
 ["diagnostics()"], "Exhaustive over the bounded feature product.", MC)

prop("C20", "Chain extensions are accepted iff they obey the version's rules",
 "A chain extension is reported free of errors exactly when it is a public, non-unsafe, non-auto, non-generic trait without supertraits, has exactly one plain error-code type that implements the required conversions, and only bodiless extension functions without receivers whose ids are unique and in range and whose custom parameter and return types implement the encoding traits. The id syntax (per function only in version 4; extension id plus function ids in version 5) follows the ink! version.",
 ["programs", "configurations"], "all trait headers, error-code types, function lists and ids within bounds",
 "Tests list individual deviations.",
 [A + "diagnostics/chain_extension.rs", A + "diagnostics/chain_extension/error_code.rs", A + "diagnostics/chain_extension/extension_fn.rs", I + "chain_extension.rs", I + "extension_fn.rs"],
 [("chain extension rules", A + "diagnostics/chain_extension.rs")],
 ["diagnostics()"], "Exhaustive over the bounded feature product.", MC)

prop("C21", "Events, storage items and ink! tests are accepted iff they obey ink! rules",
 "An event is reported free of errors exactly when it is a public, non-generic struct whose only ink! attributes are topics on its named fields, none of them conditionally compiled, with compatible anonymous and signature arguments and, in its legacy form, placed at the contract root; a storage item only when it is a struct, enum or union; ink! tests and end-to-end tests only when they annotate functions. The standalone event form and its signature argument exist only in version 5.",
 ["programs", "configurations"], "all shapes over the feature alphabet, both versions",
 "Tests list individual deviations.",
 [A + "diagnostics/event.rs", A + "diagnostics/event/topic.rs", A + "diagnostics/storage_item.rs", A + "diagnostics/ink_test.rs", A + "diagnostics/ink_e2e_test.rs"],
 [("event rules", A + "diagnostics/event.rs")],
 ["diagnostics()"], "Exhaustive over the bounded feature product.", MC)

prop("C22", "Formatting, comments and unrelated code never change the analysis",
 "Inserting whitespace, line breaks or comments between any two tokens, or adding code without ink! attributes at the end of the file, leaves the diagnostics unchanged: the same problems with the same severity at the same tokens (the quoted source in a message, the delimiting comma of an argument, and a repetition of the same message for one attribute are not compared). Analysing the same text twice gives the same result.",
 ["programs", "inputs"], "all insertion points x trivia kinds x programs within bounds",
 "Tests only analyse one formatting of each snippet.",
 [I + "attrs.rs", I + "attrs/parser.rs", I + "tree/utils.rs", A + "diagnostics/common.rs"],
 [("syntax-tree based lookups skip trivia", I + "tree/utils.rs")],
 ["diagnostics()"], "Exhaustive over all single insertions (pairs in the thorough tier) in the seed programs.",
 "exhaustive enumeration of trivia insertions, differential (metamorphic) oracle on the real analyzer")

prop("C23", "Type and trait references resolve as Rust name resolution would",
 "Whether a custom environment, error-code type or encoded parameter type satisfies its required traits does not depend on how it is referred to: a local path, an absolute, self or super path, an import, a renamed import, a glob import, a re-export or a type alias all give the same verdict, and derives and impls are recognised under any import style. A name that does not resolve to a suitable item is reported.",
 ["programs", "configurations"], "all placements of type, impl and reference in small module trees x reference styles",
 "Tests cover a handful of placements.",
 ["crates/analyzer/src/resolution.rs", I + "tree/ast_ext.rs", A + "diagnostics/environment.rs", A + "diagnostics/chain_extension/error_code.rs"],
 [("path resolution", I + "tree/ast_ext.rs"), ("external crate imports and aliases", "crates/analyzer/src/resolution.rs")],
 ["diagnostics()"], "Exhaustive over module trees, reference styles and import styles within bounds; oracle is an independent resolver for the generated family.", MC)

prop("C24", "Every ink! item is recognised exactly once, in its proper scope",
 "For any nesting of modules, contracts, impl blocks, traits and ink! items, the analyzer attributes each ink! item to exactly one enclosing ink! scope (or to the file) and accepts it exactly when ink! allows that item in that scope. No item is lost or counted twice, whatever other items, attributes or modules surround it. (What lies inside an item that is itself misplaced is unspecified.)",
 ["programs"], "all item trees up to a size over an alphabet of item kinds and attributes",
 "Tests use fixed fixtures with one nesting each.",
 [I + "tree/utils.rs", I + "file.rs", I + "contract.rs", "crates/macro/src/entity.rs", A + "diagnostics/common.rs"],
 [("closest ink! descendants/parents computation", I + "tree/utils.rs")],
 ["public entity accessors, diagnostics()"], "Exhaustive over item trees up to the bound; oracle is a reference tree walk.", MC)
