VI = "bluejay-visibility/src"
prop("S01", "A scoped view shows exactly what its tenant may see, in any order of asking",
 "For every schema and every tenant policy, a scoped view exposes exactly the types, fields, arguments, enum values, members, implementors and directives the policy allows, each with exactly the content of the underlying schema: nothing hidden leaks and nothing visible is lost. What it answers does not depend on what was asked before, in which order, through which view or by which other tenant, and validation through the view uses exactly the visible schema.",
 ["histories", "inputs", "schedules"], "all schemas, all policies, all interleavings of lookups, listings, validations and prints over shared caches, with caches lost and rebuilt",
 "The tests ask a fresh view a fixed question; the lazily filled shared caches make every answer depend on history.",
 [VI + "/cache.rs", VI + "/schema_definition.rs", VI + "/fields_definition.rs", VI + "/interface_implementors.rs", VI],
 [("lazy wrapper cache", VI + "/cache.rs"), ("scoped collections", VI + "/fields_definition.rs")],
 ["bluejay_visibility::SchemaDefinition through bluejay_core's traits, validator verdicts and printed SDL of the view"],
 state=[("cache", "wrappers built so far, per tenant", VI + "/cache.rs"), ("lazily filled collections", "which members were already resolved", VI + "/fields_definition.rs")],
 note="Seeded search; oracle: projection of the model schema by the tenant's policy.")
prop("S02", "A policy that fails half way leaves the scoped views intact",
 "When a tenant's policy fails (unwinds) at any question inside any operation on a scoped view, every later operation on the same cache, including the retried one, still exposes exactly what the tenant may see.",
 ["fault_sequences", "crash_points", "histories"], "all points at which the policy can fail, in all operations, in all histories",
 "No test lets a policy fail; the lazily filled caches are updated in several steps around policy calls, and each step is a point where the operation can be cut off.",
 [VI + "/cache.rs", VI + "/schema_definition.rs", VI + "/fields_definition.rs", VI],
 [("lazy wrapper cache", VI + "/cache.rs"), ("once cells around policy calls", VI)],
 ["bluejay_visibility::SchemaDefinition after an unwound operation"],
 state=[("cache", "wrappers built so far, per tenant", VI + "/cache.rs")],
 note="Seeded search over the failing question's position; same oracle as S01.")
V = "bluejay-validator/src/executable/document"
prop("S07", "Validation verdicts are the specification's, whatever clients send",
 "For every schema and every request document, the set of specification rules the built-in validator reports as violated is exactly the set the GraphQL specification says is violated, and a document violating none is accepted. This holds for documents written against another version of the schema and for documents damaged in transit that still parse.",
 ["inputs", "fault_sequences", "histories"], "all schemas, all parseable documents, all sequences of edits and transport faults that lead to them",
 "The unit tests pin one or a few examples per rule; the rules interact (fragments, merging, variables through fragments and nested input objects), and the product of schema, document and edit is unbounded.",
 [V + "/rules", V + "/orchestrator.rs", V + "/builtin_rules.rs", "bluejay-validator/src/executable/cache.rs"],
 [("built-in rules", V + "/rules/*.rs"), ("document traversal", V + "/orchestrator.rs")],
 ["Orchestrator::<BuiltinRules>::validate over (document, schema)"],
 note="Seeded search; oracle: an independent reference validator over an independent parse of what arrived. Classes are compared, not messages; below an unknown field or type only a superset is required.")
prop("S10", "Arrived text is parsed as the specification says or refused with its position",
 "For every sequence of characters that arrives, the parser accepts exactly the documents the GraphQL grammar accepts and yields exactly their content, for executable documents and for schema documents. Anything else is refused with at least one error that can be reported to the client, and a syntax error is located at the first token that cannot continue the document.",
 ["inputs", "fault_sequences"], "all documents, all transport faults (loss, duplication, reordering, misrouting, truncation, corruption of packets and characters)",
 "The snapshot tests parse a few dozen fixed files; damage at every position and every lexical form of strings, numbers and comments is out of their reach.",
 ["bluejay-parser/src/lexer", "bluejay-parser/src/ast", "bluejay-parser/src/lexical_token", "bluejay-parser/src/error.rs"],
 [("lexer", "bluejay-parser/src/lexer/logos_lexer.rs"), ("recursive descent", "bluejay-parser/src/ast"), ("error reporting", "bluejay-parser/src/error.rs")],
 ["ExecutableDocument::parse, DefinitionDocument::parse, Error::into_graphql_errors"],
 note="Seeded search; oracle: independently written lexer and parser over the same bytes, models compared for equality.")
VA = "bluejay-validator/src/executable/operation/analyzers"
prop("S08", "Variable values are admitted exactly when they can be coerced",
 "For every operation and every set of variable values a client sends with it, the gateway admits the request exactly when every value can be coerced to its variable's type as the GraphQL specification defines, and otherwise it reports exactly the missing, unusable and superfluous values, each at the path where coercion fails. The operation meant by the request is resolved exactly as the specification says.",
 ["inputs", "histories", "fault_sequences"], "all operations, all JSON values, all client skews and transport faults, with caches shared between calls",
 "The tests try a handful of values against scalars; nested input objects, lists, enums, oneOf and shared variable-type caches multiply beyond sampling.",
 [VA + "/variable_values_are_valid.rs", "bluejay-validator/src/value/input_coercion.rs", "bluejay-validator/src/executable/operation/orchestrator.rs"],
 [("input coercion", "bluejay-validator/src/value/input_coercion.rs"), ("variable value analyzer", VA + "/variable_values_are_valid.rs")],
 ["Orchestrator::<VariableValuesAreValid>::analyze over (document, operation name, JSON values)"],
 note="Seeded search; oracle: independent implementation of CoerceVariableValues reporting (variable, kind, path).")

prop("S03", "Every answer is a function of the request alone",
 "For every request (parse, admit a schema, validate, admit variables, analyze, print, compare, look through a scoped view), the complete answer, including which errors are reported, with which texts and positions and in which order, depends on nothing but the request: not on the process that serves it, hash keys or memory addresses, not on what was served before, and not on whether caches were warm, shared, lost in a crash or rebuilt.",
 ["schedules", "histories", "crash_points", "configurations"], "all workloads, all assignments of requests to processes, all orders, all hash keys and heap layouts",
 "A test runs in one process and compares with one expected value; whether another process, order or cache state answers alike is a statement about pairs of executions.",
 ["bluejay-validator/src/executable", "bluejay-parser/src/ast/definition/definition_document.rs", "bluejay-parser/src/error.rs", "bluejay-printer/src", "bluejay-schema-comparator/src", "bluejay-visibility/src"],
 [("hash based collections", "bluejay-validator/src/executable/document/rules"), ("shared caches", "bluejay-validator/src/executable/cache.rs"), ("definition registry", "bluejay-parser/src/ast/definition/definition_document.rs")],
 ["every public entry point, rendered completely"],
 state=[("hash keys", "per process", "std::collections::HashMap in all crates"), ("caches", "per process, lost in a crash", "bluejay-validator/src/executable/cache.rs")],
 note="Seeded search over workloads and schedules; oracle: the answer of another process life.")
DD = "bluejay-parser/src/ast/definition/definition_document.rs"
prop("S16", "The registry admits exactly the schemas that hang together, as written",
 "For every schema document, the registry (document to schema definition, then the built-in definition rules) reports exactly the defects it has: duplicate definitions, unresolvable or wrongly kinded references, missing or ambiguous roots, unknown directives, duplicate enum values and input fields, and rings of required input objects. A schema without defects is admitted and serves exactly the types, directives, roots and implementors that were written, plus the built-in ones.",
 ["inputs", "fault_sequences", "histories"], "all schema documents, all sequences of edits by concurrent publishers and transport faults that lead to them",
 "The tests pin one document per error kind; defects interact (a duplicate hides a reference, an implicit root is of the wrong kind) and the product is unbounded.",
 [DD, "bluejay-parser/src/ast/definition/definition_document/definition_document_error.rs", "bluejay-validator/src/definition", "bluejay-core/src/definition"],
 [("definition registry", DD), ("definition rules", "bluejay-validator/src/definition/rules")],
 ["SchemaDefinition::try_from, definition::BuiltinRulesValidator, bluejay_core definition traits"],
 note="Seeded search; oracle: independent registry over an independent parse. Interface conformity, duplicate field names of output types and directive arguments in SDL are outside of what bluejay checks and not judged.")
prop("S04", "Meaning-preserving rewrites never change a verdict or a price",
 "For every schema and every request document, rewriting the request on its way without changing its meaning (reordering definitions, selections, arguments, directives, variables or input object fields, renaming fragments, variables, operations or response keys, repeating or wrapping selections, inlining or extracting fragments, dropping other operations), or validating it against a reordered or unrelatedly extended schema, changes neither the set of violated rules nor the depth, the cost and the connection cost of any operation.",
 ["histories", "inputs", "schedules"], "all documents, valid or not, all chains of rewriting proxies and all assignments of hops to gateways",
 "A relation between pairs of runs over an unbounded group of rewrites; the tests judge single documents.",
 [V + "/rules", V + "/orchestrator.rs", VA, "bluejay-validator/src/executable/operation/orchestrator.rs"],
 [("merging rule", V + "/rules/field_selection_merging.rs"), ("document traversal", V + "/orchestrator.rs"), ("cost scopes", VA + "/complexity_cost")],
 ["Orchestrator::<BuiltinRules>::validate, QueryDepth and ComplexityCost before and after the rewrite"],
 note="Seeded search; oracle: the verdict and meters before the rewrite. Rewrites that need a valid document (inlining, extracting, dropping) are applied to valid ones only; verdicts the specification leaves open (uses of a variable declared twice, merging with repeated arguments) are skipped.")
prop("S06", "An accepted request executes without any request-shaped error",
 "For every schema, every document the gateway accepts and every set of variable values it admits, executing any operation by the specification over any data meets no error that the request causes: no unknown field, no selection of the wrong kind, no missing or ill-typed argument, no undefined variable, no fragment cycle, no two fields claiming one response key with different meaning. And every document written by the book is accepted with every set of values written by the book.",
 ["inputs", "fault_sequences", "histories"], "all schemas, documents, values, run-time data and transport faults",
 "Soundness is a statement about the composition of all rules with coercion and execution; the tests judge each rule by itself, and no test executes anything.",
 [V + "/rules", V + "/orchestrator.rs", VA + "/variable_values_are_valid.rs", "bluejay-validator/src/value/input_coercion.rs"],
 [("built-in rules", V + "/rules"), ("value coercion", "bluejay-validator/src/value/input_coercion.rs"), ("operation resolution", "bluejay-validator/src/executable/operation/orchestrator.rs")],
 ["the gateway's verdict against the outcome of a reference executor"],
 note="Seeded search; oracle: reference executor over random data. The executor does not know the rules. Two specified run-time errors of valid requests are excepted: an explicit null where a default stands in, nullable variables in oneOf objects.")
prop("S09", "Every admitted operation is metered exactly",
 "For every schema with prices and page sizes, every valid document and every set of admitted values, the gateway's meters report exactly what was asked for: the depth of the deepest selection that is included; a cost no lower than that of the most expensive execution and no higher than that of the most expensive combination of type conditions, with skipped selections free and connections charged by their page size; every list longer than the limit, in arguments, values and defaults, with its path; and exactly the deprecated fields, arguments and values in use. The meters never overflow and do not depend on caches or on the order of calls.",
 ["inputs", "histories", "crash_points", "fault_sequences"], "all schemas, documents, values and call histories, with caches lost at arbitrary calls",
 "The tests fix a dozen queries; costs are maxima over type conditions, fragments, directives and variables, and can only be judged against the set of all executions.",
 [VA, "bluejay-validator/src/executable/operation/orchestrator.rs"],
 [("cost scopes", VA + "/complexity_cost"), ("depth", VA + "/query_depth.rs"), ("input sizes", VA + "/input_size.rs"), ("deprecations", VA + "/deprecation.rs")],
 ["the five operation analyzers over (document, operation, values)"],
 state=[("cache", "variable definition types", "bluejay-validator/src/executable/cache.rs")],
 note="Seeded search; oracle: reference meter that collects fields on concrete types. For valid documents only. An absent variable for a page size counts as no page size.")
prop("S05", "Composed rules and analyzers see every event exactly once, undisturbed",
 "For every schema and document, and every composition of validation rules, operation analyzers and definition rules (single, tuples of any size, nested tuples, mixed with the built-in ones), each component sees exactly the events it would see alone: every element of the document once, in the scope of its parent, with visits and leaves properly nested, on the paths where the elements are; its errors are reported exactly once; and a component that crashes leaves neither caches nor later requests disturbed.",
 ["configurations", "histories", "crash_points"], "all compositions, documents, orders of calls over shared caches, and crashes of components at any event",
 "The tests run one rule at a time, or all built-in ones together; that compositions are faithful is a statement about all pairs of them.",
 [V + "/orchestrator.rs", V + "/visitor.rs", "bluejay-validator/src/executable/operation/orchestrator.rs", "bluejay-validator/src/executable/operation/visitor.rs", "bluejay-validator/src/definition"],
 [("document traversal", V + "/orchestrator.rs"), ("operation traversal", "bluejay-validator/src/executable/operation/orchestrator.rs"), ("tuples", V + "/visitor.rs"), ("definition rules", "bluejay-validator/src/definition")],
 ["events recorded by rules, analyzers and definition rules written against the public traits"],
 state=[("caches", "shared between calls", "bluejay-validator/src/executable/cache.rs")],
 note="Seeded search; oracles: the component alone, an independent traversal, and the same call before the crash. In which order siblings are visited is not judged.")
PR = "bluejay-printer/src"
prop("S11", "What is printed is what was read, across any number of hops",
 "For every schema and executable document, printing it and parsing the text yields the same schema or document: every definition, description, directive, argument, default and literal with its exact value. Printing again yields the same text. So copies that are forwarded as text between any number of processes, with crashes and restarts between, never drift.",
 ["inputs", "histories", "crash_points", "fault_sequences"], "all schemas, documents and values, all strings and floats, all chains of hops, message faults and crashes",
 "The tests print a handful of fixed files; escapes, block strings, floats, implicit roots and directive positions multiply, and drift only shows after several hops.",
 [PR + "/definition", PR + "/executable", PR + "/value.rs", PR + "/string_value.rs", PR + "/directive.rs", "bluejay-parser/src/ast"],
 [("schema printer", PR + "/definition"), ("document printer", PR + "/executable"), ("literals", PR + "/value.rs"), ("strings", PR + "/string_value.rs")],
 ["SchemaDefinitionPrinter, ExecutableDocumentPrinter, ValuePrinter, then parse"],
 state=[("text of the newest version", "survives crashes (node's disk)", "harness")],
 note="Seeded search; oracle: independent snapshot and independent parser of the text, and the version that was published.")
SC = "bluejay-schema-comparator/src"
prop("S13", "The comparator reports every difference of two schemas exactly once",
 "For every two versions of a schema, compare() reports exactly the differences between them: one change per thing that was added, removed or altered (types, kinds, descriptions, fields, arguments, types, defaults, enum values, members, interfaces, directive definitions and locations, applied directives and their arguments), with its path, names and criticality. Equal or merely reordered versions have no changes. Comparing the other way around reports the mirror image.",
 ["histories", "inputs", "crash_points", "fault_sequences"], "all histories of edits by concurrent teams, all pairs of versions, all delivery orders, registry crashes and restarts",
 "The tests compare two fixed versions per change; changes interact (a changed kind hides its members, a type and its field change together), and completeness is a statement about all pairs.",
 [SC + "/diff", SC + "/changes.rs", SC + "/result.rs"],
 [("diffs", SC + "/diff"), ("changes and criticality", SC + "/changes.rs")],
 ["bluejay_schema_comparator::compare, read through Change's path, criticality, message and variants"],
 state=[("log of versions", "survives crashes", "harness"), ("parsed versions", "lost in a crash", "registry")],
 note="Seeded search; oracle: independent diff of independent parses. Five kinds of differences that have no change are known findings. The wording of messages and the order of changes are not judged.")
prop("S12", "Printing to a sink that fails never passes for printed",
 "For every schema, scoped view, executable document and value, and every sink: if the sink fails at any write, for good or once, the printer reports the failure, writes nothing after it, and what has been written is a beginning of the whole text; if it reports success, the sink got exactly the whole text, however the writes were cut or interrupted, and whatever other prints of the same things ran in the middle of it. A retry succeeds, so a file that is replaced after success is always a complete version.",
 ["fault_sequences", "crash_points", "schedules", "inputs"], "all things to print, all failures at any write, short writes, preemptions and crashes in the middle of prints",
 "The tests print into strings, which never fail; errors of sinks are propagated by hand at a hundred places.",
 [PR + "/definition", PR + "/executable", PR + "/value.rs", PR + "/string_value.rs", PR + "/directive.rs", PR + "/argument.rs"],
 [("schema printer", PR + "/definition"), ("document printer", PR + "/executable"), ("literals", PR + "/value.rs")],
 ["Display of SchemaDefinitionPrinter, ExecutableDocumentPrinter, ValuePrinter onto std::io::Write and std::fmt::Write"],
 state=[("file", "replaced by rename after success", "harness")],
 note="Seeded search; oracle: the text given to a sink that never fails. What that text says is S11.")
prop("S14", "A release without breaking changes can be rolled out under live traffic",
 "For every history of releases in which the comparator reports no breaking change from one to the next, every document that was valid against an earlier release, and every set of values admitted there, is accepted by every replica that serves a later one, executes without request errors, and gets responses of the shapes it was written for, whatever the order in which replicas install releases, crash and restart.",
 ["histories", "schedules", "crash_points", "fault_sequences", "inputs"], "all histories of releases and rollbacks, all rollout orders with crashes, all clients built at any time",
 "A relation between the comparator's classification and what the validator accepts; no test of the repository involves both.",
 [SC + "/changes.rs", SC + "/diff", V + "/rules", VA + "/variable_values_are_valid.rs"],
 [("criticality", SC + "/changes.rs"), ("diffs", SC + "/diff"), ("validation", V)],
 ["compare() as a gate; Orchestrator::<BuiltinRules>::validate and VariableValuesAreValid on the replicas"],
 state=[("installed release", "survives crashes (replica's disk)", "harness"), ("parsed release", "lost in a crash", "replica")],
 note="Seeded search; oracle: acceptance before the release. Excepted: changed root operation types and `repeatable` (known findings of S13), and conflicts between merged fields of which one became non-null.")
prop("S15", "Typed clients mean what they say, and are refused when they cannot",
 "For every schema and document, a program with a typed client (bluejay-typegen; serde, borrowing serde or miniserde; from files or inline) is refused by the macro exactly when the schema or document is invalid, breaks a documented restriction, or the custom scalar aliases or arguments do not fit; otherwise it compiles, has the documented names, writes every input value so that a server reads the value that was meant, and reads every answer a server may give, including enum values and union members newer than the client, as exactly what it says, under the key it came with, in any order of keys and with unknown keys. An answer that was cut or whose values do not fit the types is an error, never a different value, whatever was read before.",
 ["inputs", "fault_sequences", "schedules"], "all schemas and documents, all values and answers, all places where connections break, over the three kinds of clients",
 "The tests of typegen have three fixed documents and a few answers each; the generated code depends on the whole shape of schema and document, and what it must read is decided by servers.",
 ["bluejay-typegen-macro/src", "bluejay-typegen/src", "bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs", "bluejay-typegen-macro/src/input_object_type_definition.rs"],
 [("types of answers", "bluejay-typegen-macro/src/executable_definition"), ("inputs", "bluejay-typegen-macro/src/input_object_type_definition.rs"), ("enums", "bluejay-typegen-macro/src/enum_type_definition.rs"), ("restrictions", "bluejay-typegen-macro/src/validation")],
 ["whether the program compiles; Deserialize, Serialize and Debug of the generated types"],
 note="Seeded search; the programs are generated from the seed and compiled by the check. Oracle: an independent reader of answers and an independent judge of programs. Excepted: documents with @skip or @include (known finding), names Rust cannot express or that collide when converted.")
prop("S17", "Every request is answered, within bounds, and nobody else notices",
 "Whatever bytes are sent to any entry point (reading schemas and documents, building and checking schemas, validation, admission, analysis, printing, comparison, views), with caches warm or cold and whatever was sent before, the answer comes without a panic, an abort or a hang, after an amount of work that is at most quadratic in the sizes of the schema and the document (times the expanded size of the operation, for analyses of operations), and other clients of the same process get the answers they get without it.",
 ["inputs", "histories", "schedules"], "all texts up to the bounds, all interleavings of attackers and honest clients on one process",
 "A denial of service is found by the one input that no test author thought of; tests sample a few small documents and measure nothing.",
 ["bluejay-parser/src/ast", V + "/rules", VA, "bluejay-validator/src/executable/operation/orchestrator.rs", "bluejay-validator/src/definition", VI, PR, SC],
 [("merging", V + "/rules/field_selection_merging.rs"), ("cycles", V + "/rules/fragment_spreads_must_not_form_cycles.rs"), ("variables", V + "/path.rs"), ("costs", VA + "/complexity_cost.rs"), ("registry", DD)],
 ["DefinitionDocument::parse, ExecutableDocument::parse, SchemaDefinition::try_from, definition::BuiltinRulesValidator, Orchestrator::<BuiltinRules>::validate, operation analyzers, printers, compare(), bluejay_visibility::SchemaDefinition"],
 note="Seeded search; oracle: answers of the same service without attackers, and a bound on the number of allocations. Known findings: nesting without limit overflows the stack; operation analyses expand fragments exponentially; sets of merged fields can be exponentially many.")
prop("S18", "A refusal names and points at what is wrong, whatever else is wrong",
 "Whenever a request document or a schema document is refused because of some defect, the refusal contains an error of that defect's kind that names the offending element and whose line and column point at it (at each of them, when the defect is a conflict of several), regardless of how many other defects the document has, of the order of its definitions, of white space, comments, line endings and characters outside ASCII, and of whether errors are reported together or one by one; and no error of a kind the document is free of points at what is right.",
 ["inputs", "histories"], "all documents and schemas, all combinations and placements of defects, all layouts of the text",
 "Tests look at one defect in one place per rule and at the text of messages; positions depend on everything that precedes in the text and on which of several equal-looking elements the rule remembered.",
 [V + "/error.rs", V + "/rules", "bluejay-parser/src/error.rs", DD, "bluejay-parser/src/ast/definition/definition_document/definition_document_error.rs", "bluejay-validator/src/definition"],
 [("error conversion", V + "/error.rs"), ("rules", V + "/rules"), ("line and column conversion", "bluejay-parser/src/error.rs"), ("definition errors", "bluejay-parser/src/ast/definition/definition_document/definition_document_error.rs")],
 ["Orchestrator::<BuiltinRules>::validate, SchemaDefinition::try_from, definition::BuiltinRulesValidator, Error::into_graphql_errors"],
 note="Seeded search; oracle: the recorded places of planted defects (requests), an independent registry and token roles (schemas). An error may point at any token of the defective element's head. Syntax error positions are judged in S10.")
