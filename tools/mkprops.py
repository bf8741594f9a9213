#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the JSON stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": list(observe), "hook_needed": None}})

p("C01", "Well-formed specifications are accepted and give code that compiles and links",
  "Every well-formed specification is accepted, and everything generated for it, including the skeleton of user functions, compiles as C and links with the runtime and the support library once the user adds the gate functions, a breakpoint handler and main. This holds for every combination of documented constructs, both long and short notations, and nested or top-level definitions.",
  ["programs"], "every well-formed specification built from the documented constructs (nodes, nodesets, enums, passes, traversals, phases, cycles, gates, lifetimes, attribute grammars, user types)",
  "Seven accepted DSL files are only fed to the meta-compiler; no test compiles generated code except cocogen's own specification, which uses few of the constructs.",
  ["cocogen/dynamic_backend/", "cocogen/phase_driver/", "cocogen/frontend/scanAndParse/dsl-parser.y", "copra/src/"],
  [("code generators", "cocogen/dynamic_backend/gen_*.c"), ("action tables", "cocogen/phase_driver/gen_*.c"), ("checks that keep impossible specs out", "cocogen/frontend/check_existance.c")],
  ["exit status of cocogen", "exit status of the C compiler and linker"])
p("C02", "Ill-formed specifications are rejected with a diagnostic",
  "A specification that breaks a documented rule is rejected: the meta-compiler prints an error and exits with a non-zero status, never silently accepting it and never crashing. The rules are: names and uids unique regardless of case, unique enum values and prefixes, no reserved uid, enum prefix, name or C keyword, references that exist and have the right kind, exactly one root node and one start phase, no empty or non-node set members, no clash between child and attribute names, no name that cannot be used in the generated C (a field or traversal with data named like a C keyword in any letter case, two fields with one macro, two equations with one function, two attributes with one variable, a child whose helper is a function of the runtime), and the documented limits on node lifetimes, attribute lifetimes, constructor attributes and nodeset attributes.",
  ["programs"], "every specification obtained from a well-formed one by breaking one documented rule at any place where it applies",
  "The sixteen rejected DSL files break each rule once, at one place, in a tiny specification; the same rule can be missed for the second attribute, the nested definition or another kind of reference.",
  ["cocogen/frontend/buildsymboltable.c", "cocogen/frontend/check_existance.c", "cocogen/frontend/check_attributes.c", "cocogen/frontend/unwrap_setexpr.c", "cocogen/frontend/nodesets/propagate_attributes.c", "cocogen/frontend/lifetimes/"],
  [("duplicate detection", "cocogen/frontend/buildsymboltable.c"), ("reference checks", "cocogen/frontend/check_existance.c"), ("attribute rules", "cocogen/frontend/check_attributes.c"), ("lifetime targets", "cocogen/frontend/lifetimes/map_id_to_lifetimes.c")],
  ["exit status and stderr of cocogen"])
p("C03", "Any input file is accepted or rejected cleanly",
  "For any input bytes the meta-compiler terminates and either exits with status 0 or prints an error and exits with status 1; it never crashes, hangs, or touches memory it does not own.",
  ["inputs"], "every byte string as input file: random bytes, token soup, and mutations of well-formed specifications",
  "The tests feed only 23 hand-written files, all lexically and syntactically valid.",
  ["cocogen/frontend/scanAndParse/dsl-lexer.l", "cocogen/frontend/scanAndParse/dsl-parser.y", "cocogen/frontend/", "palm/src/ctinfo.c"],
  [("lexer and parser error handling", "cocogen/frontend/scanAndParse/"), ("abort on error", "palm/src/ctinfo.c")],
  ["exit status, signals and sanitizer reports of cocogen"])
p("C04", "Node constructors and field access behave as declared",
  "A node constructor takes exactly the children and then the attributes marked for construction, in declaration order, stores each argument in its field, and leaves every other child empty and every other attribute at its zero, null or NULL-member default. Each access macro, of the node or of a nodeset the node belongs to, reads back the last value written through any route to that field and to no other, the child array lists the children in declaration order, and each node carries its own type.",
  ["programs", "histories"], "every specification and every sequence of constructions and field writes on its nodes",
  "No test executes a generated constructor except through cocogen itself, whose nodes use two attribute types.",
  ["cocogen/dynamic_backend/gen_node_constructor.c", "cocogen/dynamic_backend/gen_node_access_funcs.c", "cocogen/dynamic_backend/gen_nodeset_access_funcs.c", "cocogen/dynamic_backend/gen_node_structs.c", "cocogen/dynamic_backend/gen_node_init_funcs.c"],
  [("constructor generation", "cocogen/dynamic_backend/gen_node_constructor.c"), ("field access", "cocogen/dynamic_backend/gen_node_access_funcs.c"), ("nodeset access", "cocogen/dynamic_backend/gen_nodeset_access_funcs.c")],
  ["values read through macros in a compiled program"])
p("C05", "Copying a tree gives an equal and independent deep copy",
  "Copying a node yields a tree of the same shape and types whose attributes have equal values, in which every node and every string is newly allocated, node-valued attributes keep pointing at the node they pointed at, and user-typed attributes are copied by value. The original is unchanged, and later writes to or freeing of either tree do not affect the other.",
  ["programs", "histories"], "every specification, every tree over it including empty children and null strings, and every later write or free of one of the two trees",
  "Copying is exercised only on cocogen's own identifier and attribute nodes.",
  ["cocogen/dynamic_backend/gen_copy_traversal.c", "cocogen/dynamic_backend/gen_constructor_call.c", "copra/src/dynamic_core.c"],
  [("generated copy traversal", "cocogen/dynamic_backend/gen_copy_traversal.c"), ("CCNcopy", "copra/src/dynamic_core.c")],
  ["dump of both trees and AddressSanitizer in a compiled program"])
p("C06", "Freeing a tree releases exactly what it owns, once",
  "Freeing a node releases the node, all nodes reachable through children and their strings exactly once, never follows node-valued or user-typed attributes, and so neither leaks, double-frees nor touches anything outside the tree.",
  ["programs", "histories"], "every specification, every tree over it, and node attributes linking anywhere, including into the freed tree",
  "The test builds switch leak detection off, and no test frees trees with node attributes, null strings or missing children.",
  ["cocogen/dynamic_backend/gen_free_traversal.c", "copra/src/dynamic_core.c"],
  [("generated free traversal", "cocogen/dynamic_backend/gen_free_traversal.c"), ("CCNfree", "copra/src/dynamic_core.c")],
  ["AddressSanitizer and LeakSanitizer in a compiled program"])
p("C07", "Traversals visit the right nodes in order and replace results",
  "Starting a traversal on a tree calls the user's handler for each reached node whose type the traversal targets (every type when no set is given), and walks silently through children of other types when a targeted node may lie beneath them, in declaration order of children, depth first. Every child visit, through the children helper or the per-child helper, skips empty children and stores the handler's result back into that child, and the start call returns the handler's result for the starting node.",
  ["programs", "histories"], "every specification, every target set expression, every type-correct tree, and every handler that visits children through any helper, in any order, or replaces nodes",
  "The only traversals run are cocogen's own passes over its own syntax tree, which nearly all target every node they meet.",
  ["cocogen/dynamic_backend/gen_trav_table.c", "cocogen/dynamic_backend/gen_traversal_functions.c", "cocogen/frontend/reachability.c", "copra/src/dynamic_core.c", "cocogen/dynamic_backend/gen_trav_structs.c"],
  [("dispatch table", "cocogen/dynamic_backend/gen_trav_table.c"), ("reachability", "cocogen/frontend/reachability.c"), ("TRAV helpers", "copra/src/dynamic_core.c")],
  ["log of handler calls and final tree in a compiled program"])
p("C08", "Traversal data is per activation, initialised once and nested",
  "Each start of a traversal with data gets its own fresh data block, runs the user's init after creating it and before the first handler, and runs fini after the last handler and before releasing it. Handlers always see the data and traversal identity of the innermost active traversal, and when a nested traversal, including a recursive start of the same one, ends, the outer data is back unchanged.",
  ["programs", "histories"], "every set of traversals with any data fields, and every nesting of starts, copies and frees from inside handlers",
  "No test declares data in more than one active traversal or restarts a traversal from inside itself.",
  ["copra/src/dynamic_core.c", "cocogen/dynamic_backend/gen_trav_data_ctors.c", "cocogen/dynamic_backend/gen_trav_data_tables.c", "cocogen/dynamic_backend/gen_trav_data_getters.c"],
  [("traversal stack", "copra/src/dynamic_core.c"), ("data construction tables", "cocogen/dynamic_backend/gen_trav_data_tables.c")],
  ["log of data values in a compiled program"])
p("C09", "The phase driver runs exactly the specified actions in order",
  "A run executes the start phase's actions in declared order, passing each action the tree the previous one returned; a phase whose gate returns false contributes none of its actions; a cycle repeats its actions while some action in it signalled a change in the last iteration and the maximum number of cycles is not reached. This holds under any nesting of phases and cycles, any reuse of an action in several phases, and the tree is freed at the end.",
  ["programs", "histories"], "every phase structure, every history of gate results and change signals, every maximum number of cycles, and repeated runs in one process",
  "cocogen's own run has one constant gate and its only cycle is never executed.",
  ["copra/src/phase_driver.c", "cocogen/phase_driver/gen_ids_table.c", "cocogen/phase_driver/gen_action_array.c", "cocogen/phase_driver/gen_action_array_header.c", "cocogen/dynamic_backend/gen_pass_table.c"],
  [("StartPhase", "copra/src/phase_driver.c"), ("action tables", "cocogen/phase_driver/gen_ids_table.c")],
  ["log of executed actions in a compiled program"])
p("C10", "Error signals stop the run at the promised point",
  "An action-error signal stops the compiler with a failing status right after the action that raised it, and a phase-error signal stops it right after the remaining actions of the innermost phase in which it was raised; nothing later runs. Without such a signal the run completes with success.",
  ["programs", "histories"], "every phase structure and every place and time at which an action raises either signal, including nested phases, cycles and gated-off phases",
  "The signals are raised only by cocogen's attribute checks, always in one phase.",
  ["copra/src/phase_driver.c", "palm/src/ctinfo.c"],
  [("CCNdispatchAction and StartPhase", "copra/src/phase_driver.c")],
  ["log of executed actions and exit status of a compiled program"])
p("C11", "Lifetime violations are reported exactly when they occur",
  "With consistency checking on, a run is stopped with an error before an action if and only if some node, child or node/string attribute in the tree at that point breaks one of its declared lifetimes; every lifetime in a list counts. A range includes or excludes its end actions as its brackets say, a phase as an end stands for all its (nested) actions, an unqualified target means its first encounter in execution order, a dotted target is resolved inside the named phases, and an omitted end means the begin or end of the run.",
  ["programs", "histories"], "every list of lifetimes on nodes, children and attributes, every phase structure they refer to, and every history of trees during a run",
  "No accepted test file contains a lifetime, and none runs a generated program.",
  ["cocogen/frontend/lifetimes/assign_id_to_actions.c", "cocogen/frontend/lifetimes/map_id_to_lifetimes.c", "cocogen/dynamic_backend/gen_check_traversal.c", "copra/src/phase_driver.c"],
  [("action numbering", "cocogen/frontend/lifetimes/assign_id_to_actions.c"), ("target resolution", "cocogen/frontend/lifetimes/map_id_to_lifetimes.c"), ("generated checks", "cocogen/dynamic_backend/gen_check_traversal.c")],
  ["exit status, error output and action log of a compiled program"])
p("C12", "The consistency check reports exactly the ill-typed children",
  "With consistency checking on, the tree is checked before every action and the run stops with an error if and only if some child anywhere in the tree is present and is neither of the declared node type nor a member of the declared nodeset; empty children are fine, and with checking off nothing is reported.",
  ["programs", "histories"], "every specification, every tree with any node placed in any child slot at any depth, and checking switched on or off",
  "No test builds a tree with a wrongly typed child.",
  ["cocogen/dynamic_backend/gen_check_traversal.c", "copra/src/phase_driver.c"],
  [("generated checks", "cocogen/dynamic_backend/gen_check_traversal.c"), ("check before each action", "copra/src/phase_driver.c")],
  ["errors counted in a compiled program"])
p("C13", "Set expressions denote the set the operators say",
  "A nodeset or traversal target built from inline sets, references and the union, intersection and difference operators with parentheses contains exactly the nodes set algebra gives, operators of equal rank grouping to the left, whatever the definition order. Attributes of a nodeset are available in every member node, including members of nested nodesets, a nodeset that denotes no node simply has no members, and a traversal that would target no node is rejected.",
  ["programs"], "every system of set definitions with references among them, any depth of nesting and repetition",
  "Two DSL files contain fixed set expressions and only acceptance is checked, never the members.",
  ["cocogen/sets/", "cocogen/frontend/unwrap_setexpr.c", "cocogen/frontend/nodesets/"],
  [("set literals as ordered trees", "cocogen/sets/"), ("expression evaluation", "cocogen/frontend/unwrap_setexpr.c"), ("attribute propagation", "cocogen/frontend/nodesets/propagate_attributes.c")],
  ["membership observed through the generated check and traversal dispatch"])
p("C14", "Attribute evaluation computes the declared equations",
  "For an accepted attribute grammar, evaluating a tree leaves every synthesized and inherited attribute of every node equal to its equation applied to the final values of the attributes it depends on, as if evaluated on demand, for optional children present or absent. Each equation is applied only after its inputs are available, and classic attributes are unchanged.",
  ["programs", "histories"], "every non-circular attribute grammar over any node structure and every type-correct tree",
  "No accepted test file contains an equation, so evaluation never runs in the tests.",
  ["cocogen/frontend/attribute_scheduler/", "cocogen/dynamic_backend/gen_visit_source.c", "cocogen/dynamic_backend/gen_ag_source.c", "cocogen/dynamic_backend/gen_equation_functions.c"],
  [("dependency graphs and partitions", "cocogen/frontend/attribute_scheduler/"), ("visit generation", "cocogen/dynamic_backend/gen_visit_source.c")],
  ["attribute values in a compiled program"])
p("C15", "Only complete, non-circular attribute grammars are accepted",
  "An attribute grammar is accepted only if every synthesized attribute of each node and every inherited attribute of each child has exactly one equation, all equations and dependencies refer to existing attributes in allowed positions, and no tree can make an attribute depend on itself; otherwise it is rejected with an error. A grammar that meets the rules and is ordered (giving the attributes of each type the earliest visits that the dependencies between them, induced by all nodes and nodesets, allow leaves no cycle in any node) is accepted.",
  ["programs"], "every attribute grammar, with every kind of missing, duplicate or misplaced rule, and circularities inside one rule set or across several nodes",
  "One rejected DSL file (inherited attribute on the root) touches attribute grammars at all.",
  ["cocogen/frontend/check_product_rules.c", "cocogen/frontend/check_attributes.c", "cocogen/frontend/attribute_scheduler/"],
  [("rule completeness", "cocogen/frontend/check_product_rules.c"), ("cycle detection", "cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c")],
  ["exit status and stderr of cocogen"])
p("C16", "Notation does not change meaning",
  "Two specifications that differ only in the letter case of references, the order of top-level definitions, white space and comments, info texts, or in whether an action is defined inline or at top level, are both accepted or both rejected, and the compilers they generate behave the same.",
  ["programs"], "every specification and every sequence of meaning-preserving rewritings of it",
  "Tests contain one notation per specification and never compare two.",
  ["cocogen/frontend/scanAndParse/", "cocogen/frontend/symboltable.c", "cocogen/frontend/buildsymboltable.c", "cocogen/dynamic_backend/"],
  [("case-normalised identifiers", "cocogen/frontend/scanAndParse/dsl-parser.y"), ("one symbol table", "cocogen/frontend/symboltable.c")],
  ["exit status of cocogen, output of the compiled programs"])
p("C17", "Generation is deterministic and stays in the output directory",
  "Running the meta-compiler twice on the same specification writes byte-identical files, whatever the output directory and whether or not it already holds earlier output, and writes nothing outside the chosen output directory nor changes the input. A rejected specification never reports success, even over a directory holding earlier output.",
  ["programs", "configurations"], "every specification, any spelling of the output directory and working directory, with any earlier content of it",
  "Tests never look at generated files.",
  ["cocogen/main.c", "cocogen/generator/generator.c", "cocogen/commandline.c", "palm/src/filesystem.c", "cocogen/dynamic_backend/file_switchers.c"],
  [("output files", "cocogen/generator/generator.c"), ("directory creation", "palm/src/filesystem.c")],
  ["file tree before and after"])
p("C18", "The hash table behaves as a map",
  "After any sequence of operations a hash table answers as the mathematical map does: lookup gives the last value inserted under an equal key and not removed since, removal returns the removed value or nothing, the count is the number of keys present, iteration visits every present entry exactly once, and clearing empties it for reuse. Mapping applies the function to each value exactly once, and no operation leaks or corrupts memory, for integer, string and pointer keys and every table size.",
  ["histories"], "every sequence of operations, any keys including colliding and missing ones, every initial table size",
  "The unit tests perform a handful of fixed insertions, and are not among the stable tests.",
  ["palm/src/hash_table.c", "palm/include/palm/hash_table.h"],
  [("buckets and chains", "palm/src/hash_table.c")],
  ["results of each operation against a reference map, AddressSanitizer"])
p("C19", "String functions agree with their specification",
  "Copying, bounded copying, concatenation, formatting, comparison with or without case or on prefixes and suffixes, prefix, suffix and substring tests, case conversion, token splitting and replacement, and number conversion return what their header comments say for all arguments, including empty and null strings where allowed. Results are freshly allocated, the arguments are never changed unless stated, and no memory outside them is touched.",
  ["inputs"], "every combination of strings (empty, null where allowed, any characters) and lengths",
  "Fixed examples of a few functions only, not among the stable tests.",
  ["palm/src/str.c", "palm/include/palm/str.h"],
  [("string functions", "palm/src/str.c")],
  ["results against a reference implementation, AddressSanitizer"])
p("C20", "Breakpoints and the structure listing follow the action tree",
  "A breakpoint given as a dotted path (any letter case) or as a number stops the run successfully right after the action it names, calling the handler once with the tree at that point; if the action is never run the program completes normally. The structure listing shows every action with exactly the number that this action has at run time.",
  ["programs", "histories"], "every phase structure, every path or number, with gated-off phases, cycles and reused actions before the target",
  "Breakpoints are never set in the tests.",
  ["copra/src/phase_driver.c"],
  [("Checkbreakpoint and CCNdispatchAction", "copra/src/phase_driver.c"), ("ShowTree", "copra/src/phase_driver.c")],
  ["action log, handler calls, listing and exit status of a compiled program"])
p("C21", "Diagnostics are counted and abort faithfully",
  "The numbers of errors and warnings reported so far are exactly the numbers of error and warning messages issued, aborting on error stops with a failing status if and only if at least one error was issued, and each message text appears once on the error stream, unaltered but for white space and line wrapping, with its location (file, line and column) when it has one.",
  ["histories", "inputs"], "every sequence of messages of every kind with any text, format arguments, and location",
  "No test drives the message functions.",
  ["palm/src/ctinfo.c", "palm/include/palm/ctinfo.h"],
  [("message printing and counters", "palm/src/ctinfo.c")],
  ["stderr, counters and exit status of a driver program"])
p("C22", "Generated enumerations keep values, order and distinctness",
  "Each enum yields a C enumeration whose first member is the NULL member and whose other members follow in declared order with consecutive values, under the documented prefixed names; each node, traversal and pass has its own distinct member in the generated type enumerations, and the declared sizes match.",
  ["programs"], "every specification",
  "Enum values are only observable in generated code, which tests do not run.",
  ["cocogen/dynamic_backend/gen_enums.c", "cocogen/dynamic_backend/gen_enum_values.c"],
  [("enum generation", "cocogen/dynamic_backend/gen_enums.c")],
  ["values printed by a compiled program"])
p("C23", "The meta-compiler reproduces itself",
  "The meta-compiler rebuilt from the code it generates for its own specification treats every input exactly as the one it was generated with: the same exit status, the same diagnostics and byte-identical generated files.",
  ["programs"], "every specification, accepted or rejected",
  "The self-generation test rebuilds cocogen but compares its behaviour only on the same few DSL files.",
  ["cocogen/main.ccn", "cocogen/ccngen/", "cocogen/dynamic_backend/", "copra/src/"],
  [("bootstrap", "cocogen/main.ccn")],
  ["differential run of two generations of cocogen"])
p("C24", "Generated declarations have the documented names and types",
  "For every accepted specification the generated headers declare, under the documented names, functions of the documented C types: one constructor per node, one handler per targeted node of a traversal, init and fini per traversal with data, one function per pass (its func, else its uid followed by its name, else its name), one helper per child name, and a data structure and getter per traversal with data. Fields of nodes and data have the C type the primitive-type table gives, and enum and node fields their generated type.",
  ["programs"], "every specification and every name, uid, func and type combination",
  "Only cocogen's own generated headers are ever compiled; they use few attribute types and no pass with both uid and func.",
  ["cocogen/dynamic_backend/gen_action_header.c", "cocogen/dynamic_backend/gen_node_structs.c", "cocogen/dynamic_backend/gen_trav_data_union.c", "cocogen/dynamic_backend/gen_helpers.c", "cocogen/gen_helpers/"],
  [("declaration generators", "cocogen/dynamic_backend/gen_action_header.c"), ("type names", "cocogen/dynamic_backend/gen_helpers.c")],
  ["C type checks compiled against the generated headers"])
p("C25", "Field macros and child helpers reach their own field, stop on a wrong node",
  "A field macro of a node applied to a node of that type, and a nodeset macro applied to any member, reaches exactly the declared field: both routes to one attribute reach the same place, different fields never overlap. Applied to a node of another type, unless assertions are disabled by NDEBUG, a field macro stops the program with an assertion that names the macro, the expected node or nodeset and the place of use; a child helper stops likewise on a node without that child; and an inherited or synthesized attribute read before it has been evaluated stops the program with an assertion naming it.",
  ["programs"], "every specification, every field macro and helper and every node type",
  "Generated access functions are only used correctly by cocogen itself; misuse is never exercised.",
  ["cocogen/dynamic_backend/gen_node_access_funcs.c", "cocogen/dynamic_backend/gen_node_access_funcs_error.c", "cocogen/dynamic_backend/gen_nodeset_access_funcs.c", "cocogen/dynamic_backend/gen_nodeset_access_funcs_error.c", "cocogen/dynamic_backend/gen_node_macros.c", "cocogen/dynamic_backend/gen_traversal_functions.c", "palm/src/dbug.c"],
  [("access functions", "cocogen/dynamic_backend/gen_node_access_funcs.c"), ("misuse reports", "cocogen/dynamic_backend/gen_node_access_funcs_error.c")],
  ["addresses and aborted child processes of a compiled program"])
p("C26", "The diagram of the tree and the listing show the specification",
  "For every accepted specification the generated ast.dot is a well-formed directed graph in the DOT language, whatever the names: its vertices are exactly the nodes and nodesets, and its edges exactly one per child of a node (to the type of the child, labelled with its name), one red edge per link attribute a node has, also by way of a nodeset, and one blue edge from a nodeset to each node it stands for. With --show-ast cocogen prints every phase with its actions (and, where the phase is used once, the numbers these have in the driver), every traversal with the nodes it names, every pass, every node with its children, attributes (type, constructor, synthesized, inherited, lifetimes with the numbers of their targets) and equations with their arguments, and every nodeset with its members and attributes; what it generates stays the same.",
  ["programs"], "every well-formed specification in every notation",
  "The tests neither read the diagram nor use --show-ast.",
  ["cocogen/dot/gen_dot.c", "cocogen/print/print.c", "cocogen/frontend/lifetimes/assign_id_to_actions.c", "cocogen/frontend/commandline.c"],
  [("drawing", "cocogen/dot/gen_dot.c"), ("listing", "cocogen/print/print.c")],
  ["ast.dot and the standard output of cocogen"])
p("C27", "Running out of memory or failing to write is reported",
  "Wherever an allocation of the program's own code fails, cocogen and every program built from generated code stop with a nonzero status (1 and an out-of-memory message for generated programs) and a message on stderr; they neither crash nor go on with other results: what a generated program printed until then is what it prints with enough memory. The same holds for cocogen when an output directory or file cannot be created, when the device of an output file is full or the file cannot grow, and when the input cannot be read. If cocogen exits with 0, all its output files are complete.",
  ["fault_sequences", "programs"], "every specification, every program over generated trees, and every single allocation, file or directory that fails, alone or with all later allocations",
  "The tests never run out of memory or space.",
  ["palm/src/memory.c", "palm/src/hash_table.c", "palm/src/str.c", "palm/src/filesystem.c", "cocogen/generator/generator.c", "cocogen/frontend/scanAndParse", "cocogen/frontend/attribute_scheduler", "cocogen/dynamic_backend", "copra/src"],
  [("allocation", "palm/src/memory.c"), ("output files", "cocogen/generator/generator.c")],
  ["every allocation that can fail, the exit status of cocogen"])
p("C28", "Palm's memory, debug, directory and signal helpers keep their contracts",
  "MEMmalloc gives a block of the asked size, or NULL for none; MEMrealloc keeps the contents up to the smaller size, allocates for NULL and frees for size 0; MEMcopy gives an independent copy; MEMfree frees and gives NULL; if memory runs out they stop with status 1 and a message with the size. DBUG prints its message, after the module's name if there is one, until DBUGoff; a failing DBUG_ASSERT aborts after reporting file, line, function and message, one that holds does nothing, and with NDEBUG the macros neither print, abort nor evaluate. FSensureDirExists creates a missing directory with the mode, leaves an existing one alone, and stops with status 1 and a message naming it if there can be none. With the interrupt handlers installed, a segmentation fault or bus error ends with a message and status 1, an interrupt with status 0.",
  ["histories"], "every sequence of calls, all sizes, texts, formats and paths",
  "The tests use these helpers only on the way of other things.",
  ["palm/src/memory.c", "palm/src/dbug.c", "palm/include/palm/dbug.h", "palm/src/filesystem.c", "palm/src/ctinfo.c"],
  [("memory", "palm/src/memory.c"), ("assertions", "palm/include/palm/dbug.h"), ("directories", "palm/src/filesystem.c")],
  ["memory.h, dbug.h, filesystem.h, CTIinstallInterruptHandlers"])
p("C29", "The attribute graphs show the dependencies and the partitions",
  "For every accepted attribute grammar the graphs in ag_dot are well-formed digraphs in the DOT language with one box per production (one per member for a nodeset) that contains a box for the node and one for each child with attributes, holding exactly its attributes. pre_induce.dot has exactly one edge per argument of an equation, from the argument to the attribute it determines. In partitioned.dot the dependencies that other productions induce are added, dotted, and every attribute is labelled with its partition: an inherited one I, a synthesized one S with a number that is the same wherever the type occurs, such that no attribute depends on one in a later partition.",
  ["programs"], "every attribute grammar that can be evaluated in a fixed order, in every notation",
  "The tests do not read the graphs.",
  ["cocogen/dot/gen_dot_ag.c", "cocogen/frontend/attribute_scheduler/graph.c", "cocogen/frontend/attribute_scheduler/partition_nodes.c", "cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c"],
  [("drawing", "cocogen/dot/gen_dot_ag.c"), ("partitions", "cocogen/frontend/attribute_scheduler/partition_nodes.c")],
  ["ag_dot/pre_induce.dot and ag_dot/partitioned.dot"])
p("C30", "Options of cocogen mean the same however and wherever they are given",
  "The options that --help lists, and --gen-dir, can be given in any order, before or after the file, in long or short form (-v for --verbose, -b for --breakpoint), with the argument joined by = or apart, and after -- only the file: equal meanings give equal status, messages and files. All files go below the last --gen-dir (ccngen/ if there is none), nowhere else, and --verbose, --show-ast and a sufficient --ag-scheduler-max-iter do not change them. --help, --version and --show-structure print, exit with 0 and generate nothing. An unknown option, a missing or superfluous argument, an iteration limit that is no number, no file, two files, or a file that cannot be read give a message and a nonzero status, and no code is generated.",
  ["histories", "programs"], "every combination, order and spelling of options, every place and name of the input file",
  "The tests only use --gen-dir.",
  ["cocogen/commandline.c", "cocogen/main.c"],
  [("options", "cocogen/commandline.c")],
  ["the command line of cocogen"])
p("C31", "The trace follows the run",
  "With a verbosity set, a run can be followed on the error stream: at small and above each phase is reported when it starts, its gate is asked or not, and again when it has ended, at medium and above also each pass and traversal before it runs, in the order of the run and by name; a message says so when an error signal stops the run, and at the highest a message names each phase whose gate is closed. A phase that an error, an inconsistent tree or a breakpoint ended is not reported as ended. When quiet nothing is reported. A changed verbosity holds from the next report on, also during a run, and reporting changes nothing else.",
  ["histories", "inputs"], "every structure of phases and cycles, every history of gates, change and error signals, every verbosity and change of it",
  "No test runs a compiler with a verbosity.",
  ["copra/src/phase_driver.c", "copra/ccn/phase_driver.h"],
  [("trace", "copra/src/phase_driver.c: CCNdispatchAction, StartPhase")],
  ["error stream of a generated compiler"])
p("C32", "A CMake project gets the compiler of its current specification",
  "In a project that includes coconut.cmake and calls coconut_target_generate, every build gives the compiler of the current specifications and user code: after a specification or the user's code has changed the next build runs the new one, an ill-formed specification makes the build fail until it is mended, and several compilers in one project do not mix. This holds for any place and name of the project, the build directory and the specification, for make and ninja, and with cocogen in the place COCONUT_BUILD_DIR or COCOGEN_DIR names.",
  ["histories", "configurations"], "every history of edits and builds, every layout of the project",
  "No test uses coconut.cmake.",
  ["coconut.cmake", "palm/CMakeLists.txt", "copra/src", "cocogen/main.c"],
  [("generation during configuration", "coconut.cmake: cocogen_do_generate"), ("sources of the target", "coconut.cmake: coconut_target_generate")],
  ["exit status of the build", "the compiler that was built"])
p("C33", "The generated skeletons run and change nothing",
  "The user code generated as a skeleton in the directory user of the output makes a working compiler as it is: every action of the phase structure runs, in order; the handler of each traversal is called on every node of the tree it reaches (as the only function for it) and goes on with all children, each once and in order; data of a traversal is set up before and released after every use of the traversal; a pass returns its node; every equation function returns the default of the attribute's type, so that an attribute grammar evaluates and leaves all other attributes alone. Afterwards the tree is as it was, and the run ends with success.",
  ["programs", "inputs"], "every well-formed specification, every tree",
  "The tests replace the skeletons by functions of their own, or run them on one small tree.",
  ["cocogen/dynamic_backend/gen_user_traversals.c", "cocogen/dynamic_backend/gen_user_passes.c", "cocogen/dynamic_backend/gen_user_equations.c"],
  [("handlers", "cocogen/dynamic_backend/gen_user_traversals.c: DUGTid"), ("passes", "cocogen/dynamic_backend/gen_user_passes.c"), ("equations", "cocogen/dynamic_backend/gen_user_equations.c")],
  ["the compiler built from the generated directory"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
