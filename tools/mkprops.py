#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as a script so that the JSON stays well formed)."""
import json, os
A = "crates/aquascope/src/analysis/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "A path's permissions follow from its analysis data by the permission model",
     "A path that is live has read permission exactly when it is neither moved, nor possibly uninitialized, nor under a loan that refines reads. It has write (drop) permission exactly when it has read permission, its declaration and type allow writing (dropping), and no loan refines writes (drops). A path that is not live has no permission at all, and the liveness-independent view follows the same rule without the liveness condition.",
     ["programs", "inputs"], "every combination of the per-path analysis facts, hence every path at every point of every analysed program",
     "Snapshot tests sample a few dozen programs; most combinations of moved/uninitialized/refined/type facts never occur in them, and a dropped conjunct changes nothing in the sampled combinations.",
     [A+"permissions/mod.rs", A+"permissions/utils.rs"],
     [("derivation of permissions from permission data", A+"permissions/mod.rs: PermissionsData::permissions, permissions_ignore_liveness"),
      ("lattice bottom", A+"permissions/utils.rs: Permissions::bottom")],
     ["permissions shown in every boundary and step"])

prop("C02", "Each kind of use demands its own permissions; it is flagged iff one is missing",
     "A copy or a shared borrow demands read, a mutable borrow demands read and write, a move demands read and drop (read only when the moved type is copyable), and a compound assignment or an assignment through a pointer demands read and write; automatic borrows are judged like written ones. A boundary is reported as a violation exactly when at least one demanded permission is absent from the permissions the path actually has at that point, and the actual permissions are the ones computed for the same path at the same point.",
     ["programs", "inputs"], "every use of a path in every analysed body, for every combination of demanded and actual permissions",
     "The boundary snapshot tests cover about twenty programs; no test exercises all 64 combinations of demanded and actual permissions or every expression and adjustment kind.",
     [A+"boundaries/mod.rs", A+"boundaries/path_visitor.rs"],
     [("demand table", A+"boundaries/mod.rs: ExpectedPermissions::from_*"),
      ("dispatch on the kind of expression", A+"boundaries/path_visitor.rs: visit_expr, get_adjusted_permissions"),
      ("violation test", A+"boundaries/mod.rs: PermissionsBoundary::is_violation")],
     ["boundaries in the analysis output"])

prop("C03", "Per-path data comes from that path, that point and the matching analysis",
     "For every path and point, each component of the reported data (moved, uninitialized, live, refined for read, write or drop, writeable, droppable, copyable) is looked up in the analysis relation of that name for that same path and point, and nothing else. The domain at a point contains every tracked path exactly once with that data, and values that come from constants have permissions decided by their type alone.",
     ["programs", "inputs"], "every path, every program point and every analysed body",
     "A lookup in a sibling relation (write-refined instead of drop-refined, point before instead of after) agrees with the right one on most sampled programs.",
     [A+"permissions/context.rs"],
     [("assembly of the data", A+"permissions/context.rs: permissions_data_at_point, permissions_for_const_ty"),
      ("domain", A+"permissions/context.rs: domain_bottom, permissions_domain_at_point")])

prop("C04", "Live loans refine exactly the paths they conflict with; reads only if mutable",
     "While a loan is live at a point, every path whose place overlaps the borrowed place loses write and drop permission at that point, and it loses read permission exactly when the loan is mutable. No path is refined by a loan that is not live there or whose place does not overlap.",
     ["programs"], "every loan, path and point of every analysed body",
     "Tests pin rendered snapshots of a few programs; the joins that compute refinement quantify over all loans, paths and points.",
     [A+"permissions/output.rs", A+"permissions/context.rs"],
     [("refinement relations", A+"permissions/output.rs: derive_permission_facts / compute"),
      ("mutability of a loan", A+"permissions/context.rs: is_mutable_loan, is_mutable_borrow")])

prop("C05", "Moves and missing initialisation follow control flow; assignment ends them",
     "A path counts as moved at a point exactly when a conflicting place was moved on the way there with no intervening assignment that re-initialises it, and a move is carried to successor points only along control-flow edges. A path counts as possibly uninitialized exactly when the compiler's initialisation analysis says so for it, for its parent or for its state at the previous point.",
     ["programs"], "every move, path, assignment and control-flow path of every analysed body",
     "Kill and propagation errors only show on particular control-flow shapes (re-initialisation on one branch, loops); a few dozen snapshot programs do not settle them.",
     [A+"permissions/output.rs"],
     [("move liveness and path moves", A+"permissions/output.rs: derive_permission_facts / compute")])

prop("C06", "Declared and type-level capabilities cap what a path may do",
     "A path can be written unless it passes through a shared reference or a read-only raw pointer, or belongs to a binding declared immutable (owned values, including the contents of boxes, belong to their binding; what a mutable reference points to does not). No path behind a dereference, inside an array element, or inside a type with its own destructor is droppable. The maximum permissions of a path always include read and are otherwise these two capabilities.",
     ["programs", "inputs"], "every place of every analysed body",
     "The capability of a place depends on every prefix of its projection; tests sample only shallow places.",
     [A+"permissions/context.rs", A+"permissions/output.rs"],
     [("write capability", A+"permissions/context.rs: is_path_write_enabled, is_declared_readonly"),
      ("drop capability", A+"permissions/context.rs: is_path_drop_enabled"), ("cap", A+"permissions/context.rs: max_permissions")])

prop("C07", "Flows are classified by the first matching rule; only legal flows are valid",
     "A flow between two lifetimes is legal only if every abstract lifetime it leaks into is declared to outlive the source, and illegal flows are classified as a missing constraint between abstract lifetimes, a leak of a local lifetime, or otherwise a dangling reference. A flow boundary is a violation exactly when its classification is not legal, and flow permissions are computed only when they are switched on.",
     ["programs", "configurations"], "every pair of lifetimes of every analysed body, with flow analysis on and off",
     "Classification precedence matters only when several conditions hold at once, which the sampled programs rarely do.",
     [A+"permissions/flow.rs", A+"boundaries/mod.rs", A+"permissions/mod.rs"],
     [("classification", A+"permissions/flow.rs: flow_kind, is_valid_flow"), ("switch", A+"permissions/mod.rs: flow mode"),
      ("boundary", A+"boundaries/mod.rs: get_flow_permission")])

prop("C08", "A permission step is the exact difference between the states before and after",
     "For every component, the step from one state to the next is a gain exactly when it was absent before and is present after, a loss exactly when it was present and is absent, and otherwise unchanged with its value. A step is empty exactly when no permission changed, two steps cancel exactly when each undoes the other component by component, and every difference is taken from the earlier state to the later one for the same path.",
     ["inputs", "programs"], "every pair of permission states",
     "There are thousands of combinations of before/after components; the stepper snapshots hit a few.",
     [A+"stepper/mod.rs"],
     [("difference of booleans, optional values and records", A+"stepper/mod.rs: Difference impls"),
      ("emptiness and cancellation", A+"stepper/mod.rs: is_empty, is_symmetric_diff")])

prop("C09", "The stepper never turns an internal inconsistency into a wrong or partial answer",
     "Every failure reported while segmenting a body is recorded, and a body with recorded failures or unsupported features yields an error instead of steps. Every control-flow scope opened while visiting a construct is closed again by the time that construct has been visited.",
     ["programs"], "every body, including bodies whose segmentation fails at any point of the walk",
     "No test makes the segmentation fail half way through a walk; a dropped error is invisible in all passing snapshots.",
     [A+"stepper/hir_steps.rs", A+"stepper/segmented_mir.rs"],
     [("error recording", A+"stepper/hir_steps.rs: HirStepPoints"), ("bail out", A+"stepper/hir_steps.rs / mod.rs: compute_permission_steps"),
      ("scope pairing", A+"stepper/segmented_mir.rs: open_scope, close_scope")])

prop("C10", "Segments are attached only where control flow makes them well formed",
     "A segment is only ever added where the start of its collection dominates its end and the end post-dominates the start, inside the join point of the innermost open branch. A segment or branch operation that has no such collection, an unclosed branch, or more than one open collection at the end is reported as an error rather than resolved arbitrarily.",
     ["programs"], "every sequence of segment, branch and scope operations over every control-flow graph",
     "Well-formedness quantifies over control-flow graphs; the tests build a handful of them.",
     [A+"stepper/segmented_mir.rs"],
     [("choice of collection", A+"stepper/segmented_mir.rs: find_suitable_collection, finish_first_collection"),
      ("branches", A+"stepper/segmented_mir.rs: open_branch, close_branch, insert"), ("finalisation", A+"stepper/segmented_mir.rs: freeze")])

prop("C11", "Step tables keep every visible change and drop only what they are meant to hide",
     "A path's step is dropped from a table only when its source is not visible to the user, when the user asked for changed paths only and it did not change, or when it lies after the first error of the body. Steps removed in pairs are exactly those in which one undoes the other at branch boundaries, and every remaining step appears once, in source order.",
     ["programs", "configurations"], "every tree of segments and every display mode",
     "Losing a step in a nested or multiply-branched tree needs shapes that the snapshots do not contain.",
     [A+"stepper/table_builder.rs", A+"stepper/mod.rs", A+"stepper/hir_steps.rs"],
     [("tables", A+"stepper/table_builder.rs"), ("filters", A+"stepper/hir_steps.rs: prettify_permission_steps")])

prop("C12", "Source constructs map to the program points that implement them and to no others",
     "The program points associated with a source construct are exactly the statements and terminators the compiler attributes to it, in execution order, without clean-up code, unreachable code or artificial edges. When a construct has an entry and an exit point, the entry dominates every other point of the construct and the exit post-dominates the entry.",
     ["programs"], "every source construct of every analysed body",
     "Filtering errors show only for bodies with unwinding, unreachable arms or false edges inside the construct.",
     [A+"ir_mapper/mod.rs", A+"ir_mapper/mir_locations.rs", A+"ir_mapper/body_graph.rs"],
     [("recording", A+"ir_mapper/mod.rs: visit_*"), ("gathering", A+"ir_mapper/mod.rs: get_mir_locations"),
      ("cleaned control-flow graph", A+"ir_mapper/body_graph.rs: CleanedBody"), ("entry and exit", A+"ir_mapper/mir_locations.rs")])

prop("C13", "Dominance answers are sound on every control-flow graph",
     "One block post-dominates another only if it does so with respect to every exit of the body, and blocks that are unreachable or unknown dominate and post-dominate nothing. Within one block, an earlier point dominates a later one and a later one post-dominates an earlier one.",
     ["programs"], "every control-flow graph, with any number of exits",
     "Bodies with several exits or with blocks that cannot reach an exit are rare in the sampled programs, and there the wrong combination gives the same answers.",
     [A+"ir_mapper/post_dominators.rs", A+"ir_mapper/mod.rs"],
     [("post-dominators over all exits", A+"ir_mapper/post_dominators.rs: AllPostDominators"), ("point-level dominance", A+"ir_mapper/mod.rs: ldominates, lpost_dominates")])

prop("C14", "Highlighted ranges are ordered, bounded and merged without loss",
     "Converting compiler spans to character ranges preserves start and end and never mixes files, and merging the points of a live range yields ranges that cover every point, are sorted and do not touch each other.",
     ["programs", "inputs"], "every list of points and every span",
     "Merging is sampled on the few shapes that occur in snapshots; adjacency and nesting cases are not.",
     [A+"mod.rs"],
     [("merging", A+"mod.rs: smooth_elements"), ("bounds", A+"mod.rs: Bounded impls")])

prop("C15", "Every loan or move key shown refers to information about that loan or move",
     "A key for a loan or move in permission data always denotes the loan or move responsible for the refinement, and the information stored under a key describes that loan's or move's own location, live region and refined permission. Points without visible source are left out and no key is described twice.",
     ["programs"], "every loan and move of every analysed body",
     "A key pointing to another loan's information still renders a plausible picture; the snapshots check few bodies with more than one loan.",
     [A+"mod.rs", A+"permissions/context.rs"],
     [("information per key", A+"mod.rs: construct_loan_info, construct_move_info")])

prop("C16", "Compiler diagnostics are forwarded and attributed to the body being analysed",
     "Every diagnostic the compiler emits while error tracking is on reaches the original emitter unchanged, exactly once. Only errors, not warnings, are attributed, always to the body being analysed at the time; the reported first error of a body is the one that starts earliest, and starting a body forgets earlier attributions to it.",
     ["histories", "programs"], "every sequence of diagnostics and tracked bodies",
     "Tests never interleave warnings and errors over several bodies.",
     ["crates/aquascope/src/errors/mod.rs", "crates/aquascope/src/errors/silent.rs", A+"mod.rs"],
     [("error tracking", "crates/aquascope/src/errors/mod.rs")])

prop("C17", "The plugin prints one JSON answer for the requested analysis of every body",
     "The plugin analyses every body of the crate with exactly the options the user gave, in body order, and prints a single JSON value on standard output and nothing else; a body that fails yields an error entry rather than disappearing or aborting the others. Options reach the compiler driver unchanged; the compiler is always run with the settings the analysis relies on, and diagnostics are suppressed only when failure is expected.",
     ["programs", "configurations"], "every crate, body and combination of command-line options",
     "The front end has no test for option combinations or for crates in which some bodies fail.",
     ["crates/aquascope_front/src/plugin.rs", A+"mod.rs"],
     [("callbacks", "crates/aquascope_front/src/plugin.rs: AquascopeCallbacks"), ("arguments", "crates/aquascope_front/src/plugin.rs: run, args")])

prop("C18", "Annotations are removed from code and each is recorded at the place it marked",
     "Parsing a code block removes exactly the annotation markers and keeps every other character in order. Each marker is recorded once, in its own category, at the character position it had in the cleaned code (stepper and boundary markers by line), and malformed markers are reported or kept as text, never lost.",
     ["inputs"], "every code block text, including non-ASCII text and unbalanced markers",
     "Tests parse fixed ASCII snippets.",
     ["crates/mdbook-aquascope/src/annotations.rs"],
     [("parser", "crates/mdbook-aquascope/src/annotations.rs: parse_annotations")])

prop("C19", "Only well-formed analysis blocks are replaced, at exactly their byte range",
     "Every fenced block that names this tool and at least one operation is recognised with its operations, configuration, code and the exact byte range it occupies, and text that is not such a block is left alone. Scanning always terminates and finds non-overlapping ranges in increasing order.",
     ["inputs"], "every chapter text",
     "Tests parse three fixed blocks.",
     ["crates/mdbook-aquascope/src/block.rs"],
     [("block parser", "crates/mdbook-aquascope/src/block.rs: AquascopeBlock::parse, parse_all")])

prop("C20", "Inline permission markup renders exactly what it names or is reported",
     "Inline permission markup is rendered with exactly the permissions and modifiers it names, at its exact range, markup naming an unknown permission or modifier is reported as an error of the run rather than rendered or crashing, and all other text is left alone.",
     ["inputs"], "every chapter text",
     "The parser test covers one well-formed marker.",
     ["crates/mdbook-aquascope/src/permissions.rs"],
     [("inline markup", "crates/mdbook-aquascope/src/permissions.rs: parse_perms")])

prop("C21", "The cache never serves a result for different input and survives corruption",
     "A cached result is returned only for a block whose code, operations and configuration all equal those it was stored under. A cache that is missing, from another version or corrupt is treated as empty and never fails the run, and saving replaces the old contents completely.",
     ["inputs", "histories", "fault_sequences"], "every sequence of runs, edits to blocks, and cache file contents",
     "No test reloads a cache, corrupts it, or saves a shorter cache over a longer one.",
     ["crates/mdbook-aquascope/src/cache.rs", "crates/mdbook-aquascope/src/block.rs", "crates/mdbook-aquascope/src/preprocessor.rs"],
     [("cache", "crates/mdbook-aquascope/src/cache.rs: Cache"), ("key", "crates/mdbook-aquascope/src/block.rs: AquascopeBlock")])

prop("C22", "A failed, timed-out or rejected analysis is never embedded in the book or cached",
     "Exactly the output of an analysis that exited successfully in time, parsed, and reported no error is embedded and cached, whatever its size; any other outcome becomes an error of the run. An analysis that exceeds its time limit is killed, and each analysis runs on its own temporary crate holding exactly the block's code.",
     ["fault_sequences", "inputs"], "every outcome of the external analysis process, for every block",
     "No test makes the external process fail, hang, print garbage or report an error.",
     ["crates/mdbook-aquascope/src/preprocessor.rs"],
     [("running the analysis", "crates/mdbook-aquascope/src/preprocessor.rs: run_aquascope"), ("embedding", "crates/mdbook-aquascope/src/preprocessor.rs: process_code, replacements")])

prop("C23", "Server requests run isolated and bounded in time; failures become errors",
     "Every request gets its own fresh workspace that is discarded afterwards, its code is written only inside that workspace, and it runs only the fixed analysis commands with the requested options. Every execution is bounded by a timeout, and every failure becomes a structured error response rather than a success or a crash.",
     ["inputs", "schedules", "fault_sequences"], "every request body, interleaving of requests and failure of the tools run",
     "The server has no tests.",
     ["crates/aquascope_serve/src/container.rs", "crates/aquascope_serve/src/server.rs", "crates/aquascope_serve/src/main.rs"],
     [("workspace", "crates/aquascope_serve/src/container.rs: Container"), ("handlers", "crates/aquascope_serve/src/server.rs"), ("address and flags", "crates/aquascope_serve/src/main.rs")])

prop("C24", "Toolchain discovery honours overrides and reports failures",
     "The compiler sysroot and library paths used for an analysis come from the user's overrides when present and otherwise from the toolchain this release is pinned to. A failing or garbled tool answer is reported as an error, never used as a path.",
     ["configurations", "fault_sequences"], "every environment and every outcome of the toolchain commands",
     "No test varies the environment or makes the toolchain command fail.",
     ["crates/aquascope_workspace_utils/src/lib.rs"],
     [("discovery", "crates/aquascope_workspace_utils/src/lib.rs")])

prop("C25", "What the Rust side emits is what the web front end is written to read",
     "Every name and shape the web front end reads from an analysis result, from an embedded block's attributes or from a server response is one the Rust side writes under that name and shape, each written key carrying the field it is named after. Every variant the Rust side can produce is one the front end distinguishes where it dispatches on variants; every attribute and class of an embedded block is one it looks for; and what it sends to the server is what the server reads.",
     ["inputs", "programs"], "every analysis result, embedded block and server exchange that can be produced",
     "Nothing tests the two sides together; the front end is not built by the Rust tests.",
     [A+"mod.rs", "crates/mdbook-aquascope/src/preprocessor.rs", "crates/aquascope_serve/src/main.rs", "frontend/packages/aquascope-editor/src/lib.tsx", "frontend/packages/aquascope-embed/src/main.tsx", "frontend/packages/aquascope-standalone/src/index.tsx"],
     [("serialised types", "derived serialisation of the analysis output types"), ("readers", "frontend/packages/*/src")])

prop("C26", "The interpreter's trace shows only the user's program, step by step, to its end",
     "An interpreter trace records one state per source-level step of local code in execution order, each frame's variables with the values they hold then, and ends with success or with the undefined behaviour that stopped it.",
     ["programs"], "every terminating program without input",
     "The interpreter tests cannot even be built here; they cover a few dozen programs.",
     ["crates/aquascope/src/interpreter/step.rs", "crates/aquascope/src/interpreter/mod.rs"],
     [("stepping", "crates/aquascope/src/interpreter/step.rs"), ("mapping to source", "crates/aquascope/src/interpreter/mapper.rs")])

prop("C27", "Accepted programs show no violated boundary, and rejected ones show one",
     "For every body the compiler's borrow checker accepts no boundary is reported as violated, and for every body it rejects with an ownership error at least one boundary is.",
     ["programs"], "every Rust program",
     "Only a sample of programs is tested, and agreement of two analyses is a statement about all programs.",
     [A+"permissions/output.rs", A+"boundaries/mod.rs"],
     [("the whole analysis", A+"mod.rs: AquascopeResult")])

prop("C28", "The same book gives the same output on every build",
     "Building the same book twice with the same tool versions gives byte-identical output, whatever the order in which blocks finish and whether results come from the cache.",
     ["schedules", "histories"], "every interleaving of parallel block analyses and every cache state",
     "Tests run one block at a time, once.",
     ["crates/mdbook-aquascope/src/preprocessor.rs"],
     [("parallel replacement", "crates/mdbook-aquascope/src/preprocessor.rs: replacements")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
