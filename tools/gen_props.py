#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because JSONL is painful to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Validation enforces every structural rule",
  "A HUGR that validation accepts satisfies every rule of the specification: hierarchy (root, parent/child kinds, entry and exit children, no child edges out of order), port counts and types, every linear port connected exactly once, no outgoing edge of a kind the source cannot have, non-local edges only as external or dominator edges with the required order edge, acyclic dataflow regions, matching conditional branches, tail loops and basic-block signatures, closed types and arguments that satisfy their extension declarations. "
  "Each breach is reported as an error under exactly the condition the rule states, and no rule is skipped for some node kinds, ports or children.",
  ["programs"], "all HUGRs: any hierarchy, any op at any node, any edges",
  "Tests build a few dozen malformed HUGRs, one defect each; a rule that is skipped for one op kind, one port, one child or one combination passes them all.",
  ["hugr-core/src/hugr/validate.rs", "hugr-core/src/ops/validate.rs", "hugr-core/src/types.rs", "hugr-core/src/types/type_param.rs"],
  [("ValidationContext (validate, validate_node, validate_port, validate_children, validate_children_dag, validate_edge, validate_subtree)", "hugr-core/src/hugr/validate.rs"),
   ("per-op OpValidityFlags, validate_op_children, edge_check", "hugr-core/src/ops/validate.rs")],
  observe=["Hugr::validate", "HugrView::validate"])

p("P02", "A linear value is never typed as copyable",
  "The copyable/linear classification of a type is the join of what it is made of: a sum or tuple is copyable only if every element of every variant is, a function type always is, a variable or opaque type as declared, an extension type as its definition computes from its arguments. "
  "The classification that is cached or read back from a file is never wider than the computed one, and type-argument bounds, port kinds and subtyping between kinds of type use it in the sound direction.",
  ["programs", "inputs"], "all types and type arguments, any nesting",
  "Tests check a handful of types; a wrong case affects only one constructor or nesting.",
  ["hugr-core/src/types.rs", "hugr-core/src/types/type_param.rs", "hugr-core/src/types/custom.rs", "hugr-core/src/extension/type_def.rs"],
  [("TypeBound::union/contains/least_upper_bound", "hugr-core/src/types.rs"), ("TypeEnum::least_upper_bound", "hugr-core/src/types.rs"),
   ("TypeDef::bound / TypeDefBound", "hugr-core/src/extension/type_def.rs"), ("Term::is_supertype, check_term_type, least_upper_bound", "hugr-core/src/types/type_param.rs")])

p("P03", "A failed rewrite leaves the graph unchanged",
  "A rewrite that declares that failure leaves the graph unchanged, and a linking or insertion operation that can refuse its arguments, performs no modification of the target graph before the last point at which it can still return an error. "
  "Checking whether a rewrite applies reports every error that applying it can report, and its transactional wrapper restores the graph after a failure.",
  ["programs", "inputs", "fault_sequences"], "all graphs and all (also malformed) rewrite requests",
  "Tests check success paths and a few early errors; an error discovered after the first modification needs an unusual rewrite request.",
  ["hugr-core/src/hugr/patch.rs", "hugr-core/src/hugr/patch/*.rs", "hugr-core/src/hugr/linking.rs"],
  [("PatchHugrMut::UNCHANGED_ON_FAILURE and apply_hugr_mut of each rewrite", "hugr-core/src/hugr/patch/"), ("HugrLinking", "hugr-core/src/hugr/linking.rs")])

p("P04", "Data attached to nodes follows the nodes through every mutation",
  "Adding, removing, moving, replacing, copying or renumbering nodes keeps operation, metadata, hierarchy, ports and links of every node together: a removed node leaves nothing behind that a node added later could inherit, an inserted or copied region carries each node's operation, metadata and edges over to its counterpart, and renumbering permutes all of them alike. "
  "The entrypoint and module root stay valid nodes throughout.",
  ["histories", "programs"], "all sequences of mutations on all graphs",
  "Tests apply one mutation to one graph and look at structure, hardly ever at metadata or at reuse of freed indices.",
  ["hugr-core/src/hugr.rs", "hugr-core/src/hugr/hugrmut.rs", "hugr-core/src/hugr/internal.rs"],
  [("HugrMut and HugrMutInternals implementations for Hugr", "hugr-core/src/hugr/hugrmut.rs, hugr-core/src/hugr/internal.rs"), ("canonicalize_nodes", "hugr-core/src/hugr.rs")],
  [("Hugr stores", "graph, hierarchy, op_types, metadata: parallel per-node stores", "hugr-core/src/hugr.rs")])

p("P05", "JSON serialisation keeps every field",
  "Converting a HUGR, operation, type, value, extension or package to its serialised form and back carries every field into the place it came from: each serialised field is computed from the field it stands for, the decoder puts it back there, encoder and decoder agree on the names and variant tags, and nothing that is not recomputable is skipped. "
  "Edges, ports, metadata, entrypoint and node order refer to the same nodes after decoding.",
  ["programs", "inputs"], "all HUGRs, types, values and extensions",
  "Round-trip tests cover the constructs someone thought of; a field dropped or crossed for one variant passes them.",
  ["hugr-core/src/hugr/serialize.rs", "hugr-core/src/types/serialize.rs", "hugr-core/src/ops/serialize.rs", "hugr-core/src/types/signature.rs"],
  [("SerHugr conversions", "hugr-core/src/hugr/serialize.rs"), ("SerSimpleType conversions", "hugr-core/src/types/serialize.rs"), ("derived Serialize/Deserialize pairs", "hugr-core/src")])

p("P06", "Envelopes are read exactly as they are written",
  "The envelope header written for every format, compression and flag combination is the one the reader accepts, and each format is decoded by the decoder of the encoder that wrote it. "
  "Unknown magic, formats, flags, unsupported format versions and incompatible extension versions are refused; every I/O, encoding and decoding error on the way is returned to the caller and never swallowed.",
  ["inputs", "configurations", "fault_sequences"], "all byte streams, configurations and I/O failures",
  "Tests write to memory buffers that never fail and cover selected format pairs.",
  ["hugr-core/src/envelope.rs", "hugr-core/src/envelope/header.rs", "hugr-core/src/envelope/reader.rs", "hugr-core/src/envelope/writer.rs", "hugr-core/src/envelope/package_json.rs"],
  [("EnvelopeHeader::{read,write}", "hugr-core/src/envelope/header.rs"), ("EnvelopeReader", "hugr-core/src/envelope/reader.rs"), ("write_envelope / write_impl", "hugr-core/src/envelope/writer.rs")])

p("P07", "Model representations convert without loss",
  "The binary, table, syntax-tree, text and Python representations of the module model carry the same information: for every kind of term, node, region, symbol, parameter, constraint and metadata entry, each field of one representation is written from and read back into the same field of the other, with the same tag or keyword, and no kind is left out. "
  "Identifiers and strings that need quoting or escaping are restored exactly.",
  ["programs", "inputs"], "all modules expressible in the model",
  "Round-trip tests use a fixed corpus of text modules; a lost field in a rarely used construct does not show.",
  ["hugr-model/src/v0/binary/read.rs", "hugr-model/src/v0/binary/write.rs", "hugr-model/src/v0/ast/*.rs", "hugr-model/src/v0/table/mod.rs"],
  [("binary read/write", "hugr-model/src/v0/binary"), ("ast view / resolve / print / parse / python", "hugr-model/src/v0/ast")])

p("P08", "Model export and import are inverse on every construct",
  "Every operation, type, type argument, value, signature, region, link, order edge, symbol and metadata entry that export writes into the model is recognised by import under the same name and arity, and import rebuilds the same kind of construct from the same parts. "
  "No construct is exported under another construct's name, dropped, or given its parts in a different order than import takes them.",
  ["programs"], "all HUGRs in the exported domain",
  "Round-trip tests use about forty fixture programs.",
  ["hugr-core/src/export.rs", "hugr-core/src/import.rs", "hugr-model/src/v0/mod.rs"],
  [("Context::export_*", "hugr-core/src/export.rs"), ("Context::import_*", "hugr-core/src/import.rs"), ("core symbol names", "hugr-model/src/v0/mod.rs")])

p("P09", "Equal inputs give equal outputs",
  "Serialising, exporting, rendering, resolving or transforming the same HUGR twice gives the same result: no result depends on the iteration order of an unordered collection, on addresses, time or randomness.",
  ["programs", "schedules"], "all HUGRs and process runs",
  "A test runs once with one hash seed or compares against itself within a process.",
  ["hugr-core/src", "hugr-model/src", "hugr-passes/src", "hugr-persistent/src", "hugr-cli/src"],
  [("ordered collections (IndexMap, BTreeMap, sorting) where order reaches an output", "hugr-core/src, hugr-passes/src")])

p("P10", "Operations on types reach every part of a type",
  "Substituting variables, transforming, validating, comparing and collecting from a type, type argument, signature or parameter applies to every component of every kind of type and argument and rebuilds the same kind from the results. "
  "Variables are looked up under the index and declaration they were created with, and a polymorphic signature is instantiated only with arguments checked against all its parameters.",
  ["programs"], "all types, arguments and signatures, any nesting",
  "Tests instantiate a few nestings; a component skipped for one variant is invisible elsewhere.",
  ["hugr-core/src/types.rs", "hugr-core/src/types/type_param.rs", "hugr-core/src/types/custom.rs", "hugr-core/src/types/poly_func.rs", "hugr-core/src/types/signature.rs", "hugr-core/src/types/type_row.rs"],
  [("substitute / transform / validate of Type, Term, CustomType, Signature, PolyFuncType, TypeRow", "hugr-core/src/types")])

p("P11", "Extension resolution reaches every extension reference",
  "Loading a HUGR or extension with a registry resolves every reference to an extension, wherever it is nested in operations, types, type arguments, signatures or constants, and reports the extensions actually used; a reference that cannot be resolved is an error naming it. "
  "The used-extension set that is stored, reported or exported contains every extension referenced anywhere in the HUGR.",
  ["programs"], "all HUGRs, extensions and registries",
  "Tests resolve a few operations; a kind of op, value or argument that is not visited only shows when an extension is used nowhere else.",
  ["hugr-core/src/extension/resolution.rs", "hugr-core/src/extension/resolution/*.rs"],
  [("resolve_op_extensions, resolve_op_types_extensions, collect_*_exts, WeakExtensionRegistry", "hugr-core/src/extension/resolution")])

p("P12", "Extension registries never hold conflicting definitions",
  "A registry holds at most one extension per name; registering keeps the existing or the newer version exactly as the chosen operation promises, and a conflict is reported. "
  "Within an extension each type, operation and alias name is defined once and belongs to that extension; an operation is instantiated only with arguments its definition accepts, and the version-compatibility test accepts exactly the compatible versions.",
  ["histories", "inputs"], "all registration sequences, definitions, versions",
  "Tests register two or three extensions in one order.",
  ["hugr-core/src/extension.rs", "hugr-core/src/extension/op_def.rs", "hugr-core/src/extension/type_def.rs", "hugr-core/src/envelope/reader.rs"],
  [("ExtensionRegistry::{register,register_updated,register_updated_ref,validate}", "hugr-core/src/extension.rs"), ("Extension::add_op/add_type", "hugr-core/src/extension/op_def.rs, type_def.rs")])

p("P13", "Every operation is classified as the specification says",
  "For each kind of operation, its tag and its place in the tag lattice, the kinds of its non-dataflow, static and state-order ports, its child constraints, its port counts, and its signature as computed from its fields are those of the specification. "
  "Tag containment is reflexive, transitive and has one top element, and generic dispatch over operations returns for each kind that kind's own answer.",
  ["programs", "inputs"], "all operation kinds and tags",
  "Tests query selected operations.",
  ["hugr-core/src/ops.rs", "hugr-core/src/ops/*.rs"],
  [("OpTag::is_superset / immediate_supersets", "hugr-core/src/ops/tag.rs"), ("OpTrait impls and OpType dispatch", "hugr-core/src/ops.rs, hugr-core/src/ops/*.rs"), ("ValidateOp impls", "hugr-core/src/ops/validate.rs")])

p("P14", "Views and mutation wrappers forward faithfully",
  "A reference, box, cow, checked-root, rerooted or handle wrapper around a HUGR answers every query and performs every mutation exactly as the wrapped HUGR does, with the same arguments in the same roles; only what the wrapper is for (its entrypoint, its checked root kind) differs. "
  "No wrapper falls back to a generic default where the wrapped value has its own answer.",
  ["programs", "histories"], "all views, graphs and calls",
  "Tests exercise few wrapper/method combinations.",
  ["hugr-core/src/hugr/views/impls.rs", "hugr-core/src/hugr/views/rerooted.rs", "hugr-core/src/hugr/views/root_checked.rs", "hugr-core/src/hugr/views.rs"],
  [("HugrView / HugrMut / HugrInternals impls of wrappers", "hugr-core/src/hugr/views")])

p("P15", "Type and op replacement misses no occurrence",
  "A replacement pass rewrites every occurrence of the types, operations and constants it was configured for: in every kind of operation's signature, type arguments, stored types and constants, and in nested containers. "
  "After the linearisation of a type each outgoing port with several or no connections is turned into exactly the needed copies or discards, and anything that cannot be replaced is reported as an error.",
  ["programs", "configurations"], "all HUGRs and replacement configurations",
  "Tests lower a few example programs.",
  ["hugr-passes/src/replace_types.rs", "hugr-passes/src/replace_types/*.rs"],
  [("ReplaceTypes::change_node / change_value / run", "hugr-passes/src/replace_types.rs"), ("Linearizer", "hugr-passes/src/replace_types/linearize.rs")])

p("P16", "Passes remove only dead code, obey their scope and report failures",
  "A transformation pass removes or merges an operation, function, block or constant only when the condition that makes it safe holds (no remaining use, no possible side effect, reachable-from-entry and call information complete), and monomorphisation, inlining and localisation treat every call and load site alike. "
  "Errors of nested passes reach the caller and composed passes run all their parts in order.",
  ["programs", "configurations"], "all HUGRs and pass configurations",
  "Tests run passes on small examples where the unsafe combination does not occur.",
  ["hugr-passes/src"],
  [("DeadCodeElimPass, RemoveDeadFuncsPass, CallGraph", "hugr-passes/src/dead_code.rs, dead_funcs.rs, call_graph.rs"), ("composable passes", "hugr-passes/src/composable.rs"), ("monomorphize, inline_funcs, inline_dfgs, untuple, normalize_cfgs, non_local", "hugr-passes/src")])

p("P17", "Integer and float operations mean the same in folding and lowering",
  "For every integer, conversion, logic and float operation, constant folding and LLVM lowering use the arithmetic the operation's name and description prescribe: signedness of each operand, width, comparison predicate, operand order, rounding or checking variant and what happens on overflow or division by zero. "
  "Every operation of these extensions has exactly one folding and one lowering.",
  ["inputs", "programs"], "all operations, widths and operand values",
  "Tests evaluate each operation at a few operands, where the wrong signedness or predicate often gives the same answer.",
  ["hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs", "hugr-core/src/std_extensions/arithmetic/int_ops.rs", "hugr-llvm/src/extension/int.rs", "hugr-llvm/src/extension/float.rs", "hugr-llvm/src/extension/logic.rs", "hugr-llvm/src/extension/conversions.rs"],
  [("set_fold table", "hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs"), ("emit_int_op table", "hugr-llvm/src/extension/int.rs")])

p("P18", "LLVM lowering defines every output of every operation",
  "Lowering an operation either reports an error or stores a value for each of its outputs exactly once, in port order, on every path; every operation, type and constant of each supported extension has a lowering registered; and errors from nested emission are returned. "
  "Sum layouts assign distinct tags and every variant field its own slot, with the same mapping for building and reading.",
  ["programs"], "all programs in the supported fragment",
  "Tests lower one instance per op and mostly compare IR snapshots.",
  ["hugr-llvm/src/emit", "hugr-llvm/src/emit.rs", "hugr-llvm/src/extension", "hugr-llvm/src/sum.rs"],
  [("EmitOp / EmitFuncContext / RowPromise::finish", "hugr-llvm/src/emit"), ("CodegenExtension registrations", "hugr-llvm/src/custom.rs, hugr-llvm/src/extension"), ("LLVMSumType", "hugr-llvm/src/sum.rs")])

p("P19", "Histories of persistent HUGRs stay consistent",
  "A set of commits accepted as a persistent HUGR contains every ancestor of each commit and never two commits that invalidate the same node of a parent; commits with no, several or an unknown base, or that delete a node twice, are refused. "
  "Its view as a HUGR reports for each live node the same operation, hierarchy, ports and edges as applying the commits in order, and serialising and restoring the history keeps all of it.",
  ["histories"], "all sequences of commits and sets of compatible commits",
  "Tests use a few four-commit histories.",
  ["hugr-persistent/src/persistent_hugr.rs", "hugr-persistent/src/commit.rs", "hugr-persistent/src/state_space.rs", "hugr-persistent/src/trait_impls.rs", "hugr-persistent/src/wire.rs"],
  [("try_add_commit / try_create / invalid_commit checks", "hugr-persistent/src"), ("HugrView impl", "hugr-persistent/src/trait_impls.rs"), ("wire and boundary tracing", "hugr-persistent/src/wire.rs, commit/boundary.rs")])

p("P20", "Command-line failures are visible as failures",
  "Every sub-command of the command line returns a failing exit status whenever reading, validating, converting, describing or writing failed, validates exactly when validation was not disabled, writes its result to the requested output in the requested format and compression, and never reports success after an ignored error.",
  ["inputs", "configurations", "fault_sequences"], "all argument combinations, input files and I/O failures",
  "Tests run each sub-command on one good and one bad file.",
  ["hugr-cli/src"],
  [("run / run_cli of each sub-command", "hugr-cli/src"), ("CliArgs::run_cli", "hugr-cli/src/lib.rs")])

p("P21", "Python and Rust agree on the JSON format",
  "For each operation, type, type argument, parameter, value, extension and package, the Python serialisation classes have the same tag, fields and enumeration strings as the Rust ones and the published schema; each Python class converts to and from its serial class with every field in place. "
  "The standard extension definitions shipped with either side declare the same types and operations.",
  ["programs", "inputs"], "all serialisable constructs",
  "Cross-language tests convert selected programs.",
  ["hugr-py/src/hugr/_serialization", "hugr-py/src/hugr/ops.py", "hugr-py/src/hugr/tys.py", "hugr-py/src/hugr/val.py", "hugr-core/src/hugr/serialize.rs", "hugr-core/src/types/serialize.rs", "specification/schema", "specification/std_extensions", "hugr-py/src/hugr/std/_json_defs"],
  [("_to_serial / deserialize pairs", "hugr-py/src/hugr"), ("pydantic models", "hugr-py/src/hugr/_serialization")])

p("P22", "Python model export and load cover every construct",
  "Exporting a Python HUGR to the model and loading it back handles every operation, type, argument, value and metadata entry under the names and arities of the model's core vocabulary, which are those the Rust side uses, and rebuilds each from the same parts in the same order.",
  ["programs"], "all Python HUGRs",
  "Tests round-trip selected programs.",
  ["hugr-py/src/hugr/model/export.py", "hugr-py/src/hugr/model/load.py", "hugr-py/src/hugr/model/__init__.py", "hugr-core/src/export.rs", "hugr-core/src/import.rs"],
  [("ModelExport", "hugr-py/src/hugr/model/export.py"), ("ModelImport", "hugr-py/src/hugr/model/load.py")])

p("P23", "Published extension definitions match the code",
  "The published JSON definition of each standard extension declares the same name, types, operations, parameters, bounds and signatures as the code that defines the extension, and both implementations ship the same definitions.",
  ["configurations"], "all standard extensions and their operations",
  "One test compares files generated by the same code; nothing compares the definitions with the code that handles the operations.",
  ["specification/std_extensions", "hugr-core/src/std_extensions", "hugr-py/src/hugr/std/_json_defs"],
  [("extension definitions", "hugr-core/src/std_extensions")])

p("P24", "Builders refuse what validation would refuse",
  "A builder reports an error, and adds nothing, when a wire has the wrong type or is not usable at its target, when too few or many inputs or outputs are given, when a branch or block is built twice or left out, and finishing a HUGR with a builder validates it. "
  "Operations and ports created by a builder are those requested, in the order given.",
  ["programs", "histories"], "all sequences of builder calls",
  "Tests build well-formed programs and a few errors.",
  ["hugr-core/src/builder"],
  [("Dataflow/Container/SubContainer/HugrBuilder traits", "hugr-core/src/builder/build_traits.rs"), ("cfg, conditional, tail_loop, module, dataflow builders", "hugr-core/src/builder")])

p("P25", "Dataflow analysis facts are sound joins",
  "The abstract values of the dataflow analysis form a lattice: join and meet treat every pair of kinds, report a change exactly when there is one, and never lose a possible value; every kind of operation propagates its inputs to its outputs and regions as its semantics says. "
  "A value read as constant from the analysis is a value the program really computes.",
  ["programs", "inputs"], "all programs and abstract values",
  "Tests sample values with a property test and analyse about ten programs.",
  ["hugr-passes/src/dataflow/partial_value.rs", "hugr-passes/src/dataflow/value_row.rs", "hugr-passes/src/dataflow/datalog.rs"],
  [("PartialValue / PartialSum join and meet", "hugr-passes/src/dataflow/partial_value.rs"), ("datalog rules and propagate_leaf_op", "hugr-passes/src/dataflow/datalog.rs")])

p("P26", "Linking applies each directive to exactly its node",
  "Inserting a HUGR or a view with linking directives inserts exactly the module children marked to be added, each with its subtree, and the entrypoint subtree under the chosen parent. For an added node that replaces nodes of the target, every call, load and constant use of a replaced node refers to the added node afterwards, at the same port, and the replaced node and its subtree are gone; for a node linked to an existing one, nothing of it remains and every static use in the inserted parts refers to the existing node, also when that node is itself replaced by another directive. "
  "A directive for a node that is not a child of the module root, that contains the entrypoint being inserted, or that replaces a node another directive replaces is refused before the target is changed, and the owning and the view variant accept and do the same.",
  ["programs", "configurations"], "all pairs of HUGRs and directive maps",
  "Tests cover single directives on small modules.",
  ["hugr-core/src/hugr/linking.rs"],
  [("HugrLinking::{insert_link_view_by_node,insert_link_hugr_by_node}, check_directives, link_by_node, replace_static_src", "hugr-core/src/hugr/linking.rs")])
p("P27", "Subgraphs and replacements are checked before use",
  "A subgraph is accepted only if its nodes are siblings, non-empty and convex, its boundary ports belong to it, are unique, and are connected; a replacement is accepted only if its signature matches the subgraph's. "
  "Replacing reconnects each boundary port to the corresponding port of the replacement and drops no other edge.",
  ["programs", "inputs"], "all graphs and candidate subgraphs",
  "Tests sample some subgraphs of small circuits.",
  ["hugr-core/src/hugr/views/sibling_subgraph.rs", "hugr-core/src/hugr/patch/simple_replace.rs"],
  [("SiblingSubgraph::try_*", "hugr-core/src/hugr/views/sibling_subgraph.rs"), ("SimpleReplacement", "hugr-core/src/hugr/patch/simple_replace.rs")])

p("P28", "Loading untrusted bytes never panics",
  "Reading any byte string as an envelope, package, HUGR, model module or extension either returns a value or an error; it does not panic, overflow the stack or loop.",
  ["inputs"], "all byte strings",
  "Tests feed well-formed files and a few truncated ones.",
  ["hugr-core/src/envelope", "hugr-core/src/import.rs", "hugr-core/src/hugr/serialize.rs", "hugr-model/src/v0"],
  [("decoders", "hugr-core/src/envelope/reader.rs, hugr-model/src/v0/binary/read.rs")])

p("P29", "Passes preserve the meaning of programs",
  "Running any transformation pass on a valid HUGR yields a valid HUGR that computes the same outputs with the same observable effects in the same order.",
  ["programs"], "all valid HUGRs and inputs",
  "There is no reference interpreter; tests compare structure on examples.",
  ["hugr-passes/src"], [("passes", "hugr-passes/src")])

p("P30", "Constant folding computes the right numbers",
  "For every foldable operation and all constant operands, the folded value equals the mathematical result defined by the operation at its width.",
  ["inputs"], "all widths and operand values",
  "Tests evaluate a few operands per operation.",
  ["hugr-core/src/std_extensions/arithmetic"], [("fold functions", "hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs")])

p("P31", "The Python HUGR keeps its graph consistent",
  "In the Python HUGR, adding, linking, unlinking, deleting and inserting keep both directions of every link, the hierarchy, the port counts, the metadata and the index of freed nodes in agreement with what was asked for, and queries (neighbours, links, descendants, sorted traversal, entrypoint) report exactly that content. "
  "Inserting one HUGR into another maps every node, link, parent and metadata entry of the inserted one.",
  ["histories", "programs"], "all sequences of mutations of Python HUGRs",
  "Tests apply a few mutations to a few graphs; deletion followed by reuse, several links on one port and order edges are rarely combined.",
  ["hugr-py/src/hugr/hugr/base.py", "hugr-py/src/hugr/hugr/node_port.py", "hugr-py/src/hugr/utils.py", "hugr-py/src/hugr/passes"],
  [("Hugr", "hugr-py/src/hugr/hugr/base.py"), ("BiMap", "hugr-py/src/hugr/utils.py"), ("Node, InPort, OutPort", "hugr-py/src/hugr/hugr/node_port.py")])

p("P32", "Python builders wire and type exactly what they declare",
  "Every Python operation reports the signature, port kinds and number of ports that the Rust operation of the same name has, types and values report their bound and type, and each builder connects the wires it is given to the ports in the order given, sets the types of inputs and outputs from them, and raises its documented error when a branch, output or argument is missing or does not match.",
  ["programs", "inputs"], "all operations, types and builder calls",
  "Tests build sample programs; an offset that is wrong only for a particular number of inputs, outputs or variants passes them.",
  ["hugr-py/src/hugr/ops.py", "hugr-py/src/hugr/tys.py", "hugr-py/src/hugr/val.py", "hugr-py/src/hugr/build"],
  [("Op classes", "hugr-py/src/hugr/ops.py"), ("Type, TypeArg, TypeParam", "hugr-py/src/hugr/tys.py"), ("builders", "hugr-py/src/hugr/build/")])

p("P33", "Result decoding and rendering show the program's data",
  "Collected shots, registers and tags are decoded into exactly the entries they contain, in order, with the documented error for malformed ones; the Python command wrapper passes the requested options on; and the rendered graph shows every node, port, edge and region of the HUGR once.",
  ["inputs", "programs"], "all result streams, options and HUGRs",
  "Tests decode a few shots and compare a few rendered pictures.",
  ["hugr-py/src/hugr/qsystem/result.py", "hugr-py/src/hugr/cli.py", "hugr-py/src/hugr/hugr/render.py"],
  [("QsysShot, QsysResult", "hugr-py/src/hugr/qsystem/result.py"), ("DotRenderer", "hugr-py/src/hugr/hugr/render.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
