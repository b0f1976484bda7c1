def m(name, where):
    return {"name": name, "where": where}


PBT = "property-based testing (Hypothesis), "

PROPS.append(prop(
    "C01", "Running a script under capture does not change what it does",
    "For every script in the supported Python subset, running it with "
    "provenance capture produces the same standard output, the same files and "
    "the same final values as running it with plain Python. If the script "
    "ends with an uncaught exception or an explicit exit, the same exception "
    "or exit status is reported at the same point of its execution. This "
    "holds for every capture depth, context and saving frequency.",
    ["programs", "configurations"],
    "all programs over assignments (plain, augmented, tuple, starred, "
    "attribute, item, slice), operators, comparisons, literals, "
    "comprehensions, lambdas, functions with every parameter kind, classes, "
    "decorators, generators, loops with break/continue/else, with, "
    "try/except/else/finally, raise, assert, del, global/nonlocal, imports, "
    "f-strings; all capture options",
    "The unit tests run a handful of fixed snippets per construct and compare "
    "recorded rows, almost never the behaviour of the script itself, and not "
    "constructs in combination.",
    ["collection/prov_definition/transformer_stmt.py",
     "collection/prov_definition/transformer_expr.py",
     "collection/prov_execution/collector.py",
     "collection/prov_execution/execution.py"],
    [m("AST rewriting of statements and expressions",
       P + "collection/prov_definition"),
     m("runtime collector invoked by the rewritten code",
       P + "collection/prov_execution/collector.py")],
    PBT + "differential execution against plain Python on generated programs",
    "Explores generated programs; trusts CPython as the reference."))

PROPS.append(prop(
    "C02", "Definition provenance describes the source text faithfully",
    "Every trial stores the exact bytes of the script that was run, "
    "and every definition-time component it lists (functions, classes, calls, names, "
    "literals, assignments...) covers exactly the source span it claims: its "
    "recorded text is the text found there. Components and their containment "
    "form a tree rooted at the script, children lying inside their parents, "
    "and every function and class of the source is listed exactly once with "
    "its name, own docstring and source.",
    ["programs"],
    "all generated sources, including multi-line expressions, nested and "
    "decorated definitions, comments, non-ASCII text, CRLF line ends and "
    "coding comments",
    "The unit tests fix a few sources and compare line/column numbers "
    "written by hand.",
    ["collection/prov_definition/definition.py",
     "collection/prov_definition/ast_helpers.py",
     "collection/prov_definition/transformer_stmt.py",
     "persistence/lightweight/code_block.py"],
    [m("AST rewriting records code components and blocks",
       P + "collection/prov_definition")],
    PBT + "invariants and comparison with an independent AST walk",
    "Explores generated sources; trusts Python's ast and tokenize."))

PROPS.append(prop(
    "C03", "Recorded activations and evaluations match what really executed",
    "Each execution of a user-defined function, and nothing else, is recorded "
    "as an activation of that function under the activation that called it, "
    "in execution order, with the values of its arguments and the value it "
    "returned. Each recorded evaluation of a variable, parameter, literal, "
    "attribute or item shows the value it had at that moment, belongs to the "
    "activation in which it happened and to a component of the source, and "
    "its time lies within that activation.",
    ["programs", "configurations"],
    "all generated programs with nested and recursive calls, methods, "
    "generators, closures and exceptions caught inside functions",
    "The unit tests compare a few short traces; none compares the trace with "
    "an independent observation of the execution.",
    ["collection/prov_execution/collector.py",
     "collection/prov_execution/structures.py",
     "persistence/models/activation.py",
     "persistence/models/evaluation.py"],
    [m("collector pushes and pops activations and records evaluations",
       P + "collection/prov_execution/collector.py")],
    PBT + "differential comparison with an independent tracer",
    "Explores generated programs; the reference trace comes from "
    "instrumented plain Python."))

PROPS.append(prop(
    "C04", "Recorded dependencies are the data flow of the execution",
    "Whenever a value was computed from another value (through operators, "
    "assignments, calls, arguments, returns, containers, their items, or "
    "attributes), the recorded dependencies lead from the result to that "
    "source. They never lead to values of an unrelated computation: one "
    "that shares no variable, collection, call or condition with the "
    "result.",
    ["programs"],
    "all generated programs over the supported subset, with loops, branches, "
    "functions, closures and collections",
    "The unit tests check single expressions; reachability over a whole "
    "execution is not checked for any program with more than a few lines.",
    ["collection/prov_execution/collector.py",
     "collection/prov_execution/structures.py",
     "persistence/models/dependency.py"],
    [m("dependency-aware evaluation stack",
       P + "collection/prov_execution/collector.py")],
    PBT + "origins carried by the numbers of a plain run as lower bound, "
    "non-interference between two merged programs as upper bound",
    "Explores generated programs; flow through builtin methods that change "
    "collections and through callbacks of builtin functions is not required."
    ))

PROPS.append(prop(
    "C05", "Collection contents are recorded as they were built and changed",
    "For every list, tuple, set or dictionary built by the script, and every "
    "item it assigns or replaces (directly, or through aliases, nested "
    "collections, functions, attributes or loops), the recorded membership "
    "gives at each moment the same keys and the same element values that the "
    "collection really had. Reading an item relates the read to the member "
    "most recently stored under that key.",
    ["programs"],
    "generated histories of collection literals, item assignments, "
    "slices, comprehensions, nested collections, aliases and unpackings",
    "The unit tests check single literals and single item assignments.",
    ["collection/prov_execution/collector.py",
     "persistence/models/member.py",
     "collection/prov_definition/transformer_expr.py"],
    [m("members are recorded when containers are built or changed",
       P + "collection/prov_execution/collector.py")],
    PBT + "replay of recorded membership against real collection snapshots",
    "Explores generated histories; values compared through repr."))

PROPS.append(prop(
    "C06", "Every file access is recorded with its true before/after content",
    "Each file the script opens, by any of the standard ways of opening "
    "files (open, io.open, codecs.open, os.open, pathlib), is recorded "
    "exactly once per open, in order, with its name, mode and the activation "
    "that opened it, and opening files that do not exist, directories or "
    "descriptors behaves as without capture. The recorded content before an "
    "access is the bytes the file had when it was opened, and the recorded "
    "content after it is the bytes the file had when the function that "
    "opened it finished (also by an exception); both can be read back from "
    "the content store.",
    ["inputs", "histories"],
    "generated sequences of open/read/write/append/truncate/close/remove "
    "over text and binary files in nested functions, with and without "
    "context managers, with failing opens",
    "The unit tests use mocked content and one or two opens.",
    ["collection/prov_execution/collector.py",
     "persistence/models/file_access.py",
     "persistence/content/base.py"],
    [m("wrapped open functions", P + "collection/prov_execution/collector.py")],
    PBT + "model of the file system compared with recorded accesses",
    "Explores generated file programs."))

PROPS.append(prop(
    "C07", "The content store returns exactly the bytes that were put",
    "Whatever bytes are put into the content store under whatever file name, "
    "with any engine, the returned identifier depends on the bytes only and "
    "yields exactly those bytes later: after commits, after garbage "
    "collection, after reopening, through any other engine that shares the "
    "format, and through any sufficiently long prefix of the identifier. "
    "Every commit keeps all content put in the session reachable, together "
    "with all earlier history.",
    ["inputs", "histories", "configurations"],
    "all engines, all byte contents, all file names, all sequences of put, "
    "get, prefix lookup, commit, gc and reopen",
    "The unit tests put a few short strings into a mocked store; engines "
    "other than the default are not exercised.",
    ["persistence/content_database.py", "persistence/content/gitbase.py",
     "persistence/content/plain_engine.py",
     "persistence/content/pygit_engine.py",
     "persistence/content/dulwich_engine.py",
     "persistence/content/puregit_engine.py",
     "persistence/content/gitdb_engine.py",
     "persistence/content/parallel.py", "persistence/content/git_system.py"],
    [m("content addressing and commit tree construction",
       P + "persistence/content")],
    PBT + "operation histories against an in-memory map, across engines",
    "Explores histories; asynchronous engines are only read after commit."))

PROPS.append(prop(
    "C09", "Restoring a trial brings back its exact files without losing work",
    "For every trial, 'now restore' makes the working directory have the "
    "exact bytes that the script, the local modules, and the accessed files "
    "had when the trial started using them (files that did not exist are "
    "removed), honouring the flags that skip kinds of files, and leaves every "
    "other file as it was. If the files of the head trial differ from the "
    "working directory, the restore first creates exactly one backup trial, "
    "from which the previous files can be restored. 'now restore -f' brings "
    "back the version selected by access number, content hash, or time, "
    "and no other file. Trials created after a restore are based on the "
    "restored trial.",
    ["histories", "inputs"],
    "generated histories of edits, removals, runs, and restores over scripts, "
    "modules, packages, and data files with any bytes and encodings",
    "The unit tests do not run restore at all.",
    ["cmd/cmd_restore.py", "persistence/models/trial.py",
     "persistence/models/head.py", "collection/metadata.py",
     "collection/prov_definition/definition.py"],
    [m("restore command", P + "cmd/cmd_restore.py"),
     m("versions of the files of a trial", P + "persistence/models/trial.py")],
    PBT + "model-based histories of a working directory",
    "Explores histories; the store is in the directory of the scripts."))


PROPS.append(prop(
    "C10", "The history of trials is the one that the user made",
    "Every 'now run' appends exactly one trial with the next sequence key, "
    "the command, script name, user, code and the status that the execution "
    "had (finished for scripts that end or exit with 0, unfinished for "
    "scripts that fail). Its parent is the head of its script name: the last "
    "trial of that name, or the one that was last restored. The heads are "
    "updated by every run and restore. 'now list', 'now show' (by id, "
    "sequence key, or tag) and 'now history' (with script and status filters) "
    "present exactly these trials, in order, with their status, tags and "
    "commands.",
    ["histories"],
    "generated histories of runs of scripts with custom names, arguments and "
    "outcomes (success, exceptions, exits), edits and restores by id, "
    "sequence key and tag",
    "The unit tests run single trials and do not cover histories.",
    ["persistence/models/trial.py", "persistence/models/head.py",
     "cmd/cmd_list.py", "cmd/cmd_show.py", "cmd/cmd_history.py",
     "models/history.py"],
    [m("creation of trials and heads", P + "persistence/models/trial.py"),
     m("presentation of the history", P + "models/history.py")],
    PBT + "model-based histories of runs, edits and restores",
    "Explores histories; a single user and a clock that does not go back."))

PROPS.append(prop(
    "C11", "Trials receive the automatic tags of their versions",
    "Every trial and backup receives exactly one automatic tag "
    "major.minor.patch, which no other trial has. A trial with the "
    "code and the command of previous trials increments the patch of the "
    "greatest of their tags, a trial with the code of previous trials and other "
    "command increments the minor of the greatest of their tags and sets the "
    "patch to 1, a trial with new code increments the greatest major "
    "(X.1.1, or X.0.0 for backups), and the first trial is 1.1.1.",
    ["histories"],
    "generated histories of runs with repeated and new codes, commands, and "
    "names, and restores with backups",
    "The unit tests do not cover tags over histories.",
    ["persistence/models/tag.py", "cmd/cmd_run.py", "cmd/cmd_restore.py"],
    [m("computation of automatic tags", P + "persistence/models/tag.py")],
    PBT + "model-based histories of runs, edits and restores",
    "Explores histories of the default experiment."))


PROPS.append(prop(
    "C12", "Provenance travels between stores unchanged",
    "After 'now import', or 'now push' followed by 'now pull' through the "
    "server of other store, the target has every trial of the source with "
    "exactly the same rows (trial, code blocks, components, activations, "
    "evaluations, dependencies, members, compositions, modules, environment, "
    "arguments, file accesses), the same bytes of every content, their users, "
    "and one unique automatic tag per trial. Trials that the target already "
    "had are not changed, transferring again adds nothing, and transferring "
    "after new runs brings only these runs. Pushed trials belong to the "
    "experiment of the URL, and unknown experiments are refused without "
    "changes.",
    ["inputs", "histories"],
    "stores created by generated programs with functions, collections, file "
    "accesses with any text and bytes, failures, names, and backups, with "
    "several content engines, for empty and not empty targets",
    "The unit tests do not transfer trials.",
    ["cmd/cmd_import.py", "cmd/cmd_push.py", "cmd/cmd_pull.py",
     "utils/collab.py", "persistence/lightweight/bundle.py", "vis/views.py"],
    [m("conversion of trials to bundles", P + "utils/collab.py"),
     m("bundles in JSON", P + "persistence/lightweight"),
     m("server", P + "vis/views.py")],
    PBT + "differential comparison of stores after transfers",
    "Explores stores; both sides use the same content engine."))


PROPS.append(prop(
    "C13", "The Prolog export is a valid program with exactly the stored facts",
    "For every trial, 'now export' prints text that is valid in the standard "
    "Prolog syntax, whatever characters the names, values, docstrings, "
    "arguments and file names have, with exactly one fact per stored row of "
    "the trial (trial, tag, argument, module, environment, code component, "
    "code block, activation, evaluation, dependency, access, member), and "
    "whose arguments are the stored values (missing values are nil, timestamps "
    "are seconds or nil when they are hidden, only the quotes of single string "
    "literals may be removed). No row of other trials appears. The "
    "inference rules only use predicates that exist with the arity they have.",
    ["inputs", "programs"],
    "trials with any text in scripts, values, arguments and file names",
    "The unit tests do not export trials; the documentation examples only "
    "show usual names.",
    ["utils/prolog.py", "models/trial_prolog.py", "cmd/cmd_export.py"],
    [m("conversion of rows to facts", P + "utils/prolog.py"),
     m("exported models", P + "models/trial_prolog.py")],
    PBT + "parse-back of the export against the stored rows",
    "Explores trials; the answers of the inference rules are not verified."))


PROPS.append(prop(
    "C14", "The diff of trials shows exactly what is different",
    "For every pair of trials, the diff lists the attributes of the trials "
    "that are different with their values, and the modules, environment "
    "attributes and file accesses that exist only in the second trial "
    "(additions), only in the first trial (removals) or in both with the same "
    "name and different contents (replacements), each of them exactly once. "
    "The diff of a trial with itself is empty, and swapping the trials swaps "
    "additions and removals. The tree edit distances of definitions and "
    "activations are the minimum costs. The comparison of functions shows the "
    "arguments, results and variables stored for the activations, and aligns "
    "the variables by a longest common subsequence. The command 'now diff' "
    "ends and prints the same differences.",
    ["inputs", "programs"],
    "pairs of trials with any combination of common and different rows; pairs "
    "of runs of similar programs",
    "The unit tests do not compare trials.",
    ["models/diff.py", "models/graphs/diff_graph.py", "cmd/cmd_diff.py",
     "persistence/models/trial.py"],
    [m("comparison of sets of rows", P + "models/diff.py"),
     m("tree edit distance", P + "models/graphs/diff_graph.py"),
     m("printed differences and function comparison",
       P + "cmd/cmd_diff.py")],
    PBT + "reference set operations, edit distance and LCS",
    "Explores pairs of trials."))

PROPS.append(prop(
    "C17", "The history shows every trial that matches the filters",
    "For every store, the history of a script, a status and an experiment "
    "shows exactly the trials that match these filters, from the oldest to "
    "the newest, and each of them is connected to its nearest ancestor that "
    "also matches them (and to nothing else if there is none). Summarized "
    "histories show the same for groups of trials with the same two first "
    "numbers of the automatic tags. The list of scripts has all scripts. "
    "'now history' prints one line for each of these trials, from the newest "
    "to the oldest, with its status, id, script and tags. This holds with and "
    "without the cache, after the store changes, for stores without trials, "
    "and when parents are not in the store.",
    ["inputs", "histories"],
    "stores with any tree of trials, filters, and later changes",
    "The unit tests check a few hand-written histories of one branch.",
    ["models/history.py", "models/graphs/history_graph.py",
     "cmd/cmd_history.py", "persistence/models/trial.py"],
    [m("filter and transitive ancestors", P + "models/graphs/history_graph.py"),
     m("queries", P + "persistence/models/trial.py")],
    PBT + "breadth-first search on the stored rows",
    "Explores stores; the layout (levels) is not verified."))

PROPS.append(prop(
    "C16", "The graphs of a trial have exactly the activations that occurred",
    "For every trial, each activation appears in exactly one node of each "
    "graph, under the node of its caller: the tree and the graph without "
    "matches have one node for each activation; the exact match combines only "
    "activations of the same caller node with the same line, name and "
    "(recursively) calls; and the namespace match combines the ones with the "
    "same line and name. Nodes have the name and the sum of the durations of "
    "their activations; tree edges have the order of the calls; and sequence "
    "edges count the consecutive calls. The definition tree puts components "
    "inside the components that contain them. The diff graph of two trials "
    "has all the nodes and edges of both graphs, each exactly once, combining "
    "nodes one to one. Graphs read from the cache are equal to computed ones.",
    ["programs", "histories"],
    "programs with nested, repeated, recursive and resumed (generators) "
    "calls, exceptions, callbacks and classes; pairs of similar programs",
    "The unit tests check hand-written activation sequences of few shapes.",
    ["models/graphs/trial_graph.py", "models/graphs/diff_graph.py",
     "models/graphs/structures.py"],
    [m("summarizations", P + "models/graphs/trial_graph.py"),
     m("combination of graphs", P + "models/graphs/diff_graph.py"),
     m("cache of graphs", P + "models/graphs/structures.py")],
    PBT + "reference trees built from the stored rows",
    "Explores programs; repetition counts of call and return edges of "
    "combined nodes are not specified."))

PROPS.append(prop(
    "C15", "The dataflow graph shows the stored dependencies",
    "For every trial and every option of 'now dataflow', the output is a valid "
    "DOT file. Without combined nodes, two shown evaluations are connected if "
    "and only if the stored dependencies and memberships connect them directly "
    "or through evaluations that are not shown. With combined nodes, "
    "connections are the ones of the combined evaluations. The simulation and "
    "dependency modes hide only what the options say (internal names, types, "
    "evaluations below the depth). Nodes have the line, the name and the value "
    "of the evaluation, shortened to the given lengths. Files are shown once "
    "or once for each access; external ones only when asked; and each is "
    "connected to the shown activation that accessed it (or to its nearest "
    "shown caller), in the directions of the mode of the access.",
    ["inputs"],
    "programs with any text in values and names, calls, collections, and file "
    "accesses; and all combinations of options",
    "The unit tests build a few graphs without invalid texts or propagation.",
    ["models/dependency_graph/clusterizer.py",
     "models/dependency_graph/dot_visitor.py",
     "models/dependency_graph/filters.py",
     "models/dependency_graph/synonymers.py",
     "models/dependency_graph/attributes.py", "cmd/cmd_dataflow.py"],
    [m("creation of nodes and propagation of edges",
       P + "models/dependency_graph/clusterizer.py"),
     m("DOT", P + "models/dependency_graph/dot_visitor.py")],
    PBT + "paths in the stored rows, and the parser of Graphviz",
    "Explores programs and options; styles and alignment are not verified."))

PROPS.append(prop(
    "C22", "Save frequency and depth options do not change what is stored",
    "For every program, partial saves ('now run -s') change nothing: the "
    "trial has the same evaluations, activations, dependencies, members, file "
    "accesses, modules and other rows, with the same order of moments, status "
    "and output. With a depth limit ('now run -d'), the program ends with "
    "the same output; activations up to the limit have exactly the same "
    "evaluations and dependencies (of names, assignments, calls and "
    "arguments) between them; nothing below the limit is stored; and "
    "everything that is stored refers to stored things.",
    ["inputs", "schedules"],
    "programs, frequencies of partial saves, and depths",
    "The unit tests do not use partial saves and use few depths.",
    ["collection/prov_execution/collector.py", "persistence/lightweight/base.py",
     "persistence/lightweight/evaluation.py", "persistence/models/base.py"],
    [m("depth limit and partial saves",
       P + "collection/prov_execution/collector.py"),
     m("objects that can be removed from memory",
       P + "persistence/lightweight/base.py")],
    PBT + "a metamorphic relation with the run without the option",
    "Explores programs with a virtual clock, so that saves are repeatable."))

PROPS.append(prop(
    "C24", "Stores survive the end of trials at any point",
    "However a script ends (normally, by any exit, or by any exception, at "
    "any place), the trial has all the provenance collected until then, the "
    "time of its end, and the status 'finished' (normal or successful exit) "
    "or 'unfinished' (other exits and exceptions). If the process is killed "
    "at any moment, including during the creation of the database, partial "
    "saves and the final save, the trial does not look finished unless "
    "everything is stored; previous trials and their contents do not change; "
    "what is stored refers to stored things; commands that show trials work "
    "for all trials of the store; and the next run stores the same "
    "provenance, with complete contents, as if nothing had occurred.",
    ["inputs", "crash points", "histories"],
    "ways and places to end scripts; kills at each database statement and "
    "each write of a content",
    "The unit tests do not kill processes and end scripts in few ways.",
    ["cmd/cmd_run.py", "collection/prov_execution/execution.py",
     "collection/prov_execution/collector.py",
     "persistence/relational_database.py",
     "persistence/content/plain_engine.py"],
    [m("order of the final save", P + "cmd/cmd_run.py"),
     m("status", P + "collection/prov_execution/execution.py"),
     m("contents", P + "persistence/content/plain_engine.py")],
    PBT + "comparison with a run without faults",
    "Explores crash points of the process; not losses of the operating "
    "system. Only the plain content engine."))

PROPS.append(prop(
    "C18", "The PROV export describes the stored evaluations",
    "For every trial, 'now prov' writes valid PROV-N, whatever texts the "
    "names and values have, and declares what it uses: one entity for each "
    "stored evaluation (except reads of names and types) with its value, "
    "label, line and name; one derivation, with the type of reference and the "
    "order of the moment, for each stored dependency that is not an "
    "assignment, item, value, slice or argument of a call; one usage for each "
    "argument of a call; and one membership, with the key and the order of "
    "the moment, for each stored member of a collection.",
    ["inputs"], "programs with names, values and keys of any text",
    "The unit tests do not export trials with unusual values.",
    ["models/prov/export.py", "cmd/cmd_prov.py"],
    [m("statements", P + "models/prov/export.py")],
    PBT + "a parser of PROV-N and the stored rows",
    "Evaluations of the same name and line have the same entity, as designed; "
    "activities are only checked to be declared."))

PROPS.append(prop(
    "C23", "Modules, environment and arguments of trials are recorded",
    "Every trial without 'bypass-modules' has exactly one module row for "
    "each module that the script successfully imported, with its name, "
    "version, path and the exact bytes of its source; functions of modules "
    "are collected exactly when the context ('main', 'package' for the "
    "project directory, 'all') includes the module, however the project "
    "directory and imports are written; trials that bypass modules inherit "
    "the modules of the last trial that did not. The trial has every "
    "environment variable, every option and argument of the command with "
    "its value, its name, command and path, whatever texts they have, and "
    "the script receives its arguments unchanged.",
    ["inputs"], "packages, imports, versions, options, and texts",
    "The unit tests do not import packages in other directories or use "
    "unusual texts.",
    ["collection/prov_deployment/py3module.py",
     "collection/prov_deployment/deployment.py", "collection/metadata.py",
     "cmd/cmd_run.py", "persistence/models/trial.py"],
    [m("modules", P + "collection/prov_deployment/py3module.py"),
     m("environment and versions", P + "collection/prov_deployment/deployment.py"),
     m("arguments", P + "collection/metadata.py")],
    PBT + "the modules loaded by plain Python and the given texts",
    "Modules that fail during their import and modules that are not Python "
    "source are not judged."))

PROPS.append(prop(
    "C25", "Queries of evaluations and derivations agree with the store",
    "'now evaluation' finds exactly the evaluations of the trial that match "
    "all filters (line, column, mode, code, value, component, evaluation, "
    "activation and index), and shows them with their data. An evaluation "
    "was derived from another exactly when there is a path of stored "
    "dependencies and of members that collections had at that moment; the "
    "answer does not depend on asking for one or many, or on preloading. "
    "Relationships of model objects (activations, evaluations, components, "
    "blocks, dependencies, members, compositions and accesses) have exactly "
    "the related rows of the same trial.",
    ["inputs"], "programs, filters, pairs of evaluations, and trials whose "
    "identifiers collide",
    "The unit tests query a few fixed rows in stores with a single trial.",
    ["cmd/cmd_evaluation.py", "models/dependency_querier/node_context.py",
     "models/dependency_querier/querier.py",
     "models/dependency_querier/querier_options.py",
     "persistence/models/relationships.py", "persistence/models/evaluation.py"],
    [m("filters", P + "cmd/cmd_evaluation.py"),
     m("search", P + "models/dependency_querier/querier.py"),
     m("relationships", P + "persistence/models/relationships.py")],
    PBT + "filters, joins and a search over the stored rows",
    "Explores programs of up to 500 evaluations; layouts are not verified."))

PROPS.append(prop(
    "C21", "Notebooks are collected and cleaned without changing results",
    "The noWorkflow kernel does not change the results, variables and errors "
    "of cells. Every executed cell is stored with its exact source, "
    "execution count and value. The notebook that 'now clean' creates for a "
    "cell has this cell and cells that can contribute to it, once each, in "
    "the order of their execution, with their exact sources and outputs; "
    "executing it from scratch gives the value that the cell had, also when "
    "cells were executed again, changed collections in place, or used "
    "previous outputs. Merging it with the original notebook keeps all its "
    "cells in order, keeps all texts (and the unmatched cells, when asked) "
    "of the original in order, and aligns both by a longest common sequence.",
    ["inputs", "histories"], "sequences of cells and re-executions, targets "
    "and options; pairs of notebooks with repeated cells",
    "The unit tests do not execute notebooks.",
    ["../kernel/shell.py", "cmd/cmd_clean.py",
     "models/cleaning/history.py", "models/cleaning/ipython.py",
     "models/cleaning/merge.py",
     "collection/prov_execution/collector.py"],
    [m("cells", "capture/noworkflow/kernel/shell.py"),
     m("last expressions", P + "collection/prov_execution/collector.py"),
     m("selection of cells", P + "models/cleaning"),
     m("alignment", P + "models/cleaning/merge.py")],
    PBT + "plain IPython, a replay of the clean notebook, and the definition "
    "of a merge",
    "Cells change collections by subscripts and their functions do not "
    "change variables of other cells."))

PROPS.append(prop(
    "C19", "Queries by patterns find exactly their solutions",
    "A conjunction of patterns (models and rules, with constants, blanks and "
    "variables that are shared between them) finds exactly the solutions of "
    "the join of their relations, where the relation of a rule is given by "
    "its definition: each variable is bound to its value, and each solution "
    "selects the rows that it matches. The answer does not depend on the "
    "grouping or on the arguments being given by position or name, and "
    "asking leaves the variables unbound, so the same query can be asked "
    "again with the same answer.",
    ["inputs"], "conjunctions of up to 3 patterns over 11 models and 40 "
    "rules, and stores of generated programs",
    "No test uses the patterns.",
    ["../patterns/machinery.py", "../patterns/models.py",
     "../patterns/rules"],
    [m("joins", "capture/noworkflow/patterns/machinery.py"),
     m("rules", "capture/noworkflow/patterns/rules")],
    PBT + "a join over relations computed from the stored rows",
    "Rules over lists of identifiers are not explored."))
