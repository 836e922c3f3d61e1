prop("C01", "Products of a successful build equal those of a build from scratch",
     "After every successful build, whatever builds, edits, failures, option or environment changes and removals of products happened before, every product of an active rule exists and has the content which a build from scratch of the current project would give. No declared source or product, discovered header, script, argument, option or referenced environment variable can change without what depends on it being rebuilt.",
     ["histories", "programs", "inputs"], "all projects made of commands, compilations, foreach, templates, check scripts, value commands and install rules, and all histories of builds and edits",
     "A stale product appears only after particular sequences of edits, failures and option changes in particular project shapes; tests replay a handful of them.",
     ["script.c", "deps.c", "node_run.c", "node_cc.c", "node_foreach.c", "node_configure.c", "node_check.c", "node_subst.c"], DEPS, ST, CMD)
prop("C02", "Nothing is executed unless something it depends on changed",
     "A build which follows a successful build executes exactly the commands whose tracked inputs, arguments, scripts, options or environment changed, whose products were removed or overwritten, or which are declared to run always; without any change nothing is executed and no product is rewritten.",
     ["histories", "programs"], "all histories of builds and edits of all projects",
     "Needless work has no functional symptom; it depends on the exact record kept after each earlier build.",
     ["script.c", "deps.c", "node_run.c", "node_cc.c", "node_foreach.c"], DEPS, ST, CMD)
prop("C03", "Producers run before consumers and every command at most once per build",
     "Whatever the order of rules in scripts and units, a command starts only after all active rules which produce files it consumes have finished successfully in this build, and no command is executed twice in one build.",
     ["programs", "histories"], "all acyclic graphs of rules over units, in any textual order",
     "Order depends on the shape of the graph, textual order and on which rules are outdated; tests have a few fixed graphs.",
     ["script.c", "node_run.c", "autark_core.c"], [("products registry and depth first resolution", "script.c:node_consumes_resolve, node_product_add"), ("build phase", "script.c:script_open")], ["products registry", "state flags of rules"], CMD)
prop("C04", "Impossible rule graphs fail instead of hanging or building something",
     "If active rules form a cycle, two active rules declare the same product, or a consumed file is neither produced nor present, the build ends with a failure status in finite time, never executing the affected rules; rules disabled by conditions do not count.",
     ["programs", "inputs"], "all rule graphs with cycles, duplicated products or missing files, over units and conditions",
     "There are unboundedly many shapes of wrong graphs, and the wrong part may appear only under certain options or after files were removed.",
     ["script.c", "node_run.c", "autark_core.c"], [("cycle detection and product registry", "script.c:node_build, node_product_add"), ("resolution of consumed files", "script.c:node_consumes_resolve")], ["products registry"], CMD)
prop("C05", "A failed command fails the build and is executed again until it succeeds",
     "If a command, compilation or check fails (or cannot be started), the build reports failure, nothing that depends on it is executed, and its failure is never forgotten: every following build executes it again until it succeeds, even if it left products behind.",
     ["fault_sequences", "histories"], "all failing subsets of commands in all histories",
     "Which command fails, what it leaves behind and what is built afterwards form sequences that tests do not enumerate.",
     ["spawn.c", "script.c", "node_run.c", "node_cc.c", "node_check.c"], DEPS + [("exit status of commands", "spawn.c:spawn_do")], ST, CMD)
prop("C06", "A build killed at any point never makes a later build wrong",
     "If the build process is killed at any moment, the next build starts normally, executes again whatever was not completely finished, and ends with the same products as a build from scratch.",
     ["crash_points", "histories"], "every file operation and process start of the build process, in builds after arbitrary histories",
     "A crash between two particular system calls cannot be produced by functional tests.",
     ["script.c", "deps.c", "autark_core.c", "utils.c"], [("records are written aside and renamed, old ones removed before a rule is executed", "script.c:node_resolve")], ST, CMD)
prop("C07", "Exactly the sources affected by an edit are recompiled",
     "A compilation is repeated if and only if its source, any header it included when it was last compiled (direct, nested or generated), its flags, the compiler, other consumed files or the script changed; headers are generated before they are needed.",
     ["histories", "programs"], "all include graphs and histories of edits of sources and headers",
     "Include graphs change with every edit, and partial recompilation depends on the record of the previous build.",
     ["node_cc.c", "deps.c", "script.c"], [("dependency files of the compiler", "node_cc.c:_cc_deps_MMD_add"), ("per source records", "node_cc.c:_cc_on_resolve")], ["records of compilations"], CMD)
prop("C09", "Results of check scripts follow their inputs",
     "Variables set by a check script have the values which the script gives for current arguments, environment variables and files it declared; the script is executed again exactly when one of them or the script itself changed, and failed scripts fail the build.",
     ["histories", "inputs"], "all check scripts setting variables from arguments, environment and files, and all histories of their changes",
     "Values are remembered between builds; a wrong value appears only after particular sequences of changes.",
     ["node_check.c", "autark_core.c", "script.c", "deps.c"], [("check records and saved environment", "node_check.c, autark_core.c"), ("set, dep and env subcommands", "autark_core.c")], ["records of checks", "saved variables"], CMD)
prop("C10", "Values captured from commands are current and cached only when asked",
     "A command used as a value is executed when the value is needed, its output becomes the value, and a cached one is executed again only if its arguments changed or it failed; rules using the value are executed again when the value changes.",
     ["histories", "inputs"], "all uses of captured values and histories of option changes",
     "Caching is visible only across builds with changed arguments.",
     ["node_subst.c", "script.c", "deps.c"], DEPS, ["records of captured values"], CMD)
prop("C12", "Configured files follow templates and every variable used in them",
     "A configured file always corresponds to its template and to current values of the variables used in it, also when a variable becomes undefined or empty, and is not rewritten while none of them changed.",
     ["histories", "inputs"], "all templates and histories of changes of variables and templates",
     "Which variables matter depends on the content of every template at the time of the last build.",
     ["node_configure.c", "deps.c", "script.c"], [("variables recorded with templates", "node_configure.c")], ["records of templates"], CMD)
prop("C13", "A foreach rule executes its command for exactly the items which need it",
     "For each item of the list the command is executed with that item, and later builds execute it only for items whose own inputs changed, or for all items if the list, arguments or shared inputs changed; products of all items are consumable by other rules.",
     ["histories", "inputs"], "all lists of items and histories of changes of items and lists",
     "Partial execution depends on which items changed since the previous build and on changes of the list.",
     ["node_foreach.c", "node_run.c", "script.c", "deps.c"], DEPS, ["records of foreach rules"], CMD)
prop("C14", "Installed files are up to date copies of what the rules name",
     "A build with installation requested succeeds only when every file named by active install rules is present under the prefix with the current content of the product or source, missing or changed ones being copied again; nothing is installed when it was not requested.",
     ["histories", "inputs"], "all sets of install rules and histories of edits, removals and requests",
     "Staleness of installed files depends on histories of builds with and without installation.",
     ["node_install.c", "script.c", "autark_core.c"], [("post build phase", "script.c, node_install.c")], ["records of install rules", "install prefix"], CMD)
prop("C08", "Parallel compilation compiles every outdated source exactly once",
     "For every number of sources, limit of jobs and order in which compilers finish or fail, a compile rule starts a compiler exactly once for each outdated source, never runs more of them than the limit (-J, at most 16), attempts all of them also after a failure, and waits for all. It fails if and only if some compiler failed; then exactly the failed or not yet compiled sources are compiled by the next build, and no consumer of the objects is executed before all of them were compiled.",
     ["schedules", "fault_sequences"], "all orders of exits of compilers, all limits and all sets of failing sources",
     "Tests compile with one uncontrolled schedule; a wrong reaction to a certain order of exits shows only under that order.",
     ["node_cc.c", "spawn.c"], [("pool of compilers", "node_cc.c:_cc_on_resolve and helpers"), ("waiting and exit status", "spawn.c")], ["running compilers", "outdated sources"],
     ["log of starts and exits of compilers", "exit status", "objects"],
     technique="TLA+ specification of the compiler pool (AkJobs): TLC enumerates all schedules of small pools, each is forced on the real program with gated compilers, and recorded starts and exits of larger runs are validated as traces of it",
     note="Schedules are exhaustive for small numbers of sources and limits and sampled beyond. Whether a compiler counts as started is observed from its own log. Trusts TLC and the gating stand-in compiler.")
LANG = "TLA+ specification of the script language (AkLang): TLC explores families of small scripts, their behaviours are replayed; real runs of random scripts are validated"
LNOTE = ("AkLang gives the behaviour of a project starting from the texts of its scripts: messages, executed commands with arguments and directories, exit status. "
         "All programs of bounded families are replayed on the real program and random larger ones are validated by TLC. "
         "Trusts TLC and the check's own test commands. Quirks of the language outside of the statement are copied from the program, see DESIGN.md.")
LOBS = ["the exit status", "echo messages", "arguments and directories of executed commands"]


def lprop(id, title, statement, over, quant, why, files, mech, state):
    prop(id, title, statement, over, quant, why, files, mech, state, LOBS, technique=LANG, note=LNOTE)


lprop("C15", "Variables give the value which scopes and overrides prescribe",
      "A reference to a variable gives the value of the last active set{} of it in the nearest unit which defines it, from the referring unit up to the root, or of the last let{} executed before; then the environment, else the default or empty text. Options of -D are definitions made before the root script, a definition which refers to its own name sees the previous one, parent{} and root{} assign in the outer unit, and env{} passes values to commands.",
      ["programs", "inputs"], "all scripts with assignments and references over units, options and environment",
      "The value depends on the whole set of assignments, their order, scopes and phases, which form an unbounded space of programs.",
      ["node_set.c", "node_subst.c", "node_meta.c", "node_include.c", "autark_core.c", "script.c"],
      [("lookup of variables through units", "script.c:node_env_get, node_env_set"), ("set, let, env", "node_set.c"), ("references", "node_subst.c")], ["environments of units", "options"])
lprop("C16", "Values and lists reach commands as separate exact arguments",
      "Every argument a script gives to a command, a compiler or a message arrives with exactly its text, whatever characters it has, and list values become one argument per element only where they are written or spread as lists. Joins, defaults, nested sets and foreach items keep order and number of elements.",
      ["programs", "inputs"], "all values with spaces, quotes, special characters and empty strings in all nestings of lists, joins and spreads",
      "Quoting and splitting errors show only for particular characters in particular positions of nested values.",
      ["node_run.c", "node_set.c", "node_join.c", "node_subst.c", "node_foreach.c", "spawn.c", "utils.c"],
      [("lists in values", "node_set.c, node_join.c"), ("arguments of commands", "node_run.c, spawn.c:spawn_arg_add")], ["values of nodes"])
lprop("C17", "Only the branches of conditions which hold take effect",
      "if{} keeps its content, and else{} its content otherwise, exactly according to the value of its condition built from variables, eq, prefix, contains, defined, and, or and negation; content of the other branch has no effect: no assignment, message, rule or command of it happens. This holds at every nesting and also inside of arguments.",
      ["programs", "inputs"], "all conditions and nestings of conditions over rules and arguments",
      "The number of conditions and places grows combinatorially; a wrong evaluation of one operator with one kind of value is easily missed.",
      ["node_if.c", "node_subst.c", "script.c"], [("evaluation of conditions", "node_if.c"), ("pruning of branches", "node_if.c, script.c:node_init")], ["tree of the script"])
lprop("C18", "A macro call behaves as its body with arguments put in",
      "A call of a macro has the effect of the body written at the place of the call with every placeholder replaced by the corresponding argument, as rules or as values, for every number of calls and nested calls; the macro itself does nothing when it is not called.",
      ["programs", "inputs"], "all macros, arguments, nested calls and places of calls",
      "Substitution works on shared trees; errors appear with particular combinations of repeated calls, placeholders and places.",
      ["node_macro.c", "node_call.c", "script.c"], [("copying of the body", "node_macro.c:macro_call, node_call.c"), ("placeholders", "node_macro.c")], ["tree of the script"])
lprop("C19", "Any script ends in a build or an error report, never a crash or hang",
      "For every text given as a script, valid or damaged, the program terminates with success or with a reported error, without touching memory it does not own. Texts with balanced structure are understood as documented: words, both kinds of quotes, escapes, comments and nesting, and others are rejected before anything is executed.",
      ["inputs"], "all texts of scripts",
      "The space of texts is unbounded and memory errors are silent in ordinary runs.",
      ["scriptx.leg", "script.c", "script_impl.h", "pool.c", "xstr.c", "ulist.c", "node_call.c", "node_set.c"],
      [("grammar", "scriptx.leg"), ("construction of trees", "script.c:_script_from_value")], ["tree of the script", "parser buffers"])
lprop("C20", "Path values point to what the rules document",
      "S{} and C{} give absolute paths in the root source and cache directories, SS{} and CC{} in those of the current unit, %{} the name without its extension or with the given one, for any components; unit and root directory variables agree with them, in any unit.",
      ["programs", "inputs"], "all path components, extensions and nestings of units",
      "Normalisation has many special cases: dots, empty components, absolute components, missing extensions, nested units.",
      ["node_dir.c", "node_basename.c", "paths.c", "utils.c"], [("directories of units", "node_dir.c"), ("base names", "node_basename.c"), ("normalisation", "paths.c, utils.c")], ["directories of units"])
lprop("C23", "Commands run in the directory and order which their place prescribes",
      "Commands of run rules are executed in the order of the script in the cache directory of their unit, those under in-sources{} in its source directory, commands of captured values in the source directory; nothing is executed before the build phase except captured values which are needed earlier.",
      ["programs"], "all nestings of in-sources{}, conditions, macros, foreach and units around commands",
      "The directory is process state which is pushed and popped around nested units, values and rules; a wrong restore shows only after particular nestings.",
      ["node_run.c", "node_in_sources.c", "node_include.c", "node_subst.c", "script.c", "spawn.c"],
      [("unit contexts", "autark_core.c:unit_push, unit_pop, unit_ch_cache_dir"), ("in-sources", "node_in_sources.c")], ["current directory", "stack of units"])
prop("C11", "Templates are expanded exactly",
     "configure{} writes its template byte for byte except that @NAME@ becomes the value of a defined variable or nothing if it is undefined, elements of a list are joined by spaces, and lines //autarkdef NAME become definitions, quoted or with a number as asked, or stay comments when NAME is undefined. Lengths of lines, values and files do not matter, nor how many templates the rule has; results keep the permissions of templates.",
     ["inputs"], "all texts of templates, values of variables and sets of templates of one rule",
     "Substitution works on lines and buffers; errors depend on lengths, on unmatched @ and on positions of placeholders.",
     ["node_configure.c", "xstr.c", "utils.c"], [("replacement in lines", "node_configure.c:_line_replace_def, _line_replace_sub"), ("reading and writing", "node_configure.c:_process_file")],
     ["environments of units"], ["configured files", "exit status"],
     technique="TLA+ specification of template expansion (AkTemplate): TLC enumerates short templates with expected results, random ones get theirs from the specification; real builds are compared byte for byte",
     note="All templates up to a small number of pieces are enumerated and long ones sampled, with sizes around those of buffers. Texts contain no NUL byte and values no byte 1, which separates elements of lists inside of the program. Trusts TLC and the comparison of files.")
prop("C21", "Only the cache and install places are changed, wherever they are",
     "However the project, the cache and the current directory are named (relatively, through links, with dots, in a copied or moved project), a build writes only in the cache directory and under the install prefix, cleaning removes only contents of the cache and follows no links, and a cache which is the project itself or contains it is refused before anything is lost. Results are those of a build from scratch in that place.",
     ["inputs", "histories"], "all trees with links and names of project and cache directories, and histories of builds with moved and copied projects",
     "Names of directories combine links, dots and relative parts; a wrong combination destroys sources, and stale absolute paths show only after a move.",
     ["autark_core.c", "paths.c", "script.c", "node_include.c"], [("project and cache directories", "autark_core.c:autark_build_prepare"), ("directories of units", "autark_core.c:unit_create"), ("cleaning", "paths.c:path_rm_cache"), ("identity of records", "script.c:_node_id")],
     ["project and cache directories", "records"], ["all files of the tree", "exit status", "executed commands"],
     technique="TLA+ specification of places (AkPlace): TLC enumerates small trees with links, names and cleaning, and each run is replayed comparing all files; histories in other layouts and with moved projects are validated as traces of AkEngine",
     note="Trees have up to two links and names up to three parts; names which would lead out of the scratch directory are not tried. '..' in -H is resolved by text, as the program does. Runs are made by an unprivileged user. Trusts TLC and comparison of trees.")
prop("C24", "A build hit by full disks or failed process starts never claims wrong results",
     "If from some moment of a build on, or once, files cannot be written (disk full) or processes cannot be started, the build either fails or its products are right; it never reports success with a wrong product. Following builds, when the fault is gone, end with the same products as a build from scratch.",
     ["fault_sequences", "histories"], "every file write and process start of builds after arbitrary histories, with faults from that point on or only there",
     "Faults of the environment at a particular operation are not produced by tests, and their effect may show only in a later build which believes a truncated file.",
     ["deps.c", "utils.c", "node_configure.c", "node_install.c", "autark_core.c", "spawn.c"], DEPS + [("writing of records", "deps.c:deps_close"), ("copies", "utils.c:utils_copy_file")], ST, CMD)
prop("C22", "Output of commands arrives complete and exact",
     "Everything which commands of run rules, check scripts and captured values write to standard output and standard error is passed on to the same streams of the build with exactly its bytes, before the next command starts, for any sizes, timing, closed streams and processes left behind; a command fails the build if and only if its process does. A captured value is the whole standard output without white space at the end, also when it is taken from the cache by a later build.",
     ["inputs", "schedules"], "all sequences of writes, closes, exits and forks of commands, sizes of data and interleavings with the reading build",
     "Losses and deadlocks depend on sizes of pipes and buffers and on the moments when streams are closed and processes end.",
     ["spawn.c", "node_run.c", "node_subst.c", "node_check.c"], [("reading of both streams", "spawn.c:spawn_do"), ("captured values", "node_subst.c:_subst_value_proc")],
     ["pipes of commands", "captured values"], ["standard output and standard error of the build", "exit status", "configured files with captured values"],
     technique="TLA+ specification of processes, pipes and the reading build (AkProc): TLC checks all interleavings of short commands and prints them, they are replayed with real data sizes; recorded output is judged by the specification",
     note="Interleavings are exhaustive in the model only; in replays they follow sleeps and sizes relative to pipe buffers. Values have no NUL bytes. Compilers share streams with the build and are not included. Trusts TLC and the harness's command.")
prop("C25", "Patterns of autark glob list exactly the matching files",
     "For every sequence of patterns `autark glob` prints, pattern by pattern and sorted, exactly the paths which match in the current directory or in the one given by -C: `*`, `?` and classes match within one name, leading dots are matched by dots only, a backslash makes the next character plain, and without patterns everything not hidden is listed. A pattern without matches prints nothing and is not a failure.",
     ["inputs"], "all patterns, numbers of patterns and trees of files",
     "Patterns are composed of operators which interact; lists of sources built by patterns silently lack or duplicate files.",
     ["autark_core.c"], [("glob command", "autark_core.c:_on_command_glob")], ["current directory"], ["standard output", "exit status"],
     technique="TLA+ specification of patterns (AkGlob): TLC enumerates short patterns over a tree of files with expected results; autark glob is run with all of them, in groups and alone",
     note="One tree of files, all patterns up to a small number of pieces. ASCII names, C locale. A plain file name followed by a slash is left to the C library. Trusts TLC and the comparison of outputs.")
prop("C26", "The command line does what its options say, and nothing else",
     "For every command line of documented options in any order, short, grouped or long, with values attached or separate, before or after the sources directory: the given project is built in the given cache with exactly the given definitions (the last one of a name wins) and install directories; installation, cleaning, listing of options and version happen if and only if they were asked for. Wrong options, values and directories fail before any file is changed.",
     ["inputs"], "all sequences of options, values, directories and commands",
     "Options interact by order and grouping; one which swallows, ignores or duplicates its neighbour shows only in particular combinations, and may install into or clean a wrong place.",
     ["autark_core.c", "script.c", "node_option.c", "node_install.c", "node_run.c"], [("parsing of options", "autark_core.c:autark_run"), ("definitions", "autark_core.c:_build"), ("install directories", "script.c:script_open")],
     ["project and cache directories", "definitions", "install directories"], ["values of variables", "files of the tree", "standard output", "exit status"],
     technique="TLA+ specification of the command line (AkCli): TLC enumerates short command lines with their meaning, each is given to the real program and values, output and all files are compared",
     note="All lines of up to two tokens and a sample of those of three from 56 tokens. Abbreviated long options, several directories, options after a command and empty values are not decided. Trusts TLC and comparison of trees.")
