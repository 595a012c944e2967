STUBBED = ("Exploration by seeded simulation, not proof: holds on every explored seed. Trusts the "
           "file-level models of make, gcc, clang, opt, llvm-link, cscope and the simulator's model of "
           "processes and files; ")
ENGINE = ("Exploration by seeded simulation, not proof: holds on every explored seed. The SimpLL engine is "
          "the real one, built from /repo; ")

prop("C01", "Parallel wrapped builds lose, tear or invent no entry of the IR database",
     "When a project is built through DiffKemp's compiler wrapper by any number of parallel jobs, any of "
     "which may fail or be killed at any point, the database ends up with one intact entry for every IR file "
     "that a finished wrapper produced from a compilation or a link, and with no torn, merged, foreign or "
     "repeated entry and none for IR that was not produced. A job that fails or dies costs at most its own "
     "entries. The reader of the database then finds every function that is in the recorded IR, whatever the "
     "paths look like and however outputs were named.",
     ["schedules", "crash_points", "inputs", "fault_sequences"],
     "every job graph of up to about 11 compiler calls (compile with and without -o, joined -o, several "
     "sources, links, partial links, conftest, preprocessing, queries, hybrid calls; paths with blanks and "
     "colons), every interleaving of 1 to 4 parallel jobs at file-operation granularity, every kill point of a "
     "wrapper, and failing, killed or half-writing gcc/clang/llvm-link",
     "No test runs the wrapper at all under contention or with dying tools; the guarantee quantifies over "
     "interleavings and kill points.",
     ["diffkemp/building/cc_wrapper.py", "diffkemp/llvm_ir/wrapper_build_finder.py", "diffkemp/utils.py",
      "diffkemp/diffkemp.py"],
     [("append to the database after clang succeeded, if the file exists", "cc_wrapper.py: wrapper"),
      ("reading of o: entries", "wrapper_build_finder.py: initialize")],
     ["the database file", "function list and symbol lookup of the reader"],
     STUBBED + "one O_APPEND write() is assumed atomic.",
     [("diffkemp-wdb", "database of IR files", "file named by DIFFKEMP_WRAPPER_DB_FILENAME")])

prop("C02", "The compiler wrapper is transparent for the native build",
     "A project built through DiffKemp's compiler wrapper gets exactly the native build it would get without "
     "it: the native compiler is run exactly once per call, before anything else, with the original arguments, "
     "directory and environment; its success or failure is the wrapper's exit code; and every file it produced "
     "(objects, executables, dependency files) is left as it was. Failing, killed or missing IR tools never "
     "change that. What the user asked to drop from or append to the IR compilation is dropped and appended.",
     ["inputs", "fault_sequences", "schedules", "configurations"],
     "every generated compiler call shape, interleaving of parallel jobs, drop/append option set, and every "
     "combination of failing, killed, half-writing or missing gcc, clang and llvm-link",
     "No test executes the wrapper with failing tools; the claim is over all command lines and all tool faults.",
     ["diffkemp/building/cc_wrapper.py"],
     [("native compiler first, its failure returned", "cc_wrapper.py: wrapper, check_call"),
      ("IR outputs named apart from native ones", "cc_wrapper.py: wrapper phase 1")],
     ["argv/cwd/environment of the native compiler", "exit code of the wrapper", "native output files"],
     STUBBED + "a full or read-only file system for the database is out of scope.")

prop("C03", "A snapshot maps every requested symbol once, to IR that really defines it",
     "A generated snapshot contains every requested symbol exactly once and nothing else, mapped to a file in "
     "the snapshot that defines it (or to no file when no source could be built for it), for plain projects, "
     "single files, IR files, kernels and sysctl options alike; sysctl groups hold exactly the proc handler and "
     "the functions using the option's data. The stored IR is the built IR with its paths moved into the "
     "snapshot and the referenced sources copied along, and loading the snapshot gives back the same mapping. A "
     "tool that fails or is killed on one source only affects symbols of that source, and a failed native build "
     "never yields a snapshot.",
     ["inputs", "programs", "fault_sequences", "configurations"],
     "every generated project or kernel tree, symbol list (with comments, duplicates, unknown and non-function "
     "symbols, sysctl patterns), build mode, and every assignment of failing/killed tool runs to sources",
     "Kernel tests need kernel sources and cannot run here; none injects tool failures; the mapping is "
     "quantified over projects, lists and failures.",
     ["diffkemp/diffkemp.py", "diffkemp/snapshot.py", "diffkemp/llvm_ir/source_tree.py",
      "diffkemp/llvm_ir/kernel_source_tree.py", "diffkemp/llvm_ir/kernel_llvm_source_builder.py",
      "diffkemp/llvm_ir/llvm_module.py", "diffkemp/llvm_ir/wrapper_build_finder.py",
      "diffkemp/llvm_ir/single_c_builder.py", "diffkemp/llvm_ir/single_llvm_finder.py",
      "diffkemp/llvm_ir/llvm_sysctl_module.py"],
     [("symbol lookup and fallback to no file", "diffkemp.py: generate_from_function_list"),
      ("sysctl groups", "diffkemp.py: generate_from_sysctl_list"),
      ("relocation of IR and sources", "source_tree.py: copy_source_files")],
     ["snapshot.yaml", "files of the snapshot directory", "Snapshot.load_from_dir"],
     STUBBED + "SimpLL's answers about sysctl tables come from a stand-in (C19 runs the real one).")


prop("C04", "No crash, I/O error or interrupt leaves an incomplete but loadable snapshot",
     "Whatever happens while a snapshot is made (the process dies between or inside any two file operations, a "
     "file operation fails, the user presses Ctrl-C), the output directory afterwards holds either no loadable "
     "snapshot, the previous one untouched, or the complete new one. diffkemp only reports success when the "
     "snapshot is complete. Running the same command again afterwards succeeds and makes exactly the snapshot "
     "that an undisturbed run makes.",
     ["crash_points", "fault_sequences", "inputs"],
     "every generated project or kernel, build mode, an output directory that is new or holds an older snapshot, "
     "and a crash, torn write, failing call or interrupt at any step of the run, also inside the tools it starts",
     "Tests only run undisturbed builds; the claim quantifies over every point at which the build can stop.",
     ["diffkemp/snapshot.py", "diffkemp/diffkemp.py", "diffkemp/llvm_ir/source_tree.py",
      "diffkemp/llvm_ir/llvm_module.py", "diffkemp/llvm_ir/kernel_llvm_source_builder.py"],
     [("snapshot.yaml removed first and written last", "snapshot.py: create_from_source, generate_snapshot_dir"),
      ("IR files and the cscope database appear only when complete", "kernel_llvm_source_builder.py")],
     ["files of the output directory", "exit code of diffkemp", "snapshot made by a re-run"],
     STUBBED + "a crash keeps everything written before it (no power loss); headers left adjusted inside an "
     "otherwise complete kernel snapshot count as complete (C05 covers their restoration).",
     [("snapshot.yaml", "description that makes a directory a snapshot", "snapshot.py")])

prop("C05", "Making a snapshot leaves the sources as they were",
     "Building a snapshot never leaves a user's source file changed, renamed or lost: when diffkemp ends - with a "
     "snapshot, because a tool failed or was missing, because of an I/O error or by Ctrl-C - every file of the "
     "source tree has its original content (the adjusted kernel headers, config.log) and nothing outside the "
     "sources and the output directory was touched. If diffkemp is killed in between, the next completed build "
     "restores everything, and leaves no more files behind than an undisturbed build.",
     ["crash_points", "fault_sequences", "inputs"],
     "every generated project or kernel tree and shape of the headers that are adjusted, every failing or missing "
     "tool, and a crash, torn write, failing call or interrupt at any step of the build",
     "No test fails or interrupts a build; the claim is about every point at which a build can stop.",
     ["diffkemp/llvm_ir/kernel_llvm_source_builder.py", "diffkemp/diffkemp.py", "diffkemp/llvm_ir/source_tree.py",
      "diffkemp/llvm_ir/single_c_builder.py", "diffkemp/llvm_ir/wrapper_build_finder.py"],
     [("headers adjusted with a backup and restored by finalize", "kernel_llvm_source_builder.py: initialize, "
       "finalize"),
      ("config.log renamed around make clean", "diffkemp.py: build_c_project")],
     ["content of every file of the source tree", "files outside the sources and the snapshot"],
     STUBBED + "a second fault inside the restoration itself is only required to be repaired by the next run.",
     [("adjusted headers", "include/linux/compiler-gcc.h and compiler_types.h, changed so that clang accepts them",
       "kernel_llvm_source_builder.py")])

prop("C06", "Nothing an earlier build left behind shows in a later snapshot",
     "A snapshot depends on the current sources only. Whatever earlier builds of the same tree did - completed, "
     "failed, were interrupted or killed at any point, left LLVM IR, objects, databases or backups behind - and "
     "whatever was edited since, a completed build maps each symbol to IR compiled from the current source text, "
     "and gives the same snapshot as a build of the same sources in a fresh tree.",
     ["histories", "crash_points", "fault_sequences", "inputs"],
     "every history of one to three disturbed builds with edits in between, then a last build, for make projects, "
     "kernels and single files",
     "Tests build once from clean; the claim is over all histories.",
     ["diffkemp/llvm_ir/kernel_llvm_source_builder.py", "diffkemp/llvm_ir/source_tree.py",
      "diffkemp/llvm_ir/wrapper_build_finder.py", "diffkemp/building/cc_wrapper.py", "diffkemp/diffkemp.py"],
     [("IR of a kernel source is reused if it is newer than the source", "kernel_llvm_source_builder.py: "
       "build_file"),
      ("cscope database is reused if it exists", "kernel_llvm_source_builder.py: build_cscope_database")],
     ["snapshot of the last build", "snapshot of a fresh tree with the same sources"],
     STUBBED + "edits have newer times than everything built before; the cscope database is kept by design, so "
     "edits neither add nor remove files or functions.")

prop("C13", "Comparing w.r.t. a variable compares exactly the code that depends on it",
     "When functions are compared with respect to a global variable, a change in code that reads or writes the "
     "variable, that works with values computed from it, that runs or not depending on it, or that is the only "
     "source of a value which such code uses, makes the function differ, also if that code is in a function called "
     "by it. If the versions differ only in code that neither depends on the variable nor is used by such code, "
     "the function is equal. This holds in every mode, and whatever other functions, variables and groups are "
     "compared in the same run; a failed comparison is never equal. (Values that go through "
     "memory other than the variable, and code that can only be reached or left through loops and jumps which the "
     "variable controls, may be compared or not.)",
     ["programs", "inputs", "histories", "fault_sequences"],
     "every generated unit of two to six functions with branches, loops, switches, gotos, several returns, calls, "
     "integer, array and structure variables, with changes at random places, every list of functions and "
     "variables, every mode of the engine, order of results, and failing comparisons",
     "A few hand-written functions are sliced in the tests; the claim is about all shapes of control flow.",
     ["diffkemp/simpll/passes/VarDependencySlicer.cpp", "diffkemp/simpll/passes/VarDependencySlicer.h",
      "diffkemp/simpll/ModuleAnalysis.cpp", "diffkemp/semdiff/caching.py", "diffkemp/semdiff/function_diff.py",
      "diffkemp/simpll/simpll.py"],
     [("instructions that depend on the variable are found and kept", "VarDependencySlicer.cpp: "
       "findDependent, checkDependency"),
      ("the other code is removed", "VarDependencySlicer.cpp: run, changeToVoid"),
      ("results of sliced functions are not those of whole ones", "function_diff.py, caching.py")],
     ["standard output and exit code of diffkemp compare on lists with variables"],
     ENGINE + "which code depends on the variable is computed by the generator from the program it wrote (reaching "
     "definitions and control dependence); where the optimiser or the slicer may legitimately do either, nothing is "
     "claimed.")


prop("C19", "A sysctl option stands for its handler and every function using its data",
     "build-kernel --sysctl puts into the snapshot, for every option that matches the given pattern, a group with "
     "exactly its proc handler (unless it is one of the common ones of the kernel) and all functions of the kernel "
     "which use its data variable, each with the IR that defines it. If the data is an element of an array or a "
     "structure, these are all functions that may use this element, and none that only use other elements at known "
     "places. Options that do not exist, broken tables, and files that cannot be compiled cost at most their own "
     "entries and never the snapshot. (Functions that only get a pointer to the data from elsewhere do not count "
     "as using it.)",
     ["inputs", "configurations", "fault_sequences"],
     "every generated kernel of four to eight files with sysctl tables of several directories, nested tables, "
     "shared, external, array, structure and missing data, common, static and missing handlers; every list of "
     "options, alternatives and wildcards; failing and killed tools, files that do not compile",
     "The tests read one kernel's tables; shapes of tables, data and uses are unbounded.",
     ["diffkemp/simpll/library/SysctlTable.cpp", "diffkemp/simpll/library/DiffKempUtils.cpp",
      "diffkemp/llvm_ir/llvm_sysctl_module.py",
      "diffkemp/llvm_ir/kernel_source_tree.py", "diffkemp/llvm_ir/llvm_module.py", "diffkemp/diffkemp.py"],
     [("options of a table", "SysctlTable.cpp: parseSysctls"),
      ("handler and data of an option", "SysctlTable.cpp: getProcFun, getChild, getData"),
      ("functions that use the data", "diffkemp.py: generate_from_sysctl_list; kernel_source_tree.py: "
       "get_modules_using_symbol; llvm_module.py: get_functions_using_param")],
     ["snapshot.yaml and IR of the snapshot"],
     ENGINE + "make and cscope are stand-ins whose answers come from the generator.")


prop("C18", "Reported call stacks, code and definitions are what the sources say",
     "Whatever two snapshots, functions, groups, options and mode of the engine, and whichever comparisons fail, what "
     "a report says about a difference is what the sources of the two versions say: each call stack starts in the "
     "compared function and every step names a file and line that calls the next function (or uses the macro) in the "
     "function reached so far, in both versions down to the same object; the diff applied to the lines of the old "
     "version gives the lines of the new one, with the right line numbers; a macro is shown with its two values; "
     "diffkemp-out.yaml lists the same, with the first and last line of every definition. No comparison, whatever "
     "its result, ends the whole run, and every comparison ends.",
     ["programs", "inputs", "configurations", "fault_sequences"],
     "every generated pair of C programs (functions moved between lines and files, static and header functions, "
     "split functions, nested macros, odd lines), list of functions and groups, mode of the engine, order of its "
     "results, patterns, order of the snapshots and failing comparisons",
     "Call stacks are put together from results of several comparisons, debug information and preprocessor "
     "records; the tests check a few fixed kernel functions and hand-written results.",
     ["diffkemp/semdiff/result.py", "diffkemp/semdiff/caching.py", "diffkemp/syndiff/function_syntax_diff.py",
      "diffkemp/output.py", "diffkemp/utils.py", "diffkemp/simpll/SourceCodeUtils.cpp",
      "diffkemp/simpll/DebugInfo.cpp", "diffkemp/simpll/ModuleComparator.cpp",
      "diffkemp/simpll/DifferentialFunctionComparator.cpp", "diffkemp/simpll/passes/VarDependencySlicer.cpp"],
     [("call stacks are read from the graph of results", "caching.py: ComparisonGraph.reachable_from, "
       "_get_callstack"),
      ("the diff of a function is made from its source", "function_syntax_diff.py: syntax_diff"),
      ("macro and type differences", "SourceCodeUtils.cpp: findMacroDifferences")],
     ["standard output, .diff files and diffkemp-out.yaml of diffkemp compare"],
     ENGINE + "the expected statements are computed from the text of the generated sources; macros used in "
     "a function that was inlined count as used in the function itself; of types, only the place is claimed.")

prop("C07", "The verdict of a function does not depend on what else is compared",
     "However many functions are compared, in whatever order, groups and mode (engine as a library, as a program, "
     "on cached modules), whatever was compared before and whichever other comparisons failed, each function gets "
     "exactly the verdict, and differences in exactly the functions, that it gets when it is compared alone. Results "
     "for functions that share a name in different files, or come from a header included in different contexts, "
     "are never confused. A function that only moved, was reformatted or commented and whose callees are equal is "
     "equal; one that changed, or reaches a changed function, is different. A snapshot compared with itself has no "
     "difference.",
     ["programs", "inputs", "histories", "configurations", "fault_sequences"],
     "every generated pair of C programs (several files and headers, same-named static functions, functions whose "
     "meaning depends on the including file, moved, renamed, split and changed functions), list and order of "
     "functions, groups, mode of the engine, order in which the engine lists its results, and failing comparisons",
     "The result depends on the whole history of earlier comparisons through the cache of results; tests compare "
     "a handful of fixed kernel functions, and the ones that use the engine cannot run without kernel sources.",
     ["diffkemp/semdiff/caching.py", "diffkemp/semdiff/function_diff.py", "diffkemp/simpll/simpll.py",
      "diffkemp/diffkemp.py", "diffkemp/simpll/ModuleComparator.cpp", "diffkemp/simpll/SimpLL.cpp",
      "diffkemp/simpll/library/FFI.cpp", "diffkemp/simpll/ResultsCache.cpp"],
     [("results of earlier comparisons are reused by name and place", "caching.py: ComparisonGraph; "
       "function_diff.py: functions_diff"),
      ("modules are simplified and compared", "SimpLL.cpp: processAndCompare; ModuleComparator.cpp: "
       "compareFunctions")],
     ["standard output of diffkemp compare: verdict, differing functions and call stacks of every function",
      "verdicts of the engine run alone"],
     ENGINE + "the expected verdicts are those of the same engine run for one function alone, "
     "and the generator's knowledge of what it changed; that the engine is right about every C program is "
     "not claimed.")

prop("C08", "A failed comparison of a function costs only it and never reads as equal",
     "When the engine fails on a function (dies, is killed, exits with an error, cannot be started, answers with "
     "nothing, something unparsable or incomplete), or a module that the snapshot refers to is missing or "
     "damaged, that function is reported as failed - printed, counted, listed - and never as equal or different. "
     "All other functions get the verdict, differences, call stacks and statistics they get without the failure. "
     "A source file that is missing, empty or not decodable only costs the syntax differences shown for it. This "
     "holds for the engine loaded as a library, run as a program, and run on cached modules.",
     ["fault_sequences", "inputs", "configurations"],
     "every generated pair of snapshots, every assignment of engine failures to functions and of damage to modules "
     "and sources, each way to run the engine, plain and sysctl snapshots, with and without --full-diff",
     "Tests make the engine succeed; the claim is over all failures at all places and what they do to the results "
     "of every other function.",
     ["diffkemp/simpll/simpll.py", "diffkemp/semdiff/function_diff.py", "diffkemp/diffkemp.py",
      "diffkemp/semdiff/caching.py", "diffkemp/syndiff/function_syntax_diff.py", "diffkemp/output.py",
      "diffkemp/utils.py"],
     [("engine failures become SimpLLException, reported as error", "simpll.py: run_simpll; function_diff.py: "
       "functions_diff"),
      ("results of earlier functions are merged only when complete", "caching.py: ComparisonGraph")],
     ["standard output, .diff files, statistics and diffkemp-out.yaml", "exit code"],
     STUBBED + "the engine's answers come from a model; a segmentation fault of the engine inside the Python "
     "process is outside (it is injected where the engine has its own process).")

prop("C09", "Report, .diff files, statistics and YAML output agree with the verdicts",
     "Every function in both snapshots appears in the results of a comparison exactly once per group with its "
     "verdict: differences are printed (or written to its .diff file, in its group's directory) with exactly the "
     "differing functions, types and macros reachable from it, each with call stacks that are real chains of "
     "calls in either version and with a syntax diff that turns the old source text into the new one; failed and "
     "unknown functions are named; nothing is said of other functions. The statistics count the same, "
     "diffkemp-out.yaml lists the same results, call stacks and true definition locations, a regex filter keeps "
     "exactly the functions with a matching diff, and the options about what to show change nothing else. A "
     "comparison hit by an I/O error or an interrupt never ends with success and an incomplete report.",
     ["inputs", "configurations", "fault_sequences", "crash_points"],
     "every generated pair of snapshots and order in which results are found and merged, all combinations of the "
     "reporting options, groups, relative and absolute paths; an error or interrupt at every operation",
     "Tests look at single result objects; the claim relates four outputs over all call graphs, and all sequences "
     "of comparisons that share one result graph.",
     ["diffkemp/diffkemp.py", "diffkemp/output.py", "diffkemp/semdiff/result.py", "diffkemp/semdiff/caching.py",
      "diffkemp/semdiff/function_diff.py", "diffkemp/syndiff/function_syntax_diff.py", "diffkemp/utils.py"],
     [("one ComparisonGraph absorbs the answers of all functions", "caching.py: absorb_graph, reachable_from, "
       "graph_to_fun_pair_list"),
      ("reports are made while comparing", "diffkemp.py: compare_snapshots, print_syntax_diff"),
      ("statistics and YAML are made from all results", "result.py: report_stat; output.py: YamlOutput")],
     ["standard output", ".diff files", "statistics", "diffkemp-out.yaml", "exit code"],
     STUBBED + "the engine's answers come from a model that compares the generated programs.")

prop("C12", "Definitions of other modules are linked where needed, only for that function",
     "When comparing a function needs definitions that its module does not have, they are taken from the same "
     "snapshot, or from its original sources as far as these have not changed since the snapshot was made, never "
     "from newer files and never from the other version; the verdict and differences of the function are those "
     "of the whole program. What was linked for one function affects no other function, also when the comparison "
     "fails in between. If a definition cannot be had (sources gone, rebuilt or moved, linking fails or is "
     "killed, a symbol clashes, no linker), the function is compared without it: no difference that the whole "
     "program has is lost, the comparison does not fail, and other functions are not affected.",
     ["inputs", "fault_sequences", "histories", "configurations"],
     "every generated project (make or kernel) built in two versions by the real build commands, with calls "
     "inlined, outlined and moved across modules; damage to the sources between build and comparison, faults "
     "of llvm-link and opt, and engine failures at each call",
     "Tests link one known module; the claim is over all programs whose definitions are spread over modules, "
     "orders of comparison, and failures of linking.",
     ["diffkemp/semdiff/function_diff.py", "diffkemp/llvm_ir/llvm_module.py",
      "diffkemp/llvm_ir/wrapper_build_finder.py", "diffkemp/llvm_ir/kernel_llvm_source_builder.py",
      "diffkemp/llvm_ir/source_tree.py", "diffkemp/snapshot.py"],
     [("missing definitions are linked and the comparison repeated", "function_diff.py: functions_diff, "
       "_link_symbol_def"),
      ("files newer than the snapshot are not used", "source_tree.py: get_module_for_symbol"),
      ("modules are restored after each function", "llvm_module.py: link_modules, restore_unlinked_llvm")],
     ["standard output", "exit code", "programs run and their inputs"],
     STUBBED + "the linker is a model that links toy IR and fails on clashes; the engine's model inlines "
     "differing calls and asks for missing definitions as the real one does.")

prop("C16", "Comparing changes neither the snapshots nor the sources they were made from",
     "A comparison leaves every file of both snapshots and of the original sources as it was and adds nothing but "
     "caches (cscope databases, IR of kernel sources compiled on demand) - whether it succeeds, finds "
     "differences, links definitions, fails on an I/O error or is interrupted. When it is killed at any point, "
     "the files of the snapshot and the sources still have their contents (kernel compiler headers may be left "
     "adjusted until the next comparison or build, which restores them), and later comparisons of the same "
     "snapshots give the same output as before.",
     ["crash_points", "fault_sequences", "histories", "inputs"],
     "every generated project, every sequence of one to three comparisons that are killed, interrupted or hit by "
     "an I/O error or tool failure at any operation, followed by one that completes",
     "Tests never look at the snapshot after a comparison, and never stop one half way.",
     ["diffkemp/diffkemp.py", "diffkemp/snapshot.py", "diffkemp/llvm_ir/llvm_module.py",
      "diffkemp/llvm_ir/kernel_llvm_source_builder.py", "diffkemp/llvm_ir/wrapper_build_finder.py",
      "diffkemp/semdiff/function_diff.py", "diffkemp/simpll/simpll.py"],
     [("definitions are linked into new files", "llvm_module.py: link_modules"),
      ("kernel headers are restored", "kernel_llvm_source_builder.py: finalize; diffkemp.py: compare")],
     ["files of the snapshots and source trees", "standard output of the later comparison"],
     STUBBED + "options that ask for extra files in the snapshot (--output-llvm-ir, a solver) are not used.")

prop("C17", "An interrupt stops diffkemp promptly and never reads as success",
     "When the user interrupts building a snapshot or comparing at any point - between operations, while a tool "
     "runs, inside the wrapper that make runs, or inside a process forked for a comparison - diffkemp starts no "
     "further tool and compares no further function (it only restores what it changed), ends with a non-zero "
     "exit status, and no forked process goes on as a second copy of it.",
     ["crash_points", "schedules", "inputs", "configurations"],
     "every generated build (make, kernel, single file, IR) and comparison (library, program, forked on cached "
     "modules; plain, sysctl; linking), one interrupt at any operation",
     "No test interrupts anything.",
     ["diffkemp/diffkemp.py", "diffkemp/llvm_ir/llvm_module.py", "diffkemp/llvm_ir/kernel_llvm_source_builder.py",
      "diffkemp/simpll/simpll.py", "diffkemp/semdiff/function_diff.py", "diffkemp/building/cc_wrapper.py",
      "diffkemp/snapshot.py"],
     [("errors of tools are caught, interrupts are not", "llvm_module.py: link_modules; "
       "kernel_llvm_source_builder.py: _build_source_to_llvm"),
      ("the forked process only runs the engine", "simpll.py: run_simpll")],
     ["exit status", "programs started and functions compared after the interrupt", "what forked processes do"],
     STUBBED + "the interrupt arrives as KeyboardInterrupt at an operation of diffkemp or of a tool it waits for.")

prop("C10", "The same inputs give the same results, byte for byte",
     "Building a snapshot or comparing two of them again - same inputs, same options, same place - gives the same "
     "standard output, exit code, snapshot contents and result files, byte for byte (but for the time of creation "
     "and the elapsed time). Nothing depends on hash seeds, addresses of objects, the order in which directories "
     "are listed, process numbers, names of temporary files, the clock or speed of the machine. In particular, a "
     "function that is in several modules is always taken from the same one, and a difference that can be reached "
     "in several ways is always reported with the same call stack.",
     ["inputs", "configurations", "schedules"],
     "every generated project, kernel, sysctl list, pair of snapshots and option set, each repeated with other "
     "hash seeds, addresses, directory orders, clocks, process numbers and temporary names",
     "A test runs each command once, with one hash seed; the claim is about all pairs of executions.",
     ["diffkemp/diffkemp.py", "diffkemp/semdiff/caching.py", "diffkemp/semdiff/result.py", "diffkemp/output.py",
      "diffkemp/llvm_ir/source_tree.py", "diffkemp/llvm_ir/llvm_module.py", "diffkemp/snapshot.py",
      "diffkemp/llvm_ir/kernel_llvm_source_builder.py", "diffkemp/building/cc_wrapper.py"],
     [("sets are only iterated where the order does not matter", "caching.py: graph_to_fun_pair_list; "
       "source_tree.py: get_modules_using_symbol; diffkemp.py: generate_from_sysctl_list"),
      ("results are sorted before they are shown", "diffkemp.py: print_syntax_diff; result.py: report_stat")],
     ["standard output", "exit code", "files of snapshots", "result files"],
     STUBBED + "tools and the engine are deterministic models.")

prop("C15", "Comparisons that run at the same time do not disturb each other",
     "Any number of comparisons started in the same directory, of the same or other snapshots, at the same time "
     "or one after another: each that ends with success has printed and stored exactly what it prints and stores "
     "when it runs alone. Each stores into a directory of its own which did not exist before; of several that were "
     "told to use the same directory, exactly one does and the others fail. Files and directories that existed "
     "before are never changed, and one comparison that is killed, interrupted or fails costs the others nothing.",
     ["schedules", "crash_points", "fault_sequences", "histories", "configurations"],
     "every interleaving (at the granularity of system calls) of two to four comparisons of generated snapshots "
     "with arbitrary output options, pre-existing files, and one kill, interrupt or I/O error",
     "Tests never run two comparisons; the claim is over all their interleavings.",
     ["diffkemp/diffkemp.py", "diffkemp/output.py", "diffkemp/semdiff/function_diff.py",
      "diffkemp/semdiff/caching.py", "diffkemp/llvm_ir/llvm_module.py", "diffkemp/simpll/simpll.py",
      "diffkemp/syndiff/function_syntax_diff.py"],
     [("the output directory is made when first needed, and is always new", "diffkemp.py: create_output_dir, "
       "default_output_dir"),
      ("temporary files have unique names", "llvm_module.py: link_modules; function_diff.py; simpll.py")],
     ["standard output", "exit code", "output directories", "all other files of the working directory"],
     STUBBED + "comparisons of kernel snapshots, which adjust the headers of the kernel, are not run at the same "
     "time.")

prop("C14", "The viewer shows exactly the stored results and leaves nothing behind",
     "While diffkemp view serves the results of a comparison, its pages get exactly what was stored: the results and "
     "definitions unchanged, for every definition whose code can be shown the old source file as it is in the old "
     "snapshot (also if it lies outside of it, like a system header), the mark whether the two versions of the code "
     "differ, and a diff with the line numbers of the files that turns the old code into the new one; and nothing of "
     "any other comparison. Missing, changed or unreadable sources only cost the code of the definitions in them. "
     "However viewing ends - by the user, an error, an interrupt while it prepares - its copies are removed; after "
     "a kill, the next viewer shows only its own results. Viewers started at the same time do not disturb each "
     "other, and nothing outside of the viewer's data directory is ever changed.",
     ["inputs", "schedules", "crash_points", "fault_sequences", "configurations"],
     "every result of a generated comparison, sources changed, removed or moved outside afterwards, leftovers of "
     "killed viewers, three kinds of installation, one fault at any operation or several viewers at once",
     "No test of the repository runs this command.",
     ["diffkemp/diffkemp.py", "diffkemp/output.py", "diffkemp/syndiff/function_syntax_diff.py"],
     [("data are prepared and removed", "diffkemp.py: view, prepare_view_data, clean_view_data"),
      ("diffs with line numbers of the files", "function_syntax_diff.py: unified_syntax_diff")],
     ["answers of the HTTP server to what the pages ask for", "exit code", "the installation directory",
      "snapshots and results"],
     STUBBED + "the pages' requests are modelled (view/src/components/Code.jsx, Difference.jsx); listening on a "
     "port is simulated; two development servers at the same time are out of scope.")

prop("C11", "Options reach the engine with their meaning, the same in every mode",
     "Whatever options a comparison is given, every pair of functions is given to the engine exactly as they say: "
     "the built-in patterns that result from the defaults, --enable/--disable-pattern and the all-patterns options "
     "(disabling wins, control-flow-only implies type-casts), the custom patterns, verbosity, simplified output, "
     "assembly differences, extended statistics and the variable the function is compared for. The three ways of "
     "running the engine (in-process, as a program, on cached modules) get the same and give the same output, "
     "results and simplified modules. Custom patterns that cannot be used end the comparison before anything is "
     "compared, or are only reported if the configuration says so; a simplified module that cannot be processed "
     "only costs its functions.",
     ["inputs", "configurations", "fault_sequences"],
     "every generated pair of snapshots with sysctl groups and variables, any combination and order of options, "
     "pattern files and configurations (broken and missing ones too), each compared in all three modes, with "
     "failing engine answers and failing, killed or missing opt",
     "Tests set few options, and only through the configuration object; none compares the modes.",
     ["diffkemp/cli.py", "diffkemp/config.py", "diffkemp/simpll/simpll.py", "diffkemp/simpll/library.py",
      "diffkemp/semdiff/custom_pattern_config.py", "diffkemp/semdiff/function_diff.py", "diffkemp/diffkemp.py"],
     [("options become the configuration", "config.py: from_args, BuiltinPatterns"),
      ("the configuration is given to the engine", "simpll.py: run_simpll")],
     ["arguments of the SimpLL program", "the configuration structure of the SimpLL library", "standard output",
      "result files", "simplified modules"],
     STUBBED + "the engine is a model.")


# -- properties that this technique cannot decide
prop("C20", "Functions reported as equal behave equally on every input",
     "If DiffKemp, with its default patterns, reports two versions of a function as equal, then no call of the "
     "function (with any arguments, memory and environment) can tell the versions apart, for every C program.",
     ["inputs", "programs"],
     "all pairs of C functions and all their inputs",
     "It ranges over all programs and all their inputs.",
     ["diffkemp/simpll/DifferentialFunctionComparator.cpp", "diffkemp/simpll/FunctionComparator.cpp",
      "diffkemp/simpll/passes"],
     [("comparison of instructions", "DifferentialFunctionComparator.cpp: cmpBasicBlocks")],
     ["verdict of SimpLL"], "not claimed")
NA["C20"] = ("A property of a pure function (two modules in, a verdict out): no schedule, clock, fault or other party "
             "has any influence on it, so simulation has nothing to decide. Some patterns give it up by design "
             "(numerical macros, reordered calls, unused return values). What C07 checks on generated programs with "
             "known differences is the part in which history, modes and failures do play a role.")
prop("C21", "A custom pattern makes exactly the matching differences equal",
     "A difference is ignored because of a custom pattern if and only if the two versions match the two sides of the "
     "pattern, for every pattern and every pair of functions.",
     ["inputs", "programs"], "all patterns and all pairs of functions",
     "It ranges over all patterns and programs.",
     ["diffkemp/simpll/CustomPatternComparator.cpp", "diffkemp/simpll/InstPatternComparator.cpp",
      "diffkemp/simpll/ValuePatternComparator.cpp"],
     [("matching of patterns", "CustomPatternComparator.cpp: matchPattern")],
     ["verdict of SimpLL"], "not claimed")
NA["C21"] = ("Matching of patterns is a pure function of its inputs, without time, I/O, concurrency or other parties; "
             "that configurations reach the engine, and what happens if they are missing or broken, is decided by "
             "C11.")
prop("C22", "The pages of the viewer present what the server sends them",
     "For every result, every page of the viewer (list of functions, call graph, code and diff) shows the objects, "
     "paths and lines that the server has sent, and every link leads to the page it names.",
     ["inputs", "histories"], "all results and all orders of clicks",
     "It ranges over all results and histories of navigation.",
     ["view/src"],
     [("rendering of results", "view/src/components")],
     ["the document in the browser"], "not claimed")
NA["C22"] = ("The pages are JavaScript for a browser; neither react nor a browser is installed here (view/node_modules "
             "is missing and cannot be fetched), so they cannot run under a simulator. What the server sends is C14.")
prop("C23", "The semantic difference tools (llreve) agree with SimpLL's verdicts",
     "A difference found by an external semantic tool run on the simplified modules is reported, and its timeout or "
     "failure is never taken for equality.",
     ["inputs", "fault_sequences"], "all functions, and all failures of the tool",
     "The tests do not run such a tool.",
     ["diffkemp/semdiff/function_diff.py"],
     [("running of the tool", "function_diff.py: _run_llreve_z3, functions_semdiff")],
     ["verdict of the comparison"], "not claimed")
NA["C23"] = ("The path cannot be run: llreve is not part of this build, diffkemp calls it only for objects that are "
             "not functions, and functions_semdiff then ends with an AttributeError on any input, because it gets "
             "names of files where it expects modules. There is no working behaviour to hold or break.")
