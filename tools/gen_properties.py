#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
T = "buildcc/lib/target/src/target/"
F = T + "friend/"
G = "buildcc/lib/target/src/custom_generator/custom_generator.cpp"
S = "buildcc/schema/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A successful build leaves target outputs equal to a from-scratch build",
 "Whenever a build run reports success, every object file, archive, shared library and executable of every registered target is what a from-scratch build of the project as it stood when the run started would have produced (same target types, sources, headers, precompiled headers, flags, directories, libraries and declared dependencies). This holds after any sequence of earlier edits, additions, removals, reverts, failed runs and interrupted runs. A change to any declared input of a target is never missed.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "every project, every history of input/flag/library edits and of successful, failed and killed runs, every task schedule and worker count",
 "The tests replay short fixed rebuild scripts (one change at a time) against mocked command execution and a mocked scheduler, so outputs never exist and combinations of changes with failures are never tried.",
 [T+"build.cpp", T+"tasks.cpp", F+"compile_object.cpp", F+"compile_pch.cpp", F+"link_target.cpp", S+"target_serialization.cpp", "buildcc/schema/include/schema/path.h"],
 [("dirty decision per stage against the stored schema", F+"compile_object.cpp BuildObjectCompile / RecompileSources; compile_pch.cpp BuildCompile; link_target.cpp BuildLink"),
  ("only completed work is written back", T+"tasks.cpp EndTask; "+S+"target_serialization.cpp UpdateStore")],
 ["files in the build directory after a run that exits 0"],
 [("stored target schema", "what the last run completed", "<build>/<toolchain>/<target>/<target>.bin")])

prop("C02", "Generated files match their current inputs after every successful build",
 "Whenever a build run reports success, every output declared by a custom, file or template generator is what running that generator on the current contents of its declared inputs, with its current commands, patterns and user data, would produce. This holds after any sequence of edits, added or removed generator steps, failed runs and interrupted runs.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "every set of generator steps, every history of input, command, pattern, user-data, step-set edits, failures and kills, every schedule of the steps",
 "Generator tests run one or two builds with callbacks that mostly produce nothing and a single fixed change; no test varies step sets, failures and user data together or checks output contents.",
 [G, "buildcc/lib/target/src/generator/file_generator.cpp", "buildcc/lib/target/src/generator/template_generator.cpp", S+"custom_generator_serialization.cpp", "buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h"],
 [("per-step comparison of inputs, outputs and user data with the stored schema", G+" Comparator / TaskFunctor"),
  ("only successful steps are stored", G+" GenerateTask")],
 ["generator outputs after a run that exits 0"],
 [("stored generator schema", "inputs/outputs/user data of completed steps", "<build>/<name>/<name>.json")])

prop("C03", "Declared dependencies order all work; each builder runs exactly once",
 "In every run, no step of a target or generator starts before every step of everything it was declared to depend on, directly or transitively, has finished, and within a target compilation starts only after its precompiled header is complete and linking only after all its compilations. Every registered builder is processed exactly once per run and no command is issued twice. A dependency declaration that cannot be satisfied (a cycle of any length, including on itself, a repeated or unregistered dependency) is rejected with a failing exit before anything runs.",
 ["schedules", "programs", "configurations"],
 "every dependency graph and declaration order, every schedule and worker count",
 "The real executor loop is replaced by a mock in the tests, so no test ever runs two builders concurrently or observes ordering.",
 ["buildcc/lib/args/src/register.cpp", "buildcc/lib/args/src/tasks.cpp", T+"tasks.cpp", G],
 [("task graph edges", "register.cpp Dep; tasks.cpp BuildTask; target tasks.cpp TaskDeps"),
  ("cycle/duplicate detection", "register.cpp DepDetectCyclicDependency, DepDetectDuplicate")],
 ["start/end of every command and generator callback"])

prop("C04", "A run with any failed step never reports success",
 "If any compile, archive, link or generator step of a run fails, in whatever way (non-zero or signalled command, command that cannot be started, callback returning failure or throwing, missing input), the run exits non-zero, its post-build step is not executed and no test is started. Conversely, a run in which nothing failed exits zero.",
 ["schedules", "fault_sequences", "histories"],
 "every failing step or combination of failing steps, every failure mode, every interleaving of the failing step with all others",
 "Tests check a failure flag after a single mocked failing command in a single-target graph; process exit status, post-build step and tests phase are never exercised because the run loop is mocked.",
 [T+"tasks.cpp", G, "buildcc/lib/env/src/task_state.cpp", "buildcc/lib/args/src/tasks.cpp", "buildcc/lib/args/src/register.cpp", "buildcc/lib/env/src/execute.cpp", "buildcc/lib/env/src/assert_fatal.cpp"],
 [("global sticky failure state checked after the graph drains", "env/src/task_state.cpp; args/src/tasks.cpp RunBuild")],
 ["process exit status, post-build callback, test commands"])

prop("C05", "Failed work stops its dependents and is redone by the next run",
 "When a step fails, no step that depends on it (its target's link, and every target or generator declared to depend on that builder) is started in that run. Failed and skipped steps are never remembered as done: once the cause is gone, the next run executes every failed or skipped step and, reporting success, leaves outputs equal to a from-scratch build. Work that completed for unchanged inputs in the failed run is still correct.",
 ["schedules", "fault_sequences", "histories"],
 "every set of failing steps over consecutive runs, every interleaving, every edit between the runs",
 "Tests never run a second build after a partial failure in a concurrent graph, nor check which siblings and dependents ran.",
 [T+"tasks.cpp", S+"target_serialization.cpp", F+"link_target.cpp", G],
 [("stored schema holds only completed sources / pch / link flag", S+"target_serialization.cpp"), ("tasks skip once a failure is recorded", T+"tasks.cpp")],
 ["commands started in the failing run; commands and outputs of the next run"])

prop("C06", "Up-to-date work is not redone",
 "A run on a project that has not changed since the last successful run executes no command and no generator callback and rewrites no output. When one thing changed, only steps whose declared inputs are affected by it run: an edited source recompiles only that source and relinks its target and the targets that link it; a changed generator step reruns only that step and what consumes its outputs. Steps that a failed run completed before another step failed are not repeated by the next run.",
 ["histories", "schedules", "configurations"],
 "every project and every history ending in a successful run followed by nothing or a single change, every schedule",
 "Tests check a handful of single-target rebuild decisions with mocked recheck counters; they cannot see spurious work that depends on ordering, earlier failures or combinations of features.",
 [F+"compile_object.cpp", F+"link_target.cpp", F+"compile_pch.cpp", G, "buildcc/schema/include/schema/path.h"],
 [("comparison with the stored schema", F+"compile_object.cpp RecompileSources; "+G+" Comparator::IsChanged")],
 ["commands and callbacks executed by a run"])

prop("C07", "A build killed at any instant never poisons later builds",
 "If a run is killed at any point, leaving any mixture of finished, half-written and untouched outputs and stored state, the next undisturbed run starts normally, reports success, and leaves outputs equal to a from-scratch build. This also holds when, between the kill and the next run, the user restores inputs, flags or settings to what they were before the killed run.",
 ["crash_points", "histories", "schedules"],
 "every kill instant of every run, every outcome of in-flight commands, every edit or revert before the next run, repeated kills",
 "No test kills a build; stored state and outputs are always consistent in the tests.",
 [T+"tasks.cpp", F+"compile_pch.cpp", F+"link_target.cpp", G, "buildcc/schema/include/schema/interface/serialization_interface.h", "buildcc/lib/env/include/env/util.h"],
 [("stored state is only written after the work it describes and is unusable while work is in progress", T+"tasks.cpp; schema/interface/serialization_interface.h"),
  ("unparsable stored state means rebuild", S+"target_serialization.cpp Load")],
 ["exit status and outputs of the run after a kill"])

prop("C08", "Edits made while a build is running are picked up by the next build",
 "If an input file of a target or generator is edited at any moment while a run is in progress, and that run or any later one does not incorporate the edit, the next run after the edit does: when it reports success, outputs correspond to the edited contents.",
 ["schedules", "histories"],
 "every edit instant relative to every step of the run, every edited input (source, header, precompiled header, generator input, compile or link dependency), every schedule",
 "Tests never modify files while a build is in flight.",
 [F+"compile_object.cpp", F+"compile_pch.cpp", F+"link_target.cpp", G, "buildcc/schema/include/schema/path.h"],
 [("input fingerprints are taken before the work that reads them", F+"compile_object.cpp PreObjectCompile; compile_pch.cpp PreCompile; link_target.cpp PreLink; "+G+" TaskFunctor")],
 ["outputs after the first undisturbed run following the edit"])

prop("C09", "Storage errors are reported, never swallowed, and clear up once storage recovers",
 "If the disk is full or an I/O error prevents a run from writing its stored state, a generated file, the compile-command database or a helper file it creates, or from reading an input it needs, the run exits non-zero instead of reporting success with missing or truncated files. Once storage works again, the next run succeeds and leaves outputs equal to a from-scratch build.",
 ["fault_sequences", "histories", "schedules"],
 "every file operation of every run failing with no-space, I/O error, short or permission failures, singly or persistently, on open, write, flush, close, read, stat, directory creation",
 "Tests never inject I/O errors; writes in tests always succeed.",
 ["buildcc/lib/env/include/env/util.h", T+"tasks.cpp", G, F+"compile_pch.cpp", "buildcc/lib/target/src/generator/template_generator.cpp", S+"target_serialization.cpp", S+"custom_generator_serialization.cpp"],
 [("save/load return values are asserted", T+"tasks.cpp EndTask; "+G+" GenerateTask"), ("stream state checked after the write reaches the file", "env/util.h save_file")],
 ["exit status, file contents after a run with injected storage errors and after the following one"])

prop("C10", "What a build does is independent of scheduling and worker count",
 "For a given project, prior state and command outcomes, every task schedule and every number of workers gives the same result when nothing fails: the same exit status, the same set of executed commands and generator callbacks, and the same contents of all outputs.",
 ["schedules", "configurations"],
 "every interleaving and worker count, over histories of edits",
 "Tests run one schedule of a mocked, essentially sequential executor.",
 ["buildcc/lib/args/src/tasks.cpp", T+"tasks.cpp", G, S+"target_serialization.cpp", "buildcc/lib/env/src/task_state.cpp"],
 [("per-builder state touched only by its own ordered tasks; shared lists locked", S+"target_serialization.cpp AddSource")],
 ["command multiset, exit status, outputs compared across schedules"])

prop("C11", "Concurrent build, generator and test tasks never race on shared memory",
 "During build and test phases no two threads access the same memory location, at least one of them writing, without synchronisation ordering the accesses. This holds for every project, including failing and incremental runs.",
 ["schedules", "histories", "fault_sequences"],
 "every pair of concurrent accesses reachable in any schedule of any build or test run",
 "Tests replace the parallel run loop by mocks and use no race detector; races depend on interleavings.",
 ["buildcc/lib/env/src/task_state.cpp", S+"target_serialization.cpp", T+"tasks.cpp", G, "buildcc/lib/args/src/register.cpp", "buildcc/lib/env/src/execute.cpp"],
 [("synchronised global task state; lock around the stored source list", "env/src/task_state.cpp; "+S+"target_serialization.cpp AddSource")],
 ["happens-before analysis of all instrumented accesses"])

prop("C12", "Every run terminates",
 "Whatever fails and however tasks are scheduled, once the commands it started have ended a build or test run finishes on its own within a bounded number of steps: it never deadlocks, hangs waiting for a task that cannot complete, or loops.",
 ["schedules", "fault_sequences", "histories"],
 "every schedule, every combination of command, callback, test and storage failures, every worker count",
 "The executor and failing tasks inside it are mocked away; a hang needs a failure on a worker thread in the real run loop.",
 ["buildcc/lib/args/src/tasks.cpp", "buildcc/lib/args/src/register.cpp", T+"tasks.cpp", G, "buildcc/lib/env/src/assert_fatal.cpp"],
 [("every task body catches and records failures", T+"tasks.cpp; "+G+"; args/src/tasks.cpp RunTest")],
 ["process exit within the step budget; deadlock detection in the simulated scheduler"])

prop("C13", "Tests run once each, only after a good build, and their failure fails the run",
 "Registered tests are started only after every build step has succeeded and the post-build step has completed, each exactly once per run, with its own command, arguments and working directory. If any test fails the run exits non-zero; if all pass it exits zero. Output that a passing test prints on a captured stream is delivered completely, in order and unmixed with any other test's output.",
 ["schedules", "fault_sequences", "configurations"],
 "every set of tests and test configurations, every set of failing tests, every output chunking and schedule",
 "The test phase is mocked in the unit tests; no test has ever run concurrently there.",
 ["buildcc/lib/args/src/register.cpp", "buildcc/lib/args/src/tasks.cpp", "buildcc/lib/args/include/args/register.h", "buildcc/lib/env/src/execute.cpp"],
 [("RunBuild before RunTest; per-test capture buffers", "args/src/register.cpp Run, TestRunner; args/src/tasks.cpp RunTest")],
 ["test command executions, captured output, exit status"])

prop("C14", "Command execution reports success exactly when the command succeeded",
 "Running a command reports success if and only if the command could be started and exited with status zero. Requested output streams are captured completely and in order, separately for standard output and standard error, however the operating system chunks them, and the command runs in the requested working directory.",
 ["fault_sequences", "schedules", "inputs"],
 "every exit status, signal, spawn failure, chunking and interleaving of the two output streams, any number of concurrent commands",
 "Command execution is replaced by a mock in every unit test; the real implementation is not even compiled into them.",
 ["buildcc/lib/env/src/execute.cpp", "buildcc/lib/env/include/env/command.h"],
 [("exit status comparison; per-call capture callbacks", "env/src/execute.cpp Execute")],
 ["return value, captured vectors, working directory seen by the process layer"])

prop("C15", "Saving and loading files is all-or-error under storage faults",
 "When the file-saving helper reports success, the file holds exactly the bytes given; when the file-loading helper reports success, the buffer holds exactly the bytes of the file. Any storage error that prevents this is reported as failure.",
 ["fault_sequences", "inputs"],
 "every content and size, every error or short transfer on any underlying operation",
 "Tests only save and load small files on a healthy file system.",
 ["buildcc/lib/env/include/env/util.h"],
 [("stream state is checked after flush/close", "env/util.h save_file, load_file")],
 ["return value against file/buffer contents under injected faults"])

prop("C16", "Toolchain verification accepts exactly a working toolchain and reports it fully",
 "Verifying a toolchain succeeds only if all its executables are found together in one searched directory and the compiler's version and architecture queries both succeed, and then it reports that directory, the complete version and architecture text and uses executables from that directory. If any of these fails the verification fails with a non-zero exit and the toolchain is not used.",
 ["fault_sequences", "configurations", "schedules"],
 "every search path layout, directory listing order, unreadable directory, failing or chunked query output",
 "Tests mock the query commands with a single-chunk answer and use one fixed directory layout.",
 ["buildcc/lib/toolchain/src/api/toolchain_find.cpp", "buildcc/lib/toolchain/src/api/toolchain_verify.cpp", "buildcc/toolchains/src/toolchain_infos.cpp"],
 [("all executables must match in one directory; query result and output checked", "toolchain_find.cpp; toolchain_infos.cpp")],
 ["exit status and reported information under injected faults"])

prop("C17", "The compile-command database matches the build after every successful run",
 "After every successful run that asks for it, the compile-command database exists, is valid, and lists exactly the sources of the given targets with the compile commands the current configuration uses, regardless of earlier failed or interrupted runs.",
 ["histories", "crash_points", "fault_sequences"],
 "every history of target, source and flag changes, failed, test-failing and killed runs",
 "Plugin tests generate the database once from a fresh in-memory target.",
 ["buildcc/plugins/src/clang_compile_commands.cpp", "buildcc/lib/target/src/api/target_getter.cpp"],
 [("always computed, written when the file on disk differs", "plugins/src/clang_compile_commands.cpp Generate")],
 ["contents of the database after a run that exits 0"])

prop("C18", "Damaged stored build state is never trusted and never blocks a build",
 "If a stored state file is missing, empty, truncated, overwritten with garbage or has damaged bytes when a run starts (other than damage that happens to describe the current inputs correctly), the run still starts normally, succeeds when its steps succeed, and leaves outputs equal to a from-scratch build.",
 ["fault_sequences", "histories"],
 "every state file of every builder, every truncation point, byte flip or replacement, combined with edits",
 "Tests cover one or two hand-written corrupt files in isolation.",
 ["buildcc/schema/include/schema/interface/serialization_interface.h", S+"target_serialization.cpp", S+"custom_generator_serialization.cpp", "buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h"],
 [("parse failures mean not loaded, which means rebuild", S+"target_serialization.cpp Load; custom_generator_serialization.cpp Load")],
 ["exit status and outputs of the run after the damage"])

prop("C19", "Command patterns expand to their arguments exactly, from any number of workers",
 "Expanding a command pattern replaces every placeholder by exactly the value given for it (as a default of the command object or as an argument of the call), turns doubled braces into single ones and keeps all other text; a pattern with an unknown or unclosed placeholder fails. This holds for every worker thread while others expand patterns of the same command object, and expanding changes no default value.",
 ["inputs", "schedules"], "every pattern, every set of defaults and arguments whose names differ, every interleaving of the workers that share a command object",
 "Only a handful of patterns are tried, from one thread.",
 ["buildcc/lib/env/src/command.cpp"], [("pattern formatting from a per-call argument store", "env/src/command.cpp Construct")],
 ["returned text or reported failure of every expansion in a worker thread"])
prop("C20", "Stored build state round-trips exactly",
 "What worker threads record for a target (sources, at the same time), and the rest of a target's or generator's description, is what gets stored, and reading it back with a fresh object yields an equal description for every content that is valid text. Storing and loading report failure when a storage error prevents this, loading never throws, and a load that succeeds after a failed store yields either the previous or the new description.",
 ["inputs", "schedules", "fault_sequences"], "every description, every interleaving of recording threads, every storage error while storing or loading",
 "Only fixed sample schemas are tried, on a healthy file system, from one thread.",
 ["buildcc/schema/include/schema/target_schema.h", "buildcc/schema/include/schema/custom_generator_schema.h", "buildcc/schema/include/schema/path.h", "buildcc/schema/include/schema/target_type.h", "buildcc/schema/src/target_serialization.cpp", "buildcc/schema/src/custom_generator_serialization.cpp", "buildcc/schema/include/schema/interface/serialization_interface.h"],
 [("JSON conversion, store and load", "schema headers, target_serialization.cpp, custom_generator_serialization.cpp")],
 ["result of storing and loading and the loaded description, under injected faults"])
prop("C21", "Command-line and configuration settings reach the build script unchanged",
 "Every root, toolchain, target and custom setting given on the command line or in up to ten configuration files is visible to the build script with that value: the command line overrides the files, later files override earlier ones, and a setting given nowhere has the default the script registered. A missing required directory, a missing configuration file, an unknown option or an invalid value ends the run with a non-zero exit before anything is built; so does a storage error that keeps a configuration file from being opened.",
 ["inputs", "configurations", "fault_sequences"], "every combination of argument vector, configuration files and registered defaults, every error while looking up or opening a configuration file",
 "Only fixed configuration files are tried.",
 ["buildcc/lib/args/src/args.cpp", "buildcc/lib/args/src/parse.cpp", "buildcc/lib/args/include/args/args.h"],
 [("argument parser set-up", "args/src/args.cpp; args/src/parse.cpp")],
 ["values the build script sees, or exit status"])
prop("C22", "Equivalent spellings and file kinds do not change what is built",
 "A path given to the build description names one file however it is spelled (redundant separators, '.' and '..' elements, relative to the target or absolute, repeated): the commands issued, the outputs, and what later runs find up to date are those of the plain spelling, in every order of declaring the inputs and outputs of a generator step. Every declared source is compiled exactly once, by the assembler, C or C++ compiler its extension stands for in the configuration of its toolchain; a file of any other kind is rejected as a source, and likewise as a header, before anything is built.",
 ["inputs", "configurations", "histories"], "every spelling of every declared path, changed at any point of any history of builds, every toolchain configuration, every file name",
 "Only sample paths and names are tried, never across two runs of a project.",
 ["buildcc/schema/include/schema/path.h", "buildcc/lib/toolchain/src/common/toolchain_config.cpp", "buildcc/lib/target/src/custom_generator/custom_generator.cpp", "buildcc/lib/target/src/target/friend/compile_object.cpp", "buildcc/lib/target/include/target/api/source_api.h", "buildcc/lib/target/include/target/api/include_api.h"],
 [("lexical normalisation; extension sets; comparison of recorded paths", "schema/path.h; toolchain_config.cpp; custom_generator.cpp")],
 ["commands, outputs and executed steps of a run compared with the same run under the plain spelling; tool that compiled each source; rejection of other kinds"])
prop("C23", "Host program search returns exactly the matching entries",
 "Searching the host for a program by a pattern over environment variables returns exactly the entries whose whole name matches in the listed directories, grouped by variable and directory in the given order, and reports success exactly if there is at least one. A variable that is not set, an empty element, or a directory that is missing or is no directory does not keep the others from being searched. With storage errors while a directory is read nothing that does not match is returned.",
 ["inputs", "configurations", "fault_sequences"], "every set of environment variables, directory contents in any order, and pattern, every error while reading a directory",
 "Tests search the host they run on, for one name.",
 ["buildcc/plugins/src/buildcc_find.cpp", "buildcc/plugins/include/plugins/buildcc_find.h", "buildcc/lib/env/include/env/util.h"],
 [("environment variable split, directory walk and regular expression", "plugins/src/buildcc_find.cpp SearchEnv")],
 ["reported result and the list of matches"])
prop("C24", "Shared descriptions pass their options on completely",
 "A target that takes over declared options from another target or from a reusable description, by copying or by inserting any selection of them in any number of calls, is built exactly as if it had declared the resulting options itself: a copied option replaces what the target had, an inserted one is added to it in order, an option that was not selected stays as it was, and the description it was taken from stays unchanged. This holds for each of the seventeen options, for the commands issued, the outputs, and what later runs find up to date.",
 ["inputs", "configurations", "histories"], "every selection and sequence of options taken over, every description, changed at any point of any history of builds",
 "Tests take over one or two options once and look at lists, never at what is built or at a following run.",
 ["buildcc/lib/target/include/target/api/sync_api.h", "buildcc/lib/target/src/api/sync_api.cpp", "buildcc/lib/target/include/target/target_info.h", "buildcc/lib/target/include/target/common/target_state.h"],
 [("copy and insert of option lists", "target/src/api/sync_api.cpp SpecializedCopy/SpecializedInsert")],
 ["commands, outputs, executed steps and exit status of a run compared with the same run with directly declared options"])
prop("C25", "Contradictory declarations are rejected before anything runs",
 "A build script whose declarations contradict each other - a generator step declared twice, a target or generator registered twice, a second test for one target, a test of a target that is not built, an object stored twice or looked up as another type or under a name never stored, a missing callback or target, a placeholder that nothing defines, a target type that does not exist - is rejected: the run ends with a non-zero exit and no command, callback, post-build step or test of it is executed, in whatever state earlier runs (also failed, killed ones) left the build directory.",
 ["inputs", "histories"], "every contradiction, at every place of every project, after every history of builds",
 "Tests check one declaration call at a time, not that a run with it has no effect.",
 ["buildcc/lib/target/src/custom_generator/custom_generator.cpp", "buildcc/lib/args/src/register.cpp", "buildcc/lib/args/include/args/register.h", "buildcc/lib/env/include/env/storage.h", "buildcc/lib/target/include/target/common/target_state.h"],
 [("assertions of the declaration interface", "register.cpp BuildStoreTask/TestStoreTask; custom_generator.cpp AddIdInfo/AddGroupInfo; storage.h Add/Ref; targets/target_custom")],
 ["exit status; commands, callbacks and tests started"])
prop("C26", "buildexe builds what its settings say and runs scripts only after a good build",
 "For every workspace, BUILDCC_HOME, command line and configuration file, the buildexe program compiles exactly the given sources (in script mode also the given files of the libraries in its home, and from the home the buildcc and process libraries the script is linked with), with the options given for their language and with the given include directories, link options and libraries, and lists the sources of the target in compile_commands.json. A run that ends with exit status 0 leaves the outputs that the same settings give from scratch, whatever earlier runs (also failed or killed ones, or ones with storage errors) left behind and whatever sources, headers of include directories, library files or files of the home were edited in between; with nothing changed, neither the target nor the libraries are compiled or linked again. In script mode the host toolchain is verified before anything is built, and the program is executed exactly once, after its build succeeded, with each configuration file as one argument; when it fails, buildexe fails. In immediate mode the program is not executed and nothing of the home is built. With an unset or incomplete BUILDCC_HOME the run fails and starts nothing.",
 ["inputs", "configurations", "histories", "crash_points", "fault_sequences"], "every setting on the command line or in files, every layout of the home and the workspace (also with spaces), every history of edits, failures, kills and storage errors",
 "No test runs buildexe.",
 ["buildexe/buildexe.cpp", "buildexe/src/args_setup.cpp", "buildexe/src/build_env_home.cpp", "buildexe/src/build_env_setup.cpp", "buildexe/src/toolchain_setup.cpp", "bootstrap/src/build_buildcc.cpp", "bootstrap/src/build_tpl.cpp"],
 [("settings to target, libraries to script", "buildexe/src/build_env_setup.cpp"), ("execution of the script", "build_env_setup.cpp RunUserTarget"), ("libraries of the home", "bootstrap/src/build_buildcc.cpp BuildBuildCC")],
 ["commands and their order, exit status, outputs and compile_commands.json compared with the settings and with a run from scratch"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
